// Command guard runs the monitors for the service guard (payment tokens).
package main

import "verif/harness/mon"

func main() {
	mon.Main(map[string]*mon.Prop{"G01": g01, "G02": g02, "G03": g03, "G04": g04, "G05": g05, "G06": g06})
}
