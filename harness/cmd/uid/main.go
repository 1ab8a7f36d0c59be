// Command uid monitors the identity records, replies and key init messages.
package main

import "verif/harness/mon"

func main() {
	mon.Main(map[string]*mon.Prop{"U01": u01, "U02": u02, "U03": u03, "U04": u04})
}
