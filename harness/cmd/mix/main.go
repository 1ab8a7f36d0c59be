// Command mix runs the monitors for nym addresses, mix messages and accounts.
package main

import "verif/harness/mon"

func main() {
	mon.Main(map[string]*mon.Prop{"X01": x01, "X02": x02, "X03": x03, "X04": x04, "X05": x05, "X06": x06})
}
