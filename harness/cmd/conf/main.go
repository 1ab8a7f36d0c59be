// Command conf monitors the configuration of Mute.
package main

import "verif/harness/mon"

func main() {
	mon.Main(map[string]*mon.Prop{
		"F01": f01,
		"F02": f02,
	})
}
