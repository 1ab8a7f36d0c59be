// Command msg holds the monitors of the message protocol (package msg).
package main

import (
	"verif/harness/mon"
)

func main() {
	mon.Main(map[string]*mon.Prop{
		"M01": m01, "M02": m02, "M03": m03, "M04": m04, "M05": m05, "M06": m06, "M07": m07, "M08": m08, "M09": m09, "M10": m10,
	})
}
