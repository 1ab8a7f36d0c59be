// Command ctrl runs the monitors for the control engine: mutectrl with the
// tools which it starts. The binary is also these tools.
package main

import (
	"fmt"

	"verif/harness/mon"
)

func main() {
	child()
	mon.Main(map[string]*mon.Prop{"E06": e06, "E09": e09, "E07": e07, "E08": e08, "E05": e05, "E01": e01, "E02": e02, "E03": e03, "E04": e04})
}

func short(b []byte) string { return fmt.Sprintf("%.8x", b) }
