// Command db monitors the encrypted databases.
package main

import (
	"os"

	"verif/harness/mon"
)

func main() {
	if os.Getenv("VERIF_CHILD") == "rekey" {
		rekeyChild()
	}
	mon.Main(map[string]*mon.Prop{"S02": s02, "S03": s03, "S04": s04, "S06": s06, "S07": s07})
}
