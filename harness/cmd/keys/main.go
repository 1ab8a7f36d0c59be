// Command keys monitors what engines accept from key servers.
package main

import "verif/harness/mon"

func main() {
	mon.Main(map[string]*mon.Prop{"H02": h02, "H03": h03, "K01": k01, "C01": c01})
}
