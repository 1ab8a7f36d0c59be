// Command base monitors the foundations which all parts share.
package main

import "verif/harness/mon"

func main() {
	mon.Main(map[string]*mon.Prop{"B01": b01, "N01": n01})
}
