// Command store monitors the encrypted databases.
package main

import "verif/harness/mon"

func main() {
	mon.Main(map[string]*mon.Prop{"S01": s01})
}
