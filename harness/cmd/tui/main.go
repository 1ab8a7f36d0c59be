// Command tui monitors the text user interface.
package main

import "verif/harness/mon"

func main() {
	mon.Main(map[string]*mon.Prop{"T01": t01})
}
