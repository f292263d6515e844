// Command vh is the monitoring harness for go-air/gini.
package main

import "verif/harness/fw"

func main() { fw.Main() }
