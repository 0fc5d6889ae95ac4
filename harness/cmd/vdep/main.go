// vdep runs the checks of internal/dependency.
package main

import (
	_ "aqwari.net/xml/verif/checks/dep"
	"aqwari.net/xml/verif/prop"
)

func main() { prop.Main() }
