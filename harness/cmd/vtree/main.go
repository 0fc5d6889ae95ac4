// vtree runs the checks of the xmltree package.
package main

import (
	_ "aqwari.net/xml/verif/checks/tree"
	"aqwari.net/xml/verif/prop"
)

func main() { prop.Main() }
