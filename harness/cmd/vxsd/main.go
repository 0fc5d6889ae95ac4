// vxsd runs the checks of packages xsd and wsdl.
package main

import (
	_ "aqwari.net/xml/verif/checks/xsdc"
	"aqwari.net/xml/verif/prop"
)

func main() { prop.Main() }
