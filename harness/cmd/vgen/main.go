// vgen runs the checks of packages xsdgen and wsdlgen.
package main

import (
	"os"

	"aqwari.net/xml/verif/checks/genc"
	"aqwari.net/xml/verif/prop"
)

func main() {
	if len(os.Args) == 2 && os.Args[1] == "source" {
		genc.SourceMain()
		return
	}
	prop.Main()
}
