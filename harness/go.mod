module aqwari.net/xml/verif

go 1.24

require (
	aqwari.net/xml v0.0.0
	golang.org/x/net v0.0.0-20200813134508-3edf25e44fcc
	pgregory.net/rapid v1.3.0
)

require (
	golang.org/x/mod v0.3.0 // indirect
	golang.org/x/text v0.3.0 // indirect
	golang.org/x/tools v0.0.0-20200821192610-3366bbee4705 // indirect
	golang.org/x/xerrors v0.0.0-20191204190536-9bdfabe68543 // indirect
)

replace aqwari.net/xml => /repo
