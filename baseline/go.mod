module github.com/shellyln/go-open-soql-parser

go 1.18

require (
	github.com/shellyln/go-nameutil v0.0.2
	github.com/shellyln/takenoco v0.0.13
)
