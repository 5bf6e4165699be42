module vharness

go 1.26

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/milosgajdos/netscrape v0.0.0
	gonum.org/v1/gonum v0.9.1
)

require github.com/google/uuid v1.1.2 // indirect

replace github.com/milosgajdos/netscrape => /repo
