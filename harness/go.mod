module verif/harness

go 1.26.0

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/milosgajdos/netscrape v0.0.0
	gonum.org/v1/gonum v0.9.1
	pgregory.net/rapid v1.3.0
)

require github.com/google/uuid v1.1.2 // indirect

replace github.com/milosgajdos/netscrape => /repo
