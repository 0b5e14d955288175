module gosbverif

go 1.26

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/miniLCT/gosb v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/miniLCT/gosb => /repo
