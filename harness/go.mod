module verif/harness

go 1.24

require (
	github.com/samuel/go-dsp v0.0.0
	github.com/samuel/go-rtlsdr v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/samuel/go-dsp => /repo

replace github.com/samuel/go-rtlsdr => ./rtlsim
