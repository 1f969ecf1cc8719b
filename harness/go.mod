module verif/harness

go 1.23

require (
	github.com/andygello555/json-dom v0.0.0
	github.com/hjson/hjson-go v3.1.0+incompatible
	pgregory.net/rapid v1.3.0
)

require (
	github.com/andygello555/gotils v1.2.1 // indirect
	github.com/go-test/deep v1.0.7 // indirect
	github.com/robertkrimen/otto v0.0.0-20200922221731-ef014fd054ac // indirect
	gopkg.in/sourcemap.v1 v1.0.5 // indirect
)

replace github.com/andygello555/json-dom => /repo
