module blsverif

go 1.26.0

require (
	github.com/phoreproject/bls v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/phoreproject/bls => /repo
