module xv

go 1.23

require (
	github.com/cnsgfk/xbnf v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/cnsgfk/xbnf => /repo
