module verif/harness

go 1.26

require (
	github.com/hashicorp/go-uuid v1.0.3
	github.com/pandatix/go-abnf v0.0.0
)

replace github.com/pandatix/go-abnf => /repo
