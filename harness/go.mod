module github.com/fredbi/go-typeset/wordbreak/hyphenator/verif

go 1.24

require (
	github.com/fredbi/go-typeset v0.0.0
	pgregory.net/rapid v1.3.0
)

require golang.org/x/text v0.5.0

replace github.com/fredbi/go-typeset => /repo
