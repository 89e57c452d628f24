// Command mixed decides the properties of histories of calls, and of totality.
package main

import (
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/ops"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/pbt"
)

func main() {
	ops.Serve(map[string]func([]byte) []byte{"history": serveHistory})
	pbt.Main(propPure(), propTotal())
}
