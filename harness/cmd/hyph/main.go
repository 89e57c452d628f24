// Command hyph decides the properties of hyphenation.
package main

import "github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/pbt"

func main() {
	pbt.Main(propPartition(), propLiang(), propCase(), propTags(), propLoading())
}
