// Command text decides the properties of rune widths, rune I/O, ANSI stripping, attributes and punctuation.
package main

import "github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/pbt"

func main() {
	pbt.Main(
		propWidth(), propWidths(), propFields(),
		propReader(), propByteOffsets(), propWriter(),
		propStripLossless(), propStripKinds(),
		propAttributes(), propStateLines(),
		propPunctuator(), propSplitWord(),
	)
}
