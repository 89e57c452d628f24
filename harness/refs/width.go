package refs

import "sort"

// Width options of the reference.
type WidthOptions struct {
	EastAsian   bool `json:"eastAsian"`
	SkipNeutral bool `json:"skipNeutral"`
	Ambiguous   int  `json:"ambiguous"`
}

// nonPrinting are the format characters and non-characters with no width.
var nonPrinting = [][2]rune{
	{0x0000, 0x001F}, {0x007F, 0x009F}, {0x00AD, 0x00AD}, {0x070F, 0x070F}, {0x180B, 0x180E}, {0x200B, 0x200F},
	{0x2028, 0x202E}, {0x206A, 0x206F}, {0xD800, 0xDFFF}, {0xFEFF, 0xFEFF}, {0xFFF9, 0xFFFB}, {0xFFFE, 0xFFFF},
}

// combiningEntries are the marks that share an entry described as COMBINING in EastAsianWidth.txt
// without the word in their own name: all are non-spacing marks.
var combiningEntries = [][2]rune{
	{0x0D01, 0x0D01}, {0x11301, 0x11301}, {0x1133C, 0x1133C}, {0x1CF42, 0x1CF46},
}

func in(r rune, table [][2]rune) bool {
	i := sort.Search(len(table), func(i int) bool { return table[i][1] >= r })

	return i < len(table) && table[i][0] <= r
}

// Ambiguous is true when the East_Asian_Width of the rune is A.
func Ambiguous(r rune) bool { return in(r, eaAmbiguous) }

// Width is the reference width.
func Width(r rune, o WidthOptions) int {
	switch {
	case r < 0, r > 0x10FFFF, r >= 0xD800 && r <= 0xDFFF, r == 0xFFFD:
		return 0
	case r < 0x20, r >= 0x7F && r <= 0x9F, r == 0xAD:
		return 0
	case r < 0x300 && !o.EastAsian:
		return 1
	case r == 0x2E3B:
		return 4
	case r == 0x2E3A:
		return 3
	case in(r, nonPrinting), in(r, combiningNames), in(r, combiningEntries):
		return 0
	case in(r, eaNarrow):
		return 1
	case in(r, eaWide):
		return 2
	case !o.EastAsian:
		return 1
	case in(r, eaAmbiguous):
		return o.Ambiguous
	case o.SkipNeutral && r > 0xFF && in(r, pictographic):
		return 2
	default:
		return 1
	}
}
