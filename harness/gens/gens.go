// Package gens holds the generators shared by the checks.
package gens

import (
	"encoding/json"
	"fmt"
	"unicode"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// Text is a slice of runes, valid or not, encoded as a JSON string whenever this is lossless.
type Text []rune

func (t Text) MarshalJSON() ([]byte, error) {
	for _, r := range t {
		if !utf8.ValidRune(r) {
			return json.Marshal([]rune(t))
		}
	}

	return json.Marshal(string(t))
}

func (t *Text) UnmarshalJSON(raw []byte) error {
	if len(raw) > 0 && raw[0] == '"' {
		var s string
		if err := json.Unmarshal(raw, &s); err != nil {
			return err
		}
		*t = Text(s)

		return nil
	}

	return json.Unmarshal(raw, (*[]rune)(t))
}

// Clone copies the runes.
func (t Text) Clone() []rune {
	return append(make([]rune, 0, len(t)), t...)
}

// Pick draws one element with weights: pairs of (weight, value).
func Pick[V any](t *rapid.T, label string, weights []int, values []V) V {
	total := 0
	for _, w := range weights {
		total += w
	}

	n := rapid.IntRange(0, total-1).Draw(t, label)
	for i, w := range weights {
		if n < w {
			return values[i]
		}
		n -= w
	}

	return values[len(values)-1]
}

// tableRunes lists all the runes of a Unicode table.
func tableRunes(tables ...*unicode.RangeTable) []rune {
	var out []rune
	for r := rune(0); r <= unicode.MaxRune; r++ {
		if unicode.In(r, tables...) {
			out = append(out, r)
		}
	}

	return out
}

// Rune classes.
var (
	Hyphens    = tableRunes(unicode.Hyphen)
	Puncts     = tableRunes(unicode.Punct)
	Spaces     = tableRunes(unicode.White_Space)
	Digits     = []rune("0123456789")
	Lower      = []rune("abcdefghijklmnopqrstuvwxyz")
	Upper      = []rune("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
	Accents    = []rune("áéíóúüñàâçèêëîïôûùœæäößÄÖÜÉÀÇžřšČ")
	Invalid    = []rune{-1, -2, -0x110000, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0x110000, 0x7FFFFFFF, -0x80000000}
	Wide       = []rune("漢字かな한글０Ａ😀👍🚀🀄⌚")
	Zero       = []rune{0x300, 0x301, 0x20DD, 0xFE20, 0x200B, 0x200D, 0xFEFF, 0xAD, 0x0483, 0x202A}
	Special    = []rune{0xFFFD, 0xFFFE, 0xFFFF, 0x2E3A, 0x2E3B, 0x10FFFF, 0x10FFFE, 0xE000, 0xA1, 0xB7, 0xF8, 0x2014, 0x3000, 0x1F1E6, 0xFE0F}
	ASCIIPunct = []rune("!\"#%&'()*,./:;?@[\\]_{}|$+<=>^`~")
)

func of(rs []rune) *rapid.Generator[rune] { return rapid.SampledFrom(rs) }

// anyClasses are the classes of runes, valid or not; the last ones are not always valid.
var (
	anyClasses = []*rapid.Generator[rune]{
		of(Lower), of(Upper), of(Digits), of(ASCIIPunct), of(Hyphens), of(Puncts), of(Spaces), of(Accents), of(Wide), of(Zero), of(Special),
		of(Invalid), rapid.Rune(), rapid.Int32Range(0, 0x10FFFF), rapid.Int32Range(0, 0x9F), rapid.Int32(),
	}
	anyWeights   = []int{12, 4, 3, 5, 3, 3, 4, 3, 3, 3, 3, 2, 6, 4, 4, 1}
	validClasses = []*rapid.Generator[rune]{
		of(Lower), of(Upper), of(Digits), of(ASCIIPunct), of(Hyphens), of(Puncts), of(Spaces), of(Accents), of(Wide), of(Zero), of(Special), rapid.Rune(),
		rapid.Int32Range(0, 0x7F), rapid.Int32Range(0, 0xFF), rapid.Int32Range(0, 0x7FF), rapid.Int32Range(0, 0xD7FF),
	}
	validWeights = []int{12, 4, 3, 5, 3, 3, 4, 3, 3, 3, 3, 8, 2, 2, 1, 1}
)

func classRune(weights []int, classes []*rapid.Generator[rune]) *rapid.Generator[rune] {
	return rapid.Custom(func(t *rapid.T) rune {
		return Pick(t, "class", weights, classes).Draw(t, "rune")
	})
}

// AnyRune draws valid and invalid runes of all classes.
func AnyRune() *rapid.Generator[rune] { return classRune(anyWeights, anyClasses) }

// ValidRune draws valid runes of all classes.
func ValidRune() *rapid.Generator[rune] { return classRune(validWeights, validClasses) }

// text draws slices of runes: of all classes, of one to three classes, or of a few runes; seldom longer than max, up to 6 times.
func text(max int, weights []int, classes []*rapid.Generator[rune]) *rapid.Generator[Text] {
	all := classRune(weights, classes)

	return rapid.Custom(func(t *rapid.T) Text {
		one := all
		if rapid.IntRange(0, 4).Draw(t, "classes") == 0 { // one or two classes only
			a, b := Pick(t, "class", weights, classes), Pick(t, "class", weights, classes)
			one = rapid.OneOf(a, a, a, b)
		}

		return Text(rapid.SliceOfN(Focus(t, one), 0, Size(t, max)).Draw(t, "text"))
	})
}

// Size draws the largest size of a collection: max most of the time, or more.
func Size(t *rapid.T, max int) int {
	return max * Pick(t, "size", []int{16, 2, 1}, []int{1, 3, 6})
}

// Focus draws how the runes of one text are drawn: all the same way, from a few classes, from a few runes.
func Focus(t *rapid.T, all *rapid.Generator[rune]) *rapid.Generator[rune] {
	switch Pick(t, "focus", []int{5, 2, 3}, []int{0, 1, 2}) {
	case 0:
		return all
	case 1: // around one rune: neighbours in the code space
		center := all.Draw(t, "center")
		spread := Pick(t, "spread", []int{1, 1, 1}, []rune{3, 30, 300})
		if center < 0 || center > unicode.MaxRune {
			return all
		}

		return rapid.Custom(func(t *rapid.T) rune {
			r := center + rapid.Int32Range(-spread, spread).Draw(t, "near")
			if !utf8.ValidRune(r) {
				return center
			}

			return r
		})
	default: // a few runes
		few := make([]rune, 0, 4)
		for n := rapid.IntRange(1, 4).Draw(t, "few"); n > 0; n-- {
			few = append(few, all.Draw(t, "of"))
		}

		return of(few)
	}
}

// FocusText draws texts from runes, by Focus.
func FocusText(all *rapid.Generator[rune], max int) *rapid.Generator[Text] {
	return rapid.Custom(func(t *rapid.T) Text {
		return Text(rapid.SliceOfN(Focus(t, all), 0, Size(t, max)).Draw(t, "text"))
	})
}

// AnyText draws slices of any runes, most of them of up to max runes.
func AnyText(max int) *rapid.Generator[Text] { return text(max, anyWeights, anyClasses) }

// ValidText draws slices of valid runes, most of them of up to max runes.
func ValidText(max int) *rapid.Generator[Text] { return text(max, validWeights, validClasses) }

// Long is a compact description of a long text.
type Long struct {
	Head   Text `json:"head"`
	Body   Text `json:"body"`
	Repeat int  `json:"repeat"`
	Tail   Text `json:"tail"`
}

// Text is the text described.
func (l Long) Text() Text {
	out := make(Text, 0, len(l.Head)+l.Repeat*len(l.Body)+len(l.Tail))
	out = append(out, l.Head...)
	for i := 0; i < l.Repeat; i++ {
		out = append(out, l.Body...)
	}

	return append(out, l.Tail...)
}

func (l Long) String() string {
	return fmt.Sprintf("%q + %d times %q + %q", string(l.Head), l.Repeat, string(l.Body), string(l.Tail))
}

// GenLong draws long texts, with sizes near powers of two up to 2^bits, from pieces.
func GenLong(piece func(max int) *rapid.Generator[Text], bits int) *rapid.Generator[Long] {
	return rapid.Custom(func(t *rapid.T) Long {
		l := Long{Head: piece(5).Draw(t, "head"), Body: piece(4).Draw(t, "body"), Tail: piece(5).Draw(t, "tail")}
		if len(l.Body) == 0 {
			l.Body = Text{'a'}
		}
		size := 1 << rapid.IntRange(4, bits).Draw(t, "bits")
		switch rapid.IntRange(0, 3).Draw(t, "around") {
		case 0: // anywhere below
			l.Repeat = rapid.IntRange(1, size).Draw(t, "repeat") / len(l.Body)
		case 1: // the whole around a power of two
			l.Repeat = (size-len(l.Head))/len(l.Body) + rapid.IntRange(-2, 2).Draw(t, "delta")
		default:
			l.Repeat = size/len(l.Body) + rapid.IntRange(-2, 2).Draw(t, "delta")
		}
		l.Repeat = max(0, l.Repeat)

		return l
	})
}

// Equal compares slices of runes.
func Equal(a, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}

	return true
}

// EqualParts compares slices of slices of runes.
func EqualParts(a, b [][]rune) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !Equal(a[i], b[i]) {
			return false
		}
	}

	return true
}

// CloneParts deep copies parts.
func CloneParts(parts [][]rune) [][]rune {
	out := make([][]rune, len(parts))
	for i, p := range parts {
		out[i] = append([]rune{}, p...)
	}

	return out
}

// Strings renders parts for messages.
func Strings(parts [][]rune) []string {
	out := make([]string, len(parts))
	for i, p := range parts {
		out[i] = string(p)
	}

	return out
}

// Escape draws an escape sequence: ESC [ arguments final.
func Escape(t *rapid.T) []rune {
	out := []rune("\x1b[")
	if rapid.IntRange(0, 15).Draw(t, "private") == 0 {
		out = append(out, rapid.SampledFrom([]rune("?>=!")).Draw(t, "mark"))
	}
	n := Pick(t, "args", []int{2, 5, 3, 2, 1}, []int{0, 1, 2, 3, 5})
	for i := 0; i < n; i++ {
		if i > 0 {
			out = append(out, rapid.SampledFrom([]rune(";;;:")).Draw(t, "sep"))
		}
		digits := Pick(t, "digits", []int{2, 5, 5, 5, 1}, []int{0, 1, 2, 3, 4})
		zeros := rapid.IntRange(0, 2).Draw(t, "zeros") == 0
		for k := 0; k < digits; k++ {
			if zeros {
				out = append(out, '0')
			} else {
				out = append(out, rapid.SampledFrom(Digits).Draw(t, "digit"))
			}
		}
	}

	return append(out, Pick(t, "final", []int{10, 2, 2, 2, 2, 2, 1}, []*rapid.Generator[rune]{
		of([]rune("m")), of([]rune("s")), of([]rune("u")), of([]rune("h")), of([]rune("l")), of([]rune("KJHfABCDn~qM")), AnyRune(),
	}).Draw(t, "finalRune"))
}
