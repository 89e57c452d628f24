package main

import (
	"fmt"
	"strings"
	"unicode"

	"pgregory.net/rapid"

	"github.com/fredbi/go-typeset/terminal/runes"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/gens"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/pbt"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/refs"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/sweep"
	"github.com/fredbi/go-typeset/wordbreak/tokenizer"
)

// widthSetting is the list of options to pass, in order, and their meaning.
type widthSetting struct {
	EastAsian   *bool `json:"ea,omitempty"`
	SkipNeutral *bool `json:"skip,omitempty"`
	Ambiguous   *int  `json:"amb,omitempty"`
	Order       int   `json:"order,omitempty"`
	Twice       bool  `json:"twice,omitempty"` // each option is first given another value: the last one wins
}

func (s widthSetting) options() []runes.Option {
	var opts []runes.Option
	if s.EastAsian != nil {
		opts = append(opts, runes.WithEastAsian(*s.EastAsian))
	}
	if s.SkipNeutral != nil {
		opts = append(opts, runes.WithSkipStrictEmojiNeutral(*s.SkipNeutral))
	}
	if s.Ambiguous != nil {
		opts = append(opts, runes.WithEastAsianAmbiguousWidth(*s.Ambiguous))
	}
	if n := len(opts); n > 1 { // options are independent: rotate them
		k := s.Order % n
		opts = append(opts[k:n:n], opts[:k]...)
	}
	if s.Twice {
		o := s
		o.Twice = false
		if s.EastAsian != nil {
			o.EastAsian = ptr(!*s.EastAsian)
		}
		if s.SkipNeutral != nil {
			o.SkipNeutral = ptr(!*s.SkipNeutral)
		}
		if s.Ambiguous != nil {
			o.Ambiguous = ptr(*s.Ambiguous + 1)
		}
		opts = append(o.options(), opts...)
	}

	return opts
}

func (s widthSetting) reference() refs.WidthOptions {
	o := refs.WidthOptions{Ambiguous: 2}
	if s.EastAsian != nil {
		o.EastAsian = *s.EastAsian
	}
	if s.SkipNeutral != nil {
		o.SkipNeutral = *s.SkipNeutral
	}
	if s.Ambiguous != nil {
		o.Ambiguous = *s.Ambiguous
	}

	return o
}

func ptr[V any](v V) *V { return &v }

func genSetting(t *rapid.T) widthSetting {
	var s widthSetting
	if rapid.Bool().Draw(t, "plain") {
		return s
	}
	if v := rapid.IntRange(0, 3).Draw(t, "ea"); v > 0 {
		s.EastAsian = ptr(v > 1)
	}
	if v := rapid.IntRange(0, 2).Draw(t, "skip"); v > 0 {
		s.SkipNeutral = ptr(v > 1)
	}
	if rapid.Bool().Draw(t, "withAmb") {
		s.Ambiguous = ptr(rapid.IntRange(0, 5).Draw(t, "amb"))
	}
	s.Order = rapid.IntRange(0, 2).Draw(t, "order")
	s.Twice = gens.Pick(t, "twice", []int{3, 1}, []bool{false, true})

	return s
}

func describe(r rune) string { return fmt.Sprintf("U+%04X (%d)", r, r) }

// widthBlock is a block of runes measured with the same options.
type widthBlock struct {
	Setting widthSetting `json:"setting"`
	Lo      rune         `json:"lo"`
	Hi      rune         `json:"hi"`
}

func propWidth() pbt.Property {
	const size = 0x400

	list := func(bool) []widthBlock {
		settings := []widthSetting{
			{},
			{EastAsian: ptr(false), SkipNeutral: ptr(true), Ambiguous: ptr(3)},
			{EastAsian: ptr(true)},
			{EastAsian: ptr(true), SkipNeutral: ptr(true)},
			{EastAsian: ptr(true), Ambiguous: ptr(1)},
			{EastAsian: ptr(true), SkipNeutral: ptr(true), Ambiguous: ptr(3), Order: 1},
			{EastAsian: ptr(false), SkipNeutral: ptr(false), Ambiguous: ptr(1), Twice: true},
			{EastAsian: ptr(true), SkipNeutral: ptr(false), Ambiguous: ptr(0), Order: 2, Twice: true},
		}
		var blocks []widthBlock
		for _, s := range settings {
			for lo := rune(0); lo < 0x110000; lo += size {
				blocks = append(blocks, widthBlock{s, lo, lo + size - 1})
			}
			blocks = append(blocks, widthBlock{s, -0x200, -1}, widthBlock{s, 0x110000, 0x1103FF}, widthBlock{s, 0x7FFFFFF0, 0x7FFFFFFE}, widthBlock{s, -0x80000000, -0x7FFFFFF0})
		}

		return blocks
	}

	check := func(b widthBlock, o *pbt.Obs) error {
		opts, ref := b.Setting.options(), b.Setting.reference()
		o.Weight(int(b.Hi-b.Lo) + 1)
		for r := b.Lo; r <= b.Hi; r++ {
			want := refs.Width(r, ref)
			if want != 1 {
				o.NonTrivial()
			}
			if got := runes.Width(r, opts...); got != want {
				return fmt.Errorf("width of %s is %d, want %d with %+v", describe(r), got, want, ref)
			}
			if got, want := runes.IsAmbiguous(r), refs.Ambiguous(r); got != want {
				return fmt.Errorf("%s ambiguous: %t, want %t", describe(r), got, want)
			}
		}

		return nil
	}

	type seq struct {
		Calls []struct {
			Setting widthSetting `json:"setting"`
			Rune    rune         `json:"rune"`
		} `json:"calls"`
	}

	return pbt.Property{
		ID: "C01",
		Rule: "every code point and samples of invalid runes are enumerated in blocks of 1024 for six option sets, against tables extracted from Perl's Unicode 15.0 database; " +
			"plus random sequences of calls mixing options (options of a call must not affect the next). Non-trivial: a block with some width other than 1; a sequence that mixes two different settings.",
		Exhaustive:  true,
		Assumptions: []string{"reference tables: East_Asian_Width, names and Extended_Pictographic of Unicode 15.0.0 from Perl 5.38", "ambiguous widths are enumerated for 1, 2, 3 and drawn in 0..5"},
		Checks: []pbt.Check{
			pbt.Enum[widthBlock]{Name: "all-runes", List: list, Check: check, Narrow: func(b widthBlock, fails func(widthBlock) bool) widthBlock {
				for r := b.Lo; r <= b.Hi; r++ {
					if one := (widthBlock{b.Setting, r, r}); fails(one) {
						return one
					}
				}

				return b
			}},
			pbt.Rapid[seq]{Name: "mixed-options", Quick: 40000 * 5, Thorough: 2000000,
				Gen: func(t *rapid.T) seq {
					var s seq
					n := rapid.IntRange(1, 6).Draw(t, "n")
					for i := 0; i < n; i++ {
						s.Calls = append(s.Calls, struct {
							Setting widthSetting `json:"setting"`
							Rune    rune         `json:"rune"`
						}{genSetting(t), gens.AnyRune().Draw(t, "r")})
					}

					return s
				},
				Check: func(s seq, o *pbt.Obs) error {
					for i, c := range s.Calls {
						ref := c.Setting.reference()
						o.NonTrivialIf(i > 0 && ref != s.Calls[i-1].Setting.reference())
						if got, want := runes.Width(c.Rune, c.Setting.options()...), refs.Width(c.Rune, ref); got != want {
							return fmt.Errorf("call %d: width of %s is %d, want %d with %+v", i, describe(c.Rune), got, want, ref)
						}
					}

					return nil
				}},
		},
	}
}

func propWidths() pbt.Property {
	type textCase struct {
		Setting widthSetting `json:"setting"`
		Text    gens.Text    `json:"text"`
		Cut     int          `json:"cut"`
	}
	type bytesCase struct {
		Setting widthSetting `json:"setting"`
		Bytes   []byte       `json:"bytes"`
	}

	type longCase struct {
		Setting widthSetting `json:"setting"`
		Long    gens.Long    `json:"long"`
		Cut     int          `json:"cut"` // in thousandths
	}

	sum := func(text []rune, o refs.WidthOptions) (total int) {
		for _, r := range text {
			total += refs.Width(r, o)
		}

		return total
	}

	show := func(text gens.Text) string {
		if len(text) > 200 {
			return fmt.Sprintf("%q... (%d runes)", string(text[:200]), len(text))
		}

		return fmt.Sprintf("%q", string(text))
	}

	checkText := func(c textCase, o *pbt.Obs) error {
		opts, ref := c.Setting.options(), c.Setting.reference()
		input := c.Text.Clone()
		got := runes.Widths(input, opts...)

		single := 0
		widths := map[int]bool{}
		for _, r := range c.Text {
			w := runes.Width(r, opts...)
			widths[w] = true
			single += w
		}
		o.NonTrivialIf(len(widths) > 1)

		if got != single {
			return fmt.Errorf("Widths(%s)=%d but the sum of Width is %d (%+v)", show(c.Text), got, single, ref)
		}
		if want := sum(c.Text, ref); got != want {
			return fmt.Errorf("Widths(%s)=%d but the reference is %d (%+v)", show(c.Text), got, want, ref)
		}
		if halves := runes.Widths(input[:c.Cut], opts...) + runes.Widths(input[c.Cut:], opts...); halves != got {
			return fmt.Errorf("Widths(%s)=%d but the halves at %d sum to %d", show(c.Text), got, c.Cut, halves)
		}
		if !gens.Equal(input, c.Text) {
			return fmt.Errorf("input modified")
		}

		return nil
	}

	checkBytes := func(c bytesCase, o *pbt.Obs) error {
		opts, ref := c.Setting.options(), c.Setting.reference()
		s := string(c.Bytes)
		o.NonTrivialIf(strings.ContainsRune(s, unicode.ReplacementChar))
		var decoded []rune
		for _, r := range s {
			decoded = append(decoded, r)
			o.NonTrivialIf(refs.Width(r, ref) != 1)
		}
		if got, want := runes.StringWidth(s, opts...), sum(decoded, ref); got != want {
			return fmt.Errorf("StringWidth(%s)=%d, want %d (%+v)", show(decoded), got, want, ref)
		}

		return nil
	}

	return pbt.Property{
		ID: "C02",
		Rule: "random runes of all classes (invalid ones included), random byte strings and long repetitive texts (up to 2^17 runes, so that sums overflow narrow counters), with random options; the width is compared with the sum over single runes, of the code and of the reference, and with that of both halves. " +
			"Non-trivial: at least two runes with different widths, or bytes which are not valid UTF-8.",
		Checks: []pbt.Check{
			pbt.Rapid[textCase]{Name: "runes", Quick: 60000 * 8, Thorough: 6000000,
				Gen: func(t *rapid.T) textCase {
					c := textCase{Setting: genSetting(t), Text: gens.AnyText(20).Draw(t, "text")}
					c.Cut = rapid.IntRange(0, len(c.Text)).Draw(t, "cut")

					return c
				},
				Check: checkText},
			pbt.Rapid[longCase]{Name: "long", Quick: 2000, Thorough: 60000,
				Gen: func(t *rapid.T) longCase {
					return longCase{genSetting(t), gens.GenLong(gens.AnyText, 17).Draw(t, "long"), rapid.IntRange(0, 1000).Draw(t, "cut")}
				},
				Check: func(c longCase, o *pbt.Obs) error {
					text := c.Long.Text()
					if err := checkText(textCase{c.Setting, text, len(text) * c.Cut / 1000}, o); err != nil {
						return err
					}

					return checkBytes(bytesCase{c.Setting, []byte(string([]rune(text)))}, o)
				}},
			pbt.Rapid[bytesCase]{Name: "strings", Quick: 40000 * 8, Thorough: 4000000,
				Gen: func(t *rapid.T) bytesCase {
					c := bytesCase{Setting: genSetting(t)}
					if rapid.Bool().Draw(t, "raw") {
						c.Bytes = rapid.SliceOfN(rapid.Byte(), 0, 24).Draw(t, "bytes")
					} else {
						c.Bytes = []byte(string([]rune(gens.ValidText(16).Draw(t, "text"))))
						if len(c.Bytes) > 1 && rapid.Bool().Draw(t, "trim") {
							k := rapid.IntRange(0, len(c.Bytes)-1).Draw(t, "drop")
							c.Bytes = append(c.Bytes[:k:k], c.Bytes[k+1:]...)
						}
					}

					return c
				},
				Check: checkBytes},
			sweep.Runes("sizes", 135, 1<<13, []gens.Text{gens.Text("a"), gens.Text("漢"), gens.Text("\u0301"), gens.Text("a漢é")},
				[]gens.Text{gens.Text("a"), gens.Text("漢"), {-1}, {0xD800}, gens.Text("\u2E3B"), gens.Text("\n"), gens.Text("±")},
				func(text gens.Text, o *pbt.Obs) error {
					for _, s := range []widthSetting{{}, {EastAsian: ptr(true), Ambiguous: ptr(3)}} {
						if err := checkText(textCase{s, text, len(text) / 2}, o); err != nil {
							return err
						}
						if err := checkBytes(bytesCase{s, []byte(string([]rune(text)))}, o); err != nil {
							return err
						}
					}

					return nil
				}),
		},
	}
}

func propFields() pbt.Property {
	predicates := []struct {
		name string
		f    func(rune) bool
	}{
		{"space", unicode.IsSpace},
		{"punct", unicode.IsPunct},
		{"upper", unicode.IsUpper},
		{"odd", func(r rune) bool { return r%2 != 0 }},
		{"all", func(rune) bool { return true }},
		{"none", func(rune) bool { return false }},
		{"a", func(r rune) bool { return r == 'a' }},
		{"letter", unicode.IsLetter},
		{"not space", func(r rune) bool { return !unicode.IsSpace(r) }},
		{"ascii", func(r rune) bool { return r < 0x80 }},
	}

	type fieldsCase struct {
		Text      gens.Text `json:"text"`
		Predicate int       `json:"predicate"`
	}

	// dense in separators: runs of separators, and separators at both ends
	dense := rapid.Custom(func(t *rapid.T) rune {
		return gens.Pick(t, "kind", []int{4, 3, 2, 1}, []*rapid.Generator[rune]{
			rapid.SampledFrom([]rune("abAB.,é漢\u200B\u00AD")), rapid.SampledFrom(gens.Spaces), gens.ValidRune(), rapid.SampledFrom([]rune{'\u180E', '\u200B', '\uFEFF', '\u2060', 0x1C, 0x1F, '_'}),
		}).Draw(t, "rune")
	})
	piece := func(max int) *rapid.Generator[gens.Text] { return gens.FocusText(dense, max) }
	genText := piece(24).Draw

	compare := func(text gens.Text, got [][]rune, input []rune, want []string) error {
		shown := fmt.Sprintf("%q", string(text))
		if len(text) > 200 {
			shown = fmt.Sprintf("%q... (%d runes)", string(text[:200]), len(text))
		}
		if len(got) != len(want) {
			if len(want) > 40 || len(got) > 40 {
				return fmt.Errorf("%s: %d fields, want %d", shown, len(got), len(want))
			}

			return fmt.Errorf("%s: %d fields %q, want %d %q", shown, len(got), gens.Strings(got), len(want), want)
		}
		same := func(when string) error {
			for i := range got {
				if string(got[i]) != want[i] || len(got[i]) == 0 {
					return fmt.Errorf("%s: %sfield %d is %q, want %q", shown, when, i, string(got[i]), want[i])
				}
			}
			if !gens.Equal(input, text) {
				return fmt.Errorf("%s: %sinput modified", shown, when)
			}

			return nil
		}
		if err := same(""); err != nil {
			return err
		}

		// as with the standard library, the result has no room left: what is appended to it twice does not collide
		one := append(got, []rune("one"))
		two := append(got, []rune("two"))
		if string(one[len(got)]) != "one" || string(two[len(got)]) != "two" {
			return fmt.Errorf("%s: the fields share room with what is appended to them", shown)
		}

		return same("after append: ")
	}

	checkFields := func(c fieldsCase, o *pbt.Obs) error {
		f := predicates[c.Predicate].f
		want := strings.FieldsFunc(string(c.Text), f)
		nontrivialFields(c.Text, f, len(want), o)
		input := c.Text.Clone()

		return compare(c.Text, runes.FieldsFunc(input, f), input, want)
	}

	checkTokenizer := func(text gens.Text, o *pbt.Obs) error {
		want := strings.Fields(string(text))
		nontrivialFields(text, unicode.IsSpace, len(want), o)
		input := text.Clone()
		tok := tokenizer.New()
		if err := compare(text, tok.BreakWord(input), input, want); err != nil {
			return err
		}

		return compare(text, tok.BreakWordString(string(text)), input, want)
	}

	type longCase struct {
		Long      gens.Long `json:"long"`
		Predicate int       `json:"predicate"`
	}

	return pbt.Property{
		ID: "C03",
		Rule: "random texts dense in separators of all kinds, and long repetitive ones (up to 2^15 runes), split on ten predicates and by the tokenizer (runes and string entry points), compared with strings.FieldsFunc and strings.Fields; appending twice to the result must not collide. " +
			"Non-trivial: at least two fields and one run of two separators or a separator at one end.",
		Assumptions: []string{"texts are valid runes: strings.FieldsFunc is the oracle on their UTF-8 encoding"},
		Checks: []pbt.Check{
			pbt.Rapid[fieldsCase]{Name: "fieldsfunc", Quick: 50000 * 8, Thorough: 6000000,
				Gen: func(t *rapid.T) fieldsCase {
					return fieldsCase{genText(t, "text"), rapid.IntRange(0, len(predicates)-1).Draw(t, "predicate")}
				},
				Check: checkFields},
			pbt.Rapid[gens.Text]{Name: "tokenizer", Quick: 50000 * 8, Thorough: 6000000, Gen: func(t *rapid.T) gens.Text { return genText(t, "text") }, Check: checkTokenizer},
			pbt.Rapid[longCase]{Name: "long", Quick: 2000, Thorough: 60000,
				Gen: func(t *rapid.T) longCase {
					return longCase{gens.GenLong(piece, 15).Draw(t, "long"), rapid.IntRange(0, len(predicates)-1).Draw(t, "predicate")}
				},
				Check: func(c longCase, o *pbt.Obs) error {
					text := c.Long.Text()
					if err := checkFields(fieldsCase{text, c.Predicate}, o); err != nil {
						return err
					}

					return checkTokenizer(text, o)
				}},
			sweep.Texts("sizes", 135, 1<<15, []string{"a", "漢", " ", "a ", "ab\u3000"}, []string{"a", " ", "\u0085", "a b"},
				func(text gens.Text, o *pbt.Obs) error {
					if err := checkFields(fieldsCase{text, 0}, o); err != nil {
						return err
					}

					return checkTokenizer(text, o)
				}),
		},
	}
}

func nontrivialFields(text []rune, f func(rune) bool, fields int, o *pbt.Obs) {
	if fields < 2 {
		return
	}
	o.NonTrivialIf(f(text[0]) || f(text[len(text)-1]))
	for i := 1; i < len(text); i++ {
		o.NonTrivialIf(f(text[i]) && f(text[i-1]))
	}
}
