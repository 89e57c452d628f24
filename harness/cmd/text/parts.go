package main

import (
	"fmt"
	"unicode"

	"pgregory.net/rapid"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/gens"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/pbt"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/sweep"
	"github.com/fredbi/go-typeset/wordbreak/punctuator"
)

func unicodeDigit(r rune) bool { return unicode.IsDigit(r) }

// splitKeeping is the reference: separators stand alone, others make maximal runs.
func splitKeeping(word []rune, isSeparator func(rune) bool) (parts [][]rune, separators int) {
	var run []rune
	for _, r := range word {
		if !isSeparator(r) {
			run = append(run, r)

			continue
		}
		separators++
		if len(run) > 0 {
			parts = append(parts, run)
			run = nil
		}
		parts = append(parts, []rune{r})
	}
	if len(run) > 0 {
		parts = append(parts, run)
	}

	return parts, separators
}

func isPunctuation(r rune) bool {
	return r == '|' || (unicode.Is(unicode.P, r) && !unicode.Is(unicode.Hyphen, r))
}

func isHyphen(r rune) bool { return unicode.Is(unicode.Hyphen, r) }

type splitter struct {
	name  string
	split func([]rune) [][]rune
	is    func([]rune) bool
	ref   func(rune) bool
	dense []rune
}

// splitterChecks are the checks shared by the punctuator and the hyphen splitter.
func splitterChecks(s splitter) []pbt.Check {
	compare := func(text gens.Text, o *pbt.Obs) error {
		want, separators := splitKeeping(text, s.ref)
		o.NonTrivialIf(separators > 0 && separators < len(text))

		input := text.Clone()
		got := s.split(input)
		if !gens.EqualParts(got, want) {
			for i := range got { // from the first difference
				if i >= len(want) || !gens.Equal(got[i], want[i]) {
					return fmt.Errorf("%s: parts from %d %q, want %q", short(text), i, gens.Strings(got[i:min(i+8, len(got))]), gens.Strings(want[min(i, len(want)):min(i+8, len(want))]))
				}
			}

			return fmt.Errorf("%s: %d parts, want %d", short(text), len(got), len(want))
		}
		if !gens.Equal(input, text) {
			return fmt.Errorf("%s: input modified into %s", short(text), short(input))
		}
		for _, part := range got {
			if is, ref := s.is(part), len(part) == 1 && s.ref(part[0]); is != ref {
				return fmt.Errorf("part %q recognized as %s: %t", string(part), s.name, is)
			}
		}
		if is, ref := s.is(input), len(text) == 1 && s.ref(text[0]); is != ref {
			return fmt.Errorf("%q recognized as %s: %t", string(text), s.name, is)
		}

		return nil
	}

	type runeBlock struct {
		Lo rune `json:"lo"`
		Hi rune `json:"hi"`
	}

	runeOf := rapid.Custom(func(t *rapid.T) rune {
		return gens.Pick(t, "kind", []int{4, 4, 3, 2}, []*rapid.Generator[rune]{
			rapid.SampledFrom([]rune("abcdé")), rapid.SampledFrom(s.dense), gens.AnyRune(), rapid.SampledFrom([]rune("0123456789AZ.,-'|")),
		}).Draw(t, "rune")
	})
	piece := func(max int) *rapid.Generator[gens.Text] { return gens.FocusText(runeOf, max) }

	contexts := []gens.Text{gens.Text("ab"), gens.Text("12"), gens.Text(".."), gens.Text("--"), gens.Text("A "), gens.Text("é漢")}
	one := func(r rune) error {
		if is := s.is([]rune{r}); is != s.ref(r) {
			return fmt.Errorf("%s recognized as %s: %t", describe(r), s.name, is)
		}
		for _, c := range contexts {
			if err := compare(gens.Text{c[0], r, c[1]}, new(pbt.Obs)); err != nil {
				return err
			}
		}

		return compare(gens.Text{r, r}, new(pbt.Obs))
	}

	// runes which tell classes of contexts
	around := []rune{'a', 'b', 'Z', '0', '7', ' ', '\t', '\n', '.', ',', '\'', '-', '_', '|', '/', '@', '&', '\u2010', '\u2014', '\u00AD', '\u0301', '\u200D', 'é', 'ß', 'Ω', 'ж', '漢', 'ـ', '٣', '€', '+', '😀', 0x1B, 0, -1, 0xD800, 0xFFFD}
	type contextBlock struct {
		Before  rune   `json:"before"`
		Middle  []rune `json:"middle,omitempty"` // all runes, when absent
		After   []rune `json:"after,omitempty"`
		Doubled bool   `json:"doubled,omitempty"`
	}
	var middles []rune
	seen := map[rune]bool{}
	for _, r := range append(append([]rune{}, s.dense...), around...) {
		if !seen[r] {
			seen[r] = true
			middles = append(middles, r)
		}
	}
	visit := func(c contextBlock, f func(contextBlock, gens.Text) error) error {
		list, after := c.Middle, c.After
		if list == nil {
			list = middles
		}
		if after == nil {
			after = around
		}
		for _, m := range list {
			for _, a := range after {
				text := gens.Text{c.Before, m, a}
				if c.Doubled {
					text = gens.Text{c.Before, c.Before, m, a, a, m, m, c.Before}
				}
				if err := f(contextBlock{c.Before, []rune{m}, []rune{a}, c.Doubled}, text); err != nil {
					return err
				}
			}
		}

		return nil
	}

	return []pbt.Check{
		pbt.Rapid[gens.Text]{Name: "words", Quick: 50000 * 8, Thorough: 6000000, Check: compare,
			Gen: func(t *rapid.T) gens.Text { return piece(20).Draw(t, "text") }},
		pbt.Rapid[gens.Long]{Name: "long", Quick: 2000, Thorough: 60000,
			Gen:   func(t *rapid.T) gens.Long { return gens.GenLong(piece, 15).Draw(t, "long") },
			Check: func(l gens.Long, o *pbt.Obs) error { return compare(l.Text(), o) }},
		sweep.Texts("sizes", 135, 1<<15, []string{"a", "é漢", ".", "-", "a.", "a-"}, []string{".", "-", "a", "|", "\u2010", "\u2014", "a.b-c"}, compare),
		pbt.Enum[contextBlock]{Name: "contexts",
			List: func(bool) []contextBlock {
				var out []contextBlock
				for _, r := range around {
					out = append(out, contextBlock{Before: r}, contextBlock{Before: r, Doubled: true})
				}

				return out
			},
			Check: func(c contextBlock, o *pbt.Obs) error {
				n := 0
				o.NonTrivial()
				err := visit(c, func(_ contextBlock, text gens.Text) error {
					n++

					return compare(text, new(pbt.Obs))
				})
				o.Weight(n)

				return err
			},
			Narrow: func(c contextBlock, fails func(contextBlock) bool) contextBlock {
				found := c
				_ = visit(c, func(one contextBlock, _ gens.Text) error {
					if fails(one) {
						found = one

						return errFound
					}

					return nil
				})

				return found
			}},
		pbt.Enum[runeBlock]{Name: "runes",
			List: func(bool) []runeBlock {
				var out []runeBlock
				for lo := rune(0); lo < 0x110000; lo += 0x400 {
					out = append(out, runeBlock{lo, lo + 0x3FF})
				}

				return append(out, runeBlock{-0x100, -1}, runeBlock{0x110000, 0x1100FF})
			},
			Check: func(b runeBlock, o *pbt.Obs) error {
				o.Weight(int(b.Hi-b.Lo) + 1)
				for r := b.Lo; r <= b.Hi; r++ {
					o.NonTrivialIf(s.ref(r))
					if err := one(r); err != nil {
						return err
					}
				}

				return nil
			},
			Narrow: func(b runeBlock, fails func(runeBlock) bool) runeBlock {
				for r := b.Lo; r <= b.Hi; r++ {
					if c := (runeBlock{r, r}); fails(c) {
						return c
					}
				}

				return b
			}},
	}
}

func propPunctuator() pbt.Property {
	p := punctuator.New()

	return pbt.Property{
		ID: "C11",
		Rule: "random texts dense in punctuation, hyphens and symbols of all scripts, invalid runes included, and long ones (up to 2^15 runes), compared with a reference split; every code point, alone, doubled and in six contexts; all triples of a rune of a list of 37, one of the dense ones and one of the list, single or repeated. " +
			"Non-trivial: punctuation and something else (texts), some punctuation rune (blocks of code points).",
		Assumptions: []string{"category P and the Hyphen property are those of the unicode package of the Go release"},
		Checks: splitterChecks(splitter{
			name: "punctuation", split: p.BreakWord, is: punctuator.IsPunctuation, ref: isPunctuation,
			dense: append(append([]rune("|||.,;:!?$+<=>^`~"), gens.Puncts...), gens.Hyphens...),
		}),
	}
}

func propSplitWord() pbt.Property {
	return pbt.Property{
		ID: "C12",
		Rule: "random texts dense in hyphens and dashes of all scripts, invalid runes included, and long ones (up to 2^15 runes), compared with a reference split; every code point, alone, doubled and in six contexts; all triples of a rune of a list of 37, one of the dense ones and one of the list, single or repeated. " +
			"Non-trivial: hyphens and something else (texts), some hyphen (blocks of code points).",
		Assumptions: []string{"the Hyphen property is that of the unicode package of the Go release"},
		Checks: splitterChecks(splitter{
			name: "hyphen", split: hyphenator.SplitWord, is: hyphenator.IsHyphen, ref: isHyphen,
			dense: append(append([]rune("---\u2010\u2011\u2012\u2013\u2014\u2212\u058a\ufe63~_"), gens.Hyphens...), gens.Hyphens...),
		}),
	}
}
