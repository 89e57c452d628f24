package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"

	"pgregory.net/rapid"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/gens"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/langs"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/pbt"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/refs"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/sweep"
)

type wordCase struct {
	Lang   int          `json:"lang"`
	Limits langs.Limits `json:"limits"`
	Word   gens.Text    `json:"word"`
	Other  gens.Text    `json:"other,omitempty"`
}

func genWord(t *rapid.T, max int) wordCase {
	c := wordCase{Lang: rapid.IntRange(0, len(langs.All)-1).Draw(t, "lang"), Limits: langs.GenLimits(t)}
	c.Word = langs.SwapCase(t, langs.Word(langs.All[c.Lang], max).Draw(t, "word"))

	return c
}

var (
	builtMx sync.Mutex
	built   = map[string]*hyphenator.Hyphenator{}
)

// hyphenatorFor builds hyphenators once for some limits.
func hyphenatorFor(lang int, l langs.Limits) *hyphenator.Hyphenator {
	builtMx.Lock()
	defer builtMx.Unlock()

	a, b, c := l.Values()
	key := fmt.Sprint(lang, a, b, c, l.Length == nil, l.Left == nil, l.Right == nil, l.Twice)
	h, ok := built[key]
	if !ok {
		h = hyphenator.New(append(l.Options(), hyphenator.WithLanguage(langs.All[lang].Tag))...)
		built[key] = h
	}

	return h
}

func (c wordCase) String() string {
	a, b, d := c.Limits.Values()

	return fmt.Sprintf("%s %q (min length %d, left %d, right %d)", langs.All[c.Lang].Tag, string(c.Word), a, b, d)
}

func join(parts [][]rune) []rune {
	var out []rune
	for _, p := range parts {
		out = append(out, p...)
	}

	return out
}

func show(parts [][]rune) string { return strings.Join(gens.Strings(parts), "-") }

func propPartition() pbt.Property {
	anyWord := func(t *rapid.T) wordCase {
		c := genWord(t, 60)
		switch rapid.IntRange(0, 5).Draw(t, "twist") {
		case 0: // any runes in the word
			k := rapid.IntRange(0, len(c.Word)).Draw(t, "at")
			c.Word = append(c.Word[:k:k], append(gens.AnyText(4).Draw(t, "insert"), c.Word[k:]...)...)
		case 1: // an hyphen
			k := rapid.IntRange(0, len(c.Word)).Draw(t, "at")
			c.Word = append(c.Word[:k:k], append(gens.Text{rapid.SampledFrom(gens.Hyphens).Draw(t, "hyphen")}, c.Word[k:]...)...)
		case 2: // dots
			k := rapid.IntRange(0, len(c.Word)).Draw(t, "at")
			c.Word = append(c.Word[:k:k], append(gens.Text{'.'}, c.Word[k:]...)...)
		}

		return c
	}

	check := func(c wordCase, o *pbt.Obs) error {
		length, left, right := c.Limits.Values()
		h := hyphenatorFor(c.Lang, c.Limits)
		input := c.Word.Clone()
		parts := gens.CloneParts(h.BreakWord(input))
		if !gens.Equal(input, c.Word) {
			return fmt.Errorf("%v: input modified into %q", c, string(input))
		}

		if !gens.Equal(join(parts), c.Word) {
			return fmt.Errorf("%v: parts %q do not make the word", c, gens.Strings(parts))
		}
		hyphens := false
		for _, r := range c.Word {
			for _, s := range gens.Hyphens {
				hyphens = hyphens || r == s
			}
		}
		if len(parts) > 1 && (hyphens || len(c.Word) < length) {
			return fmt.Errorf("%v: broken into %s", c, show(parts))
		}
		if len(parts) == 0 && len(c.Word) > 0 {
			return fmt.Errorf("%v: no part", c)
		}
		rest := len(c.Word)
		for i, part := range parts {
			if len(part) == 0 && len(c.Word) > 0 {
				return fmt.Errorf("%v: empty part in %s", c, show(parts))
			}
			if i == len(parts)-1 {
				break
			}
			rest -= len(part)
			if len(part) < left || rest < right {
				return fmt.Errorf("%v: broken into %s", c, show(parts))
			}
		}
		o.NonTrivialIf(len(parts) > 2)

		// the same from a string
		if s := string([]rune(c.Word)); gens.Equal([]rune(s), c.Word) {
			if again := h.BreakWordString(s); !gens.EqualParts(again, parts) {
				return fmt.Errorf("%v: %s, but %s from a string", c, show(parts), show(again))
			}
		}

		return nil
	}

	type longCase struct {
		Lang int       `json:"lang"`
		Unit gens.Text `json:"unit"`
		N    int       `json:"n"`
	}

	return pbt.Property{
		ID: "C13",
		Rule: "random words of every language (glued patterns, usual words, exceptions and their neighbours, letters, any runes), with random limits from 0 to 12, with any runes, hyphens or dots inserted, and very long words. " +
			"Non-trivial: broken in three parts or more.",
		Assumptions: []string{"limits are not negative"},
		Checks: []pbt.Check{
			pbt.Rapid[wordCase]{Name: "words", Quick: 60000 * 4, Thorough: 3000000, Gen: anyWord, Check: check},
			pbt.Rapid[longCase]{Name: "long", Quick: 400 * 4, Thorough: 10000,
				Gen: func(t *rapid.T) longCase {
					lang := rapid.IntRange(0, len(langs.All)-1).Draw(t, "lang")
					unit := langs.Word(langs.All[lang], 30).Draw(t, "unit")

					return longCase{lang, unit, rapid.IntRange(1, 30).Draw(t, "n")}
				},
				Check: func(c longCase, o *pbt.Obs) error {
					w := wordCase{Lang: c.Lang}
					for i := 0; i < c.N; i++ {
						w.Word = append(w.Word, c.Unit...)
					}

					return check(w, o)
				}},
			wordSizes("sizes", 30, 256, []string{"-", "é", "A", ".", "漢"}, check),
			wordSizes("all-sizes", 300, 1<<9, nil, check),
		},
	}
}

// compareLiang compares with the reference for one word.
func compareLiang(c wordCase, o *pbt.Obs) error {
	length, left, right := c.Limits.Values()
	l := langs.Liang(langs.All[c.Lang].File)
	want := l.Break(c.Word, length, left, right)
	got := hyphenatorFor(c.Lang, c.Limits).BreakWord(c.Word.Clone())
	if len(c.Word) == 0 {
		return nil
	}
	o.NonTrivialIf(len(want) > 1)
	_, listed := l.Exceptions[strings.ToLower(string(c.Word))]
	o.ClassIf(listed, "exception")
	if !gens.EqualParts(got, want) {
		return fmt.Errorf("%v: %s, want %s", c, show(got), show(want))
	}

	return nil
}

func propLiang() pbt.Property {
	type patternBlock struct {
		Lang int `json:"lang"`
		Lo   int `json:"lo"` // range of patterns
		Hi   int `json:"hi"`
	}

	one := 1
	loose := langs.Limits{Length: &one, Left: &one, Right: &one}

	// word with a pattern in a context where it matters, when found
	witness := func(lang, k, tries int) (gens.Text, bool) {
		l := langs.Liang(langs.All[lang].File)
		key := l.Keys[k]
		rnd := rand.New(rand.NewSource(int64(k)))
		letters := []rune(strings.Trim(key, "."))

		var word gens.Text
		for i := 0; i < tries; i++ {
			word = word[:0:0]
			if !strings.HasPrefix(key, ".") {
				for n := rnd.Intn(5); n > 0; n-- {
					word = append(word, l.Letters[rnd.Intn(len(l.Letters))])
				}
			}
			word = append(word, letters...)
			if !strings.HasSuffix(key, ".") {
				for n := rnd.Intn(5); n > 0; n-- {
					word = append(word, l.Letters[rnd.Intn(len(l.Letters))])
				}
			}
			if _, listed := l.Exceptions[string(word)]; listed {
				continue
			}

			with, without := l.Values(word, ""), l.Values(word, key)
			for j := 1; j < len(with); j++ {
				if with[j]%2 != without[j]%2 {
					return word, true
				}
			}
		}

		return word, false
	}

	checkPattern := func(lang, k int, o *pbt.Obs) error {
		tries := 40
		word, matters := witness(lang, k, tries)
		o.NonTrivialIf(matters)
		o.Class("patterns")
		o.ClassIf(matters, "patterns that matter in their context")

		return compareLiang(wordCase{Lang: lang, Limits: loose, Word: word}, new(pbt.Obs))
	}

	checkException := func(lang int, word string) error {
		for _, l := range []langs.Limits{{}, loose} {
			for _, s := range []string{word, strings.ToUpper(word), strings.ToUpper(word[:1]) + word[1:]} {
				if err := compareLiang(wordCase{Lang: lang, Limits: l, Word: gens.Text(s)}, new(pbt.Obs)); err != nil {
					return err
				}
			}
		}

		return nil
	}

	const size = 200

	return pbt.Property{
		ID: "C14",
		Rule: "random words of every language (glued patterns, usual words, exceptions and their neighbours, letters) with random limits, compared with a reference Liang implementation on its own copies of the TeX files; " +
			"every pattern of every file, in a random context where it changes the break points if one is found in 40; every exception. Non-trivial: a word broken by the reference (words), some pattern that matters (blocks of patterns).",
		Assumptions: []string{
			"the reference reads its own copies of the TeX distribution files, taken at the pinned commit",
			"words hold no full stop, which Liang's algorithm uses as the word delimiter",
			"length limits filter break points from left to right, each part being measured from the previous break, as documented by the options",
		},
		Checks: []pbt.Check{
			pbt.Rapid[wordCase]{Name: "words", Quick: 40000 * 4, Thorough: 3000000,
				Gen:   func(t *rapid.T) wordCase { return genWord(t, 40) },
				Check: compareLiang},
			pbt.Rapid[wordCase]{Name: "long", Quick: 300 * 4, Thorough: 10000,
				Gen: func(t *rapid.T) wordCase {
					c := genWord(t, 60)
					n := rapid.IntRange(2, 6).Draw(t, "n")
					for i := 0; i < n; i++ {
						c.Word = append(c.Word, langs.Word(langs.All[c.Lang], 40).Draw(t, "more")...)
					}

					return c
				},
				Check: compareLiang},
			pbt.Enum[patternBlock]{Name: "patterns",
				List: func(bool) []patternBlock {
					var out []patternBlock
					for lang := range langs.All {
						n := len(langs.Liang(langs.All[lang].File).Keys)
						for lo := 0; lo < n; lo += size {
							out = append(out, patternBlock{lang, lo, min(lo+size, n)})
						}
					}

					return out
				},
				Check: func(b patternBlock, o *pbt.Obs) error {
					o.Weight(b.Hi - b.Lo)
					for k := b.Lo; k < b.Hi; k++ {
						if err := checkPattern(b.Lang, k, o); err != nil {
							return err
						}
					}

					return nil
				},
				Narrow: func(b patternBlock, fails func(patternBlock) bool) patternBlock {
					for k := b.Lo; k < b.Hi; k++ {
						if c := (patternBlock{b.Lang, k, k + 1}); fails(c) {
							return c
						}
					}

					return b
				}},
			pbt.Enum[wordCase]{Name: "exceptions",
				List: func(bool) []wordCase {
					var out []wordCase
					for lang := range langs.All {
						for _, word := range langs.Liang(langs.All[lang].File).Words {
							out = append(out, wordCase{Lang: lang, Word: gens.Text(word)})
						}
					}

					return out
				},
				Check: func(c wordCase, o *pbt.Obs) error {
					o.NonTrivial()

					return checkException(c.Lang, string(c.Word))
				}},
			wordSizes("sizes", 30, 256, []string{"é", "x", "ü"}, compareLiang),
			wordSizes("all-sizes", 300, 1<<9, nil, compareLiang),
		},
	}
}

// wordSizes enumerates words by size, in every language, with default and loose limits.
func wordSizes(name string, dense, top int, marks []string, check func(wordCase, *pbt.Obs) error) pbt.Check {
	one := 1

	return sweep.Texts(name, dense, top, []string{"hyphenation", "silbentrennung", "anticonstitutionnellement", "desafortunadamente", "a", "é"}, marks, func(text gens.Text, o *pbt.Obs) error {
		for lang := range langs.All {
			for _, limits := range []langs.Limits{{}, {Length: &one, Left: &one, Right: &one}} {
				if err := check(wordCase{Lang: lang, Limits: limits, Word: text}, o); err != nil {
					return err
				}
			}
		}

		return nil
	})
}

func propCase() pbt.Property {
	check := func(c wordCase, o *pbt.Obs) error {
		h := hyphenatorFor(c.Lang, c.Limits)
		first := h.BreakWord(c.Word.Clone())
		second := h.BreakWord(c.Other.Clone())
		o.NonTrivialIf(len(first) > 1 && !gens.Equal(c.Word, c.Other))
		if !gens.Equal(join(second), c.Other) {
			return fmt.Errorf("%v: the parts %s of %q lose its case", c, show(second), string(c.Other))
		}
		if len(first) != len(second) {
			return fmt.Errorf("%v: %s, but %s", c, show(first), show(second))
		}
		for i := range first {
			if len(first[i]) != len(second[i]) {
				return fmt.Errorf("%v: %s, but %s", c, show(first), show(second))
			}
		}

		return nil
	}

	upper := func(c wordCase, o *pbt.Obs) error {
		c.Other = gens.Text(strings.ToUpper(string(c.Word)))

		return check(c, o)
	}

	return pbt.Property{
		ID: "C15",
		Rule: "random words of every language, exceptions included, and the same word with the case of some letters changed (one-to-one mappings): break points must be the same, and the parts must keep the case of the input. " +
			"Non-trivial: a word broken whose case was changed.",
		Assumptions: []string{"only letters whose simple upper and lower case mappings are inverse of each other change case"},
		Checks: []pbt.Check{
			pbt.Rapid[wordCase]{Name: "case", Quick: 60000 * 4, Thorough: 3000000,
				Gen: func(t *rapid.T) wordCase {
					c := genWord(t, 40)
					c.Other = langs.SwapCase(t, c.Word)
					if rapid.IntRange(0, 3).Draw(t, "twist") == 0 && len(c.Word) > 0 { // letters of other scripts
						k := rapid.IntRange(0, len(c.Word)-1).Draw(t, "at")
						pair := []rune(rapid.SampledFrom([]string{"éÉ", "ßẞ", "ÿŸ", "жЖ", "ωΩ", "ŭŬ", "ﬀﬀ", "ʼʼ", "àÀ", "ꙁꙀ", "𐐨𐐀"}).Draw(t, "pair"))
						c.Word[k], c.Other[k] = pair[0], pair[1]
					}

					return c
				},
				Check: check},
			wordSizes("sizes", 30, 256, []string{"É", "X", "ü"}, upper),
			wordSizes("all-sizes", 300, 1<<9, nil, upper),
		},
	}
}

var _ = refs.PatternFiles
