// Package langs describes the supported languages, and generates words for them.
package langs

import (
	"sync"
	"unicode"

	"pgregory.net/rapid"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/gens"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/refs"
)

// Language is a supported language.
type Language struct {
	Tag  string
	File string
}

// All the supported languages.
var All = []Language{
	{"en-US", "ushyphmax.tex"},
	{"en-GB", "hyph-en-gb.tex"},
	{"fr", "hyph-fr.tex"},
	{"de", "hyph-de-1996.tex"},
	{"es", "hyph-es.tex"},
}

var (
	mx     sync.Mutex
	loaded = map[string]*refs.Liang{}
)

// Liang yields the reference hyphenator for a pattern file.
func Liang(file string) *refs.Liang {
	mx.Lock()
	defer mx.Unlock()

	l, ok := loaded[file]
	if !ok {
		l = refs.LoadLiang(file)
		loaded[file] = l
	}

	return l
}

var common = map[string][]string{
	"en-US": {"hyphenation", "example", "typography", "extraordinary", "algorithm", "representation", "international", "characteristically", "supercalifragilisticexpialidocious", "computer", "table", "present", "project"},
	"en-GB": {"hyphenation", "colour", "aluminium", "organisation", "extraordinary", "manuscript", "through", "independent", "representation"},
	"fr":    {"typographie", "anticonstitutionnellement", "représentation", "aujourd'hui", "l'indépendance", "développement", "caractère", "œuvre", "naïveté"},
	"de":    {"Donaudampfschifffahrtsgesellschaft", "Silbentrennung", "Größe", "Übermut", "Straße", "Rechtschreibung", "Lebensversicherungsgesellschaft", "Bücher"},
	"es":    {"representación", "constitución", "desafortunadamente", "niño", "vergüenza", "transporte", "electroencefalografista", "subrayar"},
}

// Word draws a word of a language: from its patterns, exceptions, usual words and letters. It holds no dot.
func Word(lang Language, max int) *rapid.Generator[gens.Text] {
	return rapid.Custom(func(t *rapid.T) gens.Text {
		l := Liang(lang.File)
		var word []rune

		letter := rapid.SampledFrom(l.Letters)
		switch gens.Pick(t, "source", []int{6, 3, 2, 2, 1}, []string{"patterns", "common", "exception", "letters", "any"}) {
		case "patterns": // glued patterns
			n := rapid.IntRange(1, 6).Draw(t, "n")
			for i := 0; i < n; i++ {
				for _, r := range l.Keys[rapid.IntRange(0, len(l.Keys)-1).Draw(t, "pattern")] {
					if r != '.' {
						word = append(word, r)
					}
				}
			}
		case "common":
			word = []rune(rapid.SampledFrom(common[lang.Tag]).Draw(t, "common"))
			if rapid.Bool().Draw(t, "twice") {
				word = append(word, []rune(rapid.SampledFrom(common[lang.Tag]).Draw(t, "common2"))...)
			}
		case "exception":
			if len(l.Words) > 0 {
				word = []rune(rapid.SampledFrom(l.Words).Draw(t, "exception"))
				switch rapid.IntRange(0, 3).Draw(t, "near") { // near an exception
				case 0:
					word = append(word, letter.Draw(t, "suffix"))
				case 1:
					word = append([]rune{letter.Draw(t, "prefix")}, word...)
				}
			}
		case "letters":
			word = rapid.SliceOfN(letter, 1, 16).Draw(t, "letters")
		default:
			for _, r := range gens.AnyText(12).Draw(t, "any") {
				if r != '.' {
					word = append(word, r)
				}
			}
		}

		if len(word) > max {
			word = word[:max]
		}

		return gens.Text(word)
	})
}

// upper yields the upper case of a lower case rune, when this is a one-to-one mapping.
func upper(r rune) rune {
	u := unicode.ToUpper(r)
	if r < 0 || u == r || unicode.ToLower(u) != r {
		return r
	}

	return u
}

// SwapCase changes the case of some letters, for one-to-one mappings only.
func SwapCase(t *rapid.T, word gens.Text) gens.Text {
	out := gens.Text(word.Clone())
	mode := rapid.IntRange(0, 4).Draw(t, "case")
	for i, r := range out {
		swap := false
		switch mode {
		case 0:
		case 1:
			swap = i == 0
		case 2:
			swap = true
		default:
			swap = rapid.Bool().Draw(t, "swap")
		}
		if !swap {
			continue
		}
		if u := upper(r); u != r {
			out[i] = u
		} else if l := unicode.ToLower(r); r > 0 && l != r && upper(l) == r {
			out[i] = l
		}
	}

	return out
}
