package main

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"golang.org/x/text/language"
	"pgregory.net/rapid"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/gens"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/langs"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/pbt"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/refs"
)

// probes are words that tell the pattern files from each other.
var probes = func() []string {
	words := []string{
		"hyphenation", "representation", "organisation", "extraordinary", "independent", "manuscript", "typography", "project", "table",
		"aluminium", "constitution", "transport", "caractere", "desafortunadamente", "donaudampfschiff", "anticonstitutionnellement", "universidad", "rechtschreibung", "présentation", "größenwahn", "vergüenza",
	}

	return words
}()

// identify names the pattern files which agree with a hyphenator on the probes.
func identify(h *hyphenator.Hyphenator) []string {
	var files []string
	for _, file := range refs.PatternFiles {
		l := langs.Liang(file)
		same := true
		for _, word := range probes {
			if !gens.EqualParts(h.BreakWordString(word), l.Break([]rune(word), 4, 2, 2)) {
				same = false

				break
			}
		}
		if same {
			files = append(files, file)
		}
	}

	return files
}

type tagCase struct {
	Tag  string   `json:"tag"`
	Want []string `json:"want"` // acceptable pattern files
}

var regions = func() []string {
	var out []string
	for a := 'A'; a <= 'Z'; a++ {
		for b := 'A'; b <= 'Z'; b++ {
			s := string(a) + string(b)
			if r, err := language.ParseRegion(s); err == nil && r.IsCountry() && r.String() == s {
				out = append(out, s)
			}
		}
	}

	return append(out, "001", "150", "419", "019", "003")
}()

var (
	us      = []string{"ushyphmax.tex"}
	gb      = []string{"hyph-en-gb.tex"}
	english = []string{"ushyphmax.tex", "hyph-en-gb.tex"}
)

// unrelated languages, with no fallback to a supported one in the CLDR data
var unrelated = []string{"uk", "zh", "it", "pt", "und", "ru", "ja", "ko", "ar", "he", "el", "pl", "sv", "nl", "fi", "hu", "tr", "th", "hi", "cs", "ro", "bg", "hr", "vi"}

func propTags() pbt.Property {
	relatives := map[string][]string{
		"de": {"hyph-de-1996.tex"}, "deu": {"hyph-de-1996.tex"},
		"fr": {"hyph-fr.tex"}, "fra": {"hyph-fr.tex"},
		"es": {"hyph-es.tex"}, "spa": {"hyph-es.tex"},
	}
	variants := map[string][]string{"de": {"-1901", "-1996"}, "fr": {"-1606nict", "-1694acad"}}

	gen := func(t *rapid.T) tagCase {
		var c tagCase
		switch gens.Pick(t, "family", []int{8, 3, 3, 1}, []string{"relative", "english", "unrelated", "malformed"}) {
		case "relative":
			base := rapid.SampledFrom([]string{"de", "fr", "es", "deu", "fra", "spa"}).Draw(t, "base")
			c.Tag, c.Want = base, relatives[base]
			if rapid.IntRange(0, 3).Draw(t, "script") == 0 {
				c.Tag += "-Latn"
			}
			if rapid.IntRange(0, 4).Draw(t, "region") > 0 {
				c.Tag += "-" + rapid.SampledFrom(regions).Draw(t, "regionCode")
			}
			if v := variants[base]; len(v) > 0 && rapid.IntRange(0, 3).Draw(t, "variant") == 0 {
				c.Tag += rapid.SampledFrom(v).Draw(t, "variantCode")
			}
			if rapid.IntRange(0, 3).Draw(t, "variants") == 0 { // of any language
				for _, v := range rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"fonipa", "fonxsamp", "simple", "alalc97", "fonupa"}), 1, 3, rapid.ID[string]).Draw(t, "more") {
					c.Tag += "-" + v
				}
			}
			if rapid.IntRange(0, 5).Draw(t, "extension") == 0 {
				c.Tag += rapid.SampledFrom([]string{"-u-nu-latn", "-x-private", "-u-co-phonebk", "-u-ca-gregory-co-phonebk-nu-latn", "-a-foo-u-nu-latn-x-private", "-t-en-latn", "-u-nu-latn-x-a-b-c"}).Draw(t, "extensionCode")
			}
		case "english":
			c.Tag, c.Want = "en", english
			if rapid.IntRange(0, 4).Draw(t, "region") > 0 {
				r := rapid.SampledFrom(append([]string{"US", "GB", "US", "GB", "AU", "CA", "IN", "NZ", "IE", "ZA"}, regions...)).Draw(t, "regionCode")
				if rapid.IntRange(0, 3).Draw(t, "script") == 0 {
					c.Tag += "-Latn"
				}
				c.Tag += "-" + r
				switch r {
				case "US":
					c.Want = us
				case "GB":
					c.Want = gb
				}
			}
		case "unrelated":
			c.Tag, c.Want = rapid.SampledFrom(unrelated).Draw(t, "base"), us
		default:
			c.Tag, c.Want = rapid.SampledFrom([]string{"", "!!", "e", "123", "not a language", "-", "*", "zz-zz-zz-zz", "\x00"}).Draw(t, "malformed"), us
		}
		switch rapid.IntRange(0, 5).Draw(t, "spelling") { // tags are not case sensitive, and may be spelt with underscores
		case 0:
			c.Tag = strings.ToUpper(c.Tag)
		case 1:
			c.Tag = strings.ToLower(c.Tag)
		case 2:
			c.Tag = strings.ReplaceAll(c.Tag, "-", "_")
		}

		return c
	}

	accept := func(files, want []string) bool {
		if len(files) != 1 {
			return false
		}
		for _, file := range want {
			if file == files[0] {
				return true
			}
		}

		return false
	}

	check := func(c tagCase, o *pbt.Obs) error {
		o.NonTrivialIf(strings.ContainsAny(c.Tag, "-_"))

		byString := identify(hyphenator.New(hyphenator.WithLanguage(c.Tag)))
		if !accept(byString, c.Want) {
			return fmt.Errorf("language %q: patterns %v, want %v", c.Tag, byString, c.Want)
		}

		tag, err := language.Parse(c.Tag)
		if err != nil {
			o.Class("malformed")

			return nil
		}
		for _, t := range []language.Tag{tag, language.Raw.Make(c.Tag)} {
			byTag := identify(hyphenator.New(hyphenator.WithLanguageTag(t)))
			if len(byTag) != 1 || byTag[0] != byString[0] {
				return fmt.Errorf("language %q: patterns %v by string, %v by tag %v", c.Tag, byString, byTag, t)
			}
		}

		return nil
	}

	type defaultCase struct {
		Left int `json:"left"`
	}

	// several options: the last language wins, whatever the others
	type option struct {
		Kind  string  `json:"kind"` // string, tag, raw, length, left, right
		Tag   tagCase `json:"tag,omitempty"`
		Value int     `json:"value,omitempty"`
	}
	type optionsCase struct {
		Options []option `json:"options"`
	}
	genOptions := func(t *rapid.T) optionsCase {
		return optionsCase{rapid.SliceOfN(rapid.Custom(func(t *rapid.T) option {
			o := option{Kind: gens.Pick(t, "kind", []int{4, 2, 2, 1, 1, 1}, []string{"string", "tag", "raw", "length", "left", "right"})}
			switch o.Kind {
			case "string", "tag", "raw":
				o.Tag = gen(t)
			case "length":
				o.Value = rapid.IntRange(0, 9).Draw(t, "value")
			default:
				o.Value = rapid.IntRange(1, 4).Draw(t, "value")
			}

			return o
		}), 0, 5).Draw(t, "options")}
	}
	checkOptions := func(c optionsCase, o *pbt.Obs) error {
		var (
			opts  []hyphenator.Option
			want  = us
			langs int
		)
		for _, opt := range c.Options {
			switch opt.Kind {
			case "string":
				opts = append(opts, hyphenator.WithLanguage(opt.Tag.Tag))
			case "tag":
				tag, err := language.Parse(opt.Tag.Tag)
				if err != nil {
					continue
				}
				opts = append(opts, hyphenator.WithLanguageTag(tag))
			case "raw":
				tag, err := language.Raw.Parse(opt.Tag.Tag)
				if err != nil {
					continue
				}
				opts = append(opts, hyphenator.WithLanguageTag(tag))
			case "length":
				opts = append(opts, hyphenator.WithMinLength(opt.Value))

				continue
			case "left":
				opts = append(opts, hyphenator.WithMinLeft(opt.Value))

				continue
			default:
				opts = append(opts, hyphenator.WithMinRight(opt.Value))

				continue
			}
			want = opt.Tag.Want
			langs++
		}
		o.NonTrivialIf(langs > 1)
		// minima back to their defaults, so that the probes tell the files
		opts = append(opts, hyphenator.WithMinLength(4), hyphenator.WithMinLeft(2), hyphenator.WithMinRight(2))
		if files := identify(hyphenator.New(opts...)); !accept(files, want) {
			return fmt.Errorf("options %+v: patterns %v, want %v", c.Options, files, want)
		}

		return nil
	}

	return pbt.Property{
		ID: "C16",
		Rule: "random tags of German, French, Spanish, English and unrelated languages, with scripts, all regions, up to 4 variants, extensions and spellings, given by string and by tag; the patterns in use are recognized from the breaks of 21 probe words, compared with the reference Liang of each file. " +
			"Sequences of up to 5 options (languages by string or by tag, well formed or not, and minima) use the patterns of the last language. Non-trivial: tags with several subtags, or several languages. All bare tags and all language-region pairs are enumerated too.",
		Assumptions: []string{"the script, when given, is Latin", "unrelated languages are taken from a list of languages with no fallback in the CLDR data of x/text"},
		Checks: []pbt.Check{
			pbt.Rapid[tagCase]{Name: "tags", Quick: 12000 * 4, Thorough: 300000, Gen: gen, Check: check},
			pbt.Rapid[optionsCase]{Name: "options", Quick: 6000 * 4, Thorough: 150000, Gen: genOptions, Check: checkOptions},
			pbt.Enum[tagCase]{Name: "regions", Check: check,
				List: func(bool) []tagCase {
					out := []tagCase{{"en", english}, {"en-US", us}, {"en-GB", gb}}
					for _, base := range []string{"de", "fr", "es"} {
						out = append(out, tagCase{base, relatives[base]})
						for _, r := range regions {
							out = append(out, tagCase{base + "-" + r, relatives[base]})
						}
					}
					for _, r := range regions {
						if r != "US" && r != "GB" {
							out = append(out, tagCase{"en-" + r, english})
						}
					}
					for _, base := range unrelated {
						out = append(out, tagCase{base, us})
					}

					return out
				}},
			pbt.Enum[defaultCase]{Name: "default", List: func(bool) []defaultCase { return []defaultCase{{2}} },
				Check: func(c defaultCase, o *pbt.Obs) error {
					o.NonTrivial()
					for _, h := range []*hyphenator.Hyphenator{
						hyphenator.New(), hyphenator.New(hyphenator.WithMinLeft(c.Left)),
						hyphenator.New(hyphenator.WithLanguage("de"), hyphenator.WithLanguage("en-US")), // the last one wins
					} {
						if files := identify(h); !accept(files, us) {
							return fmt.Errorf("default language: patterns %v", files)
						}
					}

					return nil
				}},
		},
	}
}

func propLoading() pbt.Property {
	type loadCase struct {
		Name string `json:"name"`
	}
	known := map[string]bool{}
	for _, file := range refs.PatternFiles {
		known[file] = true
	}

	load := func(name string) (*hyphenator.Dictionary, error) { return hyphenator.LoadPatterns(name) }

	usable := func(dict *hyphenator.Dictionary, file string, words []string) error {
		h := hyphenator.New(hyphenator.WithLanguage("xx"))
		h.Dictionary = dict
		l := langs.Liang(file)
		for _, word := range words {
			if got, want := h.BreakWordString(word), l.Break([]rune(word), 4, 2, 2); !gens.EqualParts(got, want) {
				return fmt.Errorf("dictionary %s: %q breaks as %s, want %s", file, word, show(got), show(want))
			}
		}

		return nil
	}

	type dictCase struct {
		Files []int       `json:"files"`
		Words []gens.Text `json:"words"`
	}

	return pbt.Property{
		ID: "C19",
		Rule: "the list of pattern files; random sequences of loads of these files, in any order and repeated, each dictionary then plugged in a hyphenator and compared with the reference Liang on random words of its language; " +
			"names close to those of the files, paths and random names. Non-trivial: at least two loads, or a name that is not empty.",
		Assumptions: []string{"names that a path clean-up maps to a pattern file are skipped"},
		Checks: []pbt.Check{
			pbt.Enum[loadCase]{Name: "list", List: func(bool) []loadCase { return []loadCase{{"all"}} },
				Check: func(_ loadCase, o *pbt.Obs) error {
					o.NonTrivial()
					for i := 0; i < 2; i++ {
						got, err := hyphenator.SupportedPatterns()
						if err != nil {
							return err
						}
						if !sort.StringsAreSorted(got) || strings.Join(got, " ") != strings.Join(refs.PatternFiles, " ") {
							return fmt.Errorf("supported patterns %q, want %q", got, refs.PatternFiles)
						}
						for j := range got { // the list belongs to the caller
							got[j] = "overwritten"
						}
					}

					return nil
				}},
			pbt.Rapid[dictCase]{Name: "load", Quick: 240 * 4, Thorough: 8000,
				Gen: func(t *rapid.T) dictCase {
					c := dictCase{Files: rapid.SliceOfN(rapid.IntRange(0, len(refs.PatternFiles)-1), 1, 4).Draw(t, "files")}
					for _, file := range c.Files {
						for _, lang := range langs.All {
							if lang.File == refs.PatternFiles[file] {
								c.Words = append(c.Words, rapid.SliceOfN(langs.Word(lang, 30), 3, 12).Draw(t, "words")...)
							}
						}
					}

					return c
				},
				Check: func(c dictCase, o *pbt.Obs) error {
					o.NonTrivialIf(len(c.Files) > 1)
					var words []string
					for _, w := range c.Words {
						if s := string([]rune(w)); s != "" && !strings.Contains(s, ".") && gens.Equal([]rune(s), w) {
							words = append(words, s)
						}
					}
					var dicts []*hyphenator.Dictionary
					for _, k := range c.Files {
						file := refs.PatternFiles[k]
						dict, err := load(file)
						if err != nil || dict == nil {
							return fmt.Errorf("%s: %v", file, err)
						}
						if dict.String() == "" {
							return fmt.Errorf("%s: no identifier", file)
						}
						for i, other := range dicts {
							if other == dict {
								return fmt.Errorf("loads %d and %d share a dictionary", i, len(dicts))
							}
						}
						dicts = append(dicts, dict)
					}
					for i, dict := range dicts {
						if err := usable(dict, refs.PatternFiles[c.Files[i]], words); err != nil {
							return err
						}
						dict.Identifier = "changed"
					}
					for _, k := range c.Files { // nor is a later load affected
						dict, err := load(refs.PatternFiles[k])
						if err != nil || dict.Identifier == "changed" {
							return fmt.Errorf("%s: loaded again with identifier %q, error %v", refs.PatternFiles[k], dict.Identifier, err)
						}
					}

					return nil
				}},
			pbt.Rapid[loadCase]{Name: "names", Quick: 20000 * 4, Thorough: 500000,
				Gen: func(t *rapid.T) loadCase {
					name := rapid.SampledFrom(refs.PatternFiles).Draw(t, "file")
					switch rapid.IntRange(0, 8).Draw(t, "how") {
					case 0:
						name = strings.ToUpper(name)
					case 1:
						k := rapid.IntRange(0, len(name)-1).Draw(t, "k")
						name = name[:k] + name[k+1:]
					case 2:
						k := rapid.IntRange(0, len(name)).Draw(t, "k")
						name = name[:k] + rapid.StringN(1, 2, 8).Draw(t, "s") + name[k:]
					case 3:
						name = rapid.SampledFrom([]string{"", ".", "..", "/", "tex", "tex/", "languages", "README.md", "doc.go", "../languages", "../hyphenator.go", "../../../go.mod", "/etc/passwd", "hyph-it.tex", "*.tex", "\x00", "\\", "de", "en-US"}).Draw(t, "special")
					case 4:
						name = "tex/" + name
					case 5:
						name = rapid.SampledFrom([]string{"languages/", "../", "/languages/", "a/", "../../"}).Draw(t, "prefix") + name
					case 6:
						name += rapid.SampledFrom([]string{" ", ".bak", "~", "/x", "\n", ".tex", "/../"}).Draw(t, "suffix")
					case 7:
						name = strings.TrimSuffix(name, ".tex")
					default:
						name = rapid.String().Draw(t, "name")
					}

					return loadCase{name}
				},
				Check: func(c loadCase, o *pbt.Obs) error {
					clean := strings.TrimPrefix(path.Join("languages", c.Name), "languages/")
					if known[c.Name] || known[clean] {
						return nil
					}
					o.NonTrivialIf(c.Name != "")
					dict, err := load(c.Name)
					if err == nil || dict != nil {
						return fmt.Errorf("%q: dictionary %v, error %v", c.Name, dict, err)
					}

					return nil
				}},
		},
	}
}
