package para

import (
	"slices"
	"strings"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/pbt"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/sweep"
)

// Sized is a paragraph of which something has the given size.
type Sized struct {
	Kind    string `json:"kind"`
	N       int    `json:"n"`
	Variant int    `json:"variant"`
}

// Kinds of sized paragraphs: what there are N of.
var (
	plainKinds = []string{
		"tokens", "lines", "on a line", "letters", "parts", "pairs", "marks", "inner marks", "hyphens", "hyphenated words", "width", "refused at", "long at", "english", "word", "words", "loose", "tight",
	}
	styledKinds = []string{"spans", "spans in a token", "chained starts", "styled tokens", "styled letters", "parameters", "stops", "sequence tokens"}
)

// variants of each kind.
const variants = 6

func times(n int, s func(i int) string) []string {
	out := make([]string, n)
	for i := range out {
		out[i] = s(i)
	}

	return out
}

func always(s string) func(int) string { return func(int) string { return s } }

var alphabet = strings.Repeat("etaoinshrdlu", 12)

func letters(from, n int) string {
	return strings.Repeat(alphabet, (from%12+n)/len(alphabet)+1)[from%12 : from%12+n]
}

// Paragraph is the paragraph described.
func (s Sized) Paragraph() Paragraph {
	var (
		p    Paragraph
		v    = s.Variant
		n    = s.N
		opts = &p.Config
	)
	no, loose := false, 1000.0
	word := func(i int) string { return letters(i, 1+(i*7+i/5+v)%5) }

	switch s.Kind {
	case "tokens":
		p.Tokens, p.Width = times(n, word), float64(12+5*v)
	case "lines":
		p.Tokens, p.Width = times(n, func(i int) string { return letters(i, 3) }), float64(3+v)
	case "on a line": // all of them on one line, or just about
		opts.Tolerance = &loose
		p.Tokens, p.Width = times(n, func(i int) string { return letters(i, 1) }), float64(max(1, 2*n-1+[]int{0, -1, -2, 1, 5, 100}[v]))
	case "letters": // in one word
		opts.Hyphenator, opts.Tolerance = "letters", &loose
		p.Tokens, p.Width = []string{"so", letters(0, n), "it"}, float64(5+3*v)
	case "parts": // of one word, of different lengths
		opts.Hyphenator = "cuts" + string(rune('0'+v))
		p.Tokens, p.Width = []string{"so", letters(v, 2*n), "it"}, float64(12+4*v)
	case "pairs": // words of this length
		opts.Hyphenator = "pairs"
		p.Tokens, p.Width = times(5, func(i int) string { return letters(i, max(0, n+i-2)) }), float64(6+4*v)
	case "marks": // nothing else in a token
		p.Tokens, p.Width = []string{"so", strings.Repeat([]string{",", "…", "|", "(", ".", "!"}[v], n), "it"}, float64(3+3*v)
	case "inner marks":
		p.Tokens, p.Width = []string{"so", strings.Join(times(n, word), "/"), "it"}, float64(8+5*v)
	case "hyphens": // in one token
		p.Tokens, p.Width = []string{"so", strings.Join(times(n+1, always(letters(v, v+1))), "-") + "-", "it"}, float64(6+5*v)
	case "hyphenated words":
		p.Tokens, p.Width = times(n, func(i int) string { return letters(i, 4+v) + "-" + letters(i, 3) }), float64(10+4*v)
	case "width":
		p.Tokens, p.Width = times(3*n/4+2, word), float64(max(1, n))
		opts.Tolerance = &loose
	case "refused at": // nothing fits from there
		opts.WordBreak = &no
		p.Tokens, p.Width = append(times(n, word), letters(0, 13+5*v)), float64(12+5*v)
	case "long at": // just fits
		opts.WordBreak, opts.Tolerance = &no, &loose
		p.Tokens = append(append(times(n, word), letters(0, 12+5*v)), "so", "it", "is")
		p.Width = float64(12 + 5*v)
	case "word": // unbroken, as wide as the line or about
		opts.WordBreak, opts.Tolerance = &no, &loose
		p.Tokens = []string{"so", letters(0, n), "it", letters(v, n)}
		p.Width = float64(max(1, n+[]int{0, -1, -2, 1, 3, 5}[v]))
	case "words": // no part is shorter
		opts.Hyphenator, opts.Tolerance = "never", &loose
		p.Tokens = []string{"so", letters(0, n) + "-" + letters(v, n) + "," + letters(1, n), "it"}
		p.Width = float64(max(1, n+[]int{0, -1, -2, 1, 3, 5}[v]))
	case "loose": // lines at the limit of the tolerance
		opts.Measurer, opts.WordBreak, opts.Tolerance = "runes", &no, ptr(9999.0)
		opts.Units = []float64{58000, 59994, 59995, 20000, 6000, 600}[v]
		p.Tokens, p.Width = times(n, always("e")), 2*opts.Units
	case "tight": // full lines, which measure a lot
		opts.Measurer, opts.WordBreak = "runes", &no
		opts.Units = []float64{65537, 4000037, 1<<24 + 1, 1<<31 + 1, 1<<32 + 3, 1<<40 + 1}[v]
		p.Tokens, p.Width = times(n, always("e")), float64(2*v+5)*opts.Units
		if n%3 == 2 {
			p.Width -= float64(n % 2)
		}
	case "english":
		vocabulary := []string{"extraordinary", "beautiful", "of", "representation", "daughters,", "well-known", "table", "a", "hyphenation."}
		p.Tokens, p.Width = times(n, func(i int) string { return vocabulary[(i*i+i/3+v)%len(vocabulary)] }), float64(14+5*v)
	case "spans":
		p.Tokens = times(n, func(i int) string {
			return starts[(i+v)%len(starts)] + word(i) + stops[i%len(stops)]
		})
		p.Width = float64(10 + 5*v)
	case "spans in a token":
		p.Tokens = []string{"so", strings.Join(times(n, func(i int) string {
			return starts[(i+v)%len(starts)] + word(i) + stops[i%len(stops)] + ","
		}), ""), "it"}
		p.Width = float64(10 + 5*v)
	case "chained starts":
		p.Tokens = append(times(5, word), strings.Join(times(n, func(i int) string { return starts[(i+v)%6] }), "")+"red")
		p.Tokens = append(append(p.Tokens, times(5, word)...), "black"+stops[v], "so")
		p.Width = float64(10 + 3*v)
	case "styled tokens":
		p.Tokens = append(append([]string{"so", starts[v] + "red"}, times(n, word)...), "black"+stops[v], "so")
		p.Width = float64(10 + 5*v)
	case "styled letters":
		opts.Hyphenator, opts.Tolerance = "letters", &loose
		p.Tokens, p.Width = []string{"so", starts[v] + letters(0, n) + stops[v], "it"}, float64(5+3*v)
	case "parameters": // of one sequence
		p.Tokens = append(append(times(3, word), "\x1b["+strings.Repeat("1;", n)+"31m"+"red"), times(4, word)...)
		p.Tokens = append(p.Tokens, "black"+stops[v], "so")
		p.Width = float64(10 + 3*v)
	case "stops":
		p.Tokens = append(append(times(3, word), starts[v]+"red"), times(4, word)...)
		p.Tokens = append(p.Tokens, "black"+strings.Join(times(n+1, func(i int) string { return stops[(i+v)%len(stops)] }), ""), "so")
		p.Width = float64(10 + 3*v)
	case "sequence tokens": // tokens of their own
		p.Tokens = append(times(3, word), times(n, func(i int) string { return starts[(i+v)%6] })...)
		p.Tokens = append(append(p.Tokens, "red", "and", "black"), times(n+1, func(i int) string { return stops[(i+v)%len(stops)] })...)
		p.Tokens = append(p.Tokens, "so")
		p.Width = float64(6 + 3*v)
	default:
		panic("unknown kind " + s.Kind)
	}

	p.Tokens = slices.DeleteFunc(p.Tokens, func(tok string) bool { return tok == "" })
	if len(VisibleTokens(p.Tokens)) == 0 {
		p.Tokens = append(p.Tokens, "e")
	}

	return p
}

// Sizes makes a check which runs f on all the sized paragraphs: with sequences or not.
func Sizes(plain, styled bool, top int, f func(Paragraph, *pbt.Obs) error) pbt.Check {
	return pbt.Enum[Sized]{
		Name: "sizes",
		List: func(thorough bool) []Sized {
			var kinds []string
			if plain {
				kinds = append(kinds, plainKinds...)
			}
			if styled {
				kinds = append(kinds, styledKinds...)
			}
			dense := 70
			if thorough {
				dense, top = 280, 4*top
			}
			var out []Sized
			for _, n := range sweep.Sizes(dense, top) {
				for _, kind := range kinds {
					for v := 0; v < variants; v++ {
						out = append(out, Sized{kind, n, v})
					}
				}
			}

			return out
		},
		Check: func(s Sized, o *pbt.Obs) error { return f(s.Paragraph(), o) },
	}
}

// Nest is a paragraph with spans nested to a given depth.
type Nest struct {
	Depth   int `json:"depth"`
	Variant int `json:"variant"`
}

const nests = 6

// Paragraph is the paragraph described.
func (n Nest) Paragraph() Paragraph {
	word := func(i int) string { return letters(i, 1+(i*7+i/5)%4) }
	start := func(i int) string { return starts[(i+n.Variant)%len(starts)] }
	stop := func(i int) string { return stops[(i+n.Variant)%len(stops)] }
	open := times(n.Depth, func(i int) string { return start(i) + word(i) })
	between := []string{"so", "it", "is"}

	var tokens []string
	switch n.Variant {
	case 0: // all opened in as many tokens, closed at once
		tokens = append(append(tokens, open...), between...)
		tokens = append(tokens, "all"+strings.Join(times(n.Depth, stop), ""))
	case 1: // closed by tokens of their own
		tokens = append(append(tokens, open...), between...)
		tokens = append(tokens, times(n.Depth, stop)...)
	case 2: // closed one at a time
		tokens = append(append(tokens, open...), between...)
		tokens = append(tokens, times(n.Depth, func(i int) string { return word(i) + stop(i) })...)
	case 3: // half of them closed at once, then opened again, and all closed
		tokens = append(append(tokens, open...), between...)
		tokens = append(tokens, "half"+strings.Join(times(n.Depth/2, stop), ""))
		tokens = append(append(tokens, between...), open[n.Depth-n.Depth/2:]...)
		tokens = append(tokens, "all"+strings.Join(times(n.Depth, stop), ""))
	case 4: // opened in one token, closed at once
		tokens = append(append(tokens, "so", strings.Join(open, ",")), between...)
		tokens = append(tokens, "all"+strings.Join(times(n.Depth, stop), ""))
	default: // a pair closed at once, as many times
		for i := 0; i < n.Depth; i++ {
			tokens = append(tokens, start(i)+word(i), start(i+1)+word(i)+stop(i)+stop(i+1), word(i+2))
		}
	}

	return Paragraph{Tokens: append(tokens, "so", "on"), Width: float64(9 + 5*n.Variant)}
}

// Nests makes a check which runs f on paragraphs nested to various depths.
func Nests(f func(Paragraph, *pbt.Obs) error) pbt.Check {
	return pbt.Enum[Nest]{
		Name: "depths",
		List: func(thorough bool) []Nest {
			dense, top := 40, 130
			if thorough {
				dense, top = 130, 520
			}
			var out []Nest
			for _, n := range sweep.Sizes(dense, top) {
				for v := 0; v < nests; v++ {
					out = append(out, Nest{n, v})
				}
			}

			return out
		},
		Check: func(n Nest, o *pbt.Obs) error { return f(n.Paragraph(), o) },
	}
}
