// Package para generates paragraphs and options for the line breaker, and models how lines may be set.
package para

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"github.com/fredbi/go-typeset/linebreak"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/gens"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/langs"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/refs"
)

// Config holds the options of a line breaker, nil or zero when left to their defaults.
type Config struct {
	Tolerance     *float64 `json:"tolerance,omitempty"`
	Scale         *float64 `json:"scale,omitempty"`
	WordBreak     *bool    `json:"wordBreak,omitempty"`
	RenderHyphens *bool    `json:"renderHyphens,omitempty"`
	HyphenPenalty *float64 `json:"hyphenPenalty,omitempty"`
	Looseness     *int     `json:"looseness,omitempty"`
	Measurer      string   `json:"measurer,omitempty"`   // "", "runes", "double", "proportional", "half", "cents", "tableN", "giantN"
	Hyphenator    string   `json:"hyphenator,omitempty"` // "", a language, "pairs", "letters", "never", "cutsN"
	Punctuator    string   `json:"punctuator,omitempty"` // "", "whole"
	Units         float64  `json:"units,omitempty"`      // measures are multiples of it
	Enables       bool     `json:"enables,omitempty"`    // WithHyphenator comes after WithWordBreak: it enables word breaks
	Turn          int      `json:"turn,omitempty"`       // the independent options come in another order
	Twice         bool     `json:"twice,omitempty"`      // each option is first given another value: the last one wins
}

// mix is a hash.
func mix(a, b uint32) uint32 {
	h := a*0x9E3779B1 ^ b*0x85EBCA77
	h ^= h >> 15
	h *= 0xC2B2AE3D
	h ^= h >> 13

	return h
}

// RuneMeasure is the measure of one rune.
func (c Config) RuneMeasure(r rune) float64 {
	if c.Units != 0 {
		return c.Units * c.cells(r)
	}

	return c.cells(r)
}

func (c Config) cells(r rune) float64 {
	switch c.Measurer {
	case "":
		return float64(refs.Width(r, refs.WidthOptions{Ambiguous: 2}))
	case "runes":
		return 1
	case "double":
		return 2
	case "half":
		return 0.5
	case "cents": // no such measure is exact, nor are their sums
		h := mix(uint32(r), 3)
		if r == ' ' || r == '-' {
			return float64(20+h%40) / 100
		}

		return float64(29+h%90) / 100
	case "proportional":
		switch {
		case r == ' ':
			return 3
		case r == 'i' || r == 'l' || r == '.' || r == ',' || r == '-':
			return 2
		case r == 'm' || r == 'w' || r >= 'A' && r <= 'Z':
			return 7
		default:
			return 5
		}
	default:
		if n, ok := seed("giant", c.Measurer); ok { // a few letters are much wider than the rest
			switch h := mix(uint32(r), n); {
			case r == ' ' || r == '-':
				return float64(h % 4)
			case h%8 == 0:
				return 5000 + float64(h>>3%8)
			default:
				return float64(h >> 3 % 4)
			}
		}
		n, ok := seed("table", c.Measurer)
		if !ok {
			panic("unknown measurer " + c.Measurer)
		}
		h := mix(uint32(r), n)
		if r == ' ' || r == '-' {
			return float64(h % 7)
		}
		if h%16 == 0 {
			return 0
		}

		return float64(h % 9)
	}
}

// seed reads the number after a prefix.
func seed(prefix, name string) (uint32, bool) {
	s, ok := strings.CutPrefix(name, prefix)
	n, err := strconv.ParseUint(s, 10, 32)

	return uint32(n), ok && err == nil
}

// Cuts splits words at places which depend on the word only.
func Cuts(seed uint32) func([]rune) [][]rune {
	return func(word []rune) [][]rune {
		var parts [][]rune
		h := mix(uint32(len(word)), seed)
		density := h%4 + 1
		for _, r := range word {
			h = mix(h, uint32(r))
		}
		start := 0
		for i := 1; i < len(word); i++ {
			h = mix(h, uint32(i))
			if h>>8%density == 0 {
				parts = append(parts, word[start:i:i])
				start = i
			}
		}

		return append(parts, word[start:])
	}
}

// Measure of a text.
func (c Config) Measure(text []rune) float64 {
	var sum float64
	for _, r := range text {
		sum += c.RuneMeasure(r)
	}

	return sum
}

// EveryN splits words each n runes.
func EveryN(n int) func([]rune) [][]rune {
	return func(word []rune) [][]rune {
		var parts [][]rune
		for len(word) > n {
			parts = append(parts, word[:n:n])
			word = word[n:]
		}

		return append(parts, word)
	}
}

// Whole does not split words.
func Whole(word []rune) [][]rune { return [][]rune{word} }

// SplitFunc is the hyphenator in use. When none is set, this is the default one of the line breaker.
func (c Config) SplitFunc() func([]rune) [][]rune {
	switch c.Hyphenator {
	case "":
		return hyphenator.New(hyphenator.WithMinLength(4)).BreakWord
	case "pairs":
		return EveryN(2)
	case "letters":
		return EveryN(1)
	case "never":
		return Whole
	default:
		if n, ok := seed("cuts", c.Hyphenator); ok {
			return Cuts(n)
		}

		return hyphenator.New(hyphenator.WithLanguage(c.Hyphenator)).BreakWord
	}
}

// Options to build the line breaker.
func (c Config) Options() []linebreak.Option {
	var opts []linebreak.Option
	if c.Tolerance != nil {
		opts = append(opts, linebreak.WithTolerance(*c.Tolerance))
	}
	if c.Scale != nil {
		opts = append(opts, linebreak.WithScaleFactor(*c.Scale))
	}
	if c.RenderHyphens != nil {
		opts = append(opts, linebreak.WithRenderHyphens(*c.RenderHyphens))
	}
	if c.HyphenPenalty != nil {
		opts = append(opts, linebreak.WithHyphenPenalty(*c.HyphenPenalty))
	}
	if c.Looseness != nil {
		opts = append(opts, linebreak.WithLooseness(*c.Looseness))
	}
	if c.Measurer != "" || c.Units != 0 {
		opts = append(opts, linebreak.WithMeasurer(c.Measure))
	}
	if c.Punctuator == "whole" {
		opts = append(opts, linebreak.WithPunctuator(Whole))
	}
	for i := 0; i < c.Turn && len(opts) > 0; i++ {
		opts = append(opts[1:], opts[0])
	}
	if c.Twice {
		opts = append(c.others(), opts...)
	}
	if c.Hyphenator != "" && !c.Enables {
		opts = append(opts, linebreak.WithHyphenator(c.SplitFunc()))
	}
	if c.WordBreak != nil { // after WithHyphenator, which enables word breaks
		opts = append(opts, linebreak.WithWordBreak(*c.WordBreak))
	}
	if c.Hyphenator != "" && c.Enables {
		opts = append(opts, linebreak.WithHyphenator(c.SplitFunc()))
	}

	return opts
}

// others are the same options with other values.
func (c Config) others() []linebreak.Option {
	var opts []linebreak.Option
	if c.RenderHyphens != nil {
		opts = append(opts, linebreak.WithRenderHyphens(!*c.RenderHyphens))
	}
	if c.Tolerance != nil {
		opts = append(opts, linebreak.WithTolerance(*c.Tolerance/2+1))
	}
	if c.Scale != nil {
		opts = append(opts, linebreak.WithScaleFactor(*c.Scale*3))
	}
	if c.HyphenPenalty != nil {
		opts = append(opts, linebreak.WithHyphenPenalty(*c.HyphenPenalty+700))
	}
	if c.Looseness != nil {
		opts = append(opts, linebreak.WithLooseness(*c.Looseness+1))
	}
	if c.Measurer != "" || c.Units != 0 {
		opts = append(opts, linebreak.WithMeasurer(func(text []rune) float64 { return float64(3 * len(text)) }))
	}
	if c.Punctuator != "" {
		opts = append(opts, linebreak.WithPunctuator(EveryN(3)))
	}
	if c.Hyphenator != "" {
		opts = append(opts, linebreak.WithHyphenator(EveryN(3)))
	}
	if c.WordBreak != nil {
		opts = append(opts, linebreak.WithWordBreak(!*c.WordBreak))
	}

	return opts
}

// New line breaker with this configuration.
func (c Config) New() *linebreak.LineBreaker { return linebreak.New(c.Options()...) }

// Breaks tells whether words may be broken.
func (c Config) Breaks() bool {
	return c.WordBreak == nil || *c.WordBreak || (c.Enables && c.Hyphenator != "")
}

// Renders tells whether hyphens are rendered.
func (c Config) Renders() bool { return c.RenderHyphens == nil || *c.RenderHyphens }

// Unit is the measure of the narrowest letter.
func (c Config) Unit() float64 {
	if c.Units != 0 {
		return c.Units * c.letter()
	}

	return c.letter()
}

func (c Config) letter() float64 {
	switch c.Measurer {
	case "double":
		return 2
	case "half":
		return 0.5
	case "cents":
		return 0.75
	case "proportional":
		return 4
	case "", "runes":
		return 1
	default:
		return 4
	}
}

func (c Config) scale() float64 {
	if c.Scale == nil {
		return 1
	}

	return *c.Scale
}

func (c Config) tolerance() float64 {
	if c.Tolerance == nil {
		return 8.6
	}

	return *c.Tolerance
}

func ptr[V any](v V) *V { return &v }

// GenConfig draws options.
func GenConfig(t *rapid.T) Config {
	var c Config
	if rapid.IntRange(0, 4).Draw(t, "defaults") == 0 {
		return c
	}
	switch rapid.IntRange(0, 7).Draw(t, "tolerance?") {
	case 0, 1, 2, 3:
	case 4:
		c.Tolerance = ptr(rapid.SampledFrom([]float64{0.2, 0.5, 1, 1.5, 2}).Draw(t, "tolerance"))
	case 5:
		c.Tolerance = ptr(rapid.SampledFrom([]float64{3, 4.2, 6}).Draw(t, "tolerance"))
	default:
		c.Tolerance = ptr(rapid.SampledFrom([]float64{10, 20, 100, 1000, 5000, 9999}).Draw(t, "tolerance"))
	}
	c.Measurer = gens.Pick(t, "measurer", []int{8, 2, 1, 2, 1, 2, 1, 1}, []string{"", "runes", "double", "proportional", "half", "table", "giant", "cents"})
	if c.Measurer == "table" || c.Measurer == "giant" {
		c.Measurer += strconv.Itoa(rapid.IntRange(0, 99).Draw(t, "table"))
	}
	switch {
	case c.Measurer == "half":
		c.Scale = ptr(rapid.SampledFrom([]float64{2, 4}).Draw(t, "scale"))
	case c.Measurer == "cents":
		c.Scale = ptr(rapid.SampledFrom([]float64{100, 1000, 10000}).Draw(t, "scale"))
		c.Tolerance = ptr(rapid.SampledFrom([]float64{20, 100, 5000, 9999}).Draw(t, "tolerance"))
	case rapid.IntRange(0, 4).Draw(t, "scale?") == 0:
		c.Scale = ptr(rapid.SampledFrom([]float64{1, 2, 3, 7, 10, 997, 1000}).Draw(t, "scale"))
	}
	if c.Measurer != "half" && c.Measurer != "cents" && rapid.IntRange(0, 11).Draw(t, "units?") == 0 { // small units: wide text
		c.Units = gens.Pick(t, "units", []int{1, 2, 4, 1, 1}, []float64{10, 37, 997, 65537, 333333})
		c.Scale = nil
		if rapid.IntRange(0, 3).Draw(t, "largeTolerance") > 0 {
			c.Tolerance = ptr(rapid.SampledFrom([]float64{1000, 5000, 9999}).Draw(t, "tolerance"))
		}
	}
	if rapid.IntRange(0, 3).Draw(t, "wordBreak?") == 0 {
		c.WordBreak = ptr(rapid.IntRange(0, 2).Draw(t, "wordBreak") == 0)
	}
	if rapid.IntRange(0, 3).Draw(t, "renderHyphens?") == 0 {
		c.RenderHyphens = ptr(rapid.IntRange(0, 3).Draw(t, "renderHyphens") == 0)
	}
	if rapid.IntRange(0, 3).Draw(t, "hyphenPenalty?") == 0 {
		c.HyphenPenalty = ptr(rapid.SampledFrom([]float64{0, 1, 10, 50, 200, 300, 400, 1000, 5000, -20}).Draw(t, "hyphenPenalty"))
	}
	c.Hyphenator = gens.Pick(t, "hyphenator", []int{8, 1, 1, 1, 1, 1, 2, 1, 1, 3}, []string{"", "en-US", "en-GB", "fr", "de", "es", "pairs", "letters", "never", "cuts"})
	if c.Hyphenator == "cuts" {
		c.Hyphenator += strconv.Itoa(rapid.IntRange(0, 99).Draw(t, "cuts"))
	}
	c.Enables = c.Hyphenator != "" && c.WordBreak != nil && rapid.Bool().Draw(t, "enables")
	c.Punctuator = gens.Pick(t, "punctuator", []int{8, 1}, []string{"", "whole"})
	if rapid.IntRange(0, 9).Draw(t, "looseness?") == 0 {
		c.Looseness = ptr(0)
	}
	if rapid.Bool().Draw(t, "turned") {
		c.Turn = rapid.IntRange(1, 5).Draw(t, "turn")
	}
	c.Twice = gens.Pick(t, "twice", []int{7, 1}, []bool{false, true})

	return c
}

// Paragraph is a paragraph to break.
type Paragraph struct {
	Config Config   `json:"config"`
	Tokens []string `json:"tokens"`
	Width  float64  `json:"width"`
}

func (p Paragraph) String() string {
	return fmt.Sprintf("tokens %q, width %g, %+v", p.Tokens, p.Width, p.Config)
}

// GenWord draws a token without any white space nor escape.
func GenWord(t *rapid.T) string {
	switch gens.Pick(t, "kind", []int{8, 6, 4, 3, 3, 1, 1, 1}, []int{0, 1, 2, 3, 4, 5, 6, 7}) {
	case 0: // short words
		return rapid.SampledFrom([]string{"a", "I", "of", "to", "in", "the", "and", "was", "king", "when", "fair", "old", "lived", "sun", "e"}).Draw(t, "short")
	case 1: // long words
		return rapid.SampledFrom([]string{"hyphenation", "beautiful", "extraordinary", "typography", "representation", "wishing", "daughters", "youngest", "astonished", "whenever", "favorite", "plaything", "exercitation", "reprehenderit", "supercalifragilistic", "table", "project"}).Draw(t, "long")
	case 2: // with punctuation at the end
		return GenLetters(t, 7) + rapid.SampledFrom([]string{",", ".", ";", ":", "!", "?", "...", ",\"", ")", "…", "|"}).Draw(t, "punct")
	case 3: // with punctuation inside
		return GenLetters(t, 6) + rapid.SampledFrom([]string{"/", "_", ".", ":", "|", "'", "&", "@", "\\", "://"}).Draw(t, "punct") + GenLetters(t, 9)
	case 4: // with hyphens
		return GenLetters(t, 6) + rapid.SampledFrom([]string{"-", "--", "\u2010", "-", "-"}).Draw(t, "hyphen") + GenLetters(t, 6)
	case 5: // any word of a language
		w := langs.Word(rapid.SampledFrom(langs.All).Draw(t, "lang"), 24).Draw(t, "word")
		if s := clean(w); s != "" {
			return s
		}

		return "word"
	case 6: // wide and narrow runes
		return rapid.StringOfN(rapid.SampledFrom([]rune("漢字かな한글👍ｗab,é\u0301\u200Bx-")), 1, 10, -1).Draw(t, "wide")
	default: // nothing but punctuation, hyphens
		return rapid.StringOfN(rapid.SampledFrom([]rune("-,./'\"!a(")), 1, 5, -1).Draw(t, "marks")
	}
}

// clean removes white space, escapes, invalid runes.
func clean(w []rune) string {
	var out []rune
	for _, r := range w {
		if r <= 0x20 || r == 0x7f || r == 0x85 || r == 0xa0 || r == 0xFFFD || isSpace(r) || string([]rune{r}) == "\uFFFD" {
			continue
		}
		out = append(out, r)
	}

	return string(out)
}

func isSpace(r rune) bool {
	for _, s := range gens.Spaces {
		if r == s {
			return true
		}
	}

	return false
}

// GenLetters draws a word made of letters.
func GenLetters(t *rapid.T, max int) string {
	return rapid.StringOfN(rapid.SampledFrom([]rune("etaoinshrdlcumwé")), 1, max, -1).Draw(t, "letters")
}

// GenWidth draws a line width, in line with the words.
func GenWidth(t *rapid.T, c Config, tokens []string) float64 {
	longest, total := 1, 1
	for _, tok := range tokens {
		n := len([]rune(tok))
		longest = max(longest, n)
		total += n + 1
	}

	if exact := strings.HasPrefix(c.Measurer, "giant") || c.Measurer == "cents" && rapid.Bool().Draw(t, "exact"); len(tokens) > 0 && (exact || rapid.IntRange(0, 9).Draw(t, "run?") == 6) {
		// the measure of a run of tokens, or about
		i := rapid.IntRange(0, len(tokens)-1).Draw(t, "first")
		j := rapid.IntRange(i, min(i+12, len(tokens)-1)).Draw(t, "last")
		run := strings.Join(tokens[i:j+1], " ")
		if w := c.Measure([]rune(run)); w > 0 && !strings.Contains(run, "\x1b") {
			step := c.Unit()
			if c.Measurer == "cents" {
				return math.Round(w*100+float64(rapid.SampledFrom([]int{0, 0, 1, 2, 5, 10, 30}).Draw(t, "more"))) / 100
			}
			if c.letter() == 4 {
				step /= 4
			}

			return w + float64(rapid.IntRange(0, 6).Draw(t, "more"))*step
		}
	}

	var n int
	switch rapid.IntRange(0, 9).Draw(t, "width?") {
	case 0:
		n = rapid.IntRange(1, 4).Draw(t, "width")
	case 1, 2, 3:
		n = rapid.IntRange(max(1, longest-3), longest+3).Draw(t, "width")
	case 4, 5, 6:
		n = rapid.IntRange(4, 2*longest+6).Draw(t, "width")
	case 7, 8:
		n = rapid.IntRange(8, 60).Draw(t, "width")
	default:
		n = rapid.IntRange(max(1, total-4), total+4).Draw(t, "width")
	}

	w := float64(n) * c.Unit()
	if c.Measurer == "cents" {
		return (75*float64(n) + float64(rapid.IntRange(0, 99).Draw(t, "more"))) / 100
	}
	if c.letter() == 4 {
		more := float64(rapid.IntRange(0, 3).Draw(t, "more"))
		w = math.Round(w) + more*c.Unit()/4
	}

	return w
}

// Gen draws paragraphs without escapes.
func Gen(max int) func(*rapid.T) Paragraph {
	return func(t *rapid.T) Paragraph {
		p := Paragraph{Config: GenConfig(t)}
		n := rapid.IntRange(1, max).Draw(t, "n")
		var few []string // a small vocabulary makes more ties
		if rapid.IntRange(0, 5).Draw(t, "vocabulary") == 0 {
			for k := rapid.IntRange(1, 3).Draw(t, "words"); k > 0; k-- {
				few = append(few, GenWord(t))
			}
		}
		for i := 0; i < n; i++ {
			if few != nil {
				p.Tokens = append(p.Tokens, rapid.SampledFrom(few).Draw(t, "again"))
			} else {
				p.Tokens = append(p.Tokens, GenWord(t))
			}
		}
		p.Width = GenWidth(t, p.Config, p.Tokens)

		return p
	}
}

// Huge is a compact description of a large paragraph.
type Huge struct {
	Config     Config   `json:"config"`
	Vocabulary []string `json:"vocabulary"`
	N          int      `json:"n"` // number of tokens
	Seed       int      `json:"seed"`
	Spans      int      `json:"spans,omitempty"` // about one token in as many opens a span
	Width      float64  `json:"width"`
}

// Paragraph is the paragraph described.
func (h Huge) Paragraph() Paragraph {
	p := Paragraph{Config: h.Config, Width: h.Width}
	left := -1 // tokens left in the current span
	for i := 0; i < h.N; i++ {
		k := mix(uint32(i), uint32(h.Seed))
		tok := h.Vocabulary[k%uint32(len(h.Vocabulary))]
		if h.Spans > 0 {
			if left < 0 && k>>8%uint32(h.Spans) == 0 {
				tok = starts[k>>12%uint32(len(starts))] + tok
				left = int(k >> 16 % 5 * (k >> 20 % 5))
			}
			if left == 0 || left > 0 && i+1 == h.N {
				tok += stops[k>>24%uint32(len(stops))]
				left = 0
			}
			left = max(-1, left-1)
		}
		p.Tokens = append(p.Tokens, tok)
	}

	return p
}

// GenHuge draws large paragraphs, of up to 2^bits tokens or so.
func GenHuge(bits int) func(*rapid.T) Huge {
	return func(t *rapid.T) Huge {
		h := Huge{
			Config:     GenConfig(t),
			Vocabulary: rapid.SliceOfN(rapid.Custom(GenWord), 1, 6).Draw(t, "vocabulary"),
			Seed:       rapid.IntRange(0, 9999).Draw(t, "seed"),
		}
		size := 1 << rapid.IntRange(6, bits).Draw(t, "bits")
		if rapid.Bool().Draw(t, "near") {
			h.N = size + rapid.IntRange(-3, 3).Draw(t, "delta")
		} else {
			h.N = rapid.IntRange(size/2, size).Draw(t, "n")
		}
		if rapid.IntRange(0, 2).Draw(t, "styled") == 0 {
			h.Spans = rapid.IntRange(1, 12).Draw(t, "spans")
		}
		h.Width = GenWidth(t, h.Config, h.Vocabulary)

		return h
	}
}
