// Package ops describes calls to the public functions, with their expected results.
package ops

import (
	"fmt"
	"reflect"
	"strings"
	"unicode"

	"pgregory.net/rapid"

	"github.com/fredbi/go-typeset/linebreak"
	"github.com/fredbi/go-typeset/terminal/ansi"
	"github.com/fredbi/go-typeset/terminal/runes"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/gens"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/langs"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/para"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/refs"
	"github.com/fredbi/go-typeset/wordbreak/punctuator"
	"github.com/fredbi/go-typeset/wordbreak/tokenizer"
)

// Op is one call.
type Op struct {
	Kind    string       `json:"op"`
	Lang    int          `json:"lang,omitempty"`
	Limits  langs.Limits `json:"limits,omitzero"`
	Fresh   bool         `json:"fresh,omitempty"`  // with an object of its own
	FromStr bool         `json:"string,omitempty"` // the variant that takes a string
	Text    gens.Text    `json:"text,omitempty"`
	Asian   bool         `json:"eastAsian,omitempty"`
	Skip    bool         `json:"skip,omitempty"`
	Wide    *int         `json:"ambiguous,omitempty"`
	Plain   bool         `json:"plain,omitempty"` // without any option
	File    string       `json:"file,omitempty"`
	Config  para.Config  `json:"config,omitzero"`
	Tokens  []string     `json:"tokens,omitempty"`
	MaxCols float64      `json:"width,omitempty"`
}

// Result of a call.
type Result struct {
	Parts [][]rune
	Strip []ansi.StrippedToken
	Lines []string
	Value string
}

// Clone is a deep copy.
func (r Result) Clone() Result {
	out := Result{Value: r.Value, Lines: append([]string(nil), r.Lines...)}
	if r.Parts != nil {
		out.Parts = gens.CloneParts(r.Parts)
	}
	for _, s := range r.Strip {
		out.Strip = append(out.Strip, ansi.StrippedToken{
			Text: clone(s.Text), StartSequence: clone(s.StartSequence), StopSequence: clone(s.StopSequence), Remainder: clone(s.Remainder),
		})
	}

	return out
}

func clone(rs []rune) []rune { return append([]rune{}, rs...) }

// Equal compares results.
func (r Result) Equal(s Result) bool {
	if r.Value != s.Value || !gens.EqualParts(r.Parts, s.Parts) || len(r.Strip) != len(s.Strip) || len(r.Lines) != len(s.Lines) {
		return false
	}
	for i, a := range r.Strip {
		b := s.Strip[i]
		if !gens.Equal(a.Text, b.Text) || !gens.Equal(a.StartSequence, b.StartSequence) || !gens.Equal(a.StopSequence, b.StopSequence) || !gens.Equal(a.Remainder, b.Remainder) {
			return false
		}
	}

	return len(r.Lines) == 0 || reflect.DeepEqual(r.Lines, s.Lines)
}

func (r Result) String() string {
	var out []string
	if r.Parts != nil {
		out = append(out, fmt.Sprintf("parts %q", gens.Strings(r.Parts)))
	}
	for _, s := range r.Strip {
		out = append(out, fmt.Sprintf("{text %q start %q stop %q remainder %q}", string(s.Text), string(s.StartSequence), string(s.StopSequence), string(s.Remainder)))
	}
	if r.Lines != nil {
		out = append(out, fmt.Sprintf("lines %q", r.Lines))
	}

	return strings.Join(append(out, r.Value), " ")
}

// Spoil overwrites everything in the result, and appends to its slices.
func (r Result) Spoil() {
	spoil := func(rs []rune) {
		for i := range rs {
			rs[i] = 0x2603
		}
		_ = append(rs, 0x2603, 0x2603, 0x2603)
	}
	for i := range r.Parts {
		spoil(r.Parts[i])
		r.Parts[i] = []rune("spoiled")
	}
	_ = append(r.Parts, []rune("spoiled"), []rune("spoiled"))
	for i, s := range r.Strip {
		spoil(s.Text)
		spoil(s.StartSequence)
		spoil(s.StopSequence)
		spoil(s.Remainder)
		r.Strip[i] = ansi.StrippedToken{Text: []rune("spoiled")}
	}
	_ = append(r.Strip, ansi.StrippedToken{Text: []rune("spoiled")})
	for i := range r.Lines {
		r.Lines[i] = "spoiled"
	}
	_ = append(r.Lines, "spoiled")
}

func (o Op) String() string {
	switch o.Kind {
	case "hyphenate":
		a, b, c := o.Limits.Values()

		return fmt.Sprintf("hyphenate %q in %s (%d, %d, %d)", string(o.Text), langs.All[o.Lang].Tag, a, b, c)
	case "lines":
		return fmt.Sprintf("lines of %q, width %g, %+v", o.Tokens, o.MaxCols, o.Config)
	case "load":
		return "load " + o.File
	default:
		return fmt.Sprintf("%s %q asian=%t skip=%t plain=%t", o.Kind, string(o.Text), o.Asian, o.Skip, o.Plain)
	}
}

// Objects are shared by several calls.
type Objects struct {
	Hyphenators map[string]*hyphenator.Hyphenator
	Punctuator  *punctuator.Punctuator
	Tokenizer   *tokenizer.Tokenizer
}

// NewObjects to share. It builds no hyphenator yet.
func NewObjects() *Objects {
	return &Objects{Hyphenators: map[string]*hyphenator.Hyphenator{}, Punctuator: punctuator.New(), Tokenizer: tokenizer.New()}
}

// Prepare the hyphenator that a call needs.
func (x *Objects) Prepare(o Op) {
	if o.Kind == "hyphenate" && !o.Fresh && x.Hyphenators[o.key()] == nil {
		x.Hyphenators[o.key()] = o.build()
	}
}

func (o Op) key() string {
	a, b, c := o.Limits.Values()

	return fmt.Sprint(o.Lang, a, b, c)
}

func (o Op) build() *hyphenator.Hyphenator {
	return hyphenator.New(append(o.Limits.Options(), hyphenator.WithLanguage(langs.All[o.Lang].Tag))...)
}

// Input makes a fresh input for the call, with some guarded room after it.
func (o Op) Input() []rune {
	buf := make([]rune, len(o.Text)+3)
	copy(buf, o.Text)
	for i := len(o.Text); i < len(buf); i++ {
		buf[i] = 0x2668
	}

	return buf[:len(o.Text)]
}

// Intact tells whether the input is as made by Input.
func (o Op) Intact(input []rune) bool {
	if !gens.Equal(input, o.Text) {
		return false
	}
	for _, r := range input[len(input) : len(input)+3] {
		if r != 0x2668 {
			return false
		}
	}

	return true
}

func (o Op) options() []runes.Option {
	if o.Plain {
		return nil
	}
	opts := []runes.Option{runes.WithEastAsian(o.Asian), runes.WithSkipStrictEmojiNeutral(o.Skip)}
	if o.Wide != nil {
		opts = append(opts, runes.WithEastAsianAmbiguousWidth(*o.Wide))
	}

	return opts
}

func (o Op) lossless() bool { return gens.Equal([]rune(string(o.Text)), o.Text) }

// Run the call on an input made by Input.
func (o Op) Run(x *Objects, input []rune) (out Result) {
	asString := o.FromStr && o.lossless()
	switch o.Kind {
	case "hyphenate":
		var h *hyphenator.Hyphenator
		if o.Fresh {
			h = o.build()
		} else {
			h = x.Hyphenators[o.key()]
		}
		if asString {
			out.Parts = h.BreakWordString(string(input))
		} else {
			out.Parts = h.BreakWord(input)
		}
	case "punctuate":
		p := x.Punctuator
		if o.Fresh {
			p = punctuator.New()
		}
		if asString {
			out.Parts = p.BreakWordString(string(input))
		} else {
			out.Parts = p.BreakWord(input)
		}
	case "tokenize":
		p := x.Tokenizer
		if o.Fresh {
			p = tokenizer.New()
		}
		if asString {
			out.Parts = p.BreakWordString(string(input))
		} else {
			out.Parts = p.BreakWord(input)
		}
	case "fields":
		out.Parts = runes.FieldsFunc(input, unicode.IsUpper)
	case "hyphens":
		out.Parts = hyphenator.SplitWord(input)
	case "strip":
		out.Strip = ansi.StripToken(input)
	case "strip1":
		out.Strip = []ansi.StrippedToken{ansi.StripANSIFromRunes(input)}
	case "widths":
		n := 0
		if asString {
			n = runes.StringWidth(string(input), o.options()...)
		} else {
			n = runes.Widths(input, o.options()...)
		}
		out.Value = fmt.Sprint(n)
	case "width":
		var all []int
		for _, r := range input {
			all = append(all, runes.Width(r, o.options()...))
		}
		out.Value = fmt.Sprint(all)
	case "is":
		out.Value = fmt.Sprint(hyphenator.IsHyphen(input), punctuator.IsPunctuation(input))
		for _, r := range input {
			out.Value += fmt.Sprint(runes.IsAmbiguous(r))
		}
	case "load":
		d, err := hyphenator.LoadPatterns(o.File)
		out.Value = fmt.Sprint(err != nil)
		if d != nil && err == nil {
			out.Value += d.Identifier
		}
	case "patterns":
		list, err := hyphenator.SupportedPatterns()
		out.Lines = list
		out.Value = fmt.Sprint(err)
	case "lines":
		lines, err := o.Config.New().LeftAlignUniform(append([]string{}, o.Tokens...), o.MaxCols)
		out.Lines = lines
		if err != nil {
			out.Value = err.Error()
		}
	default:
		panic("unknown call " + o.Kind)
	}

	return out
}

func isPunctuation(r rune) bool {
	return r == '|' || (unicode.Is(unicode.P, r) && !unicode.Is(unicode.Hyphen, r))
}

// split cuts at separators, kept or not.
func split(text []rune, is func(rune) bool, keep bool) (parts [][]rune) {
	var run []rune
	for i, r := range text {
		if !is(r) {
			run = append(run, r)
			if i < len(text)-1 {
				continue
			}
		}
		if len(run) > 0 {
			parts = append(parts, run)
			run = nil
		}
		if keep && is(r) {
			parts = append(parts, []rune{r})
		}
	}

	return parts
}

// Expect is the expected result, when a reference exists.
func (o Op) Expect() (want Result, ok bool) {
	switch o.Kind {
	case "hyphenate":
		for _, r := range o.Text {
			if r == '.' {
				return want, false
			}
		}
		if len(o.Text) == 0 {
			return want, false
		}
		a, b, c := o.Limits.Values()
		want.Parts = langs.Liang(langs.All[o.Lang].File).Break(o.Text, a, b, c)
	case "punctuate":
		want.Parts = split(o.Text, isPunctuation, true)
	case "hyphens":
		want.Parts = split(o.Text, func(r rune) bool { return unicode.Is(unicode.Hyphen, r) }, true)
	case "tokenize":
		want.Parts = split(o.Text, unicode.IsSpace, false)
	case "fields":
		want.Parts = split(o.Text, unicode.IsUpper, false)
	case "widths", "width":
		w := refs.WidthOptions{EastAsian: o.Asian, SkipNeutral: o.Skip, Ambiguous: 2}
		if o.Wide != nil {
			w.Ambiguous = *o.Wide
		}
		if o.Plain {
			w = refs.WidthOptions{Ambiguous: 2}
		}
		var all []int
		sum := 0
		for _, r := range o.Text {
			all = append(all, refs.Width(r, w))
			sum += all[len(all)-1]
		}
		want.Value = fmt.Sprint(sum)
		if o.Kind == "width" {
			want.Value = fmt.Sprint(all)
		}
	case "is":
		one := len(o.Text) == 1
		want.Value = fmt.Sprint(one && unicode.Is(unicode.Hyphen, o.Text[0]), one && isPunctuation(o.Text[0]))
		for _, r := range o.Text {
			want.Value += fmt.Sprint(refs.Ambiguous(r))
		}
	default:
		return want, false
	}

	return want, true
}

var _ = linebreak.ErrCannotBeSet

// Pool holds the inputs of one history, so that calls meet the same ones again.
type Pool struct {
	words  []gens.Text
	limits []langs.Limits
	langs  []int
	paras  []para.Paragraph
}

// GenPool draws the inputs.
func GenPool(t *rapid.T) *Pool {
	p := &Pool{limits: []langs.Limits{{}}}
	for n := rapid.IntRange(1, 3).Draw(t, "langs"); n > 0; n-- {
		p.langs = append(p.langs, rapid.IntRange(0, len(langs.All)-1).Draw(t, "lang"))
	}
	for n := rapid.IntRange(0, 2).Draw(t, "limits"); n > 0; n-- {
		p.limits = append(p.limits, langs.GenLimits(t))
	}
	for n := rapid.IntRange(2, 7).Draw(t, "words"); n > 0; n-- {
		if len(p.words) > 0 && rapid.IntRange(0, 2).Draw(t, "similar") == 0 {
			p.words = append(p.words, similar(t, rapid.SampledFrom(p.words).Draw(t, "to")))

			continue
		}
		p.words = append(p.words, genText(t, p.langs))
	}
	for n := rapid.IntRange(0, 1).Draw(t, "paras"); n > 0; n-- {
		p.paras = append(p.paras, para.GenStyled(t, para.Gen(8)(t), para.Anywhere))
	}

	return p
}

// similar draws a text of the same length.
func similar(t *rapid.T, text gens.Text) gens.Text {
	out := text.Clone()
	if len(out) == 0 {
		return out
	}
	i, j := rapid.IntRange(0, len(out)-1).Draw(t, "i"), rapid.IntRange(0, len(out)-1).Draw(t, "j")
	if rapid.Bool().Draw(t, "swap") {
		out[i], out[j] = out[j], out[i]
	} else {
		out[i] = rapid.SampledFrom([]rune("aestn-,é漢 ")).Draw(t, "rune")
	}

	return out
}

func genText(t *rapid.T, of []int) gens.Text {
	switch gens.Pick(t, "text", []int{8, 2, 2, 2, 2}, []int{0, 1, 2, 3, 4}) {
	case 0:
		lang := langs.All[rapid.SampledFrom(of).Draw(t, "lang")]

		return langs.SwapCase(t, langs.Word(lang, 30).Draw(t, "word"))
	case 1:
		var out gens.Text
		for n := rapid.IntRange(1, 3).Draw(t, "pieces"); n > 0; n-- {
			out = append(append(out, gens.Escape(t)...), []rune(para.GenWord(t))...)
		}

		return out
	case 2:
		return gens.Text(para.GenWord(t) + rapid.SampledFrom([]string{" ", ",", "-", "\u00a0", "|"}).Draw(t, "sep") + para.GenWord(t))
	case 3:
		return gens.Text(rapid.SliceOfN(rapid.SampledFrom(append([]rune("aé漢👍\u0301¡ø☺©"), gens.Special...)), 1, 8).Draw(t, "cells"))
	default:
		return gens.AnyText(12).Draw(t, "any")
	}
}

// GenOp draws a call on inputs of the pool.
func GenOp(t *rapid.T, p *Pool) Op {
	o := Op{
		Kind: gens.Pick(t, "op", []int{16, 3, 2, 1, 3, 3, 1, 4, 2, 1, 1, 1, 2},
			[]string{"hyphenate", "punctuate", "tokenize", "fields", "hyphens", "strip", "strip1", "widths", "width", "is", "load", "patterns", "lines"}),
		Fresh: rapid.IntRange(0, 3).Draw(t, "fresh") == 0,
	}
	switch o.Kind {
	case "load":
		o.File = rapid.SampledFrom([]string{"nofile.tex", "", "../hyph-fr.tex", "hyph-es.tex", "hyph-fr.tex"}).Draw(t, "file")

		return o
	case "patterns":
		return o
	case "lines":
		if len(p.paras) > 0 {
			q := rapid.SampledFrom(p.paras).Draw(t, "para")
			o.Config, o.Tokens, o.MaxCols = q.Config, q.Tokens, q.Width

			return o
		}
		o.Kind = "hyphenate"
	}
	o.Text = gens.Text(rapid.SampledFrom(p.words).Draw(t, "word").Clone())
	o.FromStr = rapid.IntRange(0, 4).Draw(t, "string") == 0
	switch o.Kind {
	case "hyphenate":
		o.Lang = rapid.SampledFrom(p.langs).Draw(t, "lang")
		o.Limits = rapid.SampledFrom(p.limits).Draw(t, "limits")
		if rapid.IntRange(0, 5).Draw(t, "recase") == 0 {
			o.Text = langs.SwapCase(t, o.Text)
		}
	case "widths", "width":
		o.Plain = rapid.IntRange(0, 2).Draw(t, "plain") == 0
		if !o.Plain {
			o.Asian = rapid.Bool().Draw(t, "asian")
			o.Skip = rapid.IntRange(0, 3).Draw(t, "skip") == 0
			if rapid.Bool().Draw(t, "wide?") {
				n := rapid.IntRange(0, 3).Draw(t, "wide")
				o.Wide = &n
			}
		}
	case "is":
		if len(o.Text) > 1 && rapid.Bool().Draw(t, "one") {
			o.Text = o.Text[:1]
		}
	}

	return o
}
