package main

import (
	"errors"
	"fmt"
	"io"
	"math"
	"strings"
	"unicode"

	"golang.org/x/text/language"
	"pgregory.net/rapid"

	"github.com/fredbi/go-typeset/attributes"
	"github.com/fredbi/go-typeset/linebreak"
	"github.com/fredbi/go-typeset/terminal/ansi"
	"github.com/fredbi/go-typeset/terminal/runes"
	"github.com/fredbi/go-typeset/terminal/runes/runesio"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/gens"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/langs"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/para"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/pbt"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/sweep"
	"github.com/fredbi/go-typeset/wordbreak/punctuator"
	"github.com/fredbi/go-typeset/wordbreak/tokenizer"
)

// words is any text given to the functions on words.
type words struct {
	Text   gens.Text    `json:"text"`
	Times  int          `json:"times"` // the text is repeated
	Bytes  []byte       `json:"bytes,omitempty"`
	Lang   string       `json:"lang"`
	Limits langs.Limits `json:"limits"`
	Asian  bool         `json:"eastAsian"`
	Skip   bool         `json:"skip"`
	Wide   int          `json:"ambiguous"`
}

func genLang(t *rapid.T) string {
	switch rapid.IntRange(0, 5).Draw(t, "lang?") {
	case 0, 1:
		return rapid.SampledFrom(langs.All).Draw(t, "lang").Tag
	case 2:
		return rapid.SampledFrom([]string{"", "-", "en-", "x", "und", "EN_us", "fr-FR", "zz", "i-klingon", "de-DE-1996-u-co-phonebk", "x-private", "root", "\x00", "é", "en-US-en-US-en-US", "art-lojban", "*", "q=0.5", "fr;q=0.5, en", ",", "de,fr", "mul", "zxx", "en-a", "a-a-a-a"}).Draw(t, "odd")
	case 3:
		return string([]rune(gens.AnyText(12).Draw(t, "any")))
	default:
		return rapid.StringMatching(`[a-zA-Z]{1,8}([-_][a-zA-Z0-9]{1,8}){0,4}`).Draw(t, "tag")
	}
}

func genLimit(t *rapid.T, name string) *int {
	if rapid.Bool().Draw(t, name+"?") {
		return nil
	}
	n := gens.Pick(t, name+"Kind", []int{4, 2, 1}, []*rapid.Generator[int]{
		rapid.IntRange(-3, 12), rapid.IntRange(-100, 6000), rapid.SampledFrom([]int{math.MinInt, math.MaxInt, math.MinInt32, math.MaxInt32}),
	}).Draw(t, name)

	return &n
}

func genAnyWord(t *rapid.T) gens.Text {
	switch rapid.IntRange(0, 5).Draw(t, "word?") {
	case 0, 1:
		return langs.Word(rapid.SampledFrom(langs.All).Draw(t, "of"), 60).Draw(t, "word")
	case 2:
		var out gens.Text
		for n := rapid.IntRange(1, 4).Draw(t, "escapes"); n > 0; n-- {
			seq := gens.Escape(t)
			out = append(out, seq[:rapid.IntRange(0, len(seq)).Draw(t, "cut")]...)
			out = append(out, gens.AnyText(3).Draw(t, "between")...)
		}

		return out
	default:
		return gens.AnyText(30).Draw(t, "any")
	}
}

func genWords(t *rapid.T) words {
	w := words{Text: genAnyWord(t), Times: 1, Lang: genLang(t)}
	if rapid.IntRange(0, 9).Draw(t, "repeat") == 0 {
		w.Times = rapid.IntRange(1, 60).Draw(t, "times")
	}
	if rapid.IntRange(0, 3).Draw(t, "bytes?") == 0 {
		w.Bytes = rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, "bytes")
	}
	w.Limits = langs.Limits{Length: genLimit(t, "length"), Left: genLimit(t, "left"), Right: genLimit(t, "right")}
	w.Asian, w.Skip = rapid.Bool().Draw(t, "asian"), rapid.Bool().Draw(t, "skip")
	w.Wide = gens.Pick(t, "wide?", []int{4, 1}, []*rapid.Generator[int]{rapid.IntRange(-1, 3), rapid.Int()}).Draw(t, "wide")

	return w
}

func (w words) text() []rune {
	out := w.Text.Clone()
	for i := 1; i < w.Times; i++ {
		out = append(out, w.Text...)
	}

	return out
}

// all the functions on words: nothing is expected but an end.
func (w words) all() error {
	text := w.text()
	inputs := []string{string(text), string(w.Bytes)}
	opts := []runes.Option{runes.WithEastAsian(w.Asian), runes.WithSkipStrictEmojiNeutral(w.Skip), runes.WithEastAsianAmbiguousWidth(w.Wide)}

	_ = runes.Widths(text)
	_ = runes.Widths(text, opts...)
	for _, r := range text {
		_, _ = runes.Width(r), runes.Width(r, opts...)
		_ = runes.IsAmbiguous(r)
	}
	_ = runes.FieldsFunc(text, unicode.IsSpace)
	_ = ansi.StripANSIFromRunes(text)
	_ = ansi.StripToken(text)
	_ = punctuator.New().BreakWord(text)
	_ = tokenizer.New().BreakWord(text)
	_, _ = hyphenator.IsHyphen(text), punctuator.IsPunctuation(text)
	_ = hyphenator.SplitWord(text)

	h := hyphenator.New(append(w.Limits.Options(), hyphenator.WithLanguage(w.Lang))...)
	_ = h.BreakWord(text)
	tagged := hyphenator.New(append(w.Limits.Options(), hyphenator.WithLanguageTag(language.Make(w.Lang)))...)
	_ = tagged.BreakWord(text)
	for _, s := range inputs {
		_ = runes.StringWidth(s)
		_ = runes.StringWidth(s, opts...)
		_ = punctuator.New().BreakWordString(s)
		_ = tokenizer.New().BreakWordString(s)
		_ = h.BreakWordString(s)
		if dict, err := hyphenator.LoadPatterns(s); err == nil && dict == nil {
			return fmt.Errorf("no dictionary and no error for %q", s)
		}
	}

	rdr := runesio.NewSliceReader(text)
	for n := 0; ; n++ {
		if _, _, err := rdr.ReadRune(); errors.Is(err, io.EOF) {
			break
		} else if err != nil || n > len(text) {
			return fmt.Errorf("reader of %q: no end, error %v", string(text), err)
		}
	}
	_ = rdr.Runes()
	wtr := runesio.AsRunesWriter(new(strings.Builder))
	_, _ = wtr.WriteRunes(text)

	state := attributes.NewState()
	for _, s := range ansi.StripToken(text) {
		state.Push(attributes.New(s.Text, s.StartSequence, s.StopSequence))
	}
	for it := state.Iterator(); it.Next(); {
		it.StartOfLine(wtr)
		it.Item().Render(wtr)
		it.EndOfLine(wtr)
	}

	return nil
}

// paragraph is anything given to the line breaker.
type paragraph struct {
	para.Paragraph
	Tol     string `json:"anyTolerance,omitempty"` // floats as text: they may be infinite
	Wid     string `json:"anyWidth"`
	Penalty string `json:"anyPenalty,omitempty"`
	Loose   int    `json:"anyLooseness,omitempty"`
	Raw     []byte `json:"raw,omitempty"` // one more token
	Times   int    `json:"times"`
}

func genFloat(t *rapid.T, name string) string {
	return gens.Pick(t, name+"?", []int{5, 3, 2}, []*rapid.Generator[string]{
		rapid.Custom(func(t *rapid.T) string { return fmt.Sprint(rapid.IntRange(-3, 60).Draw(t, "n")) }),
		rapid.Custom(func(t *rapid.T) string { return fmt.Sprint(rapid.Float64Range(-2, 200).Draw(t, "n")) }),
		rapid.SampledFrom([]string{"0", "-1", "NaN", "+Inf", "-Inf", "1e300", "-1e300", "1e-300", "1e20", "9999", "10000", "10001", "0.4", "-0.0001"}),
	}).Draw(t, name)
}

func parse(s string) float64 {
	var f float64
	if _, err := fmt.Sscan(s, &f); err != nil {
		pbt.Internal("%v", err)
	}

	return f
}

func genParagraph(t *rapid.T) paragraph {
	p := paragraph{Times: 1}
	p.Config = para.GenConfig(t)
	switch rapid.IntRange(0, 2).Draw(t, "tokens?") {
	case 0:
		p.Paragraph = para.GenStyled(t, para.Gen(20)(t), para.Nested)
	default:
		p.Tokens = para.GenAnyTokens(t, 14)
	}
	if rapid.IntRange(0, 5).Draw(t, "raw?") == 0 {
		p.Raw = rapid.SliceOfN(rapid.Byte(), 1, 12).Draw(t, "raw")
	}
	if rapid.IntRange(0, 12).Draw(t, "repeat") == 0 {
		p.Times = rapid.IntRange(1, 12).Draw(t, "times")
	}
	if rapid.Bool().Draw(t, "tolerance?") {
		p.Tol = genFloat(t, "tolerance")
	}
	p.Wid = genFloat(t, "width")
	if rapid.IntRange(0, 3).Draw(t, "penalty?") == 0 {
		p.Penalty = fmt.Sprint(rapid.SampledFrom([]float64{0, 1, 0.5, -1, -30, 77, 300, 1000, 5000, 9999, -300, -5000}).Draw(t, "penalty"))
	}
	if rapid.IntRange(0, 5).Draw(t, "looseness?") == 0 {
		p.Loose = rapid.IntRange(-3, 3).Draw(t, "looseness")
	}

	return p
}

func (p paragraph) breaker() *linebreak.LineBreaker {
	opts := p.Config.Options()
	if p.Tol != "" {
		opts = append(opts, linebreak.WithTolerance(parse(p.Tol)))
	}
	if p.Penalty != "" {
		opts = append(opts, linebreak.WithHyphenPenalty(parse(p.Penalty)))
	}
	if p.Loose != 0 {
		opts = append(opts, linebreak.WithLooseness(p.Loose))
	}

	return linebreak.New(opts...)
}

func (p paragraph) tokens() []string {
	var out []string
	for i := 0; i < p.Times; i++ {
		out = append(out, p.Tokens...)
	}
	if len(p.Raw) > 0 {
		out = append(out, string(p.Raw))
	}

	return out
}

func (p paragraph) check(o *pbt.Obs) error {
	lines, err := p.breaker().LeftAlignUniform(p.tokens(), parse(p.Wid))
	o.ClassIf(err == nil, "set")
	o.ClassIf(err != nil, "refused")
	o.NonTrivialIf(len(lines) > 1 || len(p.Tokens) > 1)
	if err != nil && !errors.Is(err, linebreak.ErrCannotBeSet) {
		return fmt.Errorf("tokens %q, width %s: unexpected error %w", p.tokens(), p.Wid, err)
	}
	if err != nil && len(lines) > 0 {
		return fmt.Errorf("tokens %q, width %s: refused with %d lines", p.tokens(), p.Wid, len(lines))
	}

	return nil
}

// renderers, any of them missing or empty, and the calls on their iterators, in any order.
type renderers struct {
	Pushed []attribute `json:"pushed"`
	Calls  []walkCall  `json:"calls"`
}

type attribute struct {
	Missing bool      `json:"missing,omitempty"`
	Text    gens.Text `json:"text,omitempty"`
	Start   gens.Text `json:"start,omitempty"`
	Stop    gens.Text `json:"stop,omitempty"`
	Level   int       `json:"level,omitempty"`
}

type walkCall struct {
	Kind  string `json:"kind"`
	Which int    `json:"which"` // iterator
}

func genRenderers(t *rapid.T) renderers {
	var c renderers
	maybe := func(name string) gens.Text {
		if rapid.Bool().Draw(t, name+"?") {
			return nil
		}

		return gens.AnyText(4).Draw(t, name)
	}
	for n := rapid.IntRange(0, 12).Draw(t, "n"); n > 0; n-- {
		a := attribute{Text: maybe("text"), Start: maybe("start"), Stop: maybe("stop"), Level: rapid.IntRange(-3, 3).Draw(t, "level")}
		a.Missing = rapid.IntRange(0, 9).Draw(t, "missing") == 7
		c.Pushed = append(c.Pushed, a)
	}
	kinds := []string{"next", "next", "next", "item", "render", "start", "end", "iterator", "first", "push"}
	for n := rapid.IntRange(0, 40).Draw(t, "calls"); n > 0; n-- {
		c.Calls = append(c.Calls, walkCall{rapid.SampledFrom(kinds).Draw(t, "kind"), rapid.IntRange(0, 3).Draw(t, "which")})
	}

	return c
}

func (c renderers) check(o *pbt.Obs) error {
	var (
		state  = attributes.NewState()
		out    strings.Builder
		wtr    = runesio.AsRunesWriter(&out)
		walks  = []*attributes.StateIterator{state.Iterator(), state.First()} // of an empty state
		pushed = 0
		list   attributes.Renderers
	)
	push := func() {
		if pushed == len(c.Pushed) {
			return
		}
		a := c.Pushed[pushed]
		pushed++
		if a.Missing {
			state.Push(nil)
			list = append(list, nil)

			return
		}
		r := attributes.New(a.Text.Clone(), a.Start.Clone(), a.Stop.Clone())
		r.SetLevel(a.Level)
		state.Push(r)
		list = append(list, r)
	}
	for i := 0; i < len(c.Pushed)*2/3; i++ {
		push()
	}
	walks = append(walks, state.Iterator(), state.First())
	for _, call := range c.Calls {
		it := walks[call.Which%len(walks)]
		switch call.Kind {
		case "next":
			_ = it.Next()
		case "item":
			_ = it.Item()
		case "render":
			if r := it.Item(); r != nil {
				r.Render(wtr)
			}
		case "start":
			it.StartOfLine(wtr)
		case "end":
			it.EndOfLine(wtr)
		case "iterator":
			walks[call.Which%len(walks)] = state.Iterator()
		case "first":
			walks[call.Which%len(walks)] = state.First()
		default:
			push()
		}
	}
	for i, it := range walks {
		for n := 0; it.Next(); n++ {
			if n > len(c.Pushed) {
				return fmt.Errorf("iterator %d does not end", i)
			}
		}
		_, _ = it.Next(), it.Item()
		it.StartOfLine(wtr)
		it.EndOfLine(wtr)
	}
	list.Render(wtr)
	o.NonTrivialIf(pushed > 1 && len(c.Calls) > 3)

	return nil
}

// large inputs: time must stay reasonable.
type large struct {
	Kind  string    `json:"kind"`
	Unit  gens.Text `json:"unit"`
	Runes int       `json:"runes"`
	Lang  string    `json:"lang"`
	Width float64   `json:"width"`
}

func (l large) check(o *pbt.Obs) error {
	o.NonTrivial()
	o.Class(l.Kind)
	var text []rune
	for len(text) < l.Runes {
		text = append(text, l.Unit...)
	}
	switch l.Kind {
	case "word":
		return words{Text: text, Times: 1, Lang: l.Lang, Wide: 2}.all()
	case "token": // one long token
		_, err := linebreak.New().LeftAlignUniform([]string{string(text)}, l.Width)
		if err != nil && !errors.Is(err, linebreak.ErrCannotBeSet) {
			return err
		}
	default: // many tokens
		var tokens []string
		for i := 0; i < l.Runes; i += len(l.Unit) + 1 {
			tokens = append(tokens, string([]rune(l.Unit)))
		}
		_, err := linebreak.New(linebreak.WithTolerance(l.Width)).LeftAlignUniform(tokens, l.Width)
		if err != nil && !errors.Is(err, linebreak.ErrCannotBeSet) {
			return err
		}
	}

	return nil
}

func sized(list ...string) (out []gens.Text) {
	for _, s := range list {
		out = append(out, gens.Text(s))
	}

	return out
}

func propTotal() pbt.Property {
	return pbt.Property{
		ID: "C28",
		Rule: "random texts (words of every language, escape sequences cut anywhere, control and invalid runes, any bytes), languages (valid, odd, any string), limits of any size and options given to every public function on words; any tokens, widths and tolerances (negative, huge, infinite, NaN) given to the line breaker; any renderers and calls on the iterators of a state, in any order; large inputs. " +
			"A panic, an error other than ErrCannotBeSet, a runaway case (60 s of CPU, 3 GB) or a deadlock is a violation. Non-trivial: a text of 3 runes or more, 2 tokens or more, any large input.",
		Assumptions: []string{
			"scale factors are positive, split functions partition words, measures are finite, readers are given bounds within their text",
		},
		Checks: []pbt.Check{
			pbt.Rapid[words]{Name: "words", Quick: 60000, Thorough: 2500000, Gen: genWords,
				Check: func(w words, o *pbt.Obs) error {
					o.NonTrivialIf(len(w.Text) > 2)
					o.ClassIf(w.Times > 1, "repeated")

					return w.all()
				}},
			pbt.Rapid[paragraph]{Name: "paragraphs", Quick: 60000, Thorough: 2500000, Gen: genParagraph,
				Check: func(p paragraph, o *pbt.Obs) error { return p.check(o) }},
			pbt.Rapid[renderers]{Name: "renderers", Quick: 20000, Thorough: 800000, Gen: genRenderers,
				Check: func(c renderers, o *pbt.Obs) error { return c.check(o) }},
			pbt.Rapid[large]{Name: "large", Quick: 240, Thorough: 3000,
				Gen: func(t *rapid.T) large {
					l := large{
						Kind:  rapid.SampledFrom([]string{"word", "token", "tokens"}).Draw(t, "kind"),
						Unit:  genAnyWord(t),
						Runes: gens.Pick(t, "size", []int{3, 1}, []*rapid.Generator[int]{rapid.IntRange(100, 3000), rapid.IntRange(3000, 12000)}).Draw(t, "runes"),
						Lang:  rapid.SampledFrom(langs.All).Draw(t, "lang").Tag,
						Width: float64(rapid.IntRange(1, 100).Draw(t, "width")),
					}
					if len(l.Unit) == 0 {
						l.Unit = gens.Text("a")
					}

					return l
				},
				Check: func(l large, o *pbt.Obs) error { return l.check(o) }},
			sweep.Runes("text-sizes", 40, 270, sized("a", "ab,", "é漢", "\x1b[31mx", "\x1b[0m", "--ab c"), append(sized(".", "\x1b[", " ", "-"), gens.Text{-1}, gens.Text{0x110000}),
				func(text gens.Text, o *pbt.Obs) error {
					o.NonTrivialIf(len(text) > 2)

					return words{Text: text, Times: 1, Lang: langs.All[len(text)%len(langs.All)].Tag, Wide: 2}.all()
				}),
			para.Sizes(true, true, 600, func(p para.Paragraph, o *pbt.Obs) error {
				return paragraph{Paragraph: p, Wid: fmt.Sprint(p.Width), Times: 1}.check(o)
			}),
		},
	}
}
