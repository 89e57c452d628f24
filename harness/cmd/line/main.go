// Command line decides the properties of line breaking.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"slices"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"

	"github.com/fredbi/go-typeset/linebreak"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/gens"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/ops"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/para"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/pbt"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/refs"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/sweep"
)

func main() {
	ops.Serve(map[string]func([]byte) []byte{"paragraphs": inOrder})
	pbt.Main(propText(), propFit(), propFeasible(), propOptimal(), propLegit(), propStyle(), propReuse())
}

// outcome of setting a paragraph.
type outcome struct {
	Lines   []string `json:"lines,omitempty"`
	Refused bool     `json:"refused,omitempty"`
	Error   string   `json:"error,omitempty"`
}

// inOrder sets paragraphs, each one on a new breaker, in a new process.
func inOrder(raw []byte) []byte {
	var paragraphs []para.Paragraph
	if err := json.Unmarshal(raw, &paragraphs); err != nil {
		pbt.Internal("%v", err)
	}
	out := make([]outcome, len(paragraphs))
	for i, p := range paragraphs {
		var err error
		out[i].Lines, out[i].Refused, err = set(p)
		if err != nil {
			out[i].Error = err.Error()
		}
	}
	answer, err := json.Marshal(out)
	if err != nil {
		pbt.Internal("%v", err)
	}

	return answer
}

// set breaks the paragraph: refused tells that it cannot be set.
func set(p para.Paragraph) (lines []string, refused bool, err error) {
	tokens := append([]string{}, p.Tokens...)
	lines, err = p.Config.New().LeftAlignUniform(tokens, p.Width)
	if !reflect.DeepEqual(tokens, p.Tokens) {
		return nil, false, fmt.Errorf("%v: tokens modified", p)
	}
	if errors.Is(err, linebreak.ErrCannotBeSet) {
		if len(lines) > 0 {
			return nil, false, fmt.Errorf("%v: refused with lines %q", p, lines)
		}

		return nil, true, nil
	}
	if err != nil {
		return nil, false, fmt.Errorf("%v: unexpected error %w", p, err)
	}
	for _, line := range lines {
		if !utf8.ValidString(line) {
			return nil, false, fmt.Errorf("%v: line %q is not valid UTF-8", p, line)
		}
	}

	return lines, false, nil
}

func styled(gen func(*rapid.T) para.Paragraph, where, one int) func(*rapid.T) para.Paragraph {
	return func(t *rapid.T) para.Paragraph {
		p := gen(t)
		if rapid.IntRange(1, one).Draw(t, "styled") > 1 {
			return p
		}

		return para.GenStyled(t, p, where)
	}
}

func classes(p para.Paragraph, refused bool, lines []string, o *pbt.Obs) {
	o.ClassIf(refused, "refused")
	o.ClassIf(!refused, "set")
	o.ClassIf(len(lines) > 2, "3+ lines")
	o.ClassIf(!reflect.DeepEqual(p.Config, para.Config{}), "custom options")
}

// huge applies a check to large paragraphs.
func huge(quick, thorough int, check func(para.Paragraph, *pbt.Obs) error) pbt.Check {
	return pbt.Rapid[para.Huge]{Name: "huge", Quick: quick, Thorough: thorough, Gen: para.GenHuge(12),
		Check: func(h para.Huge, o *pbt.Obs) error {
			if err := check(h.Paragraph(), o); err != nil {
				return fmt.Errorf("%+v: %w", h, short(err))
			}

			return nil
		}}
}

// sizes applies a check to paragraphs of all sizes.
func sizes(plain, styled bool, check func(para.Paragraph, *pbt.Obs) error) pbt.Check {
	return para.Sizes(plain, styled, 600, func(p para.Paragraph, o *pbt.Obs) error {
		if err := check(p, o); err != nil {
			return short(err)
		}

		return nil
	})
}

// short is an error without the whole paragraph, which is in the case.
func short(err error) error {
	s := err.Error()
	if len(s) <= 1200 {
		return err
	}

	return errors.New(s[:400] + " ... " + s[len(s)-700:])
}

func insideToken(p para.Paragraph, lines []string) (inside bool) {
	tokens := para.VisibleTokens(p.Tokens)
	at := para.Pos{}
	for _, line := range lines {
		ends, _, err := para.Follow(tokens, at, para.Visible(line))
		if err != nil {
			return inside
		}
		at = ends[0]
		inside = inside || at.Rune > 0
	}

	return inside
}

func propText() pbt.Property {
	check := func(p para.Paragraph, o *pbt.Obs) error {
		lines, refused, err := set(p)
		if err != nil || refused {
			classes(p, refused, lines, o)

			return err
		}
		classes(p, refused, lines, o)
		o.NonTrivialIf(len(lines) > 1)
		if err := para.Track(para.VisibleTokens(p.Tokens), lines); err != nil {
			return fmt.Errorf("%v: %w", p, err)
		}

		return nil
	}

	// tokens which hold spaces: nothing but spaces may be lost
	spaced := func(p para.Paragraph, o *pbt.Obs) error {
		lines, refused, err := set(p)
		if err != nil || refused {
			return err
		}
		o.NonTrivialIf(len(lines) > 1)
		var text []rune
		for _, tok := range p.Tokens {
			text = append(text, para.Visible(strings.ReplaceAll(tok, " ", ""))...)
		}
		ends := map[int]bool{0: true}
		for i, line := range lines {
			content := para.Visible(strings.ReplaceAll(line, " ", ""))
			next := map[int]bool{}
			for at := range ends {
				if at+len(content) <= len(text) && gens.Equal(content, text[at:at+len(content)]) {
					next[at+len(content)] = true
				}
				if n := len(content) - 1; n >= 0 && content[n] == '-' && at+n <= len(text) && gens.Equal(content[:n], text[at:at+n]) {
					next[at+n] = true
				}
			}
			if len(next) == 0 {
				return fmt.Errorf("%v: line %d of %q is not what comes next in the text", p, i, lines)
			}
			ends = next
		}
		if !ends[len(text)] {
			return fmt.Errorf("%v: the end of the text is missing from %q", p, lines)
		}

		return nil
	}

	genSpaced := func(t *rapid.T) para.Paragraph {
		p := styled(para.Gen(10), para.Nested, 4)(t)
		for i, tok := range p.Tokens {
			if rapid.IntRange(0, 2).Draw(t, "spaced") > 0 || len(para.Visible(tok)) == 0 {
				continue
			}
			spaces := strings.Repeat(" ", rapid.IntRange(1, 2).Draw(t, "spaces"))
			switch rapid.IntRange(0, 4).Draw(t, "where") {
			case 0:
				p.Tokens[i] = spaces + tok
			case 1:
				p.Tokens[i] = tok + spaces
			case 2:
				p.Tokens[i] = spaces + tok + spaces
			case 3:
				p.Tokens[i] = para.GenLetters(t, 5) + spaces + tok
			default:
				p.Tokens[i] = tok + spaces + para.GenLetters(t, 5)
			}
		}

		return p
	}

	others := []string{"\x1b[2K", "\x1b[K", "\x1b[H", "\x1b[12;40H", "\x1b[3A", "\x1b[2J", "\x1b[6n", "\x1b[", "\x1b", "\x1b[38;5;200K", "\x1b]", "\x1b(B", "\x1bM"}
	genOthers := func(t *rapid.T) para.Paragraph {
		p := para.Gen(10)(t)
		for i, tok := range p.Tokens {
			if rapid.IntRange(0, 2).Draw(t, "some") > 0 {
				continue
			}
			rs := []rune(tok)
			at := rapid.IntRange(0, len(rs)).Draw(t, "at")
			with := string(rs[:at]) + rapid.SampledFrom(others).Draw(t, "other") + string(rs[at:])
			sequence := false // made with the runes that follow
			for _, lex := range refs.Lex([]rune(with)) {
				sequence = sequence || lex.Kind == refs.Start || lex.Kind == refs.Stop
			}
			if !sequence {
				p.Tokens[i] = with
			}
		}
		p.Width = para.GenWidth(t, p.Config, p.Tokens)

		return p
	}

	// tokens which hold sequences that do not start or stop a style: these are kept like any text
	raw := func(p para.Paragraph, o *pbt.Obs) error {
		lines, refused, err := set(p)
		classes(p, refused, lines, o)
		if err != nil || refused {
			return err
		}
		o.NonTrivialIf(len(lines) > 1 && strings.Contains(strings.Join(p.Tokens, ""), "\x1b"))
		if err := para.TrackRaw(p.Tokens, lines); err != nil {
			return fmt.Errorf("%v: %w", p, err)
		}

		return nil
	}

	return pbt.Property{
		ID: "C21",
		Rule: "random paragraphs (words of several languages, punctuation, hyphens, wide and zero-width runes), a third of them with escape sequences anywhere, random options and widths; the lines are read back on the visible text, trying each final hyphen as added or not. Tokens with sequences that neither start nor stop a style (others) are read back whole. " +
			"Non-trivial: set on two lines or more (others: with such a sequence).",
		Assumptions: []string{"tokens hold no white space (or spaces, and then only the rest of the text is looked at); spans are nested properly and closed, and tokens hold either start and stop sequences or other ones (read as text, which may be broken in lines like any text); some token has some visible text", "tolerance is under 10000, custom split functions partition words, custom measures add up over runes"},
		Checks: []pbt.Check{
			pbt.Rapid[para.Paragraph]{Name: "paragraphs", Quick: 60000 * 4, Thorough: 2000000, Gen: styled(para.Gen(14), para.Nested, 3), Check: check},
			pbt.Rapid[para.Paragraph]{Name: "long", Quick: 1500 * 4, Thorough: 40000, Gen: styled(para.Gen(150), para.Nested, 3), Check: check},
			huge(240, 8000, check),
			pbt.Rapid[para.Paragraph]{Name: "others", Quick: 30000 * 4, Thorough: 1000000, Gen: genOthers, Check: raw},
			sizes(true, true, check),
			pbt.Rapid[para.Paragraph]{Name: "spaces", Quick: 30000 * 4, Thorough: 1000000, Gen: genSpaced, Check: spaced},
		},
	}
}

func propFit() pbt.Property {
	check := func(p para.Paragraph, o *pbt.Obs) error {
		lines, refused, err := set(p)
		classes(p, refused, lines, o)
		if err != nil || refused {
			return err
		}
		for _, line := range lines {
			w := p.Config.Measure(para.Visible(line))
			o.NonTrivialIf(len(lines) > 1 && w >= p.Width-p.Config.Unit())
			if w > p.Width+w*1e-9 { // sums of measures may not be exact
				return fmt.Errorf("%v: line %q measures %g", p, line, w)
			}
		}

		return nil
	}

	return pbt.Property{
		ID: "C22",
		Rule: "random paragraphs, a third of them with escape sequences anywhere, random options, measures and widths; every line is measured (by a reference of the default measure, or the custom one). " +
			"Non-trivial: at least two lines, and one of them full up to one unit.",
		Assumptions: []string{"measures times the scale factor are whole numbers", "tolerance is under 10000"},
		Checks: []pbt.Check{
			pbt.Rapid[para.Paragraph]{Name: "paragraphs", Quick: 60000 * 4, Thorough: 2000000, Gen: styled(para.Gen(14), para.Nested, 3), Check: check},
			pbt.Rapid[para.Paragraph]{Name: "long", Quick: 1500 * 4, Thorough: 40000, Gen: styled(para.Gen(150), para.Nested, 3), Check: check},
			huge(240, 8000, check),
			sizes(true, true, check),
		},
	}
}

// modelled is a paragraph with sequences, if any, at the edges only.
func modelled(max int) func(*rapid.T) para.Paragraph {
	return styled(para.Gen(max), para.Edges, 6)
}

func propFeasible() pbt.Property {
	check := func(p para.Paragraph, o *pbt.Obs) error {
		m := para.NewModel(p)
		feasible := !math.IsInf(m.Best(), 1)
		o.NonTrivialIf(len(m.Points) > 2 && m.Ways(4) < 4)
		lines, refused, err := set(p)
		classes(p, refused, lines, o)
		if err != nil {
			return err
		}
		if feasible == refused {
			return fmt.Errorf("%v: admissible settings exist: %t, refused: %t (%q)", p, feasible, refused, lines)
		}
		if refused { // nor does a lower tolerance help
			return nil
		}
		higher := p
		tolerance := 8.6
		if p.Config.Tolerance != nil {
			tolerance = *p.Config.Tolerance
		}
		tolerance = min(9999, tolerance*1.7)
		higher.Config.Tolerance = &tolerance
		if _, refused, err := set(higher); err != nil || refused {
			return fmt.Errorf("%v: set, but not with the higher tolerance %g (%v)", p, tolerance, err)
		}

		return nil
	}

	tight := func(max int) func(*rapid.T) para.Paragraph {
		gen := modelled(max)

		return func(t *rapid.T) para.Paragraph {
			p := gen(t)
			if rapid.Bool().Draw(t, "tight") { // few settings, if any
				v := rapid.SampledFrom([]float64{0, 0.1, 0.2, 0.34, 0.5, 0.67, 1}).Draw(t, "tightTolerance")
				p.Config.Tolerance = &v
			}

			return p
		}
	}

	return pbt.Property{
		ID: "C23",
		Rule: "random paragraphs, random options and widths, half of them with a tight tolerance; the verdict is compared with an exact dynamic program over all the legitimate break points. " +
			"Non-trivial: at least three break points and less than four admissible settings.",
		Assumptions: []string{
			"the adjustment ratio of a line is its slack over the stretchability of 6 of ragged lines, as in the sources (10000 for the last one)",
			"the hyphenator in use is taken as is: hyphenation itself is decided by other properties", "tolerance is under 10000",
		},
		Checks: []pbt.Check{
			pbt.Rapid[para.Paragraph]{Name: "verdict", Quick: 60000 * 4, Thorough: 2000000, Gen: tight(12), Check: check},
			pbt.Rapid[para.Paragraph]{Name: "long", Quick: 1500 * 4, Thorough: 40000, Gen: tight(80), Check: check},
			huge(240, 8000, check),
			sizes(true, true, check),
		},
	}
}

func propOptimal() pbt.Property {
	check := func(p para.Paragraph, o *pbt.Obs) error {
		m := para.NewModel(p)
		best := m.Best()
		o.NonTrivialIf(m.Ways(5) >= 5)
		lines, refused, err := set(p)
		classes(p, refused, lines, o)
		if err != nil || refused {
			return err // refusals are decided by another property
		}
		cost, err := m.Path(lines)
		if err != nil {
			return nil // idem for illegitimate breaks
		}
		if cost > best+1e-9*math.Abs(best)+1e-6 {
			return fmt.Errorf("%v: lines %q amount to %g demerits, but the optimum is %g", p, lines, cost, best)
		}

		return nil
	}

	// with a large scale, ratios are large, and those of last lines too: their fitness varies
	scaled := func(t *rapid.T) para.Paragraph {
		p := modelled(12)(t)
		scale := rapid.SampledFrom([]float64{200, 500, 1000, 2000}).Draw(t, "scaleUp")
		tolerance := rapid.SampledFrom([]float64{500, 2000, 5000, 9999}).Draw(t, "largeTolerance")
		if p.Config.Measurer == "half" {
			p.Config.Measurer = ""
		}
		p.Config.Scale, p.Config.Tolerance = &scale, &tolerance
		if rapid.IntRange(0, 3).Draw(t, "plain") > 0 { // a few settings, of different numbers of lines
			no := false
			p.Config.WordBreak, p.Config.Enables, p.Config.Measurer = &no, false, ""
			p.Tokens = rapid.SliceOfN(rapid.Map(rapid.IntRange(1, 9), func(n int) string { return "abcdefghi"[:n] }), 4, 11).Draw(t, "words")
			p.Width = float64(rapid.IntRange(7, 18).Draw(t, "plainWidth"))

			return p
		}
		p.Width = para.GenWidth(t, p.Config, p.Tokens)

		return p
	}

	return pbt.Property{
		ID: "C24",
		Rule: "random paragraphs, options and widths; the demerits of the lines returned are compared with the optimum of an exact dynamic program over break points and fitness classes. " +
			"Non-trivial: at least five admissible settings.",
		Assumptions: []string{
			"demerits are those documented in the sources: line 10, constant 100, cubed ratio, penalties 400 (punctuation), 200 (explicit hyphen), hyphen penalty, flagged and fitness extras",
			"equality up to a relative error of 1e-9",
		},
		Checks: []pbt.Check{
			pbt.Rapid[para.Paragraph]{Name: "demerits", Quick: 60000 * 4, Thorough: 2000000, Gen: modelled(16), Check: check},
			pbt.Rapid[para.Paragraph]{Name: "scaled", Quick: 400000, Thorough: 1000000, Gen: scaled, Check: check},
			pbt.Rapid[para.Paragraph]{Name: "long", Quick: 1500 * 4, Thorough: 40000, Gen: modelled(120), Check: check},
			huge(240, 8000, check),
			sizes(true, true, check),
		},
	}
}

func propLegit() pbt.Property {
	check := func(p para.Paragraph, o *pbt.Obs) error {
		lines, refused, err := set(p)
		classes(p, refused, lines, o)
		if err != nil || refused {
			return err
		}
		inside := insideToken(p, lines)
		o.NonTrivialIf(inside)
		o.ClassIf(inside, "break inside a token")
		if _, err := para.NewModel(p).Path(lines); err != nil {
			return fmt.Errorf("%v: %w", p, err)
		}

		return nil
	}

	narrow := func(max int) func(*rapid.T) para.Paragraph {
		gen := modelled(max)

		return func(t *rapid.T) para.Paragraph {
			p := gen(t)
			if rapid.Bool().Draw(t, "narrow") {
				p.Width = float64(rapid.IntRange(3, 14).Draw(t, "narrowWidth")) * p.Config.Unit()
			}

			return p
		}
	}

	return pbt.Property{
		ID: "C25",
		Rule: "random paragraphs, options and widths, half of them narrow; each line end is looked up among the legitimate break points of a model (token ends, punctuation, explicit hyphens, parts given by the hyphenator in use), and the hyphen with the kind of break. " +
			"Non-trivial: some line ends inside a token.",
		Assumptions: []string{"the hyphenator in use is taken as is: hyphenation itself is decided by other properties"},
		Checks: []pbt.Check{
			pbt.Rapid[para.Paragraph]{Name: "breaks", Quick: 60000 * 4, Thorough: 2000000, Gen: narrow(12), Check: check},
			pbt.Rapid[para.Paragraph]{Name: "long", Quick: 1500 * 4, Thorough: 40000, Gen: narrow(80), Check: check},
			huge(240, 8000, check),
			sizes(true, true, check),
		},
	}
}

type styledRune struct {
	r     rune
	style string
}

// styles lists the visible runes with the start sequences open on them, but the spaces.
func styles(s string, style string) (out []styledRune, open string) {
	for _, lex := range refs.Lex([]rune(s)) {
		switch lex.Kind {
		case refs.Start:
			style += string(lex.Text)
		case refs.Stop:
			style = ""
		default:
			for _, r := range lex.Text {
				if r != ' ' {
					out = append(out, styledRune{r, style})
				}
			}
		}
	}

	return out, style
}

// nestedStyles is styles for nested spans: a stop sequence closes the last open one.
func nestedStyles(s string, style string) (out []styledRune, open string) {
	for _, lex := range refs.Lex([]rune(s)) {
		switch lex.Kind {
		case refs.Start:
			style += "<" + string(lex.Text)
		case refs.Stop:
			if i := strings.LastIndexByte(style, '<'); i >= 0 {
				style = style[:i]
			}
		default:
			for _, r := range lex.Text {
				if r != ' ' {
					out = append(out, styledRune{r, style})
				}
			}
		}
	}

	return out, style
}

func checkStyles(p para.Paragraph, lines []string, styles func(string, string) ([]styledRune, string)) error {
	var (
		want []styledRune
		open string
	)
	for _, tok := range p.Tokens {
		var part []styledRune
		part, open = styles(tok, open)
		want = append(want, part...)
	}

	tokens := para.VisibleTokens(p.Tokens)
	flat := make([]int, len(tokens)+1)
	for i, tok := range tokens {
		flat[i+1] = flat[i] + len(tok)
	}

	current := map[para.Pos]bool{{}: true}
	for i, line := range lines {
		got, open := styles(line, "")
		if open != "" {
			return fmt.Errorf("style %q left open at the end of line %d of %q", open, i, lines)
		}

		next := map[para.Pos]bool{}
		var failure error
		for from := range current {
			ends, hyphenated, err := para.Follow(tokens, from, para.Visible(line))
			if err != nil {
				continue // decided by another property
			}
			for k, end := range ends {
				first, last := flat[from.Token]+from.Rune, flat[end.Token]+end.Rune
				n := len(got)
				if hyphenated[k] {
					n--
				}
				if n != last-first {
					return nil
				}
				ok := true
				for j := 0; j < n; j++ {
					if got[j] != want[first+j] {
						ok = false
						failure = fmt.Errorf("%q is rendered under style %q on line %d of %q, instead of %q", string(got[j].r), got[j].style, i, lines, want[first+j].style)

						break
					}
				}
				if ok {
					next[end] = true
				}
			}
		}
		if len(next) == 0 {
			return failure
		}
		current = next
	}

	return nil
}

func propStyle() pbt.Property {
	keep := func(p para.Paragraph, o *pbt.Obs) error {
		lines, refused, err := set(p)
		classes(p, refused, lines, o)
		if err != nil || refused {
			return err
		}
		for i, line := range lines {
			s, _ := styles(line, "")
			// some style spans a line break
			o.NonTrivialIf(i+1 < len(lines) && len(s) > 0 && s[len(s)-1].style != "")
		}
		if err := checkStyles(p, lines, styles); err != nil {
			return fmt.Errorf("%v: %w", p, err)
		}

		return nil
	}

	keepNested := func(p para.Paragraph, o *pbt.Obs) error {
		lines, refused, err := set(p)
		classes(p, refused, lines, o)
		if err != nil || refused {
			return err
		}
		for i, line := range lines {
			s, _ := nestedStyles(line, "")
			// at least two spans over a line break
			o.NonTrivialIf(i+1 < len(lines) && len(s) > 0 && strings.Count(s[len(s)-1].style, "<") > 1)
		}
		if err := checkStyles(p, lines, nestedStyles); err != nil {
			return fmt.Errorf("%v: %w", p, err)
		}

		return nil
	}
	nested := func(gen func(*rapid.T) para.Paragraph) func(*rapid.T) para.Paragraph {
		return func(t *rapid.T) para.Paragraph { return para.GenNested(t, gen(t), para.Anywhere) }
	}

	type pair struct {
		Plain  para.Paragraph `json:"plain"`
		Styled []string       `json:"styled"`
	}

	genPair := func(max int) func(*rapid.T) pair {
		gen := para.Gen(max)

		return func(t *rapid.T) pair {
			p := gen(t)

			return pair{p, para.GenStyled(t, p, para.Edges).Tokens}
		}
	}

	genNestedPair := func(t *rapid.T) pair {
		p := para.Gen(12)(t)

		return pair{p, para.GenNested(t, p, para.Edges).Tokens}
	}

	sameBreaks := func(c pair, o *pbt.Obs, keep func(para.Paragraph, *pbt.Obs) error) error {
		s := c.Plain
		s.Tokens = c.Styled
		plain, refused, err := set(c.Plain)
		if err != nil {
			return err
		}
		lines, alsoRefused, err := set(s)
		classes(s, refused, lines, o)
		if err != nil {
			return err
		}
		o.NonTrivialIf(len(lines) > 1 && !reflect.DeepEqual(c.Plain.Tokens, c.Styled))
		if refused != alsoRefused {
			return fmt.Errorf("%v: refused: %t, but %t without sequences", s, alsoRefused, refused)
		}
		if len(lines) != len(plain) {
			return fmt.Errorf("%v: lines %q, but %q without sequences", s, lines, plain)
		}
		for i := range lines {
			if string(para.Visible(lines[i])) != plain[i] {
				return fmt.Errorf("%v: lines %q, but %q without sequences", s, lines, plain)
			}
		}

		return keep(s, new(pbt.Obs))
	}
	same := func(c pair, o *pbt.Obs) error { return sameBreaks(c, o, keep) }
	sameNested := func(c pair, o *pbt.Obs) error { return sameBreaks(c, o, keepNested) }

	stripped := func(p para.Paragraph, o *pbt.Obs) error {
		c := pair{p, p.Tokens}
		c.Plain.Tokens = nil
		for _, tok := range para.VisibleTokens(p.Tokens) {
			c.Plain.Tokens = append(c.Plain.Tokens, string(tok))
		}

		return same(c, o)
	}

	return pbt.Property{
		ID: "C26",
		Rule: "random paragraphs with random spans, which open and close anywhere, nested (nested) or not (styles), or at the edges of tokens and punctuation (edges, nestedEdges), in tokens or in tokens of their own, with chained starts and empty spans; the style of every visible rune is compared with the input, and lines with the ones of the plain text (edges, nestedEdges). " +
			"Non-trivial: some styled text at a line break (styles), under two spans or more (nested, depths), set on two lines with some sequence (edges, nestedEdges).",
		Assumptions: []string{"spans are all closed at the end, and nested properly: there is some text between two openings, and in each span", "tolerance is under 10000"},
		Checks: []pbt.Check{
			pbt.Rapid[para.Paragraph]{Name: "styles", Quick: 60000 * 4, Thorough: 2000000, Gen: styled(para.Gen(12), para.Anywhere, 1), Check: keep},
			pbt.Rapid[para.Paragraph]{Name: "nested", Quick: 40000 * 4, Thorough: 1500000, Gen: nested(para.Gen(12)), Check: keepNested},
			pbt.Rapid[para.Paragraph]{Name: "nestedLong", Quick: 1000 * 4, Thorough: 30000, Gen: nested(para.Gen(80)), Check: keepNested},
			para.Nests(func(p para.Paragraph, o *pbt.Obs) error {
				if err := keepNested(p, o); err != nil {
					return short(err)
				}

				return nil
			}),
			pbt.Rapid[pair]{Name: "nestedEdges", Quick: 20000 * 4, Thorough: 800000, Gen: genNestedPair, Check: sameNested},
			pbt.Rapid[pair]{Name: "edges", Quick: 40000 * 4, Thorough: 1500000, Gen: genPair(12), Check: same},
			pbt.Rapid[para.Paragraph]{Name: "long", Quick: 1000 * 4, Thorough: 30000, Gen: styled(para.Gen(80), para.Anywhere, 1), Check: keep},
			huge(240, 8000, keep),
			sizes(false, true, stripped),
		},
	}
}

func propReuse() pbt.Property {
	type step struct {
		Tokens []string `json:"tokens"`
		Width  float64  `json:"width"`
		Other  bool     `json:"other,omitempty"` // on the other breaker
		Reuse  bool     `json:"reuse,omitempty"` // with the tokens in the same slice as other ones
		Spoil  bool     `json:"spoil,omitempty"` // the lines are overwritten afterwards
		Again  int      `json:"again,omitempty"` // how many more times
	}
	type history struct {
		Config para.Config `json:"config"`
		Other  para.Config `json:"other"`
		Steps  []step      `json:"steps"`
	}

	type many struct {
		N    int `json:"n"` // how many paragraphs
		Kind int `json:"kind"`
	}
	paragraphs := func(m many) history {
		var h history
		word := func(i int) string { return fmt.Sprintf("re%cpre%cen%dtation", 'a'+i%26, 'a'+i/26%26, i) }
		add := func(width int, tokens ...string) {
			h.Steps = append(h.Steps, step{Tokens: tokens, Width: float64(width), Reuse: m.N%3 == 1})
		}
		for i := 0; i < m.N; i++ {
			switch m.Kind {
			case 0: // all different
				add(16, word(i), "of", "the", word(i/2))
			case 1: // the same
				add(16, word(0), "of", "the", word(1))
			case 2: // widths
				add(3+i, word(0), "of", "the", word(1))
			default: // refused ones
				add(3, word(i), "of", "the", word(1))
			}
		}
		add(16, word(0), "of", "the", word(1))
		add(17, word(1), "of", "the", word(0))
		add(16, word(0), "of", "the", word(1))

		return h
	}

	similar := func(t *rapid.T, tokens []string) []string {
		out := append([]string{}, tokens...)
		if len(out) == 0 {
			return out
		}
		i, j := rapid.IntRange(0, len(out)-1).Draw(t, "i"), rapid.IntRange(0, len(out)-1).Draw(t, "j")
		if rapid.Bool().Draw(t, "swap") {
			out[i], out[j] = out[j], out[i]
		} else {
			out[i] = para.GenWord(t)
		}

		return out
	}

	gen := func(t *rapid.T, n int, large bool) history {
		h := history{Config: para.GenConfig(t), Other: para.GenConfig(t)}
		for i := 0; i < n; i++ {
			var s step
			if large && rapid.Bool().Draw(t, "huge") {
				h := para.GenHuge(10)(t)
				h.Config, s.Tokens = para.Config{}, h.Paragraph().Tokens
			} else if i > 0 && rapid.IntRange(0, 2).Draw(t, "again") == 0 { // the same text, maybe at another width
				s.Tokens = h.Steps[rapid.IntRange(0, i-1).Draw(t, "which")].Tokens
				if rapid.Bool().Draw(t, "similar") {
					s.Tokens = similar(t, s.Tokens)
				}
			} else if rapid.Bool().Draw(t, "anyTokens") {
				s.Tokens = para.GenAnyTokens(t, 8)
			} else {
				p := para.Gen(8)(t)
				if rapid.Bool().Draw(t, "styled") {
					p = para.GenStyled(t, p, para.Nested)
				}
				s.Tokens = p.Tokens
			}
			s.Width = para.GenWidth(t, h.Config, s.Tokens)
			if i > 0 && rapid.IntRange(0, 2).Draw(t, "sameWidth") == 0 {
				s.Width = h.Steps[i-1].Width
			}
			s.Other = rapid.IntRange(0, 2).Draw(t, "other") == 0
			s.Reuse = rapid.IntRange(0, 2).Draw(t, "reuse") == 0
			s.Spoil = rapid.IntRange(0, 4).Draw(t, "spoil") == 0
			s.Again = rapid.IntRange(0, 2).Draw(t, "again")
			h.Steps = append(h.Steps, s)
		}

		return h
	}

	check := func(h history, o *pbt.Obs) error {
		first, second := h.Config.New(), h.Other.New()
		type result struct {
			lines []string
			err   error
		}
		var (
			kept   []result
			held   [][]string // as returned by the used breakers
			tokens []string
		)
		set := 0
		for i, s := range h.Steps {
			breaker, config := first, h.Config
			if s.Other {
				breaker, config = second, h.Other
			}
			given := append([]string{}, s.Tokens...)
			if s.Reuse {
				tokens = append(tokens[:0], s.Tokens...)
				given = tokens
			}
			lines, err := breaker.LeftAlignUniform(given, s.Width)
			if !slices.Equal(given, s.Tokens) {
				return fmt.Errorf("step %d: tokens %q modified into %q", i, s.Tokens, given)
			}
			fresh, freshErr := config.New().LeftAlignUniform(append([]string{}, s.Tokens...), s.Width)
			if !reflect.DeepEqual(lines, fresh) || err != freshErr {
				return fmt.Errorf("step %d (%q, width %g, %+v): %q (%v) on a used breaker, %q (%v) on a new one", i, s.Tokens, s.Width, config, lines, err, fresh, freshErr)
			}
			for k := 0; k < s.Again; k++ { // the same again, with no randomness
				if !s.Reuse {
					given = append([]string{}, s.Tokens...)
				}
				again, againErr := breaker.LeftAlignUniform(given, s.Width)
				if !reflect.DeepEqual(lines, again) || err != againErr {
					return fmt.Errorf("step %d (%q, width %g, %+v): %q (%v), then %q (%v)", i, s.Tokens, s.Width, config, lines, err, again, againErr)
				}
			}
			if err == nil && len(lines) > 1 {
				set++
			}
			kept = append(kept, result{append([]string(nil), fresh...), freshErr})
			if s.Spoil {
				for k := range lines {
					lines[k] = "spoiled"
				}
				_ = append(lines, "spoiled")
				lines = nil
			}
			held = append(held, lines)
		}
		for i, s := range h.Steps {
			config := h.Config
			if s.Other {
				config = h.Other
			}
			if held[i] != nil && !slices.Equal(held[i], kept[i].lines) {
				return fmt.Errorf("step %d (%q, width %g, %+v): the lines %q changed afterwards into %q", i, s.Tokens, s.Width, config, kept[i].lines, held[i])
			}
			lines, err := config.New().LeftAlignUniform(append([]string{}, s.Tokens...), s.Width)
			if !slices.Equal(lines, kept[i].lines) || err != kept[i].err {
				return fmt.Errorf("step %d (%q, width %g, %+v): %q (%v), then later on a new breaker %q (%v)", i, s.Tokens, s.Width, config, kept[i].lines, kept[i].err, lines, err)
			}
		}
		o.NonTrivialIf(set > 1)

		return nil
	}

	type order struct {
		Paragraphs []para.Paragraph `json:"paragraphs"`
	}
	orders := func(c order, o *pbt.Obs) error { // results do not depend on what the process has done before
		n := len(c.Paragraphs)
		backwards := make([]para.Paragraph, n)
		for i, p := range c.Paragraphs {
			backwards[n-1-i] = p
		}
		var results [2][]outcome
		for i, in := range [][]para.Paragraph{c.Paragraphs, backwards} {
			raw, err := ops.Fresh("paragraphs", in)
			if err != nil {
				return err
			}
			if err := json.Unmarshal(raw, &results[i]); err != nil || len(results[i]) != n {
				pbt.Internal("answer of the process: %v %.200s", err, raw)
			}
		}
		set := 0
		for i := range c.Paragraphs {
			one, other := results[0][i], results[1][n-1-i]
			if !reflect.DeepEqual(one, other) {
				return fmt.Errorf("paragraph %d of %d (%v), always on a new breaker: %+v when all are set in order in a process, %+v in the opposite order", i, n, c.Paragraphs[i], one, other)
			}
			if len(one.Lines) > 1 {
				set++
			}
		}
		o.NonTrivialIf(set > 1)
		o.Weight(n)

		return nil
	}
	genOrder := func(t *rapid.T) order {
		var c order
		n := rapid.IntRange(8, 24).Draw(t, "n")
		for i := 0; i < n; i++ {
			p := para.Gen(10)(t)
			if i > 0 {
				before := c.Paragraphs[rapid.IntRange(0, i-1).Draw(t, "before")]
				switch rapid.IntRange(0, 3).Draw(t, "kind") {
				case 0: // another configuration
					p.Tokens, p.Width = before.Tokens, before.Width
				case 1: // another width, maybe
					p.Tokens, p.Config = before.Tokens, before.Config
				case 2: // similar ones
					p.Config, p.Width, p.Tokens = before.Config, before.Width, similar(t, before.Tokens)
				}
			}
			c.Paragraphs = append(c.Paragraphs, p)
		}

		return c
	}

	return pbt.Property{
		ID: "C27",
		Rule: "random histories of 2 to 5 paragraphs (150 at times) (styled or not, nested or unclosed spans, any runes, refused ones, a thousand tokens) at random widths on two breakers with random options; tokens may come in the same slice as others, and returned lines be overwritten; every result is compared with the one of a new breaker, maybe run again, and compared again at the end. Lists of 8 to 24 paragraphs with various options (orders) are set by two new processes, in order and in the opposite order: each paragraph gives the same. " +
			"Non-trivial: at least two paragraphs set on several lines.",
		Assumptions: []string{"custom split functions and measures are pure"},
		Checks: []pbt.Check{
			pbt.Rapid[history]{Name: "histories", Quick: 25000 * 4, Thorough: 800000, Check: check,
				Gen: func(t *rapid.T) history { return gen(t, rapid.IntRange(2, 5).Draw(t, "steps"), false) }},
			pbt.Rapid[order]{Name: "orders", Quick: 480, Thorough: 30000, Gen: genOrder, Check: orders},
			pbt.Rapid[history]{Name: "long", Quick: 160, Thorough: 6000, Check: check,
				Gen: func(t *rapid.T) history { return gen(t, rapid.IntRange(20, 150).Draw(t, "steps"), false) }},
			pbt.Rapid[history]{Name: "large", Quick: 80, Thorough: 3000, Check: check,
				Gen: func(t *rapid.T) history { return gen(t, rapid.IntRange(2, 4).Draw(t, "steps"), true) }},
			para.Sizes(true, true, 260, func(p para.Paragraph, o *pbt.Obs) error { // before and after others
				small := step{Tokens: []string{"so", "\x1b[31mit", "is\x1b[0m"}, Width: 5}
				h := history{Config: p.Config, Steps: []step{small, {Tokens: p.Tokens, Width: p.Width, Spoil: true}, small, {Tokens: p.Tokens, Width: p.Width + 4}}}

				return check(h, o)
			}),
			pbt.Enum[many]{Name: "many", Check: func(m many, o *pbt.Obs) error { return check(paragraphs(m), o) },
				List: func(thorough bool) []many {
					var out []many
					dense, top := 40, 260
					if thorough {
						dense, top = 130, 2060
					}
					for _, n := range sweep.Sizes(dense, top) {
						for v := 0; v < 4; v++ {
							out = append(out, many{n, v})
						}
					}

					return out
				}},
		},
	}
}
