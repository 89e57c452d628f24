package para

import (
	"pgregory.net/rapid"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/gens"
)

var starts = []string{"\x1b[31m", "\x1b[1m", "\x1b[1;32m", "\x1b[38;5;208m", "\x1b[38;2;255;100;0m", "\x1b[4m", "\x1b[s", "\x1b[5h"}
var stops = []string{"\x1b[0m", "\x1b[m", "\x1b[00m", "\x1b[u", "\x1b[5l", "\x1b[0;0m"}

// Where sequences may stand.
const (
	Anywhere = iota
	Edges    // at the edges of tokens and punctuation marks
	Nested   // anywhere, maybe nested
)

// GenStyled adds spans to a paragraph, all closed at the end. They are not nested, unless where is Nested.
func GenStyled(t *rapid.T, p Paragraph, where int) Paragraph {
	if where == Nested {
		if rapid.IntRange(0, 2).Draw(t, "nested") == 0 {
			return GenNested(t, p, Anywhere)
		}
		where = Anywhere
	}

	out := Paragraph{Config: p.Config, Width: p.Width}
	open := false
	density := rapid.IntRange(1, 6).Draw(t, "density")

	start := func() string {
		open = true
		s := rapid.SampledFrom(starts).Draw(t, "start")
		for rapid.IntRange(0, 5).Draw(t, "chain") == 0 {
			s += rapid.SampledFrom(starts).Draw(t, "start")
		}

		return s
	}
	stop := func() string {
		open = false

		return rapid.SampledFrom(stops).Draw(t, "stop")
	}
	// at one place: maybe close, then maybe open
	place := func() string {
		if rapid.IntRange(0, density).Draw(t, "place") > 0 {
			return ""
		}
		switch {
		case !open && rapid.IntRange(0, 14).Draw(t, "empty") == 0:
			return start() + stop() // nothing in between
		case !open:
			return start()
		case rapid.IntRange(0, 3).Draw(t, "reopen") == 0:
			return stop() + start()
		default:
			return stop()
		}
	}
	own := func() { // tokens of their own
		for rapid.IntRange(0, 9).Draw(t, "own") == 0 {
			if s := place(); s != "" {
				out.Tokens = append(out.Tokens, s)
			}
		}
	}

	for _, tok := range p.Tokens {
		own()
		rs := []rune(tok)
		var styled []rune
		for i := range rs {
			if where == Anywhere || isEdge(p.Config, rs, i) {
				styled = append(styled, []rune(place())...)
			}
			styled = append(styled, rs[i])
		}
		styled = append(styled, []rune(place())...)
		out.Tokens = append(out.Tokens, string(styled))
	}
	own()
	if open {
		if rapid.Bool().Draw(t, "lastOwn") {
			out.Tokens = append(out.Tokens, stop())
		} else {
			out.Tokens[len(out.Tokens)-1] += stop()
		}
	}

	return out
}

// GenAnyTokens draws tokens of any kind: styled or not, nested, unclosed, cut sequences, empty tokens, white space.
func GenAnyTokens(t *rapid.T, max int) []string {
	var out []string
	n := rapid.IntRange(0, max).Draw(t, "n")
	for i := 0; i < n; i++ {
		tok := ""
		pieces := gens.Pick(t, "pieces", []int{1, 8, 5, 3, 1}, []int{0, 1, 2, 3, 6})
		for k := 0; k < pieces; k++ {
			switch gens.Pick(t, "piece", []int{8, 4, 2, 2}, []int{0, 1, 2, 3}) {
			case 0:
				tok += GenWord(t)
			case 1:
				if rapid.Bool().Draw(t, "start") {
					tok += rapid.SampledFrom(starts).Draw(t, "seq")
				} else {
					tok += rapid.SampledFrom(stops).Draw(t, "seq")
				}
			case 2:
				seq := gens.Escape(t)
				tok += string(seq[:rapid.IntRange(0, len(seq)).Draw(t, "cut")])
			default:
				tok += string([]rune(gens.AnyText(4).Draw(t, "any")))
			}
		}
		out = append(out, tok)
	}

	return out
}

// isEdge is true at the start of a token, and at the edges of its punctuation marks.
func isEdge(c Config, rs []rune, i int) bool {
	return i == 0 || c.Punctuator == "" && (isPunctuation(rs[i]) || isPunctuation(rs[i-1]))
}

// GenNested adds nested spans to a paragraph, all closed at the end.
//
// There is some text between two openings. Several spans may close at the same place.
func GenNested(t *rapid.T, p Paragraph, where int) Paragraph {
	out := Paragraph{Config: p.Config, Width: p.Width}
	depth, fresh := 0, false // fresh: nothing after the last opening
	density := rapid.IntRange(1, 6).Draw(t, "density")
	most := rapid.SampledFrom([]int{2, 3, 4, 8, 20}).Draw(t, "most")

	place := func() (seqs []string) { // maybe close some, then maybe open one
		if fresh || rapid.IntRange(0, density).Draw(t, "place") > 0 {
			return nil
		}
		for depth > 0 && rapid.IntRange(0, most).Draw(t, "close") < 2 {
			seqs = append(seqs, rapid.SampledFrom(stops).Draw(t, "stop"))
			depth--
		}
		if depth < most && rapid.Bool().Draw(t, "open") {
			seqs = append(seqs, rapid.SampledFrom(starts).Draw(t, "start"))
			depth++
			fresh = true
		}

		return seqs
	}
	var tok string
	flush := func() {
		if tok != "" {
			out.Tokens = append(out.Tokens, tok)
		}
		tok = ""
	}
	put := func(seqs []string, cut bool) {
		for _, s := range seqs {
			if cut && rapid.Bool().Draw(t, "own") { // a token of its own
				flush()
			}
			tok += s
		}
	}

	for _, word := range p.Tokens {
		put(place(), true)
		if rapid.IntRange(0, 7).Draw(t, "apart") == 0 {
			flush()
		}
		rs := []rune(word)
		for i, r := range rs {
			if i > 0 && (where == Anywhere || isEdge(p.Config, rs, i)) {
				put(place(), false)
			}
			tok += string(r)
			fresh = false
		}
		put(place(), rapid.Bool().Draw(t, "after"))
		flush()
	}
	var last []string
	for ; depth > 0 && !fresh; depth-- {
		last = append(last, rapid.SampledFrom(stops).Draw(t, "stop"))
	}
	if fresh { // drop the last opening, with nothing in it
		return GenNested(t, p, where)
	}
	if len(last) > 0 && rapid.Bool().Draw(t, "lastIn") && len(out.Tokens) > 0 {
		tok = out.Tokens[len(out.Tokens)-1]
		out.Tokens = out.Tokens[:len(out.Tokens)-1]
	}
	put(last, true)
	flush()

	return out
}
