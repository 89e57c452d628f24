package main

import (
	"fmt"

	"pgregory.net/rapid"

	"github.com/fredbi/go-typeset/terminal/ansi"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/gens"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/pbt"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/refs"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/sweep"
)

// genANSI draws texts dense in escape sequences, whole or broken, next to each other or not.
func genANSI(max int) func(*rapid.T) gens.Text {
	plain := gens.FocusText(rapid.SampledFrom([]rune("abcxyz 0123,;:[m漢é\u0301")), 4)

	return func(t *rapid.T) gens.Text {
		var out gens.Text
		for i, n := 0, rapid.IntRange(0, gens.Size(t, max)).Draw(t, "pieces"); i < n; i++ {
			if len(out) > 0 && rapid.IntRange(0, 15).Draw(t, "again") == 0 { // repeats a part of what comes before
				k := rapid.IntRange(0, len(out)-1).Draw(t, "from")
				out = append(out, out[k:min(len(out), k+12)]...)

				continue
			}
			switch gens.Pick(t, "kind", []int{6, 5, 4, 4, 2, 1}, []int{0, 1, 2, 3, 4, 5}) {
			case 0:
				out = append(out, plain.Draw(t, "plain")...)
			case 1:
				out = append(out, gens.Escape(t)...)
			case 2: // common sequences
				out = append(out, []rune(rapid.SampledFrom([]string{
					"\x1b[31m", "\x1b[0m", "\x1b[m", "\x1b[1;31m", "\x1b[38;5;208m", "\x1b[38;2;255;100;000m", "\x1b[48:5:10m", "\x1b[?25h", "\x1b[?25l", "\x1b[s", "\x1b[u",
					"\x1b[0;1m", "\x1b[1;0m", "\x1b[00m", "\x1b[0;0m", "\x1b[;m", "\x1b[100m", "\x1b[2J", "\x1b[K", "\x1b[10;20H", "\x1b[3~", "\x1b[5h", "\x1b[5l", "\x1b[0h", "\x1b[0l", "\x1b[1s", "\x1b[7u",
				}).Draw(t, "common"))...)
			case 3: // broken sequences
				seq := gens.Escape(t)
				k := rapid.IntRange(0, len(seq)-1).Draw(t, "cut")
				if rapid.Bool().Draw(t, "head") {
					out = append(out, seq[:k]...)
				} else {
					out = append(out, seq[k:]...)
				}
			case 4:
				out = append(out, rapid.SliceOfN(rapid.SampledFrom([]rune("\x1b\x1b\x1b[[m0;")), 1, 5).Draw(t, "noise")...)
			default:
				out = append(out, gens.AnyRune().Draw(t, "rune"))
			}
		}

		return out
	}
}

// pieceANSI draws parts of long texts.
func pieceANSI(max int) *rapid.Generator[gens.Text] {
	return rapid.Custom(func(t *rapid.T) gens.Text {
		if rapid.Bool().Draw(t, "plain") {
			return gens.AnyText(max).Draw(t, "text")
		}

		return genANSI(3)(t)
	})
}

func showTokens(tokens []ansi.StrippedToken) string {
	s := ""
	for i, tok := range tokens {
		if i > 40 {
			return s + "..."
		}
		s += fmt.Sprintf("{start:%q text:%q stop:%q}", string(tok.StartSequence), string(tok.Text), string(tok.StopSequence))
	}

	return s
}

func joinToken(tok ansi.StrippedToken) []rune {
	var out []rune
	out = append(out, tok.StartSequence...)
	out = append(out, tok.Text...)

	return append(out, tok.StopSequence...)
}

func propStripLossless() pbt.Property {
	check := func(text gens.Text, o *pbt.Obs) error {
		input := text.Clone()
		tokens := ansi.StripToken(input)
		o.NonTrivialIf(len(tokens) > 2)

		if !gens.Equal(input, text) {
			return fmt.Errorf("%q: input modified by StripToken into %q", string(text), string(input))
		}

		var all []rune
		for _, tok := range tokens {
			all = append(all, joinToken(tok)...)
		}
		if !gens.Equal(all, text) {
			return fmt.Errorf("%q: the pieces %s amount to %q", string(text), showTokens(tokens), string(all))
		}

		// step by step
		rest, steps := text.Clone(), 0
		for {
			before := append([]rune{}, rest...)
			tok := ansi.StripANSIFromRunes(rest)
			if !gens.Equal(rest, before) {
				return fmt.Errorf("%q: input modified by StripANSIFromRunes into %q", string(before), string(rest))
			}
			steps++
			consumed := joinToken(tok)
			if len(consumed) == 0 && len(rest) > 0 {
				return fmt.Errorf("nothing consumed from %q", string(rest))
			}
			if !gens.Equal(append(consumed, tok.Remainder...), before) {
				return fmt.Errorf("from %q: piece %s, remainder %q", string(before), showTokens([]ansi.StrippedToken{tok}), string(tok.Remainder))
			}
			if len(tok.Remainder) == 0 {
				break
			}
			rest = tok.Remainder
		}
		if steps != len(tokens) {
			return fmt.Errorf("%q: %d steps, but %d pieces %s", string(text), steps, len(tokens), showTokens(tokens))
		}

		return nil
	}

	checkLong := func(l gens.Long, o *pbt.Obs) error { return check(l.Text(), o) }

	return pbt.Property{
		ID: "C07",
		Rule: "random mixes of plain text, escape sequences (SGR and others, whole or cut), stray ESC and any runes, invalid ones included, stripped as a whole and step by step; " +
			"and exhaustively all words of up to 6 (thorough: 8) runes over ESC, [, 0, 1, ;, m, h, K, a. Non-trivial: at least three pieces.",
		Checks: []pbt.Check{
			pbt.Rapid[gens.Text]{Name: "mixes", Quick: 60000 * 6, Thorough: 6000000, Gen: genANSI(12), Check: check},
			pbt.Rapid[gens.Text]{Name: "long", Quick: 1000 * 5, Thorough: 50000, Gen: genANSI(200), Check: check},
			pbt.Rapid[gens.Long]{Name: "longer", Quick: 1600, Thorough: 30000, Gen: func(t *rapid.T) gens.Long { return gens.GenLong(pieceANSI, 16).Draw(t, "long") }, Check: checkLong},
			ansiWords("words", 6, 8, check),
			ansiSizes(check),
		},
	}
}

func propStripKinds() pbt.Property {
	check := func(text gens.Text, o *pbt.Obs) error {
		for _, r := range text { // arguments in other scripts are out of the domain
			if r > 0x7F && isDigit(r) {
				return nil
			}
		}

		lexemes := refs.Lex(text)
		kinds := 0
		for _, lex := range lexemes {
			if lex.Kind != refs.Plain {
				kinds++
			}
			o.ClassIf(lex.Kind == refs.Start, "start")
			o.ClassIf(lex.Kind == refs.Stop, "stop")
		}
		o.NonTrivialIf(kinds > 0 && len(lexemes) > 1)

		tokens := ansi.StripToken(text.Clone())

		// merge the pieces into lexemes
		var got []refs.Lexeme
		add := func(kind refs.Kind, rs []rune) {
			if len(rs) == 0 {
				return
			}
			if n := len(got); kind == refs.Plain && n > 0 && got[n-1].Kind == refs.Plain {
				got[n-1].Text = append(append([]rune{}, got[n-1].Text...), rs...)

				return
			}
			got = append(got, refs.Lexeme{Kind: kind, Text: rs})
		}
		for _, tok := range tokens {
			add(refs.Start, tok.StartSequence)
			add(refs.Plain, tok.Text)
			add(refs.Stop, tok.StopSequence)
		}

		if len(got) != len(lexemes) {
			return fmt.Errorf("%q: pieces %s, want %s", string(text), showTokens(tokens), showLexemes(lexemes))
		}
		for i := range got {
			if got[i].Kind != lexemes[i].Kind || !gens.Equal(got[i].Text, lexemes[i].Text) {
				return fmt.Errorf("%q: pieces %s, want %s", string(text), showTokens(tokens), showLexemes(lexemes))
			}
		}

		return nil
	}

	checkLong := func(l gens.Long, o *pbt.Obs) error { return check(l.Text(), o) }

	return pbt.Property{
		ID: "C08",
		Rule: "random mixes of plain text, escape sequences (SGR and others, whole or cut), stray ESC and any runes, compared with a reference lexer; " +
			"and exhaustively all words of up to 6 (thorough: 8) runes over ESC, [, 0, 1, ;, m, h, K, a, and all sequences of up to 3 arguments of up to 4 digits in 0 and 7 with every final rune. " +
			"Non-trivial: a start or stop sequence and something else.",
		Assumptions: []string{"arguments are ASCII digits: texts with other decimal digits are skipped"},
		Checks: []pbt.Check{
			pbt.Rapid[gens.Text]{Name: "mixes", Quick: 60000 * 6, Thorough: 6000000, Gen: genANSI(12), Check: check},
			pbt.Rapid[gens.Text]{Name: "long", Quick: 1000 * 5, Thorough: 50000, Gen: genANSI(200), Check: check},
			pbt.Rapid[gens.Long]{Name: "longer", Quick: 1600, Thorough: 30000, Gen: func(t *rapid.T) gens.Long { return gens.GenLong(pieceANSI, 16).Draw(t, "long") }, Check: checkLong},
			ansiWords("words", 6, 8, check),
			ansiArgs("arguments", check),
			ansiSizes(check),
		},
	}
}

func isDigit(r rune) bool { return unicodeDigit(r) }

func showLexemes(lexemes []refs.Lexeme) string {
	s := ""
	for i, lex := range lexemes {
		if i > 40 {
			return s + "..."
		}
		s += fmt.Sprintf("{%s:%q}", [...]string{"text", "start", "stop"}[lex.Kind], string(lex.Text))
	}

	return s
}

type wordBlock struct {
	Prefix gens.Text `json:"prefix"`
	Depth  int       `json:"depth"` // all words with this prefix and up to depth more runes
}

const ansiAlphabet = "\x1b[01;mhKa"

// ansiWords enumerates all the words over a small alphabet.
func ansiWords(name string, quick, thorough int, check func(gens.Text, *pbt.Obs) error) pbt.Check {
	alphabet := []rune(ansiAlphabet)

	var visit func(prefix gens.Text, depth int, f func(gens.Text) error) error
	visit = func(prefix gens.Text, depth int, f func(gens.Text) error) error {
		if err := f(prefix); err != nil || depth == 0 {
			return err
		}
		for _, r := range alphabet {
			if err := visit(append(prefix[:len(prefix):len(prefix)], r), depth-1, f); err != nil {
				return err
			}
		}

		return nil
	}

	return pbt.Enum[wordBlock]{
		Name: name,
		List: func(deep bool) []wordBlock {
			depth := quick
			if deep {
				depth = thorough
			}
			blocks := []wordBlock{}
			for _, a := range alphabet {
				blocks = append(blocks, wordBlock{gens.Text{a}, 0})
				for _, b := range alphabet {
					blocks = append(blocks, wordBlock{gens.Text{a, b}, depth - 2})
				}
			}

			return append(blocks, wordBlock{gens.Text{}, 0})
		},
		Check: func(b wordBlock, o *pbt.Obs) error {
			n := 0
			err := visit(b.Prefix, b.Depth, func(word gens.Text) error {
				n++
				sub := new(pbt.Obs)
				err := check(word, sub)
				o.NonTrivialIf(sub.IsNonTrivial())

				return err
			})
			o.Weight(n)

			return err
		},
		Narrow: func(b wordBlock, fails func(wordBlock) bool) wordBlock {
			for depth := 0; depth <= b.Depth; depth++ {
				found := b
				hit := visit(b.Prefix, depth, func(word gens.Text) error {
					if c := (wordBlock{word, 0}); fails(c) {
						found = wordBlock{append(gens.Text{}, word...), 0}

						return errFound
					}

					return nil
				})
				if hit != nil {
					return found
				}
			}

			return b
		},
	}
}

// ansiSizes enumerates texts by size, with a sequence at every position.
func ansiSizes(check func(gens.Text, *pbt.Obs) error) pbt.Check {
	return sweep.Texts("sizes", 90, 1<<12, []string{"a", "漢", "\x1b[1m", "\x1b[0m", "\x1b[1ma\x1b[0m", "\x1b", "\x1b[1;", "0", "1;"},
		[]string{"\x1b[31m", "\x1b[m", "\x1b[", "\x1b", "m", "\x1b[2J", "x"}, check)
}

var errFound = fmt.Errorf("found")

// ansiArgs enumerates sequences by arguments, between two letters.
func ansiArgs(name string, check func(gens.Text, *pbt.Obs) error) pbt.Check {
	var args []string
	for n := 0; n <= 4; n++ {
		for bits := 0; bits < 1<<n; bits++ {
			arg := ""
			for k := 0; k < n; k++ {
				arg += string("07"[bits>>k&1])
			}
			args = append(args, arg)
		}
	}

	type argCase struct {
		First string `json:"first"`
		Text  string `json:"text,omitempty"`
	}

	visit := func(first string, f func(string) error) error {
		for final := rune(0x20); final < 0x7F; final++ {
			if final >= '0' && final <= '9' {
				continue
			}
			if err := f("a\x1b[" + first + string(final) + "b"); err != nil {
				return err
			}
		}
		for _, second := range args {
			for _, sep := range ";:," {
				for _, final := range "mshulKn" {
					if err := f("a\x1b[" + first + string(sep) + second + string(final) + "b"); err != nil {
						return err
					}
				}
				for _, third := range args {
					for _, final := range "mh" {
						if err := f("a\x1b[" + first + ";" + second + string(sep) + third + string(final)); err != nil {
							return err
						}
					}
				}
			}
		}

		return nil
	}

	return pbt.Enum[argCase]{
		Name: name,
		List: func(bool) []argCase {
			var out []argCase
			for _, a := range args {
				out = append(out, argCase{First: a})
			}

			return out
		},
		Check: func(c argCase, o *pbt.Obs) error {
			o.NonTrivial()
			if c.Text != "" {
				return check(gens.Text(c.Text), o)
			}
			n := 0
			err := visit(c.First, func(s string) error {
				n++

				return check(gens.Text(s), new(pbt.Obs))
			})
			o.Weight(n)

			return err
		},
		Narrow: func(c argCase, fails func(argCase) bool) argCase {
			found := c
			_ = visit(c.First, func(s string) error {
				if d := (argCase{c.First, s}); fails(d) {
					found = d

					return errFound
				}

				return nil
			})

			return found
		},
	}
}
