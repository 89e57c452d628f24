package main

import (
	"encoding/json"
	"errors"
	"fmt"

	"pgregory.net/rapid"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/gens"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/langs"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/ops"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/pbt"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/sweep"
)

// What happens to the result and to the input after a call.
const (
	hold = iota
	spoilResult
	spoilInput
	reuse // the input is put in the same buffer as that of other calls
)

type step struct {
	ops.Op
	After int `json:"after"`
}

type history struct {
	Steps []step `json:"steps"`
	Again []int  `json:"again"` // how to draw the next step to rerun, among those left
}

type held struct {
	op     ops.Op
	result ops.Result
	copied ops.Result
	input  []rune
}

// run the history, then again in another order, with other objects.
func (h history) run() error {
	var all []held
	first := make([]ops.Result, len(h.Steps))

	pass := func(order []int, again bool) error {
		x := ops.NewObjects()
		buffer := make([]rune, 0, 64)
		for n, i := range order {
			s := h.Steps[i]
			x.Prepare(s.Op)
			input := s.Input()
			if s.After == reuse {
				buffer = append(buffer[:0], input[:len(input)+3]...)
				input = buffer[:len(input)]
			}
			result, err := ops.Guarded(x, s.Op, input)
			if err != nil {
				result = ops.Result{Value: err.Error()}
			}
			if !s.Intact(input) {
				return fmt.Errorf("step %d, %v: input modified into %q", i, s.Op, string(input[:len(input)+3]))
			}
			copied := result.Clone()
			if !again {
				first[i] = copied
			} else if !copied.Equal(first[i]) {
				return fmt.Errorf("%v: step %d gave %v, then %v when called again in other circumstances (call %d)", s.Op, i, first[i], copied, len(order)+n)
			}
			if err := ops.Judge(s.Op, copied); err != nil {
				return err
			}
			if s.After == reuse {
				continue
			}
			if s.After == hold || again {
				all = append(all, held{s.Op, result, copied, input})

				continue
			}
			if s.After == spoilInput {
				for k := range input {
					input[k] = 0x2602
				}
				_ = append(input, 0x2602, 0x2602)

				continue
			}
			result.Spoil()
		}

		return nil
	}

	order := make([]int, len(h.Steps))
	for i := range order {
		order[i] = i
	}
	if err := pass(order, false); err != nil {
		return err
	}

	left := append([]int{}, order...)
	order = order[:0]
	for k := 0; len(left) > 0; k++ {
		at := 0
		if len(h.Again) > 0 {
			at = h.Again[k%len(h.Again)] % len(left)
		}
		order = append(order, left[at])
		left = append(left[:at], left[at+1:]...)
	}
	if err := pass(order, true); err != nil {
		return err
	}

	for _, kept := range all {
		if !kept.result.Equal(kept.copied) {
			return fmt.Errorf("%v: the result %v changed afterwards into %v", kept.op, kept.copied, kept.result)
		}
		if !kept.op.Intact(kept.input) {
			return fmt.Errorf("%v: input modified afterwards into %q", kept.op, string(kept.input))
		}
	}

	return nil
}

func serveHistory(in []byte) []byte {
	var h history
	if err := json.Unmarshal(in, &h); err != nil {
		pbt.Internal("%v", err)
	}
	if err := h.run(); err != nil {
		return []byte(err.Error())
	}

	return nil
}

func genHistory(max int) func(*rapid.T) history {
	return func(t *rapid.T) history {
		pool := ops.GenPool(t)
		steps := rapid.Custom(func(t *rapid.T) step {
			return step{Op: ops.GenOp(t, pool), After: rapid.IntRange(hold, reuse).Draw(t, "after")}
		})

		least := 1
		if rapid.IntRange(0, 3).Draw(t, "long") > 0 {
			least = max / 3
		}

		return history{
			Steps: rapid.SliceOfN(steps, least, max).Draw(t, "steps"),
			Again: rapid.SliceOfN(rapid.IntRange(0, 60), 1, 12).Draw(t, "again"),
		}
	}
}

// sizedHistory is a history of calls on texts of about the same size, or of this number of calls.
type sizedHistory struct {
	Kind string `json:"kind"`
	N    int    `json:"n"`
	Turn int    `json:"turn"`
}

// calls which have something to do with the text.
var calls = []string{"hyphenate", "punctuate", "tokenize", "fields", "hyphens", "strip", "strip1", "widths", "width", "is"}

func listSizes(thorough bool) []sizedHistory {
	var out []sizedHistory
	turns, dense, top := 10, 66, 520
	if thorough {
		turns, dense, top = 30, 200, 1030
	}
	for turn := 0; turn < turns; turn++ {
		for _, n := range sweep.Sizes(dense, top) {
			out = append(out, sizedHistory{"text", n, turn})
		}
		for _, n := range sweep.Sizes(20, 4*top) {
			out = append(out, sizedHistory{"words", n, turn}, sizedHistory{"twice", n, turn})
		}
	}

	return out
}

func (s sizedHistory) history() (h history) {
	fills := []gens.Text{gens.Text("hyphenation"), gens.Text("so, it-is "), gens.Text("\x1b[31mRed\x1b[0m"), gens.Text("\u6f22\u00e9a,"), gens.Text("BeautIful")}
	h.Again = []int{s.Turn, 3, s.N, 0, 7}
	add := func(kind string, text gens.Text, i int) {
		h.Steps = append(h.Steps, step{
			Op:    ops.Op{Kind: kind, Text: text, FromStr: i%3 == 1, Fresh: i%5 == 1, Lang: (s.Turn + i/2%2) % len(langs.All)},
			After: (i + s.Turn) % (reuse + 1),
		})
	}
	fill := func(i, n int) gens.Text { return sweep.Spot{Size: n, Fill: fills[i%len(fills)]}.Text() }

	switch s.Kind {
	case "text": // two texts of this size, then one about it, then half of it
		for i, kind := range calls {
			for k, n := range []int{s.N, s.N, s.N + 1 - s.Turn%3, s.N / 2, s.N} {
				add(kind, fill(i+k+s.Turn, max(0, n)), i+k)
			}
		}
	case "words": // as many different ones, then the first ones
		word := func(i int) gens.Text { return gens.Text(fmt.Sprintf("un%dhyphen%sly", i, string(rune('a'+i%26)))) }
		for i := 0; i < s.N; i++ {
			add(calls[s.Turn%len(calls)], word(i), s.Turn/4)
		}
		for i := 0; i < 3; i++ {
			add(calls[s.Turn%len(calls)], word(i), s.Turn/4)
		}
	default: // the same as many times
		for i := 0; i < s.N; i++ {
			add(calls[(s.Turn+4)%len(calls)], fill(0, 14), i)
		}
		add(calls[(s.Turn+4)%len(calls)], fill(1, 14), 0)
		add(calls[(s.Turn+4)%len(calls)], fill(0, 14), 0)
	}

	return h
}

func observe(h history, o *pbt.Obs) {
	kinds := map[string]bool{}
	hyphenators := map[string]bool{}
	calls := map[string]int{}
	repeated := false
	for _, s := range h.Steps {
		kinds[s.Kind] = true
		if s.Kind == "hyphenate" {
			a, b, c := s.Limits.Values()
			hyphenators[fmt.Sprint(s.Lang, a, b, c)] = true
		}
		calls[s.Kind+string(s.Text)]++
		repeated = repeated || calls[s.Kind+string(s.Text)] > 1
	}
	o.NonTrivialIf(len(kinds) > 2 && repeated)
	o.ClassIf(len(hyphenators) > 1, "several hyphenators")
	o.ClassIf(repeated, "same call twice")
}

func propPure() pbt.Property {
	return pbt.Property{
		ID: "C17",
		Rule: "random histories of calls over a small pool of inputs: hyphenators of several languages and limits (shared or fresh), punctuator, tokenizer, hyphen splitter, ANSI stripper, widths with various options, pattern loading, line breaking; after each call the result or the input may be overwritten and appended to, or the buffer of the input used again for another one. " +
			"The history is run twice, the second time in another order with other objects: results must be the same, inputs (and the room after them) untouched, results held from earlier calls unchanged; results which differ from the reference models are compared with those of the same call alone in a new process. " +
			"Some histories run in a process of their own, so that loading languages is part of them. Non-trivial: three kinds of calls or more, and some call made twice.",
		Checks: []pbt.Check{
			pbt.Rapid[history]{Name: "cold", Quick: 480, Thorough: 24000, Gen: genHistory(24), Repeat: 2,
				Check: func(h history, o *pbt.Obs) error {
					observe(h, o)
					out, err := ops.Fresh("history", h)
					if err != nil {
						return err
					}
					if len(out) > 0 {
						return errors.New(string(out))
					}

					return nil
				}},
			pbt.Rapid[history]{Name: "histories", Quick: 50000, Thorough: 2000000, Gen: genHistory(40),
				Check: func(h history, o *pbt.Obs) error {
					observe(h, o)

					return h.run()
				}},
			pbt.Enum[sizedHistory]{Name: "sizes", List: listSizes,
				Check: func(s sizedHistory, o *pbt.Obs) error {
					o.NonTrivialIf(s.N > 0)

					return s.history().run()
				}},
		},
	}
}
