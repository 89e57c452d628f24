// Command conc decides the property of concurrent use. It is built with the race detector.
package main

import (
	"fmt"
	"runtime"
	"sync"

	"pgregory.net/rapid"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/gens"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/langs"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/ops"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/pbt"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/sweep"
)

func main() {
	ops.Serve(nil)
	pbt.Main(propConcurrent())
}

// concurrent calls: every row is the work of one goroutine.
type concurrent struct {
	Rows  [][]ops.Op `json:"rows"`
	Share bool       `json:"share"`           // inputs are shared by the goroutines
	Yield []int      `json:"yield,omitempty"` // after how many calls to yield
	Built bool       `json:"built"`           // the shared hyphenators are built before the start
}

func gen(maxRows, maxOps int) func(*rapid.T) concurrent {
	return func(t *rapid.T) concurrent {
		pool := ops.GenPool(t)
		op := rapid.Custom(func(t *rapid.T) ops.Op { return ops.GenOp(t, pool) })
		c := concurrent{Share: rapid.Bool().Draw(t, "share"), Built: rapid.Bool().Draw(t, "built")}
		same := rapid.Bool().Draw(t, "same") // all goroutines do the same
		n := rapid.IntRange(2, maxRows).Draw(t, "rows")
		row := rapid.SliceOfN(op, 1, maxOps)
		for i := 0; i < n; i++ {
			if same && i > 0 {
				c.Rows = append(c.Rows, c.Rows[0])

				continue
			}
			c.Rows = append(c.Rows, row.Draw(t, "row"))
		}
		c.Yield = rapid.SliceOfN(rapid.IntRange(0, 4), 0, 4).Draw(t, "yield")

		return c
	}
}

func (c concurrent) check(o *pbt.Obs) error {
	shared := ops.NewObjects()
	rows := make([][]ops.Op, len(c.Rows))
	inputs := map[string][]rune{}
	kinds := map[string]bool{}
	for i, row := range c.Rows {
		rows[i] = append([]ops.Op{}, row...)
		for k, op := range row {
			kinds[op.Kind] = true
			if c.Built {
				shared.Prepare(op) // may be shared from now on
			} else {
				rows[i][k].Fresh = true
			}
			if c.Share && inputs[string(op.Text)] == nil {
				inputs[string(op.Text)] = op.Input()
			}
		}
	}
	o.NonTrivialIf(len(rows) > 2 && len(kinds) > 1)
	o.ClassIf(c.Built, "shared hyphenators")
	o.ClassIf(!c.Built, "own hyphenators")

	type outcome struct {
		result ops.Result
		err    error
	}
	results := make([][]outcome, len(rows))
	start := make(chan struct{})
	var ready, done sync.WaitGroup
	for i, row := range rows {
		results[i] = make([]outcome, len(row))
		ready.Add(1)
		done.Add(1)
		go func() {
			defer done.Done()
			ready.Done()
			<-start
			for k, op := range row {
				input := inputs[string(op.Text)]
				if input == nil || len(input) != len(op.Text) || !op.Intact(input) {
					input = op.Input()
				}
				var r outcome
				r.result, r.err = ops.Guarded(shared, op, input)
				r.result = r.result.Clone()
				results[i][k] = r
				if len(c.Yield) > 0 && c.Yield[(i+k)%len(c.Yield)] == 1 {
					runtime.Gosched()
				}
			}
		}()
	}
	ready.Wait()
	close(start)
	done.Wait()

	// each call must have given what it gives alone
	for i, row := range rows {
		for k, op := range row {
			got := results[i][k]
			want, err := ops.Guarded(shared, op, op.Input())
			switch {
			case got.err != nil && err == nil, got.err == nil && err != nil:
				return fmt.Errorf("%v: %v in goroutine %d, %v alone", op, got.err, i, err)
			case err != nil:
				continue
			case !got.result.Equal(want):
				return fmt.Errorf("%v: %v in goroutine %d, %v alone", op, got.result, i, want)
			}
			if err := ops.Judge(op, got.result); err != nil {
				return fmt.Errorf("goroutine %d: %w", i, err)
			}
		}
	}

	return nil
}

// sized is a program of which the texts, or the goroutines, or the calls have some size.
type sized struct {
	Kind string `json:"kind"`
	N    int    `json:"n"`
	Turn int    `json:"turn"`
}

var calls = []string{"hyphenate", "punctuate", "tokenize", "fields", "hyphens", "strip", "strip1", "widths", "width", "is"}

func listSizes(thorough bool) []sized {
	var out []sized
	turns, dense, top := 1, 66, 260
	if thorough {
		turns, dense, top = 10, 130, 520
	}
	for turn := 0; turn < turns; turn++ {
		for _, n := range sweep.Sizes(dense, top) {
			out = append(out, sized{"texts", n, turn})
		}
		for _, n := range sweep.Sizes(34, top) {
			out = append(out, sized{"goroutines", n + 1, turn}, sized{"calls", n + 1, turn})
		}
	}

	return out
}

func (s sized) program() (c concurrent) {
	fills := []gens.Text{gens.Text("hyphenation"), gens.Text("so, it-is "), gens.Text("\x1b[31mRed\x1b[0m"), gens.Text("\u6f22\u00e9a,"), gens.Text("BeautIful")}
	c.Share, c.Built = s.N%2 == 0, s.N/2%2 == 0
	op := func(i, n int) ops.Op {
		return ops.Op{Kind: calls[(i+s.Turn)%len(calls)], Text: sweep.Spot{Size: n, Fill: fills[i/2%len(fills)]}.Text(), FromStr: i%3 == 1, Lang: s.Turn % len(langs.All)}
	}
	rows, each, size := 6, 10, 9
	switch s.Kind {
	case "texts":
		size = s.N
	case "goroutines":
		rows, each = s.N, 3
	default:
		rows, each = 3, s.N
	}
	for i := 0; i < rows; i++ {
		var row []ops.Op
		for k := 0; k < each; k++ {
			row = append(row, op(i+k, size+i%2))
		}
		c.Rows = append(c.Rows, row)
	}

	return c
}

func propConcurrent() pbt.Property {
	check := func(c concurrent, o *pbt.Obs) error { return c.check(o) }

	return pbt.Property{
		ID: "C18",
		Rule: "random programs of 2 to 16 goroutines started together: hyphenators of several languages and limits, built by each or shared, punctuators, tokenizers, ANSI stripping, widths, pattern loading and line breakers of their own, on inputs shared or not; the Go race detector watches all accesses. " +
			"Every result is compared with that of the same call made alone afterwards, and if it differs from the reference models, alone in a new process. One check starts many processes for a few cases each: their first case is a cold start. Non-trivial: three goroutines or more, two kinds of calls or more.",
		Assumptions: []string{"schedules are those the Go scheduler produces, with random yields; the race detector reports unsynchronized accesses whatever the order observed, for the accesses of these runs"},
		Checks: []pbt.Check{
			pbt.Rapid[concurrent]{Name: "cold", Quick: 160, Thorough: 2560, Shards: 80, Gen: gen(12, 8), Check: check, Repeat: 30},
			pbt.Rapid[concurrent]{Name: "programs", Quick: 2400, Thorough: 120000, Gen: gen(16, 12), Check: check, Repeat: 200},
			pbt.Enum[sized]{Name: "sizes", List: listSizes, Check: func(s sized, o *pbt.Obs) error { return s.program().check(o) }},
		},
	}
}
