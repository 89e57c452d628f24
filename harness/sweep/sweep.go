// Package sweep enumerates texts by size: a filling, and possibly one piece that stands out, at every position.
//
// Random texts hardly ever have a given size, or something at the last rune of a long text.
package sweep

import (
	"errors"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/gens"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/pbt"
)

// Spot is a text of the given size: the filling again and again, with a mark written over it.
type Spot struct {
	Size int       `json:"size"`
	Fill gens.Text `json:"fill"`
	Mark gens.Text `json:"mark,omitempty"`
	At   int       `json:"at"`
}

// Text is the text described.
func (s Spot) Text() gens.Text {
	out := make(gens.Text, s.Size)
	for i := range out {
		out[i] = s.Fill[i%len(s.Fill)]
	}
	if len(s.Mark) > 0 {
		copy(out[s.At:], s.Mark)
	}

	return out
}

// block is all the texts of one size, with one filling, or one of them.
type block struct {
	Size int       `json:"size"`
	Fill gens.Text `json:"fill"`
	Only *Spot     `json:"only,omitempty"`
}

// Sizes lists all sizes up to dense, then those around the powers of two up to top.
func Sizes(dense, top int) []int {
	var out []int
	for n := 0; n <= dense; n++ {
		out = append(out, n)
	}
	for p := 2; p <= top; p *= 2 {
		for n := p - 3; n <= p+3; n++ {
			if n > dense {
				out = append(out, n)
			}
		}
	}

	return out
}

// positions lists all positions in a text of some size, or the remarkable ones.
func positions(size, dense int) []int {
	if size <= dense {
		out := make([]int, size)
		for i := range out {
			out[i] = i
		}

		return out
	}

	seen := map[int]bool{}
	var out []int
	add := func(i int) {
		if i >= 0 && i < size && !seen[i] {
			seen[i] = true
			out = append(out, i)
		}
	}
	for _, i := range []int{0, 1, size / 2, size - 2, size - 1} {
		add(i)
	}
	for p := 1 << 30; p > 0; p /= 2 {
		if p < size { // the last power of two below
			add(p - 1)
			add(p)

			break
		}
	}

	return out
}

var errFound = errors.New("found")

// Texts makes a check which runs f on all the texts of the sweep.
//
// All sizes and all positions are visited up to size dense (twice as much in a thorough run), only remarkable ones from there.
func Texts(name string, dense, top int, fills, marks []string, f func(gens.Text, *pbt.Obs) error) pbt.Check {
	runes := func(list []string) (out []gens.Text) {
		for _, s := range list {
			out = append(out, gens.Text(s))
		}

		return out
	}

	return Runes(name, dense, top, runes(fills), runes(marks), f)
}

// Runes is like Texts, with invalid runes allowed.
func Runes(name string, dense, top int, fills, marks []gens.Text, f func(gens.Text, *pbt.Obs) error) pbt.Check {
	visit := func(b block, dense int, f func(Spot) error) error {
		if b.Only != nil {
			return f(*b.Only)
		}
		if err := f(Spot{Size: b.Size, Fill: b.Fill}); err != nil {
			return err
		}
		for _, at := range positions(b.Size, dense) {
			for _, mark := range marks {
				if err := f(Spot{b.Size, b.Fill, mark, at}); err != nil {
					return err
				}
			}
		}

		return nil
	}

	return pbt.Enum[block]{
		Name: name,
		List: func(thorough bool) []block {
			n := dense
			if thorough {
				n = 2 * dense
			}
			var out []block
			for _, size := range Sizes(n, top) {
				for _, fill := range fills {
					b := block{Size: size, Fill: fill}
					if size <= n {
						out = append(out, b)

						continue
					}
					_ = visit(b, n, func(s Spot) error { // one by one
						out = append(out, block{size, fill, &s})

						return nil
					})
				}
			}

			return out
		},
		Check: func(b block, o *pbt.Obs) error {
			n := 0
			err := visit(b, 2*dense, func(s Spot) error {
				n++
				sub := new(pbt.Obs)
				err := f(s.Text(), sub)
				o.NonTrivialIf(sub.IsNonTrivial())

				return err
			})
			o.Weight(n)

			return err
		},
		Narrow: func(b block, fails func(block) bool) block {
			found := b
			_ = visit(b, 2*dense, func(s Spot) error {
				if c := (block{b.Size, b.Fill, &s}); fails(c) {
					found = c

					return errFound
				}

				return nil
			})

			return found
		},
	}
}
