package langs

import (
	"pgregory.net/rapid"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/gens"
)

// Limits are the length limits, nil when left to their defaults.
type Limits struct {
	Length *int `json:"minLength,omitempty"`
	Left   *int `json:"minLeft,omitempty"`
	Right  *int `json:"minRight,omitempty"`
	Twice  bool `json:"twice,omitempty"` // each option is first given another value: the last one wins
}

// Options to set these limits.
func (l Limits) Options() []hyphenator.Option {
	var opts []hyphenator.Option
	if l.Twice {
		other := func(n *int) *int {
			if n == nil {
				return nil
			}
			m := 12 - *n

			return &m
		}
		opts = Limits{Length: other(l.Length), Left: other(l.Left), Right: other(l.Right)}.Options()
	}
	if l.Length != nil {
		opts = append(opts, hyphenator.WithMinLength(*l.Length))
	}
	if l.Left != nil {
		opts = append(opts, hyphenator.WithMinLeft(*l.Left))
	}
	if l.Right != nil {
		opts = append(opts, hyphenator.WithMinRight(*l.Right))
	}

	return opts
}

// Values of the limits.
func (l Limits) Values() (length, left, right int) {
	length, left, right = 4, 2, 2
	if l.Length != nil {
		length = *l.Length
	}
	if l.Left != nil {
		left = *l.Left
	}
	if l.Right != nil {
		right = *l.Right
	}

	return length, left, right
}

// GenLimits draws limits.
func GenLimits(t *rapid.T) Limits {
	var l Limits
	one := func(name string, max int) *int {
		switch rapid.IntRange(0, 3).Draw(t, name+"?") {
		case 0:
			return nil
		case 1:
			n := rapid.IntRange(0, 1).Draw(t, name)

			return &n
		default:
			n := rapid.IntRange(0, max).Draw(t, name)

			return &n
		}
	}
	l.Length = one("minLength", 12)
	l.Left = one("minLeft", 7)
	l.Right = one("minRight", 7)
	l.Twice = gens.Pick(t, "twice", []int{3, 1}, []bool{false, true})

	return l
}
