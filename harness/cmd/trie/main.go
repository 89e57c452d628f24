// Command trie decides the properties of the trie of runes.
package main

import (
	"fmt"
	"unicode"

	"pgregory.net/rapid"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator/internal/trie"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/gens"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/pbt"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/sweep"
)

type trieOp struct {
	Op    string    `json:"op"` // put, nil (put nil), get, delete
	Key   gens.Text `json:"key"`
	Value int       `json:"value,omitempty"`
}

// fill puts keys with the same prefix, one for each of the runes from a first one.
type fill struct {
	Prefix gens.Text `json:"prefix,omitempty"`
	First  rune      `json:"first"`
	Step   rune      `json:"step"`
	N      int       `json:"n"`
	Suffix gens.Text `json:"suffix,omitempty"`
}

func (f fill) ops() []trieOp {
	var out []trieOp
	for i := 0; i < f.N; i++ {
		key := append(append(f.Prefix.Clone(), f.First+rune(i)*f.Step), f.Suffix...)
		out = append(out, trieOp{Op: "put", Key: key, Value: i})
	}

	return out
}

type wideCase struct {
	Fills []fill   `json:"fills"`
	Ops   []trieOp `json:"ops"`
}

// genWide draws tries with many branches at a node, then some operations on these.
func genWide(t *rapid.T) wideCase {
	var c wideCase
	runes := rapid.SampledFrom([]rune("aàa\u0430漢\U0001F600"))
	for n := rapid.IntRange(1, 3).Draw(t, "fills"); n > 0; n-- {
		f := fill{
			First: runes.Draw(t, "first"),
			Step:  rapid.SampledFrom([]rune{1, 1, 1, 2, 3, 16, 32, 128, 256, 4096}).Draw(t, "step"),
			N:     gens.Pick(t, "n?", []int{3, 1}, []int{70, 300}),
		}
		f.N = rapid.IntRange(1, f.N).Draw(t, "n")
		if len(c.Fills) > 0 && rapid.Bool().Draw(t, "related") {
			f.First = c.Fills[0].First + rapid.SampledFrom([]rune{0, 1, -1, 32, 64, 128, 256, 512, 65536}).Draw(t, "offset")
		}
		if rapid.IntRange(0, 2).Draw(t, "prefixed") == 0 {
			f.Prefix = gens.Text(rapid.SliceOfN(runes, 1, 2).Draw(t, "prefix"))
		}
		if rapid.Bool().Draw(t, "suffixed") {
			f.Suffix = gens.Text(rapid.SliceOfN(runes, 1, 2).Draw(t, "suffix"))
		}
		c.Fills = append(c.Fills, f)
	}
	for n := rapid.IntRange(0, 12).Draw(t, "ops"); n > 0; n-- {
		f := rapid.SampledFrom(c.Fills).Draw(t, "fill")
		op := f.ops()[rapid.IntRange(0, f.N-1).Draw(t, "which")]
		op.Op = gens.Pick(t, "op", []int{3, 1, 1}, []string{"delete", "put", "get"})
		switch rapid.IntRange(0, 3).Draw(t, "key") {
		case 0:
			op.Key = op.Key[:rapid.IntRange(0, len(op.Key)).Draw(t, "cut")]
		case 1:
			op.Key = append(op.Key, runes.Draw(t, "more"))
		}
		c.Ops = append(c.Ops, op)
	}

	return c
}

func checkWide(c wideCase, o *pbt.Obs) error {
	var ops []trieOp
	for _, f := range c.Fills {
		ops = append(ops, f.ops()...)
	}
	quiet := len(ops) // compared at the end of the fills, then after each operation

	return run(append(ops, c.Ops...), quiet-1, o)
}

type trieCase struct {
	Ops []trieOp `json:"ops"`
}

func gen(max int) func(*rapid.T) trieCase {
	key := rapid.Custom(func(t *rapid.T) gens.Text {
		if rapid.IntRange(0, 11).Draw(t, "any") == 0 {
			return gens.AnyText(4).Draw(t, "key")
		}

		return gens.Text(rapid.SliceOfN(rapid.SampledFrom([]rune("aab漢")), 0, 5).Draw(t, "key"))
	})
	// keys related to some of a few words, long ones included: prefixes, extensions, one rune off
	related := func(t *rapid.T) *rapid.Generator[gens.Text] {
		alphabet := gens.Focus(t, gens.AnyRune())
		words := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) gens.Text {
			n := gens.Pick(t, "length", []int{2, 3, 1}, []int{5, 20, 70})

			return gens.Text(rapid.SliceOfN(alphabet, 0, n).Draw(t, "word"))
		}), 1, 3).Draw(t, "words")

		return rapid.Custom(func(t *rapid.T) gens.Text {
			word := rapid.SampledFrom(words).Draw(t, "word").Clone()
			switch k := rapid.IntRange(0, len(word)).Draw(t, "at"); rapid.IntRange(0, 7).Draw(t, "relation") {
			case 0:
				return word[:k]
			case 1:
				return append(word, alphabet.Draw(t, "rune"))
			case 2:
				return append(word, rapid.SampledFrom(words).Draw(t, "other")...)
			case 3, 4:
				if k < len(word) {
					word[k] = neighbour(t, word[k])
				}
			case 5:
				return append(word[:k:k], word[min(k+1, len(word)):]...)
			}

			return word
		})
	}
	op := func(key *rapid.Generator[gens.Text]) *rapid.Generator[trieOp] {
		return rapid.Custom(func(t *rapid.T) trieOp {
			o := trieOp{Op: gens.Pick(t, "op", []int{10, 8, 4, 1}, []string{"put", "delete", "get", "nil"}), Key: key.Draw(t, "key")}
			if o.Op == "put" {
				o.Value = rapid.IntRange(0, 5).Draw(t, "value")
			}

			return o
		})
	}

	return func(t *rapid.T) trieCase {
		keys := key
		if rapid.IntRange(0, 2).Draw(t, "related") > 0 {
			keys = related(t)
		}

		return trieCase{rapid.SliceOfN(op(keys), 1, max).Draw(t, "ops")}
	}
}

// neighbour yields a rune one bit away, of the other case, or next to another one.
func neighbour(t *rapid.T, r rune) rune {
	switch rapid.IntRange(0, 3).Draw(t, "how") {
	case 0:
		return r ^ 1<<rapid.IntRange(0, 20).Draw(t, "bit")
	case 1:
		return unicode.SimpleFold(r)
	case 2:
		return r + rune(rapid.SampledFrom([]int{-1, 1, 256, -256, 65536, -65536}).Draw(t, "shift"))
	default:
		return r ^ 0x20
	}
}

func isPrefix(p, k string) bool { return len(p) <= len(k) && k[:len(p)] == p }

// id identifies a key, invalid runes included.
func id(key []rune) string {
	s := make([]byte, 0, 4*len(key))
	for _, r := range key {
		s = append(s, byte(r>>24), byte(r>>16), byte(r>>8), byte(r))
	}

	return string(s)
}

func check(c trieCase, o *pbt.Obs) error { return run(c.Ops, 0, o) }

// run the operations, and compare with a map after each one from a given one on.
func run(ops []trieOp, from int, o *pbt.Obs) error {
	var (
		t       trie.Trier = trie.NewRuneTrie()
		model              = map[string]int{}
		keys               = map[string][]rune{}
		nils               = map[string]bool{} // keys put with nil: whether they exist is not claimed
		removed int
	)

	touch := func(key []rune) {
		for n := 0; n <= len(key); n++ {
			keys[id(key[:n])] = append([]rune{}, key[:n]...)
		}
		longer := append(append([]rune{}, key...), 'a')
		keys[id(longer)] = longer
	}

	compare := func(step string) error {
		for k, key := range keys {
			want, stored := model[k]
			got := t.Get(key)
			if !stored && got != nil {
				return fmt.Errorf("%s: get %q yields %v, want nil", step, string(key), got)
			}
			if stored && got != any(want) {
				return fmt.Errorf("%s: get %q yields %v, want %d", step, string(key), got, want)
			}
		}

		return nil
	}

	for i, op := range ops {
		step := fmt.Sprintf("op %d (%s %q)", i, op.Op, string(op.Key))
		k, buf := id(op.Key), op.Key.Clone()
		_, stored := model[k]
		touch(op.Key)

		switch op.Op {
		case "put":
			if isNew := t.Put(buf, op.Value); isNew == stored {
				return fmt.Errorf("%s: returns %t", step, isNew)
			}
			model[k] = op.Value
		case "nil":
			if isNew := t.Put(buf, nil); isNew == stored {
				return fmt.Errorf("%s: returns %t", step, isNew)
			}
			delete(model, k)
			nils[k] = true
		case "delete":
			found := t.Delete(buf)
			prefix := stored || len(op.Key) == 0
			for other := range model {
				prefix = prefix || isPrefix(k, other)
			}
			for other := range nils {
				prefix = prefix || isPrefix(k, other)
			}
			if stored {
				removed++
			}
			if stored && !found || found && !prefix {
				return fmt.Errorf("%s: returns %t", step, found)
			}
			delete(model, k)
		default:
			t.Get(buf)
		}

		if !gens.Equal(buf, op.Key) {
			return fmt.Errorf("%s: key modified", step)
		}
		for j := range buf { // the key belongs to the caller
			buf[j] = 'z'
		}
		if i < from {
			continue
		}
		if err := compare(step); err != nil {
			return err
		}
	}
	o.NonTrivialIf(removed > 0 && len(model) > 1)
	o.ClassIf(removed > 0, "with deletion")

	return nil
}

// sized is a history on keys of a given length, or on a number of keys.
type sized struct {
	Kind string `json:"kind"`
	N    int    `json:"n"`
	At   int    `json:"at"`
}

func (s sized) ops() (ops []trieOp, from int) {
	word := func(n int) gens.Text {
		out := make(gens.Text, n)
		for i := range out {
			out[i] = 'a' + rune(i%7)
		}

		return out
	}
	put := func(key gens.Text) trieOp { return trieOp{Op: "put", Key: key, Value: len(ops) + 1} }

	switch s.Kind {
	case "length": // a key, and keys that leave it at some rune, or end there
		key := word(s.N)
		fork := append(key[:s.At].Clone(), append(gens.Text{'z'}, key[s.At:]...)...)
		ops = append(ops, put(key), put(key[:s.At]), put(fork), put(append(key.Clone(), 'a')))
		for _, k := range []gens.Text{key, key[:s.At], fork, append(key.Clone(), 'a'), key} {
			ops = append(ops, trieOp{Op: "delete", Key: k})
		}
		ops = append(ops, put(fork[:s.At+1]), put(key))

		return ops, 0
	case "prefixes": // all the prefixes of a key, one deleted
		for n := 0; n <= s.N; n++ {
			ops = append(ops, put(word(n)))
		}
		from = len(ops) - 1

		return append(ops, trieOp{Op: "delete", Key: word(s.At)}, trieOp{Op: "delete", Key: word(s.N)}, trieOp{Op: "delete", Key: word(s.N - 1)}), from
	default: // keys next to each other, one deleted
		f := fill{Prefix: gens.Text("p"), First: 'a', Step: 1, N: s.N}
		ops = append(ops, f.ops()...)
		from = len(ops) - 1
		child := gens.Text{'p', 'a' + rune(s.At)}

		return append(ops, trieOp{Op: "delete", Key: child}, put(append(child.Clone(), 'x')), trieOp{Op: "delete", Key: append(child.Clone(), 'x')}, put(child), put(gens.Text("p"))), from
	}
}

func main() {
	pbt.Main(pbt.Property{
		ID: "C20",
		Rule: "random sequences of put, get and delete on keys of up to 5 runes over three runes, on keys of any runes, or on keys of up to 70 runes (200 when joined) related to one another (prefixes, extensions, one rune changed for one of the other case, a bit or a power of two away, or dropped), tries with up to 900 keys, hundreds of them under the same node; compared after every step with a map, for all keys used so far, their prefixes and an extension of each. " +
			"Non-trivial: some stored key deleted and at least two keys left.",
		Assumptions: []string{"delete is unspecified on the empty key, on keys without a value that are prefixes of others, and on keys put with nil", "values are comparable"},
		Checks: []pbt.Check{
			pbt.Rapid[trieCase]{Name: "history", Quick: 60000 * 8, Thorough: 3000000, Gen: gen(14), Check: check},
			pbt.Rapid[trieCase]{Name: "long", Quick: 2000 * 8, Thorough: 100000, Gen: gen(90), Check: check},
			pbt.Enum[sized]{Name: "sizes",
				List: func(thorough bool) (out []sized) {
					dense := 70
					if thorough {
						dense = 200
					}
					for _, n := range sweep.Sizes(dense, 512) {
						for _, kind := range []string{"length", "prefixes", "children"} {
							if n == 0 {
								continue
							}
							for at := 0; at < n; at++ {
								if n > 70 && at > 1 && at < n-2 && at != n/2 && at%64 > 1 {
									continue
								}
								out = append(out, sized{kind, n, at})
							}
						}
					}

					return out
				},
				Check: func(s sized, o *pbt.Obs) error {
					ops, from := s.ops()

					return run(ops, from, o)
				}},
			pbt.Rapid[wideCase]{Name: "wide", Quick: 8000, Thorough: 200000, Gen: genWide, Check: checkWide},
		},
	})
}
