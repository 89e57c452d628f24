package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"regexp"
	"unicode/utf8"

	"pgregory.net/rapid"

	"github.com/fredbi/go-typeset/terminal/runes/runesio"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/gens"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/pbt"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/sweep"
)

func encodedSize(r rune) int { return len(string(r)) } // 3 for invalid runes

type readerOp struct {
	Kind   string `json:"op"` // read, seek, runes, slice, slices, bytes
	Offset int64  `json:"offset,omitempty"`
	Whence int    `json:"whence,omitempty"`
	Pairs  []int  `json:"pairs,omitempty"`
}

type readerCase struct {
	Text gens.Text  `json:"text"`
	Long *gens.Long `json:"long,omitempty"` // instead of the text
	Ops  []readerOp `json:"ops"`
}

// short shows a text in messages.
func short(text []rune) string {
	if len(text) > 200 {
		return fmt.Sprintf("%q... (%d runes)", string(text[:200]), len(text))
	}

	return fmt.Sprintf("%q", string(text))
}

func genPairs(t *rapid.T, limit, max int) []int {
	var pairs []int
	for n := rapid.IntRange(0, max).Draw(t, "pairs"); n > 0; n-- {
		a := rapid.IntRange(0, limit).Draw(t, "start")
		pairs = append(pairs, a, rapid.IntRange(a, limit).Draw(t, "end"))
	}

	return pairs
}

var (
	ioFills = []gens.Text{gens.Text("a"), gens.Text("é"), gens.Text("漢"), gens.Text("😀"), gens.Text("aé漢😀")}
	ioMarks = []gens.Text{gens.Text("a"), gens.Text("é"), gens.Text("漢"), gens.Text("😀"), {-1}, {0xD800}, gens.Text("\n")}
)

// spans are pairs of positions in a text of n runes.
func spans(n int) []int {
	return []int{0, n, n / 3, n / 2, n / 2, n / 2, max(0, n-1), n, 0, min(1, n), n, n, 0, 0, n / 2, n, 0, n / 2}
}

func propReader() pbt.Property {
	genOps := func(t *rapid.T, c readerCase) readerCase {
		if c.Long != nil {
			c.Text = c.Long.Text()
		}
		n := int64(len(c.Text))
		op := rapid.Custom(func(t *rapid.T) readerOp {
			switch kind := gens.Pick(t, "op", []int{6, 6, 2, 2, 1, 2}, []string{"read", "seek", "runes", "slice", "slices", "reads"}); kind {
			case "seek":
				// concentrated around the bounds
				return readerOp{Kind: kind, Whence: rapid.IntRange(0, 2).Draw(t, "whence"), Offset: gens.Pick(t, "offset", []int{8, 3, 1}, []*rapid.Generator[int64]{
					rapid.Int64Range(-n-2, n+2), rapid.SampledFrom([]int64{-n - 1, -n, -n + 1, -1, 0, 1, n - 1, n, n + 1}),
					rapid.SampledFrom([]int64{1 << 62, -1 << 62, math.MaxInt64, math.MinInt64, 1 << 32, -1 << 32, 1<<32 + 1, math.MaxInt32, math.MinInt32, 1 << 31}),
				}).Draw(t, "n")}
			case "reads":
				return readerOp{Kind: kind, Offset: rapid.Int64Range(1, 12).Draw(t, "times")}
			case "slice":
				a := rapid.IntRange(0, len(c.Text)).Draw(t, "start")

				return readerOp{Kind: kind, Pairs: []int{a, rapid.IntRange(a, len(c.Text)).Draw(t, "end")}}
			case "slices":
				return readerOp{Kind: kind, Pairs: genPairs(t, len(c.Text), 3)}
			default:
				return readerOp{Kind: kind}
			}
		})
		c.Ops = rapid.SliceOfN(op, 0, gens.Size(t, 24)).Draw(t, "ops")
		if c.Long != nil {
			c.Text = nil
		}

		return c
	}

	check := func(c readerCase, o *pbt.Obs) error {
		if c.Long != nil {
			c.Text = c.Long.Text()
		}
		input := c.Text.Clone()
		if len(input) == 0 && len(c.Ops)%2 == 0 {
			input = nil
		}
		reader := runesio.NewSliceReader(input)
		if c.Long != nil { // the last third is read rune by rune, too
			c.Ops = append(c.Ops[:len(c.Ops):len(c.Ops)], readerOp{Kind: "seek", Offset: -int64(len(c.Text) / 3), Whence: io.SeekEnd}, readerOp{Kind: "reads", Offset: int64(len(c.Text))})
		}
		pos, n := int64(0), int64(len(c.Text))
		var failed, moved, eof bool

		for i, op := range c.Ops {
			switch op.Kind {
			case "read", "reads":
				for k := int64(0); k < max(1, op.Offset); k++ {
					r, size, err := reader.ReadRune()
					if pos >= n {
						eof = true
						if err != io.EOF || size != 0 {
							return fmt.Errorf("op %d: read at end: %v %d %v, want io.EOF", i, r, size, err)
						}

						break
					}
					if err != nil || r != c.Text[pos] || size != encodedSize(r) {
						return fmt.Errorf("op %d: read at %d: %d size %d err %v, want %d size %d", i, pos, r, size, err, c.Text[pos], encodedSize(c.Text[pos]))
					}
					pos++
				}
			case "seek":
				target := op.Offset
				switch op.Whence {
				case io.SeekCurrent:
					target += pos
				case io.SeekEnd:
					target += n
				}
				got, err := reader.Seek(op.Offset, op.Whence)
				if target < 0 || target > n {
					failed = true
					if err == nil || !errors.Is(err, runesio.ErrSeekOutOfRange) {
						return fmt.Errorf("op %d: seek to %d of %d: position %d err %v, want ErrSeekOutOfRange", i, target, n, got, err)
					}

					break
				}
				if err != nil || got != target {
					return fmt.Errorf("op %d: seek to %d of %d: position %d err %v", i, target, n, got, err)
				}
				moved = moved || target != pos
				pos = target
			case "runes":
			case "slice":
				if got := reader.Slice(op.Pairs[0], op.Pairs[1]); !gens.Equal(got, c.Text[op.Pairs[0]:op.Pairs[1]]) {
					return fmt.Errorf("op %d: slice %v is %s", i, op.Pairs, short(got))
				}
			case "slices":
				got := reader.Slices(op.Pairs)
				if len(got) != len(op.Pairs)/2 {
					return fmt.Errorf("op %d: slices %v: %d results", i, op.Pairs, len(got))
				}
				for k := range got {
					if !gens.Equal(got[k], c.Text[op.Pairs[2*k]:op.Pairs[2*k+1]]) {
						return fmt.Errorf("op %d: slices %v: result %d is %s", i, op.Pairs, k, short(got[k]))
					}
				}
			}

			// invariant: the unread remainder tells the position
			if rest := reader.Runes(); !gens.Equal(rest, c.Text[pos:]) {
				return fmt.Errorf("op %d (%+v): unread runes are %s, want %s", i, op, short(rest), short(c.Text[pos:]))
			}
		}

		o.ClassIf(failed, "failed seek")
		o.ClassIf(eof, "read at end")
		o.NonTrivialIf(moved && (failed || eof))
		if !gens.Equal(input, c.Text) {
			return fmt.Errorf("input modified")
		}

		return nil
	}

	return pbt.Property{
		ID: "C04",
		Rule: "random sequences of operations (read one or several, seek from the three origins with offsets around the bounds and at the limits of integers, remainder, slices) on random runes, against a model made of a slice and an integer; the remainder is compared after each step. The same on long texts, of up to 2^17 runes. " +
			"Non-trivial: the sequence moves by a seek and also has a refused seek or a read at the end.",
		Assumptions: []string{"whence is one of the three values of package io; slice bounds are valid"},
		Checks: []pbt.Check{
			pbt.Rapid[readerCase]{Name: "model", Quick: 60000 * 6, Thorough: 6000000, Check: check,
				Gen: func(t *rapid.T) readerCase { return genOps(t, readerCase{Text: gens.AnyText(10).Draw(t, "text")}) }},
			pbt.Rapid[readerCase]{Name: "long", Quick: 1600, Thorough: 40000, Check: check,
				Gen: func(t *rapid.T) readerCase {
					l := gens.GenLong(gens.AnyText, 17).Draw(t, "long")

					return genOps(t, readerCase{Long: &l})
				}},
			sweep.Runes("sizes", 70, 1<<16, ioFills, ioMarks, func(text gens.Text, o *pbt.Obs) error {
				n := int64(len(text))
				ops := []readerOp{{Kind: "reads", Offset: n + 1}}
				for _, at := range []int64{-1, 0, 1, n / 2, n - 1, n, n + 1} {
					ops = append(ops, readerOp{Kind: "seek", Offset: at}, readerOp{Kind: "read"}, readerOp{Kind: "seek", Offset: at - n, Whence: io.SeekEnd}, readerOp{Kind: "reads", Offset: 2},
						readerOp{Kind: "seek", Offset: -1, Whence: io.SeekCurrent}, readerOp{Kind: "read"})
				}

				return check(readerCase{Text: text, Ops: append(ops, readerOp{Kind: "slices", Pairs: spans(len(text))})}, o)
			}),
		},
	}
}

func propByteOffsets() pbt.Property {
	type offsetsCase struct {
		Text  gens.Text  `json:"text"`
		Long  *gens.Long `json:"long,omitempty"`
		Pairs []int      `json:"pairs"` // in runes
		Skip  int        `json:"skip"`
	}

	// expected, and byte offsets of the pairs
	encode := func(text []rune) []int {
		offsets := make([]int, 1, len(text)+1)
		for _, r := range text {
			offsets = append(offsets, offsets[len(offsets)-1]+encodedSize(r))
		}

		return offsets
	}

	patterns := []string{`\p{L}+`, `.`, `(é|漢)*`, `(\w)(\W*)`, `a*`, `\s+(\S*)`, `^.*$`, `[^a-z]+`, `(\d)?(x)?`, `\x{FFFD}+`}
	compiled := make([]*regexp.Regexp, len(patterns))
	for i, p := range patterns {
		compiled[i] = regexp.MustCompile(p)
	}

	type regexpCase struct {
		Text    gens.Text  `json:"text"`
		Long    *gens.Long `json:"long,omitempty"`
		Pattern int        `json:"pattern"`
		Skip    int        `json:"skip"`
	}

	type oddCase struct {
		Text  gens.Text `json:"text"`
		Count int       `json:"count"`
		Bytes bool      `json:"bytes"`
	}

	multi := rapid.Custom(func(t *rapid.T) rune {
		return gens.Pick(t, "k", []int{3, 3, 2, 2, 1, 1}, []*rapid.Generator[rune]{
			rapid.SampledFrom([]rune("abxy01 ")), rapid.SampledFrom(gens.Accents), rapid.SampledFrom(gens.Wide), gens.ValidRune(), rapid.SampledFrom([]rune{0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF}), rapid.SampledFrom(gens.Invalid),
		}).Draw(t, "r")
	})
	piece := func(max int) *rapid.Generator[gens.Text] { return gens.FocusText(multi, max) }
	text := func(t *rapid.T) gens.Text { return piece(14).Draw(t, "text") }

	position := func(input []rune, skip int) *runesio.SliceReader {
		reader := runesio.NewSliceReader(input)
		for i := 0; i < skip; i++ {
			_, _, _ = reader.ReadRune()
		}

		return reader
	}

	valid := func(text []rune) { // package regexp reads negative runes as the end of the text
		for i, r := range text {
			if !utf8.ValidRune(r) {
				text[i] = utf8.RuneError
			}
		}
	}

	checkOffsets := func(c offsetsCase, o *pbt.Obs) error {
		if c.Long != nil {
			c.Text = c.Long.Text()
		}
		offsets := encode(c.Text)
		args := make([]int, len(c.Pairs))
		for i, p := range c.Pairs {
			args[i] = offsets[p]
		}
		for i := 1; i < len(c.Pairs); i += 2 {
			o.NonTrivialIf(c.Pairs[i] > c.Pairs[i-1] && offsets[c.Pairs[i]] > c.Pairs[i])
		}
		input := c.Text.Clone()
		reader := position(input, c.Skip)
		got := reader.SliceFromByteOffsets(args)
		if len(got) != len(args)/2 {
			return fmt.Errorf("%d results for %d pairs", len(got), len(args)/2)
		}
		for i := range got {
			if want := c.Text[c.Pairs[2*i]:c.Pairs[2*i+1]]; !gens.Equal(got[i], want) {
				return fmt.Errorf("%s: bytes %d:%d select %s, want %s", short(c.Text), args[2*i], args[2*i+1], short(got[i]), short(want))
			}
		}
		if !gens.Equal(reader.Runes(), c.Text[min(c.Skip, len(c.Text)):]) {
			return fmt.Errorf("the reader moved")
		}

		return nil
	}

	checkRegexp := func(c regexpCase, o *pbt.Obs) error {
		if c.Long != nil {
			c.Text = c.Long.Text()
			valid(c.Text)
		}
		re := compiled[c.Pattern]
		input := c.Text.Clone()
		reader := runesio.NewSliceReader(input)
		offsets := re.FindReaderSubmatchIndex(reader)
		s, shown := string([]rune(c.Text)), short(c.Text)
		want := re.FindStringSubmatchIndex(s)
		if len(offsets) != len(want) {
			return fmt.Errorf("%q on %s: submatches %v on the reader, %v on the string", patterns[c.Pattern], shown, offsets, want)
		}
		for i := range want {
			if offsets[i] != want[i] {
				return fmt.Errorf("%q on %s: submatches %v on the reader, %v on the string", patterns[c.Pattern], shown, offsets, want)
			}
		}
		got := reader.SliceFromByteOffsets(offsets)
		for i := range got {
			expected := ""
			if want[2*i] >= 0 {
				expected = s[want[2*i]:want[2*i+1]]
			}
			o.NonTrivialIf(expected != "" && utf8.RuneCountInString(s[:want[2*i+1]]) != want[2*i+1])
			if string(got[i]) != expected {
				return fmt.Errorf("%q on %s: group %d is %s, want %s", patterns[c.Pattern], shown, i, short(got[i]), short([]rune(expected)))
			}
		}

		return nil
	}

	return pbt.Property{
		ID: "C05",
		Rule: "random texts mixing runes of 1 to 4 bytes and invalid runes, and long ones of up to 2^15 runes; pairs of byte offsets on rune boundaries (empty, adjacent, overlapping, in any order) compared with slicing the encoded string; regexps run over the reader compared with regexps on the string; odd lists. " +
			"Non-trivial: a text with multi-byte runes before the end of some non-empty pair.",
		Assumptions: []string{"offsets fall on rune boundaries, as those reported by package regexp", "unmatched groups (-1, -1) select nothing"},
		Checks: []pbt.Check{
			pbt.Rapid[offsetsCase]{Name: "offsets", Quick: 60000 * 8, Thorough: 6000000,
				Gen: func(t *rapid.T) offsetsCase {
					c := offsetsCase{Text: text(t)}
					c.Pairs = genPairs(t, len(c.Text), 4)
					c.Skip = rapid.IntRange(0, len(c.Text)+1).Draw(t, "skip")

					return c
				},
				Check: checkOffsets},
			pbt.Rapid[offsetsCase]{Name: "long-offsets", Quick: 1600, Thorough: 40000,
				Gen: func(t *rapid.T) offsetsCase {
					l := gens.GenLong(piece, 15).Draw(t, "long")
					c := offsetsCase{Long: &l}
					n := len(l.Text())
					c.Pairs = genPairs(t, n, 4)
					c.Skip = rapid.IntRange(0, n+1).Draw(t, "skip")

					return c
				},
				Check: checkOffsets},
			pbt.Rapid[regexpCase]{Name: "regexp", Quick: 20000 * 8, Thorough: 2000000,
				Gen: func(t *rapid.T) regexpCase {
					c := regexpCase{Text: text(t), Pattern: rapid.IntRange(0, len(patterns)-1).Draw(t, "pattern")}
					valid(c.Text)

					return c
				},
				Check: checkRegexp},
			pbt.Rapid[regexpCase]{Name: "long-regexp", Quick: 1600, Thorough: 40000,
				Gen: func(t *rapid.T) regexpCase {
					l := gens.GenLong(piece, 12).Draw(t, "long")

					return regexpCase{Long: &l, Pattern: rapid.IntRange(0, len(patterns)-1).Draw(t, "pattern")}
				},
				Check: checkRegexp},
			sweep.Runes("sizes", 135, 1<<16, ioFills, ioMarks, func(text gens.Text, o *pbt.Obs) error {
				return checkOffsets(offsetsCase{Text: text, Pairs: spans(len(text)), Skip: len(text) / 2}, o)
			}),
			pbt.Rapid[oddCase]{Name: "odd", Quick: 2000 * 5, Thorough: 50000,
				Gen: func(t *rapid.T) oddCase {
					return oddCase{text(t), 2*rapid.IntRange(0, 3).Draw(t, "n") + 1, rapid.Bool().Draw(t, "bytes")}
				},
				Check: func(c oddCase, o *pbt.Obs) (err error) {
					o.NonTrivial()
					reader := runesio.NewSliceReader(c.Text.Clone())
					defer func() {
						if recover() == nil {
							err = fmt.Errorf("%d offsets accepted", c.Count)
						}
					}()
					if c.Bytes {
						reader.SliceFromByteOffsets(make([]int, c.Count))
					} else {
						reader.Slices(make([]int, c.Count))
					}

					return nil
				}},
		},
	}
}

// faultyWriter accepts a number of bytes, then fails with a short write.
//
// It is nothing but a io.Writer.
type faultyWriter struct {
	buf  bytes.Buffer
	room int // bytes accepted before the fault (<0: no fault)
	err  error
	once bool // everything is accepted after the first fault
}

func (f *faultyWriter) Write(p []byte) (int, error) {
	if f.room >= 0 && len(p) > f.room {
		n := f.room
		f.buf.Write(p[:n])
		f.room = 0
		if f.once {
			f.room = -1
		}

		return n, f.err
	}
	if f.room >= 0 {
		f.room -= len(p)
	}

	return f.buf.Write(p)
}

var errFault = errors.New("injected fault")

// ownRunes is a writer which already writes runes.
type ownRunes struct{ bytes.Buffer }

func (*ownRunes) WriteRunes(r []rune) (int, error) { return len(r), nil }

func propWriter() pbt.Property {
	type writeOp struct {
		Kind string     `json:"op"` // runes, rune, bytes
		Text gens.Text  `json:"text"`
		Long *gens.Long `json:"long,omitempty"` // instead of the text
	}
	type writerCase struct {
		Ops   []writeOp `json:"ops"`
		Room  int       `json:"room"`           // bytes accepted by the destination before it fails, -1 for no fault
		Fault int       `json:"fault"`          // 0: some error, 1: io.ErrShortWrite, 2: a short count without an error
		Once  bool      `json:"once,omitempty"` // the destination works again after the fault
		As    bool      `json:"as"`
	}

	text := func(op writeOp) gens.Text {
		if op.Long != nil {
			return op.Long.Text()
		}

		return op.Text
	}

	gen := func(t *rapid.T, long bool) writerCase {
		op := rapid.Custom(func(t *rapid.T) writeOp {
			kind := gens.Pick(t, "op", []int{4, 4, 1}, []string{"runes", "rune", "bytes"})
			switch kind {
			case "rune":
				return writeOp{Kind: kind, Text: gens.Text{gens.AnyRune().Draw(t, "r")}}
			default:
				if long {
					l := gens.GenLong(gens.AnyText, 16).Draw(t, "long")

					return writeOp{Kind: kind, Long: &l}
				}

				return writeOp{Kind: kind, Text: gens.AnyText(8).Draw(t, "text")}
			}
		})
		most := 3
		if !long {
			most = gens.Size(t, 6)
		}
		c := writerCase{Ops: rapid.SliceOfN(op, 1, most).Draw(t, "ops"), As: rapid.Bool().Draw(t, "as"), Room: -1}
		if rapid.Bool().Draw(t, "fault") {
			total := 0
			for _, op := range c.Ops {
				total += len(string([]rune(text(op))))
			}
			c.Room = rapid.IntRange(0, total).Draw(t, "room")
			c.Fault = rapid.IntRange(0, 2).Draw(t, "kind")
			c.Once = rapid.Bool().Draw(t, "once")
		}

		return c
	}

	check := func(c writerCase, o *pbt.Obs) error {
		fault := []error{errFault, io.ErrShortWrite, nil}[c.Fault]
		dest := &faultyWriter{room: c.Room, err: fault, once: c.Once}
		var w runesio.Writer
		if c.As {
			w = runesio.AsRunesWriter(dest)
		} else {
			w = runesio.NewWriter(dest)
		}
		var want []byte
		for i, op := range c.Ops {
			op.Text = text(op)
			encoded := []byte(string([]rune(op.Text)))
			input := op.Text.Clone()
			var (
				n   int
				err error
			)
			room := dest.room
			switch op.Kind {
			case "runes":
				n, err = w.WriteRunes(input)
			case "rune":
				n, err = w.WriteRune(input[0])
			default:
				n, err = w.Write(encoded)
			}
			for _, r := range op.Text {
				o.NonTrivialIf(r >= 0x80 || r < 0)
			}
			if !gens.Equal(input, op.Text) {
				return fmt.Errorf("op %d: input modified", i)
			}
			if room >= 0 && len(encoded) > room {
				o.NonTrivial()
				o.Class("fault")
				if (fault != nil && !errors.Is(err, fault)) || n != room {
					return fmt.Errorf("op %d: n=%d err=%v, want n=%d and the error of the destination", i, n, err, room)
				}
				want = append(want, encoded[:room]...)
				if !bytes.Equal(dest.buf.Bytes(), want) {
					return fmt.Errorf("op %d: written %s, want %s", i, shortBytes(dest.buf.Bytes()), shortBytes(want))
				}

				break
			}
			want = append(want, encoded...)
			if err != nil || n != len(encoded) {
				return fmt.Errorf("op %d: n=%d err=%v, want %d bytes", i, n, err, len(encoded))
			}
			if !bytes.Equal(dest.buf.Bytes(), want) {
				return fmt.Errorf("op %d: written %s, want %s", i, shortBytes(dest.buf.Bytes()), shortBytes(want))
			}
		}

		// a writer of runes is used as is
		own := &ownRunes{}
		if got, ok := runesio.AsRunesWriter(own).(*ownRunes); !ok || got != own {
			return fmt.Errorf("a writer of runes was wrapped")
		}
		if again := runesio.AsRunesWriter(w); again != w {
			return fmt.Errorf("a writer of runes was wrapped")
		}

		return nil
	}

	return pbt.Property{
		ID: "C06",
		Rule: "random sequences of writes of random runes, short or long (up to 2^16 runes), to a destination that accepts a random number of bytes, then fails with a short write, for once or for good; bytes, counts and errors are compared with the encoding of the standard library and the fault injected. " +
			"Non-trivial: some non-ASCII rune written, or a fault reached.",
		Assumptions: []string{"after a fault nothing more is asked of the writer"},
		Checks: []pbt.Check{
			pbt.Rapid[writerCase]{Name: "faults", Quick: 60000 * 6, Thorough: 6000000, Gen: func(t *rapid.T) writerCase { return gen(t, false) }, Check: check},
			pbt.Rapid[writerCase]{Name: "long", Quick: 2400, Thorough: 60000, Gen: func(t *rapid.T) writerCase { return gen(t, true) }, Check: check},
			sweep.Runes("sizes", 135, 1<<16, ioFills, ioMarks, func(text gens.Text, o *pbt.Obs) error {
				for room := -1; room <= len(text); room += 1 + len(text) {
					c := writerCase{Ops: []writeOp{{Kind: "runes", Text: text}, {Kind: "rune", Text: gens.Text{'é'}}, {Kind: "runes", Text: text[len(text)/2:]}}, Room: room}
					if err := check(c, o); err != nil {
						return err
					}
				}

				return nil
			}),
		},
	}
}

func shortBytes(b []byte) string {
	if len(b) > 200 {
		return fmt.Sprintf("%q... (%d bytes)", b[:200], len(b))
	}

	return fmt.Sprintf("%q", b)
}
