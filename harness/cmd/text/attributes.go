package main

import (
	"bytes"
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"github.com/fredbi/go-typeset/attributes"
	"github.com/fredbi/go-typeset/terminal/runes/runesio"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/gens"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/pbt"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/sweep"
)

type attrItem struct {
	Nil   bool      `json:"nil,omitempty"`
	Text  gens.Text `json:"text,omitempty"`
	Start gens.Text `json:"start,omitempty"`
	Stop  gens.Text `json:"stop,omitempty"`
	Level int       `json:"level,omitempty"` // level set before the push
	Reset bool      `json:"reset,omitempty"` // stop sequence set afterwards
	Late  bool      `json:"late,omitempty"`  // stop sequence set after the push
	Walk  bool      `json:"walk,omitempty"`  // walked once pushed
	Own   bool      `json:"own,omitempty"`   // pushed as another implementation of a renderer
	Twice int       `json:"twice,omitempty"` // how many more times the collection holds it
}

// own is another implementation of a renderer.
type own struct{ inner *attributes.Attribute }

func (o own) Start(w runesio.Writer)  { o.inner.Start(w) }
func (o own) Stop(w runesio.Writer)   { o.inner.Stop(w) }
func (o own) Runes() []rune           { return o.inner.Runes() }
func (o own) Level() int              { return o.inner.Level() }
func (o own) SetLevel(n int)          { o.inner.SetLevel(n) }
func (o own) HasStart() bool          { return o.inner.HasStart() }
func (o own) HasStop() bool           { return o.inner.HasStop() }
func (o own) Render(w runesio.Writer) { o.inner.Render(w) }
func (o own) SetStop(s []rune)        { o.inner.SetStop(s) }

func propAttributes() pbt.Property {
	type attrCase struct {
		Items []attrItem `json:"items"`
		Depth int        `json:"depth,omitempty"` // opened before
	}

	gen := func(t *rapid.T) attrCase {
		bits := gens.AnyText(4)
		seq := rapid.Custom(func(t *rapid.T) gens.Text {
			return gens.Text(rapid.SliceOfN(gens.AnyRune(), 1, 4).Draw(t, "seq"))
		})
		item := rapid.Custom(func(t *rapid.T) attrItem {
			var a attrItem
			if rapid.IntRange(0, 9).Draw(t, "nil") == 0 {
				a.Nil = true

				return a
			}
			a.Text = bits.Draw(t, "text")
			if rapid.Bool().Draw(t, "hasStart") {
				a.Start = seq.Draw(t, "start")
			}
			if rapid.Bool().Draw(t, "hasStop") {
				a.Stop = seq.Draw(t, "stop")
				a.Reset = rapid.IntRange(0, 3).Draw(t, "reset") == 0
				a.Late = rapid.IntRange(0, 3).Draw(t, "late") == 0
			}
			a.Level = rapid.IntRange(-3, 5).Draw(t, "level")
			a.Walk = rapid.IntRange(0, 7).Draw(t, "walk") == 0
			a.Own = rapid.IntRange(0, 3).Draw(t, "own") == 0
			if rapid.IntRange(0, 5).Draw(t, "twice?") == 0 {
				a.Twice = rapid.IntRange(1, 2).Draw(t, "twice")
			}

			return a
		})

		c := attrCase{Items: rapid.SliceOfN(item, 0, gens.Size(t, 10)).Draw(t, "items")}
		c.Depth = gens.Pick(t, "depth?", []int{300, 18, 1, 2}, []*rapid.Generator[int]{
			rapid.Just(0), rapid.IntRange(1, 40), rapid.IntRange(60, 300), rapid.SampledFrom([]int{7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 257, 512}),
		}).Draw(t, "depth")

		return c
	}

	check := func(c attrCase, o *pbt.Obs) error {
		var (
			list   attributes.Renderers
			pushed []attributes.Renderer
			want   []attrItem
			state  = attributes.NewState()
			all    bytes.Buffer
			starts bytes.Buffer
			stops  bytes.Buffer
		)
		items := make([]attrItem, 0, c.Depth+len(c.Items))
		for i := 0; i < c.Depth; i++ {
			items = append(items, attrItem{Start: gens.Text("<")})
		}
		for _, item := range append(items, c.Items...) {
			if item.Nil {
				list = append(list, nil)
				state.Push(nil)

				continue
			}
			stop := item.Stop
			switch {
			case item.Reset:
				stop = gens.Text("before")
			case item.Late:
				stop = nil
			}
			var a attributes.Renderer = attributes.New(item.Text.Clone(), item.Start.Clone(), stop.Clone())
			if item.Own {
				a = own{a.(*attributes.Attribute)}
			}
			if item.Reset && !item.Late {
				a.SetStop(item.Stop.Clone())
			}
			a.SetLevel(item.Level)
			list = append(list, a)
			state.Push(a)
			pushed = append(pushed, a)
			want = append(want, item)
			if item.Late {
				a.SetStop(item.Stop.Clone())
			}
			if item.Walk {
				it := state.Iterator()
				for i := range pushed {
					if !it.Next() || it.Item() != pushed[i] {
						return fmt.Errorf("after %d renderers, renderer %d is not yielded", len(pushed), i)
					}
				}
				if it.Next() {
					return fmt.Errorf("after %d renderers, one more is yielded", len(pushed))
				}
			}

			var one bytes.Buffer
			a.Render(runesio.AsRunesWriter(&one))
			expected := string(item.Start) + string(item.Text) + string(item.Stop)
			if one.String() != expected {
				return fmt.Errorf("%+q renders as %q", expected, one.String())
			}
			for k := 0; k <= item.Twice; k++ {
				if k > 0 {
					list = append(list, a)
				}
				all.WriteString(expected)
				starts.WriteString(string(item.Start))
				stops.WriteString(string(item.Stop))
			}

			if a.HasStart() != (len(item.Start) > 0) || a.HasStop() != (len(item.Stop) > 0) || !gens.Equal(a.Runes(), item.Text) {
				return fmt.Errorf("%+v: HasStart=%t HasStop=%t Runes=%q", item, a.HasStart(), a.HasStop(), string(a.Runes()))
			}
		}

		// collection
		for _, part := range []struct {
			name   string
			render func(runesio.Writer)
			want   string
		}{{"Render", list.Render, all.String()}, {"Start", list.Start, starts.String()}, {"Stop", list.Stop, stops.String()}} {
			var buf bytes.Buffer
			part.render(runesio.AsRunesWriter(&buf))
			if buf.String() != part.want {
				return fmt.Errorf("%s of the collection: %q, want %q", part.name, buf.String(), part.want)
			}
		}

		// levels
		open, deep := 0, 0
		for i, item := range want {
			if len(item.Start) > 0 {
				open++
			}
			if got := pushed[i].Level(); got != open {
				return fmt.Errorf("renderer %d of %+v after %d: level %d, want %d", i, c.Items, c.Depth, got, open)
			}
			deep = max(deep, open)
			if len(item.Stop) > 0 && open > 0 {
				open--
			}
		}
		o.NonTrivialIf(deep > 1)

		// walk, repeated: iterators are independent
		first, second := state.Iterator(), state.Iterator()
		for i := range pushed {
			for _, it := range []*attributes.StateIterator{first, second} {
				if !it.Next() {
					return fmt.Errorf("the iterator ends before renderer %d of %d", i, len(pushed))
				}
				if it.Item() != pushed[i] {
					return fmt.Errorf("renderer %d is not the one pushed", i)
				}
				if i%2 == 0 && len(pushed)-i < 30 { // changes nothing in the walk
					it.EndOfLine(runesio.AsRunesWriter(&all))
					it.StartOfLine(runesio.AsRunesWriter(&all))
				}
			}
		}
		if first.Next() || second.Next() || first.Next() {
			return fmt.Errorf("the iterator yields more than the %d pushed renderers", len(pushed))
		}
		if it := state.First(); len(pushed) > 0 {
			for i := range pushed {
				if it.Item() != pushed[i] {
					return fmt.Errorf("from the first: renderer %d is not the one pushed", i)
				}
				if it.Next() != (i+1 < len(pushed)) {
					return fmt.Errorf("from the first: wrong end after renderer %d of %d", i, len(pushed))
				}
			}
		} else if it.Item() != nil {
			return fmt.Errorf("empty state with a first renderer")
		}

		return nil
	}

	return pbt.Property{
		ID: "C09",
		Rule: "random lists of 0 to 60 renderers, maybe after up to 512 opened sequences, attributes or other implementations, with any texts and sequences, well nested or not, with missing members and levels set beforehand: rendered alone and as a collection (some of them several times), pushed on a state, with stop sequences set before or after the push, walked along the way at times, then walked by several iterators; " +
			"levels are compared with a counter of open sequences. Non-trivial: at least two levels of nesting.",
		Checks: []pbt.Check{
			pbt.Rapid[attrCase]{Name: "attributes", Quick: 40000 * 8, Thorough: 4000000, Gen: gen, Check: check},
			pbt.Enum[shape]{Name: "sizes", List: func(thorough bool) []shape { return shapes(135, 1<<10, thorough) },
				Check: func(s shape, o *pbt.Obs) error {
					var c attrCase
					for _, item := range s.items() {
						c.Items = append(c.Items, attrItem{Text: gens.Text(item.Text), Start: gens.Text(item.Start), Stop: gens.Text(item.Stop)})
					}

					return check(c, o)
				}},
		},
	}
}

type lineItem struct {
	Text   string `json:"text,omitempty"`
	Start  string `json:"start,omitempty"`
	Stop   string `json:"stop,omitempty"`
	Breaks int    `json:"breaks,omitempty"` // line breaks after the renderer
	Own    bool   `json:"own,omitempty"`    // another implementation of a renderer
	Late   bool   `json:"late,omitempty"`   // stop sequence set after the push
	Walk   bool   `json:"walk,omitempty"`   // walked once pushed
}

// shape is a list of renderers of a given size.
type shape struct {
	Kind  string `json:"kind"`
	N     int    `json:"n"`
	Break int    `json:"break,omitempty"` // line break after this renderer
}

var shapeKinds = []string{"nested", "flat", "inside", "texts", "sequences", "staircase"}

func (s shape) items() []lineItem {
	var out []lineItem
	switch s.Kind {
	case "nested":
		for i := 0; i < s.N; i++ {
			out = append(out, lineItem{Start: "<A>", Text: "a"})
		}
		for i := 0; i < s.N; i++ {
			out = append(out, lineItem{Text: "b", Stop: "</>"})
		}
	case "flat":
		for i := 0; i < s.N; i++ {
			out = append(out, lineItem{Start: "<A>", Text: "a", Stop: "</>"})
		}
	case "inside":
		out = append(out, lineItem{Start: "<A>"}, lineItem{Start: "<B>", Text: "b"})
		for i := 0; i < s.N; i++ {
			out = append(out, lineItem{Text: "x"})
		}
		out = append(out, lineItem{Text: "y", Stop: "</>"}, lineItem{Start: "<C>", Text: "z", Stop: "</>"}, lineItem{Stop: "</>"})
	case "texts":
		out = append(out, lineItem{Start: "<A>", Text: strings.Repeat("a", s.N)}, lineItem{Text: strings.Repeat("b", s.N), Stop: "</>"})
	case "sequences":
		name := strings.Repeat("A", s.N)
		out = append(out, lineItem{Start: "<" + name + ">", Text: "a"}, lineItem{Text: "b"}, lineItem{Text: "c", Stop: "</" + name + ">"})
	default: // one level down at each step, then back
		for i := 0; i < s.N; i++ {
			out = append(out, lineItem{Start: "<A>"}, lineItem{Start: "<B>", Text: "b", Stop: "</>"}, lineItem{Text: "c"})
		}
		for i := 0; i < s.N; i++ {
			out = append(out, lineItem{Start: "<C>"}, lineItem{Text: "d", Stop: "</>"}, lineItem{Stop: "</>"})
		}
	}

	return out
}

// shapes lists all shapes by size.
func shapes(dense, top int, thorough bool) []shape {
	if thorough {
		dense *= 2
	}
	var out []shape
	for _, n := range sweep.Sizes(dense, top) {
		for _, kind := range shapeKinds {
			out = append(out, shape{Kind: kind, N: n})
		}
	}

	return out
}

// walker renders the lines of one walk over a state.
type walker struct {
	it    *attributes.StateIterator
	buf   bytes.Buffer
	w     runesio.Writer
	lines []string
}

func newWalk(it *attributes.StateIterator) *walker {
	x := &walker{it: it}
	x.w = runesio.AsRunesWriter(&x.buf)

	return x
}

func (x *walker) newLine() {
	x.it.EndOfLine(x.w)
	x.lines = append(x.lines, x.buf.String())
	x.buf.Reset()
	x.it.StartOfLine(x.w)
}

func (x *walker) render(breaks int) {
	x.it.Item().Render(x.w)
	for k := 0; k < breaks; k++ {
		x.newLine()
	}
}

func (x *walker) end() []string {
	x.it.EndOfLine(x.w)

	return append(x.lines, x.buf.String())
}

func propStateLines() pbt.Property {
	type stateCase struct {
		Anonymous bool       `json:"anonymous,omitempty"` // same stop sequence for all
		Other     []int      `json:"other,omitempty"`     // line breaks of another walk at the same time
		First     bool       `json:"first,omitempty"`     // the other walk starts on the first renderer
		Before    int        `json:"before,omitempty"`    // line breaks before the first renderer
		Shared    bool       `json:"shared,omitempty"`    // the same renderer when sequences and text are the same
		Items     []lineItem `json:"items"`
	}

	gen := func(t *rapid.T) stateCase {
		c := stateCase{Anonymous: rapid.Bool().Draw(t, "anonymous"), Shared: rapid.IntRange(0, 3).Draw(t, "shared") == 0}
		special := rapid.IntRange(0, 2).Draw(t, "special") == 0 // late stop sequences, walks along the way
		if rapid.IntRange(0, 4).Draw(t, "early") == 0 {
			c.Before = rapid.IntRange(1, 2).Draw(t, "before")
		}
		if rapid.IntRange(0, 2).Draw(t, "other?") == 0 {
			c.Other = rapid.SliceOfN(rapid.IntRange(0, 2), 1, 5).Draw(t, "other")
			c.First = rapid.Bool().Draw(t, "first")
		}

		var open []string
		stop := func() string {
			name := open[len(open)-1]
			open = open[:len(open)-1]
			if c.Anonymous {
				return "</>"
			}

			return "</" + name + ">"
		}
		n := rapid.IntRange(1, gens.Size(t, 9)).Draw(t, "items")
		deep := gens.Pick(t, "deep?", []int{200, 20, 1}, []*rapid.Generator[int]{rapid.Just(0), rapid.IntRange(1, 20), rapid.IntRange(20, 300)}).Draw(t, "deep")
		plain := rapid.IntRange(0, 3).Draw(t, "plain") * 2 // how often renderers have no sequence
		for i := 0; i < n+deep; i++ {
			var item lineItem
			item.Own = rapid.IntRange(0, 3).Draw(t, "own") == 0
			if special && i >= deep-10 {
				item.Late = rapid.IntRange(0, 2).Draw(t, "late") == 0
				item.Walk = rapid.IntRange(0, 4).Draw(t, "walk") == 0
			}
			if i < deep { // opened first
				name := string(rapid.SampledFrom([]rune("ABCDE")).Draw(t, "name"))
				open = append(open, name)
				item.Start = "<" + name + ">"
				c.Items = append(c.Items, item)

				continue
			}
			if rapid.IntRange(0, 9).Draw(t, "start") < 6-plain {
				name := string(rapid.SampledFrom([]rune("ABCDE")).Draw(t, "name"))
				open = append(open, name)
				item.Start = "<" + name + ">"
			}
			if rapid.IntRange(0, 4).Draw(t, "hasText") > 0 {
				item.Text = rapid.StringMatching("[a-z]{1,2}").Draw(t, "text")
			}
			if len(open) > 0 && rapid.IntRange(0, 9).Draw(t, "stop") < 5-plain/2 {
				item.Stop = stop()
			}
			item.Breaks = gens.Pick(t, "breaks", []int{5, 4, 1}, []int{0, 1, 2})
			c.Items = append(c.Items, item)
		}
		for len(open) > 0 { // close all
			item := lineItem{Breaks: gens.Pick(t, "breaks", []int{5, 4, 1}, []int{0, 1, 2})}
			if rapid.Bool().Draw(t, "tailText") {
				item.Text = "z"
			}
			item.Stop = stop()
			c.Items = append(c.Items, item)
		}

		return c
	}

	// scan reads one line: the text under each context, and the context at the end
	type span struct{ text, context string }
	scan := func(line string) (spans []span, err error) {
		var open []string
		for len(line) > 0 {
			switch {
			case strings.HasPrefix(line, "</"):
				k := strings.IndexByte(line, '>')
				name := line[2:k]
				line = line[k+1:]
				if len(open) == 0 {
					return nil, fmt.Errorf("</%s> closes nothing", name)
				}
				if top := open[len(open)-1]; name != "" && name != top {
					return nil, fmt.Errorf("</%s> closes %s", name, top)
				}
				open = open[:len(open)-1]
			case line[0] == '<':
				k := strings.IndexByte(line, '>')
				open = append(open, line[1:k])
				line = line[k+1:]
			default:
				spans = append(spans, span{line[:1], strings.Join(open, ">")})
				line = line[1:]
			}
		}
		if len(open) > 0 {
			return nil, fmt.Errorf("%v left open", open)
		}

		return spans, nil
	}

	check := func(c stateCase, o *pbt.Obs) error {
		state := attributes.NewState()
		unbroken := ""
		breaks := make([]int, 0, len(c.Items))
		known := map[string]attributes.Renderer{}
		aside := runesio.AsRunesWriter(new(bytes.Buffer))
		for _, item := range c.Items {
			var start, stop []rune
			if item.Start != "" {
				start = []rune(item.Start)
			}
			if item.Stop != "" {
				stop = []rune(item.Stop)
			}
			var r attributes.Renderer
			key := item.Start + item.Text + item.Stop
			if r = known[key]; r == nil || !c.Shared {
				first := stop
				if item.Late {
					first = nil
				}
				r = attributes.New([]rune(item.Text), start, first)
				if item.Own {
					r = own{r.(*attributes.Attribute)}
				}
				known[key] = r
			}
			state.Push(r)
			if item.Walk {
				k := 0
				for it := state.Iterator(); it.Next(); k++ {
					if len(breaks)-k < 10 {
						it.EndOfLine(aside)
						it.StartOfLine(aside)
					}
				}
			}
			if item.Late {
				r.SetStop(stop)
			}
			unbroken += item.Start + item.Text + item.Stop
			breaks = append(breaks, item.Breaks)
		}
		want, err := scan(unbroken)
		if err != nil {
			pbt.Internal("bad nesting generated: %q: %v", unbroken, err)
		}

		nested := false
		judge := func(lines []string) error {
			var got []span
			for _, line := range lines {
				spans, err := scan(line)
				if err != nil {
					return fmt.Errorf("%q broken into %q: line %q: %v", unbroken, lines, line, err)
				}
				got = append(got, spans...)
				nested = nested || strings.Contains(line, "><")
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				return fmt.Errorf("%q broken into %q: contexts %v, want %v", unbroken, lines, got, want)
			}

			return nil
		}

		walk := newWalk(state.Iterator())
		for i := 0; i < c.Before; i++ {
			walk.newLine()
		}
		var other *walker
		if len(c.Other) > 0 && len(c.Items) > 0 {
			if other = newWalk(state.Iterator()); c.First {
				other = newWalk(state.First())
			}
		}
		for i := 0; walk.it.Next(); i++ {
			if i >= len(breaks) {
				return fmt.Errorf("more renderers than pushed")
			}
			walk.render(breaks[i])
			if other == nil {
				continue
			}
			if !(i == 0 && c.First) && !other.it.Next() {
				return fmt.Errorf("the other walk ends before renderer %d", i)
			}
			other.render(c.Other[i%len(c.Other)])
		}
		if err := judge(walk.end()); err != nil {
			return err
		}
		if other != nil {
			if err := judge(other.end()); err != nil {
				return fmt.Errorf("other walk: %w", err)
			}
		}

		for i, item := range c.Items { // a break with some sequence open
			if item.Breaks > 0 && i+1 < len(c.Items) {
				o.NonTrivialIf(nested)
			}
		}

		return nil
	}

	return pbt.Property{
		ID: "C10",
		Rule: "random well nested lists of renderers, attributes or other implementations (start and stop sequences, named or all with the same stop, nested up to 300 levels), broken in lines at random places, zero to two times each and before the first renderer, sometimes by two walks at the same time, or with walks before all is pushed, stop sequences set after the push, the same renderer at several places; each line is scanned with a stack, and the stack around each letter compared with the unbroken text. " +
			"Non-trivial: at least one break and some line with consecutive sequences.",
		Assumptions: []string{"start and stop sequences nest properly and all are closed at the end of the list"},
		Checks: []pbt.Check{
			pbt.Rapid[stateCase]{Name: "lines", Quick: 60000 * 8, Thorough: 6000000, Gen: gen, Check: check},
			pbt.Enum[shape]{Name: "sizes",
				List: func(thorough bool) (out []shape) {
					for _, s := range shapes(70, 1<<9, thorough) {
						n := len(s.items())
						for k := 0; k < n; k++ {
							if n > 70 && k > 1 && k < n-2 && k%64 > 1 && k != n/2 {
								continue
							}
							s.Break = k
							out = append(out, s)
						}
					}

					return out
				},
				Check: func(s shape, o *pbt.Obs) error {
					c := stateCase{Items: s.items(), Anonymous: true}
					c.Items[s.Break].Breaks = 1

					return check(c, o)
				}},
		},
	}
}
