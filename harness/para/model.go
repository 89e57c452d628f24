package para

import (
	"fmt"
	"math"
	"unicode"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/gens"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/refs"
)

// Visible removes start and stop sequences.
func Visible(s string) []rune {
	var out []rune
	for _, lex := range refs.Lex([]rune(s)) {
		if lex.Kind == refs.Plain {
			out = append(out, lex.Text...)
		}
	}

	return out
}

// VisibleTokens yields the visible text of tokens, without the ones that have none.
func VisibleTokens(tokens []string) [][]rune {
	var out [][]rune
	for _, tok := range tokens {
		if v := Visible(tok); len(v) > 0 {
			out = append(out, v)
		}
	}

	return out
}

// Pos is a position in the text, before rune Rune of token Token.
type Pos struct{ Token, Rune int }

// Follow reads one line from a position of the text. It returns where the line may end: without and with an added hyphen.
//
// A position at the end of a token is normalized as the start of the next one.
func Follow(tokens [][]rune, from Pos, line []rune) (ends []Pos, hyphenated []bool, err error) {
	if len(line) == 0 {
		return nil, nil, fmt.Errorf("empty line")
	}
	if line[0] == ' ' || line[len(line)-1] == ' ' {
		return nil, nil, fmt.Errorf("space at the edge of the line %q", string(line))
	}

	for _, added := range []bool{false, true} {
		text := line
		if added {
			if line[len(line)-1] != '-' || len(line) == 1 {
				continue
			}
			text = line[:len(line)-1]
		}

		at, ok := from, true
		for k := 0; k < len(text) && ok; {
			switch {
			case at.Token >= len(tokens):
				ok = false
			case at.Rune == len(tokens[at.Token]): // between tokens: one space
				ok = text[k] == ' ' && k+1 < len(text)
				k++
				at = Pos{at.Token + 1, 0}
			default:
				ok = text[k] == tokens[at.Token][at.Rune]
				k++
				at.Rune++
			}
		}
		if !ok || at.Token >= len(tokens) {
			continue
		}
		if at.Rune == len(tokens[at.Token]) {
			if added {
				continue // nothing is broken at the end of a token
			}
			at = Pos{at.Token + 1, 0}
		}
		ends = append(ends, at)
		hyphenated = append(hyphenated, added)
	}

	if len(ends) == 0 {
		rest := ""
		if from.Token < len(tokens) {
			rest = string(tokens[from.Token][from.Rune:])
		}

		return nil, nil, fmt.Errorf("line %q is not what comes next: %q...", string(line), rest)
	}

	return ends, hyphenated, nil
}

// Track follows all the lines: it fails when they do not make the text.
func Track(tokens [][]rune, lines []string) error {
	return track(tokens, lines, Visible)
}

// TrackRaw reads back the lines as they are, for tokens without start and stop sequences.
func TrackRaw(tokens, lines []string) error {
	raw := make([][]rune, len(tokens))
	for i, tok := range tokens {
		raw[i] = []rune(tok)
	}

	return track(raw, lines, func(line string) []rune { return []rune(line) })
}

func track(tokens [][]rune, lines []string, visible func(string) []rune) error {
	current := map[Pos]bool{{}: true}
	for i, line := range lines {
		next := map[Pos]bool{}
		var failure error
		for from := range current {
			ends, _, err := Follow(tokens, from, visible(line))
			if err != nil {
				failure = err
			}
			for _, end := range ends {
				next[end] = true
			}
		}
		if len(next) == 0 {
			return fmt.Errorf("line %d of %q: %w", i, lines, failure)
		}
		current = next
	}
	if !current[Pos{len(tokens), 0}] {
		return fmt.Errorf("the end of the text is missing from %q", lines)
	}

	return nil
}

// Kind of a break point.
type Kind int

// Kinds of break points.
const (
	Space Kind = iota
	Punct
	Hard
	Soft
	End
)

func (k Kind) String() string {
	return [...]string{"between tokens", "after punctuation", "after an explicit hyphen", "inside a word", "at the end"}[k]
}

// Opportunity is a legitimate break point.
type Opportunity struct {
	Kind  Kind
	At    Pos     // where the next line starts
	Width float64 // scaled width of the text before, from the start of the paragraph, as if on a single line
	Next  float64 // scaled width before the next line
}

// Model holds the break points of a paragraph.
type Model struct {
	Config Config
	Width  float64 // scaled
	Hyphen float64 // scaled width of an added hyphen
	Tokens [][]rune
	Points []Opportunity
}

func isPunctuation(r rune) bool {
	return r == '|' || (unicode.Is(unicode.P, r) && !unicode.Is(unicode.Hyphen, r))
}

// cuts splits a text around separators, each alone.
func cuts(text []rune, separator func(rune) bool) [][]rune {
	var out [][]rune
	start := 0
	for i, r := range text {
		if !separator(r) {
			continue
		}
		if i > start {
			out = append(out, text[start:i])
		}
		out = append(out, text[i:i+1])
		start = i + 1
	}
	if start < len(text) {
		out = append(out, text[start:])
	}

	return out
}

// inner lists the break points inside a token: offset and kind.
func (c Config) inner(token []rune, split func([]rune) [][]rune) (offsets []int, kinds []Kind) {
	parts := [][]rune{token}
	if c.Punctuator == "" {
		parts = cuts(token, isPunctuation)
	}

	at := 0
	add := func(n int, kind Kind) {
		at += n
		offsets = append(offsets, at)
		kinds = append(kinds, kind)
	}
	for _, part := range parts {
		switch {
		case len(part) == 1 && isPunctuation(part[0]):
			add(1, Punct)
		case !c.Breaks() || len(part) <= 4:
			at += len(part)
		default:
			for _, sub := range cuts(part, func(r rune) bool { return unicode.Is(unicode.Hyphen, r) }) {
				if len(sub) == 1 && unicode.Is(unicode.Hyphen, sub[0]) {
					add(1, Hard)

					continue
				}
				pieces := split(append([]rune{}, sub...))
				for _, piece := range pieces[:len(pieces)-1] {
					add(len(piece), Soft)
				}
				at += len(pieces[len(pieces)-1])
			}
		}
	}

	return offsets, kinds
}

// NewModel builds the break points of a paragraph.
func NewModel(p Paragraph) *Model {
	c := p.Config
	scale := func(w float64) float64 { return math.Round(w * c.scale()) }
	m := &Model{Config: c, Width: scale(p.Width), Tokens: VisibleTokens(p.Tokens)}
	if c.Renders() {
		m.Hyphen = scale(c.RuneMeasure('-'))
	}
	space := scale(c.RuneMeasure(' '))
	split := c.SplitFunc()

	var width float64
	for i, token := range m.Tokens {
		offsets, kinds := c.inner(token, split)
		done := 0
		for k, offset := range offsets {
			width += scale(c.Measure(token[done:offset]))
			done = offset
			o := Opportunity{Kind: kinds[k], At: Pos{i, offset}, Width: width, Next: width}
			if kinds[k] == Soft {
				o.Width += m.Hyphen
			}
			if offset == len(token) { // at the end of a token
				o.At, o.Next = Pos{i + 1, 0}, width+space
				if i+1 == len(m.Tokens) {
					continue // the paragraph ends there
				}
			}
			m.Points = append(m.Points, o)
		}
		width += scale(c.Measure(token[done:]))
		if i+1 < len(m.Tokens) {
			m.Points = append(m.Points, Opportunity{Kind: Space, At: Pos{i + 1, 0}, Width: width, Next: width + space})
		} else {
			m.Points = append(m.Points, Opportunity{Kind: End, At: Pos{i + 1, 0}, Width: width, Next: width})
		}
		width += space
	}

	return m
}

const (
	lineStretch = 6
	lastStretch = 10000
)

// ratio of a line from a break point (-1: the start) to another one, and whether the line is admissible.
func (m *Model) ratio(from, to int) (float64, bool) {
	start := 0.0
	if from >= 0 {
		start = m.Points[from].Next
	}
	slack := m.Width - (m.Points[to].Width - start)
	if slack < 0 {
		return 0, false
	}
	r := slack / lineStretch
	if m.Points[to].Kind == End {
		r = slack / lastStretch
	}

	return r, r <= m.Config.tolerance()
}

const classes = 4

func class(ratio float64) int {
	switch {
	case ratio <= 0.5:
		return 1
	case ratio <= 1:
		return 2
	default:
		return 3
	}
}

// demerits of a line, given the class of the previous one.
func (m *Model) demerits(from, to, previous int, ratio float64) float64 {
	const (
		line     = 10
		constant = 100
		fitness  = 200
	)
	hyphen, flagged := 300.0, 100.0
	if m.Config.HyphenPenalty != nil {
		hyphen, flagged = *m.Config.HyphenPenalty, *m.Config.HyphenPenalty
	}

	badness := line + constant*math.Pow(ratio, 3)
	penalty := [...]float64{0, 400, 200, hyphen, 0}[m.Points[to].Kind]

	var d float64
	switch {
	case m.Points[to].Kind == End:
		d = badness * badness
	case penalty > 0:
		d = (badness + penalty) * (badness + penalty)
	default:
		d = badness*badness - penalty*penalty
	}
	if from >= 0 && m.Points[from].Kind != Space && m.Points[to].Kind != Space {
		d += flagged
	}
	if diff := class(ratio) - previous; diff > 1 || diff < -1 {
		d += fitness
	}

	return d
}

type cell [classes]float64

func infinite() cell {
	var c cell
	for i := range c {
		c[i] = math.Inf(1)
	}

	return c
}

// same tells whether two break points stand at the same place of the text, with no line in between.
func (m *Model) same(from, to int) bool {
	return from >= 0 && m.Points[from].At == m.Points[to].At
}

func (m *Model) relax(costs *cell, start cell, from, to int) {
	if m.same(from, to) {
		return
	}
	r, ok := m.ratio(from, to)
	if !ok {
		return
	}
	k := class(r)
	for previous, cost := range start {
		if math.IsInf(cost, 1) {
			continue
		}
		costs[k] = math.Min(costs[k], cost+m.demerits(from, to, previous, r))
	}
}

// reach tells whether lines from a break point, and those before, are narrow enough.
func (m *Model) reach(from, to int) bool {
	start := 0.0
	if from >= 0 {
		start = m.Points[from].Next
	}

	return m.Points[to].Width-start <= m.Width
}

func (m *Model) start() cell {
	c := infinite()
	c[1] = 0

	return c
}

// Best is the least sum of demerits, infinite when the paragraph cannot be set.
func (m *Model) Best() float64 {
	costs := make([]cell, len(m.Points))
	for i := range costs {
		costs[i] = infinite()
	}
	for to := range m.Points {
		for from := to - 1; from >= -1 && m.reach(from, to); from-- { // measures are not negative
			start := m.start()
			if from >= 0 {
				start = costs[from]
			}
			m.relax(&costs[to], start, from, to)
		}
	}

	return least(costs[len(m.Points)-1])
}

func least(c cell) float64 {
	best := math.Inf(1)
	for _, cost := range c {
		best = math.Min(best, cost)
	}

	return best
}

// Ways counts the settings with up to limit.
func (m *Model) Ways(limit int) int {
	ways := make([]int, len(m.Points))
	for to := range m.Points {
		for from := to - 1; from >= -1 && m.reach(from, to); from-- {
			if _, ok := m.ratio(from, to); !ok || m.same(from, to) {
				continue
			}
			n := 1
			if from >= 0 {
				n = ways[from]
			}
			ways[to] = min(limit, ways[to]+n)
		}
	}

	return ways[len(m.Points)-1]
}

// Path checks that lines end at legitimate break points, with hyphens where due.
// It returns the least sum of demerits of the ways to read these lines (infinite when some line is not admissible).
func (m *Model) Path(lines []string) (float64, error) {
	type state map[int]cell // break point => costs

	current := state{-1: m.start()}
	for i, line := range lines {
		next := state{}
		var failure error
		for from, start := range current {
			at := Pos{}
			if from >= 0 {
				at = m.Points[from].At
			}
			ends, hyphenated, err := Follow(m.Tokens, at, Visible(line))
			if err != nil {
				failure = err

				continue
			}
			for k, end := range ends {
				found := false
				for to := from + 1; to < len(m.Points); to++ {
					point := m.Points[to]
					if point.At.Token > end.Token {
						break
					}
					if point.At != end || m.same(from, to) {
						continue
					}
					if hyphenated[k] != (point.Kind == Soft && m.Config.Renders()) {
						continue
					}
					found = true
					costs, ok := next[to]
					if !ok {
						costs = infinite()
					}
					m.relax(&costs, start, from, to)
					next[to] = costs
				}
				if !found {
					failure = fmt.Errorf("line %d of %q: no legitimate break point (hyphen added: %t)", i, lines, hyphenated[k])
				}
			}
		}
		if len(next) == 0 {
			return 0, failure
		}
		current = next
	}

	costs, ok := current[len(m.Points)-1]
	if !ok {
		return 0, fmt.Errorf("the end of the text is missing from %q", lines)
	}

	return least(costs), nil
}

var _ = gens.Hyphens
