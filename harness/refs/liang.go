package refs

import (
	"embed"
	"sort"
	"strings"
	"unicode"
)

// Copies of the TeX pattern files, as distributed.
//
//go:embed tex/*.tex
var texFiles embed.FS

// PatternFiles lists the pattern files, sorted.
var PatternFiles = []string{"hyph-de-1996.tex", "hyph-en-gb.tex", "hyph-es.tex", "hyph-fr.tex", "ushyphmax.tex"}

// Liang is a reference implementation of the hyphenation algorithm of TeX for one language.
type Liang struct {
	File       string
	Patterns   map[string][]int // letters and dots => inter-letter values, before each letter and after the last one
	Keys       []string         // the sorted keys
	Exceptions map[string][]int // word => allowed break points
	Words      []string         // sorted exceptions
	Letters    []rune           // letters used by patterns
	longest    int
}

// LoadLiang reads a TeX file: comments are removed, then groups \patterns{...} and \hyphenation{...} are read.
func LoadLiang(file string) *Liang {
	raw, err := texFiles.ReadFile("tex/" + file)
	if err != nil {
		panic(err)
	}

	var text strings.Builder
	for _, line := range strings.Split(string(raw), "\n") {
		if k := strings.IndexByte(line, '%'); k >= 0 {
			line = line[:k]
		}
		text.WriteString(line)
		text.WriteByte('\n')
	}

	l := &Liang{File: file, Patterns: map[string][]int{}, Exceptions: map[string][]int{}}
	letters := map[rune]bool{}

	for _, pattern := range group(text.String(), `\patterns{`) {
		var (
			key    []rune
			values = []int{0}
		)
		for _, r := range pattern {
			if r >= '0' && r <= '9' {
				values[len(values)-1] = int(r - '0')

				continue
			}
			if r != '.' {
				r = unicode.ToLower(r)
				letters[r] = true
			}
			key = append(key, r)
			values = append(values, 0)
		}
		if _, twice := l.Patterns[string(key)]; twice {
			panic("duplicate pattern " + pattern + " in " + file)
		}
		l.Patterns[string(key)] = values
		l.Keys = append(l.Keys, string(key))
		l.longest = max(l.longest, len(key))
	}

	for _, word := range group(text.String(), `\hyphenation{`) {
		var (
			key    []rune
			points []int
		)
		for _, r := range word {
			if r == '-' {
				points = append(points, len(key))

				continue
			}
			key = append(key, unicode.ToLower(r))
		}
		l.Exceptions[string(key)] = points
		l.Words = append(l.Words, string(key))
	}

	for r := range letters {
		l.Letters = append(l.Letters, r)
	}
	sort.Slice(l.Letters, func(i, j int) bool { return l.Letters[i] < l.Letters[j] })
	sort.Strings(l.Keys)
	sort.Strings(l.Words)
	if len(l.Keys) == 0 {
		panic("no pattern in " + file)
	}

	return l
}

func group(text, head string) []string {
	start := strings.Index(text, head)
	if start < 0 {
		return nil
	}
	text = text[start+len(head):]

	return strings.Fields(text[:strings.IndexByte(text, '}')])
}

// Values computes the inter-letter values of a word: values[i] stands before letter i. The key without is ignored.
func (l *Liang) Values(word []rune, without string) []int {
	dotted := make([]rune, 0, len(word)+2)
	dotted = append(dotted, '.')
	for _, r := range word {
		dotted = append(dotted, unicode.ToLower(r))
	}
	dotted = append(dotted, '.')

	values := make([]int, len(dotted)+1)
	for i := range dotted {
		for j := i + 1; j <= len(dotted) && j-i <= l.longest; j++ {
			key := string(dotted[i:j])
			if key == without && without != "" {
				continue
			}
			for k, v := range l.Patterns[key] {
				values[i+k] = max(values[i+k], v)
			}
		}
	}

	return values[1 : len(word)+1]
}

// Break lists the parts of a word.
func (l *Liang) Break(word []rune, minLength, minLeft, minRight int) [][]rune {
	for _, r := range word {
		if unicode.Is(unicode.Hyphen, r) {
			return [][]rune{word}
		}
	}
	if len(word) < minLength {
		return [][]rune{word}
	}

	lowered := make([]rune, len(word))
	for i, r := range word {
		lowered[i] = unicode.ToLower(r)
	}

	points, listed := l.Exceptions[string(lowered)]
	if !listed {
		for i, v := range l.Values(word, "") {
			if i > 0 && v%2 == 1 {
				points = append(points, i)
			}
		}
	}

	var (
		parts    [][]rune
		previous int
	)
	for _, i := range points {
		if i-previous < minLeft || len(word)-i < minRight {
			continue
		}
		parts = append(parts, word[previous:i])
		previous = i
	}

	return append(parts, word[previous:])
}
