package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/gens"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/pbt"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/sweep"
)

type texFile struct {
	Path  string   `json:"path"`
	Lines []string `json:"lines"`
	Long  int      `json:"long,omitempty"` // length of a comment added to the middle line
	CRLF  bool     `json:"crlf,omitempty"`
	Open  bool     `json:"open,omitempty"` // no line feed at the end
	Old   bool     `json:"old,omitempty"`  // the result exists already
}

func (f texFile) lines() []string {
	lines := append([]string{}, f.Lines...)
	if f.Long > 0 && len(lines) > 0 {
		lines[len(lines)/2] += "%" + strings.Repeat("x", f.Long)
	}

	return lines
}

func (f texFile) content() string {
	end := "\n"
	if f.CRLF {
		end = "\r\n"
	}
	out := strings.Join(f.lines(), end)
	if !f.Open && len(f.Lines) > 0 {
		out += end
	}

	return out
}

// meaningful lines: without comments, nor blanks around.
func meaningful(content string) []string {
	var out []string
	for _, line := range strings.Split(content, "\n") {
		line, _, _ = strings.Cut(line, "%")
		if line = strings.TrimSpace(line); line != "" {
			out = append(out, line)
		}
	}

	return out
}

type texCase struct {
	Files []texFile `json:"files"`
}

// sizedTex is a tree of which something has the given size.
type sizedTex struct {
	Kind string `json:"kind"`
	N    int    `json:"n"`
	CRLF bool   `json:"crlf,omitempty"`
	Open bool   `json:"open,omitempty"`
}

func listTex(thorough bool) []sizedTex {
	var out []sizedTex
	dense, top := 34, 4100
	if thorough {
		dense, top = 300, 70000
	}
	for _, n := range sweep.Sizes(dense, top) {
		for _, kind := range []string{"lines", "comments", "blanks", "length", "bytes", "comment", "marks", "content", "files", "depth"} {
			if n == 0 || kind == "files" && n > 300 || kind == "depth" && n > 70 {
				continue
			}
			out = append(out, sizedTex{Kind: kind, N: n, CRLF: n%3 == 1, Open: n%2 == 1})
		}
	}

	return out
}

func (s sizedTex) files() []texFile {
	path := "a.tex"
	lines := []string{"\\patterns{ % start", ".ab1c"}
	letters := func(n int) string { return strings.Repeat("a1bc2", n/5+1)[:n] }
	switch s.Kind {
	case "lines":
		for i := 0; i < s.N; i++ {
			lines = append(lines, fmt.Sprintf("a%db%s", i, []string{"", " % comment", "  "}[i%3]))
		}
	case "comments":
		for i := 0; i < s.N; i++ {
			lines = append(lines, fmt.Sprintf("%% comment %d", i))
		}
	case "blanks":
		for i := 0; i < s.N; i++ {
			lines = append(lines, []string{"", " ", "\t"}[i%3])
		}
	case "length":
		lines = append(lines, letters(s.N), letters(s.N)+"%", "b"+letters(s.N)+" % comment")
	case "bytes":
		lines = append(lines, strings.Repeat("é", s.N), "x"+strings.Repeat("é", s.N)+"%é")
	case "comment":
		lines = append(lines, "x%"+letters(s.N), "%"+letters(s.N))
	case "marks":
		lines = append(lines, "x"+strings.Repeat("%", s.N), strings.Repeat("% x", s.N))
	case "content": // bytes in all
		lines = []string{letters(s.N/2) + "%", letters(s.N - s.N/2)}
	case "files":
		var out []texFile
		for i := 0; i < s.N; i++ {
			out = append(out, texFile{Path: fmt.Sprintf("hyph-%d.tex", i), Lines: []string{fmt.Sprintf("a%db %% comment", i)}})
		}

		return out
	default:
		path = strings.Repeat("d/", s.N) + path
	}

	return []texFile{{Path: path, Lines: append(lines, "b2c % end", "}"), CRLF: s.CRLF, Open: s.Open}}
}

func propPatterns() pbt.Property {
	genLine := func(t *rapid.T) string {
		var out strings.Builder
		for n := rapid.IntRange(0, 5).Draw(t, "pieces"); n > 0; n-- {
			switch rapid.IntRange(0, 5).Draw(t, "piece") {
			case 0:
				out.WriteString(rapid.SampledFrom([]string{" ", "  ", "\t", " \t ", "\u00a0", "\v"}).Draw(t, "blank"))
			case 1:
				out.WriteString(rapid.SampledFrom([]string{"%", " %", "% ", "%%", "% comment", "%.a1b", "% }"}).Draw(t, "comment"))
			case 2:
				out.WriteString(rapid.SampledFrom([]string{`\patterns{`, `\hyphenation{`, "}", `\message{hi`, "as-so-ciate", "$1", "#", "//"}).Draw(t, "syntax"))
			case 3:
				out.WriteString(string(rapid.SliceOfN(gens.AnyRune(), 1, 3).Draw(t, "any")))
			default:
				out.WriteString(rapid.StringOfN(rapid.SampledFrom([]rune(".abcéßñ’1234589")), 1, 8, -1).Draw(t, "pattern"))
			}
		}

		return strings.NewReplacer("\n", "", "\r", "").Replace(out.String())
	}

	gen := func(t *rapid.T) texCase {
		var c texCase
		paths := []string{"a.tex", "b.tex", "sub/c.tex", "sub/deep.tex/d.tex", "e.txt", "f.tex.bak", "sub/g", "hyph-xx.tex"}
		for n := rapid.IntRange(1, 4).Draw(t, "files"); n > 0; n-- {
			at := rapid.IntRange(0, len(paths)-1).Draw(t, "path")
			f := texFile{
				Path:  paths[at],
				Lines: rapid.SliceOfN(rapid.Custom(genLine), 0, 12).Draw(t, "lines"),
				CRLF:  rapid.IntRange(0, 4).Draw(t, "crlf") == 0,
				Open:  rapid.Bool().Draw(t, "open"),
				Old:   rapid.IntRange(0, 3).Draw(t, "old") == 0,
			}
			paths = append(paths[:at], paths[at+1:]...)
			if rapid.Bool().Draw(t, "odd") { // other names
				f.Path = fmt.Sprintf("%s%d%s", rapid.SampledFrom([]string{"", ".", "_", "-", "~", "#", "A b", "é", "$1", "hyph-", "*", "a.tex.", "loadhyph-", "tex", "0", "strip_comments"}).Draw(t, "name"), n,
					rapid.SampledFrom([]string{".tex", ".tex", ".tex", ".tex", ".TEX", ".tex~", ".teX", "tex", ".tex.txt", ".latex"}).Draw(t, "suffix"))
				for k := rapid.IntRange(0, 3).Draw(t, "folders"); k > 0; k-- {
					f.Path = rapid.SampledFrom([]string{"sub", ".git", "_old", "testdata", "vendor", "tex", "languages", "x.tex", "internal", "node_modules", "A b", "é", "..x", "-", "quote", "0"}).Draw(t, "folder") + "/" + f.Path
				}
			}
			if rapid.IntRange(0, 7).Draw(t, "long?") == 0 {
				f.Long = gens.Pick(t, "long", []int{3, 3, 1}, []*rapid.Generator[int]{
					rapid.IntRange(0, 5000), rapid.SampledFrom([]int{1023, 4095, 4096, 8192, 16384, 32768, 60000}), rapid.IntRange(65500, 200000),
				}).Draw(t, "length")
			}
			c.Files = append(c.Files, f)
		}

		return c
	}

	const languages = repo + "/wordbreak/hyphenator/languages"
	type treeFile struct {
		Path string `json:"path"`
	}
	list := func(bool) []treeFile {
		sources, err := filepath.Glob(languages + "/tex/*.tex")
		must(err)
		var out []treeFile
		for _, path := range sources {
			out = append(out, treeFile{filepath.Base(path)})
		}

		return out
	}
	checkTree := func(c treeFile, o *pbt.Obs) error {
		source, err := os.ReadFile(filepath.Join(languages, "tex", c.Path))
		must(err)
		result, err := os.ReadFile(filepath.Join(languages, c.Path))
		if err != nil {
			return err
		}
		want, got := meaningful(string(source)), meaningful(string(result))
		for i, line := range want {
			if i >= len(got) || got[i] != line {
				return fmt.Errorf("%s: %q is missing, or not in order", c.Path, line)
			}
		}
		if len(got) > len(want) {
			return fmt.Errorf("%s: %q is not in the source", c.Path, got[len(want)])
		}
		o.NonTrivial()

		return nil
	}

	check := func(c texCase, o *pbt.Obs) error {
		dir, remove := scratch()
		defer remove()
		if err := os.Mkdir(filepath.Join(dir, "tex"), 0o755); err != nil {
			pbt.Internal("%v", err)
		}

		want := map[string]texFile{}
		tooLong, stripped := false, false
		for _, f := range c.Files {
			write(filepath.Join(dir, "tex", f.Path), f.content())
			if !strings.HasSuffix(f.Path, ".tex") {
				continue
			}
			base := filepath.Base(f.Path)
			want[base] = f
			if f.Old {
				write(filepath.Join(dir, base), "old\nresult, longer than the new one or not\n")
			}
			for _, line := range f.lines() {
				tooLong = tooLong || len(line) > 64000
				stripped = stripped || strings.Contains(line, "%") && strings.TrimSpace(line)[0] != '%'
			}
		}

		if message, err := run(dir, nil, "", tool("strip_comments")); err != nil {
			if tooLong { // may be refused, not cut
				o.Class("refused")

				return nil
			}

			return fmt.Errorf("failure of the generator: %v %s", err, message)
		}

		entries, err := os.ReadDir(dir)
		if err != nil {
			pbt.Internal("%v", err)
		}
		for _, e := range entries {
			if _, ok := want[e.Name()]; !ok && e.Name() != "tex" {
				return fmt.Errorf("file %s is not expected", e.Name())
			}
		}
		for name, f := range want {
			raw, err := os.ReadFile(filepath.Join(dir, name))
			if err != nil {
				return fmt.Errorf("no result for %s: %v", f.Path, err)
			}
			got := strings.Split(strings.TrimSuffix(string(raw), "\n"), "\n")
			var lines []string
			for _, line := range got {
				if line != "" {
					lines = append(lines, line)
				}
			}
			if expected := meaningful(f.content()); fmt.Sprintf("%q", lines) != fmt.Sprintf("%q", expected) {
				return fmt.Errorf("%s: lines %.2000q, want %.2000q", f.Path, lines, expected)
			}
		}
		for _, f := range c.Files {
			if raw, err := os.ReadFile(filepath.Join(dir, "tex", f.Path)); err != nil || string(raw) != f.content() {
				return fmt.Errorf("the source %s is modified: %v", f.Path, err)
			}
		}
		o.NonTrivialIf(stripped && len(want) > 0)
		o.ClassIf(len(want) > 1, "several files")

		return nil
	}

	return pbt.Property{
		ID: "C29",
		Rule: "random trees of files, whatever their names (patterns, commands, comments, blanks, any runes, long lines, either line ending, results left by an earlier run), given to the generator built from the tree; the lines of each result must be those of the source without comments and blanks. " +
			"The pattern files of the tree are compared with their sources. " +
			"Non-trivial: some line of a .tex file with a comment after something else.",
		Assumptions: []string{"base names are unique", "no escaped percent sign", "lines over 64000 bytes may be refused as a whole"},
		Checks: []pbt.Check{
			pbt.Rapid[texCase]{Name: "files", Quick: 12000, Thorough: 400000, Gen: gen, Check: check},
			pbt.Enum[sizedTex]{Name: "sizes", List: listTex, Check: func(s sizedTex, o *pbt.Obs) error { return check(texCase{s.files()}, o) }},
			pbt.Enum[treeFile]{Name: "tree", List: list, Check: checkTree},
		},
	}
}
