package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode"

	"pgregory.net/rapid"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/pbt"
)

// span is a line of the Unicode data.
type span struct {
	Skip      int    `json:"skip,omitempty"` // from the end of the line before
	More      int    `json:"more,omitempty"` // code points after the first one
	Class     string `json:"class"`
	Combining bool   `json:"combining,omitempty"`
	Picto     bool   `json:"picto,omitempty"`
	Noise     int    `json:"noise,omitempty"` // comments before the line
}

type tableCase struct {
	From   int    `json:"from"`
	Spans  []span `json:"spans"`
	Fault  int    `json:"fault,omitempty"` // of the server, on one of the files
	Emojis bool   `json:"faultOnEmojis,omitempty"`
}

const (
	noFault = iota
	notFound
	cutShort
	noServer
)

// fixed code points, whose width does not come from the data.
func fixed(r rune) bool {
	for _, x := range [][2]rune{{0, 0x3ff}, {0x70F, 0x70F}, {0x180B, 0x180E}, {0x200B, 0x200F}, {0x2028, 0x202E}, {0x206A, 0x206F}, {0x2E3A, 0x2E3B}, {0xD800, 0xDFFF}, {0xFEFF, 0xFEFF}, {0xFFF9, 0xFFFB}, {0xFFFD, 0xFFFF}} {
		if r >= x[0] && r <= x[1] {
			return true
		}
	}

	return r > unicode.MaxRune
}

type block struct {
	lo, hi rune
	span
}

// blocks of the data, which holds all classes at the start, since the library does not support empty tables.
func (c tableCase) blocks() []block {
	var out []block
	next := rune(0x400)
	add := func(s span) {
		lo := next + rune(s.Skip)
		hi := lo + rune(s.More)
		if hi > unicode.MaxRune {
			return
		}
		out = append(out, block{lo, hi, s})
		next = hi + 1
	}
	add(span{Class: "N", Combining: true})
	add(span{Class: "W"})
	add(span{Class: "A"})
	add(span{Class: "Na"})
	add(span{Class: "N", Picto: true})
	next = max(next+1, rune(c.From))
	for _, s := range c.Spans {
		add(s)
	}

	return out
}

func (c tableCase) data() (widths, emojis string) {
	var w, e strings.Builder
	w.WriteString("# EastAsianWidth-15.0.0.txt\n# @missing: 0000..10FFFF; N\n\n")
	e.WriteString("# emoji-data.txt\n\n0023          ; Emoji                # E0.0   [1] (#️)       number sign\n00A9          ; Extended_Pictographic# E0.6   [1] (©️)       copyright\n")
	for _, b := range c.blocks() {
		points, padded := fmt.Sprintf("%04X..%04X", b.lo, b.hi), ""
		if b.lo == b.hi {
			points = fmt.Sprintf("%04X", b.lo)
		}
		if b.Noise > 0 {
			w.WriteString(strings.Repeat("# COMBINING 1F600..1F64F;W\n\n", b.Noise))
			fmt.Fprintf(&e, "# Extended_Pictographic\n%04X          ; Emoji                # E1.0   [1]\n", b.lo)
		}
		name := "SOME SYMBOL.."
		if b.Combining {
			name = "COMBINING MARK"
		}
		fmt.Fprintf(&w, "%s;%s  # Lo     [%d] %s\n", points, b.Class, b.hi-b.lo+1, name)
		if b.Picto {
			padded = fmt.Sprintf("%-13s", points)
			fmt.Fprintf(&e, "%s ; Extended_Pictographic# E1.0   [%d]\n", padded, b.hi-b.lo+1)
		}
	}
	w.WriteString("\n# EOF\n")
	e.WriteString("\n# Total elements: 3537\n\n#EOF\n")

	return w.String(), e.String()
}

type server struct {
	address, ca string
	current     atomic.Pointer[tableCase]
	asked       atomic.Int64
}

var serve = sync.OnceValue(func() *server {
	s := new(server)

	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	template := &x509.Certificate{
		SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "verif"},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(240 * time.Hour),
		DNSNames: []string{"unicode.org", "www.unicode.org"}, IsCA: true, BasicConstraintsValid: true,
		KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
	}
	der, err := x509.CreateCertificate(rand.Reader, template, template, &key.PublicKey, key)
	must(err)
	dir, err := os.MkdirTemp("", "ca")
	must(err)
	s.ca = filepath.Join(dir, "ca.pem")
	write(s.ca, string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})))
	config := &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}, NextProtos: []string{"http/1.1"}}

	listener, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	s.address = "http://" + listener.Addr().String()
	go func() {
		_ = http.Serve(listener, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { // a proxy that answers by itself
			s.asked.Add(1)
			conn, _, err := w.(http.Hijacker).Hijack()
			if err != nil {
				return
			}
			if s.current.Load().Fault == noServer {
				_ = conn.Close()

				return
			}
			_, _ = io.WriteString(conn, "HTTP/1.1 200 Connection established\r\n\r\n")
			one := &oneListener{conn: tls.Server(conn, config), done: make(chan struct{})}
			_ = http.Serve(one, http.HandlerFunc(s.answer))
		}))
	}()

	return s
})

func must(err error) {
	if err != nil {
		pbt.Internal("%v", err)
	}
}

// oneListener serves one connection.
type oneListener struct {
	conn net.Conn
	once sync.Once
	done chan struct{}
}

func (l *oneListener) Accept() (conn net.Conn, err error) {
	l.once.Do(func() { conn = &notified{l.conn, l} })
	if conn == nil {
		<-l.done

		return nil, io.EOF
	}

	return conn, nil
}

func (l *oneListener) Close() error   { return nil }
func (l *oneListener) Addr() net.Addr { return l.conn.LocalAddr() }

type notified struct {
	net.Conn
	l *oneListener
}

func (n *notified) Close() error {
	defer func() { recover() }() // closed twice
	close(n.l.done)

	return n.Conn.Close()
}

func (s *server) answer(w http.ResponseWriter, r *http.Request) {
	c := s.current.Load()
	widths, emojis := c.data()
	content := ""
	switch {
	case !strings.Contains(r.URL.Path, "/15.0.0/"):
	case strings.HasSuffix(r.URL.Path, "/EastAsianWidth.txt"):
		content = widths
	case strings.HasSuffix(r.URL.Path, "/emoji-data.txt"):
		content = emojis
	}
	fault := c.Fault
	if c.Emojis != strings.HasSuffix(r.URL.Path, "/emoji-data.txt") {
		fault = noFault
	}
	if content == "" || fault == notFound {
		http.NotFound(w, r)

		return
	}
	w.Header().Set("Content-Length", strconv.Itoa(len(content)))
	if fault == cutShort {
		_, _ = io.WriteString(w, content[:len(content)/2])

		return
	}
	_, _ = io.WriteString(w, content)
}

const program = `package main

import (
	"bufio"
	"fmt"
	"os"

	"scratch/runes"
)

func main() {
	in, out := bufio.NewReader(os.Stdin), bufio.NewWriter(os.Stdout)
	defer out.Flush()
	for {
		var r rune
		if _, err := fmt.Fscan(in, &r); err != nil {
			return
		}
		fmt.Fprintln(out, runes.Width(r), runes.Width(r, runes.WithEastAsian(true)),
			runes.Width(r, runes.WithEastAsian(true), runes.WithEastAsianAmbiguousWidth(3), runes.WithSkipStrictEmojiNeutral(true)), runes.IsAmbiguous(r))
	}
}
`

// merged tells if the ranges of each table are sorted, apart and not adjacent. Anything which is not a table of
// pairs of numbers is ignored.
func merged(path string) error {
	file, err := parser.ParseFile(token.NewFileSet(), path, nil, 0)
	if err != nil {
		return fmt.Errorf("the generated tables are not Go source: %w", err)
	}

	var failure error
	ast.Inspect(file, func(n ast.Node) bool {
		list, ok := n.(*ast.CompositeLit)
		if !ok {
			return true
		}
		last := int64(-10)
		for _, e := range list.Elts {
			pair, ok := e.(*ast.CompositeLit)
			if !ok || len(pair.Elts) != 2 {
				return true
			}
			var ends [2]int64
			for i := range ends {
				lit, ok := pair.Elts[i].(*ast.BasicLit)
				if !ok {
					return true
				}
				if ends[i], err = strconv.ParseInt(lit.Value, 0, 64); err != nil {
					return true
				}
			}
			if failure == nil && (ends[1] < ends[0] || ends[0] <= last+1) {
				failure = fmt.Errorf("range %04X..%04X of a table comes after one which ends at %04X: they are not merged", ends[0], ends[1], last)
			}
			last = ends[1]
		}

		return true
	})

	return failure
}

func propTables() pbt.Property {
	gen := func(t *rapid.T) tableCase {
		genSpan := rapid.Custom(func(t *rapid.T) span {
			s := span{Class: rapid.SampledFrom([]string{"N", "W", "A", "Na", "F", "H", "N"}).Draw(t, "class")}
			if rapid.Bool().Draw(t, "apart") {
				s.Skip = rapid.IntRange(1, 5).Draw(t, "skip")
			}
			if rapid.Bool().Draw(t, "range") {
				s.More = rapid.IntRange(1, 40).Draw(t, "more")
				if rapid.IntRange(0, 15).Draw(t, "wide") == 11 {
					s.More = rapid.SampledFrom([]int{250, 1000, 4090, 0x3fff}).Draw(t, "least") + rapid.IntRange(0, 20).Draw(t, "more")
				}
			}
			if rapid.IntRange(0, 30).Draw(t, "far") == 17 {
				s.Skip = rapid.IntRange(0, 0x30000).Draw(t, "gap")
			}
			s.Combining = (s.Class == "N" || s.Class == "W" || s.Class == "A") && rapid.IntRange(0, 3).Draw(t, "combining") == 0
			s.Picto = rapid.IntRange(0, 2).Draw(t, "picto") == 0
			if rapid.IntRange(0, 5).Draw(t, "noise?") == 0 {
				s.Noise = rapid.IntRange(1, 2).Draw(t, "noise")
			}

			return s
		})

		c := tableCase{
			From:  rapid.SampledFrom([]int{0, 0xFF00, 0x2000, 0xFFF0, 0x10000, 0x1F000, 0x10F000}).Draw(t, "from"),
			Spans: rapid.SliceOfN(genSpan, rapid.SampledFrom([]int{0, 10, 60, 200}).Draw(t, "least"), 300).Draw(t, "spans"),
		}
		if rapid.IntRange(0, 5).Draw(t, "fault?") == 1 {
			c.Fault = rapid.IntRange(notFound, noServer).Draw(t, "fault")
			c.Emojis = rapid.Bool().Draw(t, "emojis")
		}

		return c
	}

	check := func(c tableCase, o *pbt.Obs) error {
		s := serve()
		s.current.Store(&c)
		before := s.asked.Load()

		dir, remove := scratch()
		defer remove()
		sources, err := filepath.Glob(filepath.Join(repo, "terminal/runes/*.go"))
		must(err)
		for _, path := range sources {
			if strings.HasSuffix(path, "_test.go") {
				continue
			}
			raw, err := os.ReadFile(path)
			must(err)
			write(filepath.Join(dir, "runes", filepath.Base(path)), string(raw))
		}
		write(filepath.Join(dir, "go.mod"), "module scratch\n\ngo 1.19\n")
		write(filepath.Join(dir, "main.go"), program)

		tables := filepath.Join(dir, "runes", "runes_tables.go")
		old, err := os.ReadFile(tables)
		must(err)
		message, err := run(filepath.Join(dir, "runes"), []string{"HTTPS_PROXY=" + s.address, "https_proxy=" + s.address, "NO_PROXY=", "no_proxy=", "SSL_CERT_FILE=" + s.ca, "SSL_CERT_DIR=/nonexistent"}, "", tool("build_tables"))
		if s.asked.Load() == before {
			pbt.Internal("the generator asked nothing: %v %s", err, message)
		}
		if c.Fault != noFault {
			o.Class("fault")
			if err == nil {
				return fmt.Errorf("no error although the data is not retrieved")
			}
			if now, err := os.ReadFile(tables); err != nil || string(now) != string(old) {
				return fmt.Errorf("the tables are modified although the data is not retrieved (%v)", err)
			}

			return nil
		}
		if err != nil {
			return fmt.Errorf("failure of the generator: %v %.2000s", err, message)
		}
		if err := merged(tables); err != nil {
			return err
		}
		if message, err := run(dir, []string{"GOFLAGS="}, "", "go", "build", "-o", "measure", "."); err != nil {
			return fmt.Errorf("the generated tables do not compile: %v %.2000s", err, message)
		}

		// measure around the ends of all ranges
		blocks := c.blocks()
		points := map[rune]block{}
		for _, b := range blocks {
			for _, r := range []rune{b.lo - 1, b.lo, b.lo + 1, (b.lo + b.hi) / 2, b.hi - 1, b.hi, b.hi + 1} {
				if !fixed(r) {
					if _, ok := points[r]; !ok {
						points[r] = block{span: span{Class: "N"}}
					}
					if r >= b.lo && r <= b.hi {
						points[r] = b
					}
				}
			}
		}
		var (
			order []int
			stdin strings.Builder
		)
		for r := range points {
			order = append(order, int(r))
		}
		sort.Ints(order)
		for _, r := range order {
			fmt.Fprintln(&stdin, r)
		}
		out, err := run(dir, nil, stdin.String(), filepath.Join(dir, "measure"))
		if err != nil {
			return fmt.Errorf("measuring with the generated tables: %v %.2000s", err, out)
		}
		lines := strings.Split(strings.TrimSpace(out), "\n")
		if len(lines) != len(order) {
			pbt.Internal("%d lines for %d runes", len(lines), len(order))
		}
		for i, r := range order {
			b := points[rune(r)]
			w := [3]int{1, 1, 1}
			switch {
			case b.Combining:
				w = [3]int{}
			case b.Class == "W" || b.Class == "F":
				w = [3]int{2, 2, 2}
			case b.Class == "A":
				w = [3]int{1, 2, 3}
			case b.Picto && b.Class != "Na":
				w = [3]int{1, 1, 2}
			}
			if want := fmt.Sprintln(w[0], w[1], w[2], b.Class == "A"); lines[i]+"\n" != want {
				return fmt.Errorf("U+%04X, in %04X..%04X (%+v): widths (default, East-Asian, emojis) and ambiguous: %s, want %s", r, b.lo, b.hi, b.span, lines[i], want)
			}
		}
		o.NonTrivialIf(len(blocks) > 20)
		o.Weight(len(order))

		return nil
	}

	return pbt.Property{
		ID: "C30",
		Rule: "random Unicode data files (ranges or single code points, adjacent or not, of all classes, comments, other emoji properties), served to the generator built from the tree by a proxy on the loopback network, with faults at times (missing file, truncated answer, closed connection); the package built with the generated tables measures the code points around the ends of all ranges, and the ranges of each generated table are sorted, apart and merged when adjacent. " +
			"Evaluations are the code points measured. Non-trivial: more than 20 ranges.",
		Assumptions: []string{"data files sorted, in the format of Unicode 15.0, no class empty, from U+0400 up"},
		Checks: []pbt.Check{
			pbt.Rapid[tableCase]{Name: "data", Quick: 160, Thorough: 6000, Gen: gen, Check: check},
			pbt.Enum[sizedTable]{Name: "sizes", Check: func(s sizedTable, o *pbt.Obs) error { return check(s.table(), o) },
				List: func(thorough bool) []sizedTable {
					var out []sizedTable
					for i, n := range []int{1, 2, 3, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097} {
						out = append(out, sizedTable{n, i % len(classes)})
						for class := range classes {
							if thorough && class != i%len(classes) {
								out = append(out, sizedTable{n, class})
							}
						}
					}

					return out
				}},
		},
	}
}

var classes = []span{{Class: "W"}, {Class: "A"}, {Class: "N", Combining: true}, {Class: "N", Picto: true}, {Class: "F"}, {Class: "W", Picto: true}, {Class: "Na", Picto: true}, {Class: "W", Combining: true}, {Class: "A", Combining: true}}

// sizedTable is a table of this many ranges of one class.
type sizedTable struct {
	N     int `json:"n"`
	Class int `json:"class"`
}

func (s sizedTable) table() tableCase {
	c := tableCase{From: 0x10000}
	for i := 0; i < s.N; i++ {
		one := classes[s.Class]
		one.Skip, one.More = 1+i%3, i*i%5
		if i == s.N-1 {
			one.More = s.N // a long one
		}
		c.Spans = append(c.Spans, one, span{Class: "N", Skip: i % 2})
	}

	return c
}
