package pbt

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

const (
	exitViolation = 1
	exitError     = 2

	shrinkMax = 25 * time.Second // time spent to shrink a failure
	hangCPU   = 60 * time.Second // CPU time spent on one single case, normally well under a second
	heapMax   = 3 << 30
	maxDepth  = 256 << 20
)

type shardResult struct {
	Evaluations int               `json:"evaluations"`
	Cases       int               `json:"cases"`
	NonTrivial  int               `json:"nontrivial"`
	Classes     map[string]int    `json:"classes"`
	Samples     []json.RawMessage `json:"samples"`
	Failure     *failure          `json:"failure,omitempty"`
}

type worker struct {
	thorough bool
	shard    int
	shards   int
	seed     uint64
	dir      string

	result  shardResult
	hashes  map[uint64]struct{}
	journal *os.File

	current  atomic.Int64 // number of the case being evaluated, for the watchdog
	running  atomic.Bool
	lastCase atomic.Pointer[json.RawMessage]
}

func (w *worker) path(kind string) string {
	return filepath.Join(w.dir, kind+"."+strconv.Itoa(w.shard))
}

func (w *worker) run(c Check, n int) {
	debug.SetMaxStack(maxDepth)
	w.hashes = make(map[uint64]struct{})
	w.result.Classes = make(map[string]int)

	var err error
	if w.journal, err = os.Create(w.path("journal")); err != nil {
		fatal("cannot create journal: %v", err)
	}

	go w.watchdog()

	w.result.Failure = c.search(w, n)
	w.finish()
}

func (w *worker) finish() {
	buf := make([]byte, 0, 8*len(w.hashes))
	for h := range w.hashes {
		buf = binary.LittleEndian.AppendUint64(buf, h)
	}

	if err := os.WriteFile(w.path("hashes"), buf, 0o600); err != nil {
		fatal("cannot write hashes: %v", err)
	}

	w.writeResult()
	os.Exit(0)
}

func (w *worker) writeResult() {
	raw, err := json.Marshal(w.result)
	if err != nil {
		fatal("cannot encode result: %v", err)
	}

	if err := os.WriteFile(w.path("result"), raw, 0o600); err != nil {
		fatal("cannot write result: %v", err)
	}
}

// begin journals the case, so that a crash of the process can be attributed to it.
func (w *worker) begin(raw json.RawMessage) {
	buf := make([]byte, 8, 8+len(raw))
	binary.LittleEndian.PutUint64(buf, uint64(len(raw)))
	buf = append(buf, raw...)
	if _, err := w.journal.WriteAt(buf, 0); err != nil {
		fatal("cannot write journal: %v", err)
	}

	w.lastCase.Store(&raw)
	w.current.Add(1)
	w.running.Store(true)
}

func readJournal(path string) (json.RawMessage, bool) {
	buf, err := os.ReadFile(path)
	if err != nil || len(buf) < 8 {
		return nil, false
	}

	n := binary.LittleEndian.Uint64(buf)
	if n > uint64(len(buf)-8) {
		return nil, false
	}

	return json.RawMessage(buf[8 : 8+n]), true
}

func (w *worker) evaluate(raw json.RawMessage, obs *Obs, f func() error) error {
	w.begin(raw)
	err := guard(f)
	w.running.Store(false)
	w.count(raw, obs)

	return err
}

func (w *worker) count(raw json.RawMessage, obs *Obs) {
	weight := 1
	if obs.weight > 0 {
		weight = obs.weight
	}

	w.result.Cases++
	w.result.Evaluations += weight
	for _, class := range obs.classes {
		w.result.Classes[class]++
	}

	if !obs.nontrivial {
		return
	}

	w.result.NonTrivial++
	h := fnv.New64a()
	_, _ = h.Write(raw)
	sum := h.Sum64()
	if _, seen := w.hashes[sum]; seen {
		return
	}

	w.hashes[sum] = struct{}{}

	// keep samples spread over the run
	n := len(w.hashes)
	if n&(n-1) == 0 && len(raw) < 1500 {
		w.result.Samples = append(w.result.Samples, raw)
		if len(w.result.Samples) > 6 {
			w.result.Samples = w.result.Samples[1:]
		}
	}
}

func (w *worker) runRapid(n int, draw func(*rapid.T, *Obs) (json.RawMessage, func() error)) *failure {
	must(flag.Set("rapid.checks", strconv.Itoa(n)))
	must(flag.Set("rapid.seed", strconv.FormatUint(w.seed, 10)))
	must(flag.Set("rapid.nofailfile", "true"))
	must(flag.Set("rapid.shrinktime", "20s"))

	var (
		found *failure
		since time.Time
	)

	tb := &quietTB{}
	done := make(chan any, 1)

	go func() {
		defer func() { done <- recover() }()

		rapid.Check(tb, func(t *rapid.T) {
			obs := new(Obs)
			raw, check := draw(t, obs)
			if found != nil && time.Since(since) > shrinkMax {
				return // rapid only looks at its deadline between steps, which may have many cases each
			}

			w.begin(raw)
			err := guard(check)
			w.running.Store(false)

			if err == nil {
				if found == nil {
					w.count(raw, obs)
				}

				return
			}

			if found == nil {
				since = time.Now()
			}
			found = &failure{Case: raw, Message: err.Error()}
			t.Fatalf("violation")
		})
	}()

	p := <-done
	if internal, ok := p.(InternalError); ok {
		fatal("%v", internal)
	}

	if found == nil && (p != nil || tb.failed) {
		fatal("generator failure: %v %s", p, tb.log)
	}

	return found
}

// watchdog reports the current case when it runs away.
func (w *worker) watchdog() {
	var (
		seen     int64
		cpuStart time.Duration
		ticks    int
	)

	for {
		time.Sleep(200 * time.Millisecond)

		var mem runtime.MemStats
		if n := w.current.Load(); n != seen || !w.running.Load() {
			seen, cpuStart, ticks = n, cpuTime(), 0

			continue
		}

		ticks++
		spent := cpuTime() - cpuStart
		runtime.ReadMemStats(&mem)

		switch {
		case spent > hangCPU:
			w.runaway(fmt.Sprintf("no answer after %v of CPU time on one case", spent))
		case ticks > 600 && spent < 2*time.Second:
			w.runaway("blocked: no progress and no CPU used on one case")
		case mem.HeapAlloc > heapMax:
			w.runaway(fmt.Sprintf("more than %d bytes allocated on one case", uint64(heapMax)))
		}
	}
}

func (w *worker) runaway(message string) {
	result := shardResult{
		Evaluations: int(w.current.Load()),
		Failure:     &failure{Case: *w.lastCase.Load(), Message: message},
	}
	raw, _ := json.Marshal(result)
	_ = os.WriteFile(w.path("hashes"), nil, 0o600)
	_ = os.WriteFile(w.path("result"), raw, 0o600)
	os.Exit(0)
}

func cpuTime() time.Duration {
	var usage syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &usage); err != nil {
		return 0
	}

	return time.Duration(usage.Utime.Nano() + usage.Stime.Nano())
}

func must(err error) {
	if err != nil {
		fatal("%v", err)
	}
}

func fatal(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "HARNESS ERROR: "+format+"\n", args...)
	os.Exit(exitError)
}

// quietTB is the minimal test context that rapid needs.
type quietTB struct {
	failed bool
	log    string
}

func (q *quietTB) Helper()                          {}
func (q *quietTB) Name() string                     { return "pbt" }
func (q *quietTB) Logf(format string, args ...any)  { q.note(fmt.Sprintf(format, args...)) }
func (q *quietTB) Log(args ...any)                  { q.note(fmt.Sprint(args...)) }
func (q *quietTB) Skipf(format string, args ...any) { q.SkipNow() }
func (q *quietTB) Skip(args ...any)                 { q.SkipNow() }
func (q *quietTB) SkipNow()                         { runtime.Goexit() }
func (q *quietTB) Errorf(format string, args ...any) {
	q.note(fmt.Sprintf(format, args...))
	q.failed = true
}
func (q *quietTB) Error(args ...any) { q.note(fmt.Sprint(args...)); q.failed = true }
func (q *quietTB) Fatalf(format string, args ...any) {
	q.note(fmt.Sprintf(format, args...))
	q.FailNow()
}
func (q *quietTB) Fatal(args ...any) { q.note(fmt.Sprint(args...)); q.FailNow() }
func (q *quietTB) FailNow()          { q.failed = true; runtime.Goexit() }
func (q *quietTB) Fail()             { q.failed = true }
func (q *quietTB) Failed() bool      { return q.failed }

func (q *quietTB) note(s string) {
	if len(q.log) < 4000 {
		q.log += s + "\n"
	}
}

func init() {
	testing.Init()
}
