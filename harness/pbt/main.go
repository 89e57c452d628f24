package pbt

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type replayFile struct {
	Property string          `json:"property"`
	Check    string          `json:"check"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
}

type checkReport struct {
	Cases       int            `json:"cases"`
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Distinct    int            `json:"distinct_nontrivial"`
	Workers     int            `json:"workers"`
	Classes     map[string]int `json:"classes,omitempty"`
	WallS       float64        `json:"wall_s"`
}

// Main is the entry point of a check binary.
func Main(properties ...Property) {
	var (
		id       = flag.String("property", "", "property to decide")
		tier     = flag.String("tier", "quick", "quick or thorough")
		root     = flag.String("root", "/verif", "folder of the evidence and replays")
		replay   = flag.String("replay", "", "replay file")
		wCheck   = flag.String("worker", "", "internal: check run by a worker")
		wShard   = flag.Int("shard", 0, "internal")
		wShards  = flag.Int("shards", 1, "internal")
		wSeed    = flag.Uint64("seed", 1, "internal")
		wCases   = flag.Int("cases", 1, "internal")
		wDir     = flag.String("dir", "", "internal")
		wOneCase = flag.String("case", "", "internal: file with one case to run")
		only     = flag.String("only", "", "restrict to one check (development)")
		scale    = flag.Float64("scale", 1, "multiplies the number of cases (development)")
	)
	flag.Parse()

	property, ok := find(properties, *id)
	if !ok {
		fatal("unknown property %q", *id)
	}

	thorough := *tier == "thorough"

	switch {
	case *wOneCase != "":
		raw, err := os.ReadFile(*wOneCase)
		must(err)
		runOne(findCheck(property, *wCheck), raw)

	case *wCheck != "":
		w := &worker{thorough: thorough, shard: *wShard, shards: *wShards, seed: *wSeed, dir: *wDir}
		defer func() {
			if p := recover(); p != nil {
				fatal("%v", p)
			}
		}()
		w.run(findCheck(property, *wCheck), *wCases)

	case *replay != "":
		os.Exit(runReplay(property, *replay))

	default:
		os.Exit((&parent{property: property, tier: *tier, thorough: thorough, root: *root, only: *only, scale: *scale}).run())
	}
}

func find(properties []Property, id string) (Property, bool) {
	for _, p := range properties {
		if p.ID == id {
			return p, true
		}
	}

	return Property{}, false
}

func findCheck(p Property, name string) Check {
	for _, c := range p.Checks {
		if c.CheckName() == name {
			return c
		}
	}

	fatal("unknown check %q of %s", name, p.ID)

	return nil
}

// runOne runs one case in this process: exit 1 and the message on stdout if it fails.
func runOne(c Check, raw json.RawMessage) {
	defer func() {
		if p := recover(); p != nil {
			fatal("%v", p)
		}
	}()

	w := &worker{}
	w.lastCase.Store(&raw)
	w.running.Store(true)
	go func() {
		start := cpuTime()
		for {
			time.Sleep(200 * time.Millisecond)
			if spent := cpuTime() - start; spent > 20*hangCPU/10 {
				fmt.Printf("no answer after %v of CPU time\n", spent)
				os.Exit(exitViolation)
			}
		}
	}()

	if err := c.replay(raw); err != nil {
		fmt.Println(err)
		os.Exit(exitViolation)
	}

	os.Exit(0)
}

// runReplay runs a recorded case in a child process, so that fatal crashes are reported too.
func runReplay(p Property, path string) int {
	raw, err := os.ReadFile(path)
	must(err)

	var rf replayFile
	must(json.Unmarshal(raw, &rf))
	if rf.Property != p.ID {
		fatal("replay is for %s", rf.Property)
	}

	failed, message, harnessErr := childCase(p, rf.Check, rf.Case)
	switch {
	case harnessErr != "":
		fmt.Fprintln(os.Stderr, harnessErr)

		return exitError
	case failed:
		fmt.Println(message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)

		return exitViolation
	default:
		fmt.Printf("%s: the case passes\n", p.ID)

		return 0
	}
}

func childCase(p Property, check string, raw json.RawMessage) (failed bool, message, harnessErr string) {
	dir, err := os.MkdirTemp("", "pbt-case")
	must(err)
	defer func() { _ = os.RemoveAll(dir) }()

	file := filepath.Join(dir, "case.json")
	must(os.WriteFile(file, raw, 0o600))

	cmd := exec.Command(os.Args[0], "-property", p.ID, "-worker", check, "-case", file)
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	err = cmd.Run()
	code := cmd.ProcessState.ExitCode()

	switch {
	case err == nil:
		return false, "", ""
	case code == exitViolation:
		return true, stdout.String(), ""
	case isCrash(cmd.ProcessState, stderr.String()):
		return true, clip(stderr.String(), 6000), ""
	default:
		return false, "", fmt.Sprintf("child: %v\n%s", err, clip(stderr.String(), 6000))
	}
}

// isCrash tells a crash of the code under test (Go runtime errors, race reports) from other deaths of a worker.
func isCrash(state *os.ProcessState, stderr string) bool {
	if status, ok := state.Sys().(syscall.WaitStatus); ok && status.Signaled() && status.Signal() == syscall.SIGKILL {
		return false // out of memory, or stopped from outside
	}

	if strings.Contains(stderr, "HARNESS ERROR") {
		return false
	}

	for _, mark := range []string{"WARNING: DATA RACE", "fatal error: stack overflow", "stack exceeds", "fatal error: concurrent map", "fatal error: all goroutines are asleep", "panic: ", "SIGSEGV", "fatal error: sync:"} {
		if strings.Contains(stderr, mark) && !strings.Contains(stderr, "out of memory") {
			return true
		}
	}

	return false
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + " ..."
	}

	return s
}

type parent struct {
	property Property
	tier     string
	thorough bool
	root     string
	only     string
	scale    float64
}

func (p *parent) run() int {
	start := time.Now()
	seed := baseSeed()

	var (
		reports    = map[string]checkReport{}
		samples    []any
		total      checkReport
		violations int
		broken     bool
	)

	for _, check := range p.property.Checks {
		if p.only != "" && check.CheckName() != p.only {
			continue
		}

		report, fail, checkSamples, errMsg := p.runCheck(check, seed)
		reports[check.CheckName()] = report
		samples = append(samples, checkSamples...)
		total.Evaluations += report.Evaluations
		total.Distinct += report.Distinct

		if errMsg != "" {
			fmt.Fprintln(os.Stderr, errMsg)
			broken = true
		}

		if fail != nil {
			violations++
			path := p.saveReplay(check, fail)
			fmt.Printf("%s/%s: %s\n", p.property.ID, check.CheckName(), clip(fail.Message, 3000))
			fmt.Printf("case: %s\n", clip(string(fail.Case), 2000))
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.property.ID, path)
		}
	}

	p.writeEvidence(seed, reports, total, samples, violations, time.Since(start))
	fmt.Printf("%s %s seed=%d: %d evaluations, %d distinct non-trivial cases, %d violations, %.1fs\n",
		p.property.ID, p.tier, seed, total.Evaluations, total.Distinct, violations, time.Since(start).Seconds())

	switch {
	case violations > 0:
		return exitViolation
	case broken:
		return exitError
	default:
		return 0
	}
}

func baseSeed() uint64 {
	n, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}

	return n
}

func mixSeed(seed uint64, parts ...string) uint64 {
	h := fnv.New64a()
	_, _ = fmt.Fprintf(h, "%d", seed)
	for _, part := range parts {
		_, _ = h.Write([]byte{0})
		_, _ = h.Write([]byte(part))
	}

	if sum := h.Sum64(); sum != 0 {
		return sum
	}

	return 1
}

func (p *parent) runCheck(check Check, seed uint64) (report checkReport, fail *failure, samples []any, errMsg string) {
	start := time.Now()
	cases := check.cases(p.thorough)
	if n := int(float64(cases) * p.scale); p.scale != 1 && n > 0 {
		cases = n
	}

	// the number of shards must not depend on the machine: results are a function of the code and the seed
	const parallel = 8
	shards := check.maxShards(p.thorough)
	if shards == 0 {
		shards = parallel
	}
	if shards > cases {
		shards = cases
	}
	if shards < 1 {
		shards = 1
	}

	dir, err := os.MkdirTemp("", "pbt")
	must(err)
	defer func() { _ = os.RemoveAll(dir) }()

	report.Classes = map[string]int{}
	report.Workers = shards

	var (
		mx        sync.Mutex
		wg        sync.WaitGroup
		errs      []string
		hashes    = map[uint64]struct{}{}
		fails     = map[int]*failure{}
		bySamples = map[int][]json.RawMessage{}
		slots     = make(chan struct{}, max(2, min(parallel, runtime.NumCPU())))
	)

	for shard := 0; shard < shards; shard++ {
		n := cases / shards
		if shard < cases%shards {
			n++
		}

		wg.Add(1)
		go func() {
			defer wg.Done()
			slots <- struct{}{}
			defer func() { <-slots }()

			result, workerFail, workerErr := p.runWorker(check, dir, shard, shards, n, mixSeed(seed, p.property.ID, check.CheckName(), strconv.Itoa(shard)))

			mx.Lock()
			defer mx.Unlock()
			if workerErr != "" {
				errs = append(errs, workerErr)
			}
			if workerFail != nil {
				fails[shard] = workerFail
			}
			report.Cases += result.Cases
			report.Evaluations += result.Evaluations
			report.NonTrivial += result.NonTrivial
			for k, v := range result.Classes {
				report.Classes[k] += v
			}
			bySamples[shard] = result.Samples

			buf, _ := os.ReadFile(filepath.Join(dir, "hashes."+strconv.Itoa(shard)))
			for i := 0; i+8 <= len(buf); i += 8 {
				hashes[binary.LittleEndian.Uint64(buf[i:])] = struct{}{}
			}
		}()
	}
	wg.Wait()

	report.Distinct = len(hashes)
	report.WallS = time.Since(start).Seconds()

	// the smallest counter-example of all shards
	var order []int
	for shard := range fails {
		order = append(order, shard)
	}
	sort.Slice(order, func(i, j int) bool {
		a, b := fails[order[i]], fails[order[j]]
		if len(a.Case) != len(b.Case) {
			return len(a.Case) < len(b.Case)
		}

		return order[i] < order[j]
	})
	if len(order) > 0 {
		fail = fails[order[0]]
	}

	for shard := 0; shard < shards && len(samples) < 3; shard++ {
		if s := bySamples[shard]; len(s) > 0 {
			samples = append(samples, map[string]any{"check": check.CheckName(), "case": s[len(s)-1]})
		}
	}

	return report, fail, samples, strings.Join(errs, "\n")
}

func (p *parent) runWorker(check Check, dir string, shard, shards, n int, seed uint64) (result shardResult, fail *failure, errMsg string) {
	cmd := exec.Command(os.Args[0], "-property", p.property.ID, "-tier", p.tier, "-worker", check.CheckName(),
		"-dir", dir, "-shard", strconv.Itoa(shard), "-shards", strconv.Itoa(shards),
		"-cases", strconv.Itoa(n), "-seed", strconv.FormatUint(seed, 10))
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	err := cmd.Run()

	raw, readErr := os.ReadFile(filepath.Join(dir, "result."+strconv.Itoa(shard)))
	if readErr == nil {
		if e := json.Unmarshal(raw, &result); e != nil {
			return result, nil, "bad worker result: " + e.Error()
		}
	}

	if err == nil && readErr == nil {
		return result, result.Failure, ""
	}

	// a race report ends the worker with an error, after its result is written
	if isCrash(cmd.ProcessState, stderr.String()) {
		if result.Failure != nil {
			return result, result.Failure, ""
		}

		raw, ok := readJournal(filepath.Join(dir, "journal."+strconv.Itoa(shard)))
		if !ok {
			return result, nil, "worker crashed before any case:\n" + clip(stderr.String(), 6000)
		}

		message := clip(stderr.String(), 6000)
		if strings.Contains(message, "WARNING: DATA RACE") {
			return result, &failure{Case: raw, Message: message}, ""
		}

		// confirm with the journalled case in a fresh process
		failed, confirmed, harnessErr := childCase(p.property, check.CheckName(), raw)
		if failed {
			return result, &failure{Case: raw, Message: confirmed}, ""
		}

		// not reproduced alone: still a crash of the code under test, when runtime goroutines say so
		if strings.Contains(message, "fatal error: concurrent map") || strings.Contains(message, "fatal error: sync:") {
			return result, &failure{Case: raw, Message: message}, ""
		}

		return result, nil, "worker crashed and the case does not reproduce it:\n" + message + harnessErr
	}

	return result, nil, fmt.Sprintf("worker %s/%s shard %d: %v\n%s", p.property.ID, check.CheckName(), shard, err, clip(stderr.String(), 6000))
}

func (p *parent) saveReplay(check Check, fail *failure) string {
	dir := filepath.Join(p.root, "replays")
	must(os.MkdirAll(dir, 0o755))

	h := fnv.New32a()
	_, _ = h.Write(fail.Case)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%08x.json", p.property.ID, check.CheckName(), h.Sum32()))

	raw, err := json.MarshalIndent(replayFile{
		Property: p.property.ID, Check: check.CheckName(), Message: clip(fail.Message, 8000), Case: fail.Case,
	}, "", " ")
	must(err)
	must(os.WriteFile(path, append(raw, '\n'), 0o644))

	return path
}

func (p *parent) writeEvidence(seed uint64, reports map[string]checkReport, total checkReport, samples []any, violations int, wall time.Duration) {
	dir := filepath.Join(p.root, "evidence")
	must(os.MkdirAll(dir, 0o755))

	if samples == nil {
		samples = []any{}
	}

	rule := p.property.Rule
	for _, check := range p.property.Checks {
		if strings.HasSuffix(check.CheckName(), "sizes") {
			rule += " Inputs are also enumerated by size: all small sizes and those around powers of two (" + check.CheckName() + ")."
		}
	}

	evidence := map[string]any{
		"property": p.property.ID,
		"tier":     p.tier,
		"seed":     int64(seed),
		"level":    "exploration",
		"coverage": map[string]any{
			"evaluations":         total.Evaluations,
			"distinct_nontrivial": total.Distinct,
			"rule":                rule,
			"samples":             samples,
			"exhaustive":          p.property.Exhaustive,
			"checks":              reports,
		},
		"assumptions": p.property.Assumptions,
		"wall_s":      wall.Seconds(),
		"violations":  violations,
	}
	if p.property.Assumptions == nil {
		delete(evidence, "assumptions")
	}

	raw, err := json.MarshalIndent(evidence, "", " ")
	must(err)
	must(os.WriteFile(filepath.Join(dir, p.property.ID+".json"), append(raw, '\n'), 0o644))
}
