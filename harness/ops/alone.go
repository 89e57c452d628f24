package ops

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/pbt"
)

const variable = "VERIF_SERVE"

// Serve runs as a fresh process on behalf of another one: it must be called first by main.
func Serve(servers map[string]func([]byte) []byte) {
	name := os.Getenv(variable)
	if name == "" {
		return
	}

	var in bytes.Buffer
	if _, err := in.ReadFrom(os.Stdin); err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS ERROR:", err)
		os.Exit(3)
	}

	var out []byte
	if name == "alone" {
		var o Op
		if err := json.Unmarshal(in.Bytes(), &o); err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS ERROR:", err)
			os.Exit(3)
		}
		x := NewObjects()
		x.Prepare(o)
		result, err := Guarded(x, o, o.Input())
		if err != nil {
			result = Result{Value: err.Error()}
		}
		out, _ = json.Marshal(result)
	} else {
		out = servers[name](in.Bytes())
	}

	_, _ = os.Stdout.Write(out)
	os.Exit(0)
}

// Fresh runs a server in a new process. A crash of this process is an error.
func Fresh(server string, in any) ([]byte, error) {
	raw, err := json.Marshal(in)
	if err != nil {
		pbt.Internal("%v", err)
	}

	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), variable+"="+server)
	cmd.Stdin = bytes.NewReader(raw)
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	if err := cmd.Run(); err != nil {
		text := stderr.String()
		if strings.Contains(text, "HARNESS ERROR") || !(strings.Contains(text, "fatal error: ") || strings.Contains(text, "panic: ") || strings.Contains(text, "DATA RACE")) || strings.Contains(text, "out of memory") {
			pbt.Internal("fresh process: %v\n%s", err, text)
		}

		return nil, fmt.Errorf("crash of a fresh process: %v\n%.3000s", err, text)
	}

	return stdout.Bytes(), nil
}

// Guarded runs a call and turns a panic into an error.
func Guarded(x *Objects, o Op, input []rune) (out Result, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()

	return o.Run(x, input), nil
}

var (
	aloneMx sync.Mutex
	alone   = map[string]Result{}
)

// Judge decides about the result of a call which is not the one of the reference: this is an error if
// the same call gives something else when it is the only one of its process.
func Judge(o Op, got Result) error {
	want, ok := o.Expect()
	if !ok || want.Equal(got) {
		return nil
	}

	o.Fresh = true
	raw, _ := json.Marshal(o)

	aloneMx.Lock()
	defer aloneMx.Unlock()

	result, known := alone[string(raw)]
	if !known {
		if len(alone) > 60 {
			return nil // the reference is not respected anyway: other properties tell
		}
		out, err := Fresh("alone", o)
		if err != nil {
			result = Result{Value: err.Error()}
		} else if err := json.Unmarshal(out, &result); err != nil {
			pbt.Internal("%v", err)
		}
		alone[string(raw)] = result
	}

	if !result.Equal(got) {
		return fmt.Errorf("%v: %v, but %v when alone in a process", o, got, result)
	}

	return nil
}
