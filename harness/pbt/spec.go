// Package pbt drives property-based checks: rapid generators and shrinking, sharded in worker
// processes so that crashes, hangs and memory blow-ups of the code under test are turned into findings.
package pbt

import (
	"encoding/json"
	"fmt"
	"runtime/debug"

	"pgregory.net/rapid"
)

// Obs collects what a check observed about one case.
type Obs struct {
	nontrivial bool
	classes    []string
	weight     int
}

// NonTrivial marks the case as non-trivial, by the rule of the property.
func (o *Obs) NonTrivial() { o.nontrivial = true }

// NonTrivialIf marks the case as non-trivial when the condition holds.
func (o *Obs) NonTrivialIf(cond bool) {
	if cond {
		o.nontrivial = true
	}
}

// Class counts the case in a class.
func (o *Obs) Class(name string) { o.classes = append(o.classes, name) }

// ClassIf counts the case in a class when the condition holds.
func (o *Obs) ClassIf(cond bool, name string) {
	if cond {
		o.Class(name)
	}
}

// Weight tells that the case stands for n evaluations (enumerated blocks).
func (o *Obs) Weight(n int) { o.weight = n }

// InternalError is a failure of the harness: it is never reported as a violation.
type InternalError struct{ Msg string }

func (e InternalError) Error() string { return "internal: " + e.Msg }

// Internal stops the run with an error of the harness.
func Internal(format string, args ...any) { panic(InternalError{fmt.Sprintf(format, args...)}) }

// Check is one executable check of a property.
type Check interface {
	CheckName() string
	cases(thorough bool) int
	// search runs n generated cases; it stops at the first failure, shrunk.
	search(w *worker, n int) *failure
	// replay runs one recorded case.
	replay(raw json.RawMessage) error
	maxShards(thorough bool) int
}

type failure struct {
	Case    json.RawMessage `json:"case"`
	Message string          `json:"message"`
}

// Rapid is a check over cases drawn from a rapid generator.
type Rapid[C any] struct {
	Name     string
	Gen      func(*rapid.T) C
	Check    func(C, *Obs) error
	Quick    int
	Thorough int
	Shards   int // when >0, fixed number of worker processes (e.g. cold starts)
	Repeat   int // how many times a replay runs the case (schedule dependent checks)
}

func (s Rapid[C]) CheckName() string { return s.Name }

func (s Rapid[C]) cases(thorough bool) int {
	if thorough {
		return s.Thorough
	}

	return s.Quick
}

func (s Rapid[C]) maxShards(thorough bool) int {
	if s.Shards > 0 && thorough {
		return 8 * s.Shards
	}

	return s.Shards
}

func (s Rapid[C]) search(w *worker, n int) *failure {
	return w.runRapid(n, func(t *rapid.T, obs *Obs) (json.RawMessage, func() error) {
		c := s.Gen(t)

		return mustJSON(c), func() error { return s.Check(c, obs) }
	})
}

func (s Rapid[C]) replay(raw json.RawMessage) error {
	var c C
	if err := json.Unmarshal(raw, &c); err != nil {
		Internal("bad replay case: %v", err)
	}

	repeat := s.Repeat
	if repeat < 1 {
		repeat = 20
	}

	for i := 0; i < repeat; i++ {
		if err := guard(func() error { return s.Check(c, new(Obs)) }); err != nil {
			return err
		}
	}

	return nil
}

// Enum is a check over an enumerated finite space of cases.
type Enum[C any] struct {
	Name   string
	List   func(thorough bool) []C
	Check  func(C, *Obs) error
	Narrow func(C, func(C) bool) C // narrows a failing case
}

func (s Enum[C]) CheckName() string           { return s.Name }
func (s Enum[C]) cases(thorough bool) int     { return len(s.List(thorough)) }
func (s Enum[C]) maxShards(thorough bool) int { return 0 }

func (s Enum[C]) search(w *worker, _ int) *failure {
	list := s.List(w.thorough)
	for i := w.shard; i < len(list); i += w.shards {
		c := list[i]
		obs := new(Obs)
		raw := mustJSON(c)
		if err := w.evaluate(raw, obs, func() error { return s.Check(c, obs) }); err != nil {
			if s.Narrow != nil {
				c = s.Narrow(c, func(d C) bool { return guard(func() error { return s.Check(d, new(Obs)) }) != nil })
				if e := guard(func() error { return s.Check(c, new(Obs)) }); e != nil {
					err = e
				}
			}

			return &failure{Case: mustJSON(c), Message: err.Error()}
		}
	}

	return nil
}

func (s Enum[C]) replay(raw json.RawMessage) error {
	var c C
	if err := json.Unmarshal(raw, &c); err != nil {
		Internal("bad replay case: %v", err)
	}

	return guard(func() error { return s.Check(c, new(Obs)) })
}

// guard runs a check and turns panics of the code under test into failures.
func guard(f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			if internal, ok := p.(InternalError); ok {
				panic(internal)
			}

			err = fmt.Errorf("panic: %v\n%s", p, debug.Stack())
		}
	}()

	return f()
}

func mustJSON(v any) json.RawMessage {
	raw, err := json.Marshal(v)
	if err != nil {
		Internal("cannot encode case: %v", err)
	}

	return raw
}

// Property gathers the checks that decide one property.
type Property struct {
	ID          string
	Rule        string // how cases are made, and what makes one non-trivial
	Checks      []Check
	Assumptions []string
	Exhaustive  bool
}

// IsNonTrivial tells whether the case was marked as non-trivial.
func (o *Obs) IsNonTrivial() bool { return o.nontrivial }
