package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------------------------
// Registration: a property has one or more arms; an arm is a generator, an executable oracle and
// a rule saying which cases count as non-trivial.

type Class struct {
	Nontrivial bool
	Labels     []string
}

type Arm struct {
	Name   string
	Quick  int // number of generated cases (all shards together), before Property.Scale
	Rule   string
	gen    func(t *rapid.T) any
	run    func(e *Env, c any) error
	class  func(c any) Class
	decode func(b []byte) (any, error)
}

type Property struct {
	ID      string
	Tools   []string // command line tools it needs
	Race    []string // tools it needs built with the race detector
	Woven   []string // tools, and driver:NAME, it needs woven (weave.go)
	Drivers []string // API drivers it needs
	Arms    []*Arm
	Scale   float64 // multiplies the number of cases of every arm
}

// a thorough run generates this many times the cases of a quick run
const thoroughFactor = 15

var properties = map[string]*Property{}

// scales brings the quick check of every property to something like 40 s on 8 cores
var scales = map[string]float64{"C01": 8, "C02": 8, "C03": 12, "C04": 3, "C05": 2.5, "C06": 8, "C07": 3, "C09": 2.5, "C10": 2, "C11": 4,
	"C12": 2, "C13": 30, "C15": 2.5, "C16": 8, "C17": 20, "C18": 30, "C19": 2, "C20": 4, "C21": 30, "C22": 8, "C23": 15, "C24": 6, "C25": 50, "C26": 2.5, "C27": 5, "C28": 5, "C29": 2, "C30": 3, "C31": 1.4, "C32": 3, "C33": 2}

func register(p *Property) {
	p.Scale = 1
	if s, ok := scales[p.ID]; ok {
		p.Scale = s
	}
	properties[p.ID] = p
}

func arm[C any](name string, quick int, rule string, gen func(t *rapid.T) C, run func(e *Env, c C) error, class func(c C) Class) *Arm {
	return &Arm{
		Name: name, Quick: quick, Rule: rule,
		gen:   func(t *rapid.T) any { return gen(t) },
		run:   func(e *Env, c any) error { return run(e, c.(C)) },
		class: func(c any) Class { return class(c.(C)) },
		decode: func(b []byte) (any, error) {
			var c C
			err := json.Unmarshal(b, &c)
			return c, err
		},
	}
}

// violation is an observed breach of the property; any other error is a failure of the check itself.
type violation struct{ msg string }

func (v *violation) Error() string { return v.msg }

func violf(format string, a ...any) error { return &violation{fmt.Sprintf(format, a...)} }

func isViolation(err error) bool {
	var v *violation
	return errors.As(err, &v)
}

// ---------------------------------------------------------------------------------------------
// rapid glue

type fakeTB struct {
	name   string
	failed bool
	logs   []string
}

type tbExit struct{}

func (f *fakeTB) Helper()                 {}
func (f *fakeTB) Name() string            { return f.name }
func (f *fakeTB) Logf(s string, a ...any) { f.add(fmt.Sprintf(s, a...)) }
func (f *fakeTB) Log(a ...any)            { f.add(fmt.Sprint(a...)) }
func (f *fakeTB) Skipf(string, ...any)    { panic(tbExit{}) }
func (f *fakeTB) Skip(...any)             { panic(tbExit{}) }
func (f *fakeTB) SkipNow()                { panic(tbExit{}) }
func (f *fakeTB) Errorf(s string, a ...any) {
	f.failed = true
	f.add(fmt.Sprintf(s, a...))
}
func (f *fakeTB) Error(a ...any) { f.failed = true; f.add(fmt.Sprint(a...)) }
func (f *fakeTB) Fatalf(s string, a ...any) {
	f.Errorf(s, a...)
	panic(tbExit{})
}
func (f *fakeTB) Fatal(a ...any) { f.Error(a...); panic(tbExit{}) }
func (f *fakeTB) FailNow()       { f.failed = true; panic(tbExit{}) }
func (f *fakeTB) Fail()          { f.failed = true }
func (f *fakeTB) Failed() bool   { return f.failed }
func (f *fakeTB) add(s string) {
	if len(f.logs) < 50 {
		if len(s) > 4000 {
			s = s[:4000] + "..."
		}
		f.logs = append(f.logs, s)
	}
}

type ArmResult struct {
	Name        string
	Rule        string
	Evaluations int
	Skipped     int  // not run because the time budget was used up
	NoDriver    bool // not run because a driver cannot be built
	Nontrivial  []uint64
	Labels      map[string]int
	Samples     []json.RawMessage
}

type ShardResult struct {
	Arms      []*ArmResult
	Violation string
	Case      json.RawMessage
	Arm       string
	Infra     string
}

// drain is used by properties to run many cases in a row and stop early when out of time.
func runArm(e *Env, p *Property, a *Arm, n int, seed uint64, deadline time.Time, res *ShardResult) {
	ar := &ArmResult{Name: a.Name, Rule: a.Rule, Labels: map[string]int{}}
	res.Arms = append(res.Arms, ar)
	seen := map[uint64]bool{}

	if seed == 0 {
		seed = 1
	}
	must(flag.Set("rapid.checks", strconv.Itoa(n)))
	must(flag.Set("rapid.seed", strconv.FormatUint(seed, 10)))
	must(flag.Set("rapid.nofailfile", "true"))
	st := 20 * time.Second
	if e.Tier == "thorough" {
		st = 90 * time.Second
	}
	must(flag.Set("rapid.shrinktime", st.String()))

	var lastCase any
	var lastMsg string
	failing := false
	var failedAt time.Time

	prop := func(t *rapid.T) {
		if res.Infra != "" || ar.NoDriver {
			return
		}
		if !failing && time.Now().After(deadline) {
			ar.Skipped++
			return
		}
		if failing && (e.hung || time.Since(failedAt) > st) {
			return // each further attempt would wait for a minute, or there were enough (rapid looks at its limit rarely)
		}
		c := a.gen(t)
		if !failing {
			cl := a.class(c)
			ar.Evaluations++
			for _, l := range cl.Labels {
				ar.Labels[l]++
			}
			if cl.Nontrivial {
				h := hashCase(c)
				if !seen[h] {
					seen[h] = true
					ar.Nontrivial = append(ar.Nontrivial, h)
				}
				if len(ar.Samples) < 2 {
					if b, err := json.Marshal(c); err == nil {
						ar.Samples = append(ar.Samples, clip(b))
					}
				}
			}
		}
		err := a.run(e, c)
		if err == nil {
			return
		}
		if errors.Is(err, errNoDriver) {
			ar.Evaluations, ar.Nontrivial, ar.NoDriver = 0, nil, true
			return
		}
		if !isViolation(err) {
			res.Infra = fmt.Sprintf("%s/%s: %v", p.ID, a.Name, err)
			return
		}
		if !failing {
			failing, failedAt = true, time.Now()
		}
		lastCase, lastMsg = c, err.Error()
		t.Fatalf("violation")
	}

	tb := &fakeTB{name: p.ID + "/" + a.Name}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(tbExit); !ok {
					res.Infra = fmt.Sprintf("%s/%s: harness panic: %v\n%s", p.ID, a.Name, r, debug.Stack())
				}
			}
		}()
		rapid.Check(tb, prop)
	}()

	if lastMsg != "" {
		b, err := json.Marshal(lastCase)
		if err != nil {
			res.Infra = "cannot save case: " + err.Error()
			return
		}
		res.Violation, res.Case, res.Arm = lastMsg, b, a.Name
		return
	}
	if tb.failed && res.Infra == "" {
		res.Infra = fmt.Sprintf("%s/%s: rapid: %s", p.ID, a.Name, strings.Join(tb.logs, "\n"))
	}
}

func hashCase(c any) uint64 {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	s := sha256.Sum256(b)
	return binary.LittleEndian.Uint64(s[:8])
}

func clip(b []byte) json.RawMessage {
	if len(b) <= 1500 {
		return b
	}
	s, _ := json.Marshal(string(b[:1500]) + "...")
	return s
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "CHECK-ERROR: "+format+"\n", a...)
	os.Exit(2)
}
