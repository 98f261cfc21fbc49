// Package pbt is the small engine every check runs on: it drives rapid generators over JSON-serialisable cases,
// counts what was generated, shrinks failures and saves them as replay files.
//
// A check is run by a parent process (Parent) which starts one worker process per shard (Worker) so that a fatal
// runtime error (concurrent map writes, stack overflow, a panic in another goroutine) is itself observable and is
// attributed to the case that was executing.
package pbt

import (
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Info is filled by a check while it judges a case.
type Info struct {
	Labels     map[string]bool
	Nontrivial bool
	T          *testing.T // the real testing.T of the worker (for testing/synctest)
}

// Label records classification labels for the case.
func (i *Info) Label(ls ...string) {
	for _, l := range ls {
		i.Labels[l] = true
	}
}

// LabelIf records a label when cond holds.
func (i *Info) LabelIf(cond bool, l string) {
	if cond {
		i.Labels[l] = true
	}
}

// Sub is one generated check of a property.
type Sub struct {
	Name     string
	Rule     string // how cases are made and what makes one non-trivial
	Quick    int    // number of cases over all shards
	Thorough int
	Race     bool          // runs in the -race worker
	Single   bool          // runs in one shard only (heavy, internally parallel checks)
	Limit    time.Duration // a case running longer than this never ends (a violation); 0: 120 s, negative: no limit
	run      func(r *runner) *Violation
	replay   func(raw json.RawMessage, t *testing.T) (error, error) // (violation, harness error)
}

// Violation is what is written to a replay file.
type Violation struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Case     json.RawMessage `json:"case"`
	Error    string          `json:"error"`
	Seed     string          `json:"seed,omitempty"`
}

// Property groups the subs deciding one property.
type Property struct {
	ID          string
	Assumptions []string
	Tools       map[string]string // programs to build from the working tree into VERIF_SCRATCH: name to package
	Subs        []*Sub
}

// Registry of all properties.
var Registry = map[string]*Property{}

// Register adds a property.
func Register(p *Property) { Registry[p.ID] = p }

// SkipCase is returned by a check when the case falls outside the property's domain (or hits a known finding); it is
// counted and never judged.
type SkipCase struct{ Why string }

func (s SkipCase) Error() string { return "skip: " + s.Why }

// Skip builds a SkipCase.
func Skip(why string) error { return SkipCase{why} }

// HarnessError is an error of the harness, not a violation.
type HarnessError struct{ Err error }

func (h HarnessError) Error() string { return "harness error: " + h.Err.Error() }

// Harness wraps an error as a harness error.
func Harness(err error) error { return HarnessError{err} }

// Harnessf builds a harness error.
func Harnessf(f string, a ...any) error { return HarnessError{fmt.Errorf(f, a...)} }

type runner struct {
	prop     *Property
	tier     string
	seed     uint64
	shard    int
	shards   int
	out      string
	deadline time.Time
	t        *testing.T
	cur      *os.File
	stats    *Stats
}

// Stats of one shard.
type Stats struct {
	Evaluations int                  `json:"evaluations"`
	Skipped     map[string]int       `json:"skipped"`
	Truncated   int                  `json:"truncated"`
	Hashes      []uint64             `json:"hashes"`
	Subs        map[string]*SubStats `json:"subs"`
	Samples     []json.RawMessage    `json:"samples"`
	Violation   *Violation           `json:"violation,omitempty"`
	HarnessErr  string               `json:"harnessErr,omitempty"`
	Done        bool                 `json:"done"`
	hashSet     map[uint64]bool
}

// SubStats of one sub.
type SubStats struct {
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Labels      map[string]int `json:"labels"`
	Rule        string         `json:"rule"`
	nsamples    int
}

// exitHang is the exit code of a worker whose case never ended.
const exitHang = 67

type stopProp struct{}

type fakeTB struct {
	failed bool
	logs   []string
	name   string
}

func (f *fakeTB) Helper()                   {}
func (f *fakeTB) Name() string              { return f.name }
func (f *fakeTB) Logf(s string, a ...any)   { f.add(fmt.Sprintf(s, a...)) }
func (f *fakeTB) Log(a ...any)              { f.add(fmt.Sprint(a...)) }
func (f *fakeTB) Skipf(s string, a ...any)  { panic(stopProp{}) }
func (f *fakeTB) Skip(a ...any)             { panic(stopProp{}) }
func (f *fakeTB) SkipNow()                  { panic(stopProp{}) }
func (f *fakeTB) Errorf(s string, a ...any) { f.failed = true; f.add(fmt.Sprintf(s, a...)) }
func (f *fakeTB) Error(a ...any)            { f.failed = true; f.add(fmt.Sprint(a...)) }
func (f *fakeTB) Fatalf(s string, a ...any) {
	f.failed = true
	f.add(fmt.Sprintf(s, a...))
	panic(stopProp{})
}
func (f *fakeTB) Fatal(a ...any) { f.failed = true; f.add(fmt.Sprint(a...)); panic(stopProp{}) }
func (f *fakeTB) FailNow()       { f.failed = true; panic(stopProp{}) }
func (f *fakeTB) Fail()          { f.failed = true }
func (f *fakeTB) Failed() bool   { return f.failed }
func (f *fakeTB) add(s string) {
	if len(f.logs) < 50 {
		f.logs = append(f.logs, s)
	}
}

// safeCheck runs the check turning panics into violations.
func safeCheck[C any](check func(C, *Info) error, c C, info *Info) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return check(c, info)
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// NewSub builds a Sub from a generator and a check over a JSON-serialisable case.
func NewSub[C any](name, rule string, quick, thorough int, gen func(*rapid.T) C, check func(C, *Info) error) *Sub {
	s := &Sub{Name: name, Rule: rule, Quick: quick, Thorough: thorough}

	judge := func(raw []byte, t *testing.T, info *Info) error {
		var c C
		dec := json.NewDecoder(bytes.NewReader(raw))
		if err := dec.Decode(&c); err != nil {
			return Harnessf("case does not decode: %v", err)
		}
		info.T = t
		return safeCheck(check, c, info)
	}

	s.replay = func(raw json.RawMessage, t *testing.T) (error, error) {
		info := &Info{Labels: map[string]bool{}}
		err := judge(raw, t, info)
		switch e := err.(type) {
		case nil:
			return nil, nil
		case SkipCase:
			return nil, nil
		case HarnessError:
			return nil, e
		}
		return err, nil
	}

	s.run = func(r *runner) *Violation {
		st := &SubStats{Labels: map[string]int{}, Rule: rule}
		r.stats.Subs[name] = st
		total := s.Quick
		if r.tier == "thorough" {
			total = s.Thorough
		}
		n := total / r.shards
		if s.Single {
			n = total
			if r.shard != 0 {
				return nil
			}
		}
		if n < 1 {
			n = 1
		}
		var last *Violation
		var herr error
		var lastErr error
		prop := func(t *rapid.T) {
			if herr != nil {
				return
			}
			if last == nil && time.Now().After(r.deadline) {
				r.stats.Truncated++
				return
			}
			c := gen(t)
			raw, err := json.Marshal(c)
			if err != nil {
				herr = fmt.Errorf("case does not encode: %v", err)
				return
			}
			r.saveCurrent(name, raw)
			limit := s.Limit
			if limit == 0 {
				limit = 120 * time.Second
			}
			if limit > 0 {
				watch := time.AfterFunc(limit, func() {
					buf := make([]byte, 1<<16)
					fmt.Fprintf(os.Stderr, "case did not end within %v\n%s\n", limit, buf[:runtime.Stack(buf, true)])
					os.Exit(exitHang)
				})
				defer watch.Stop()
			}
			info := &Info{Labels: map[string]bool{}}
			began := time.Now()
			err = judge(raw, r.t, info)
			r.doneCurrent()
			if d := time.Since(began); d > 5*time.Second && os.Getenv("VERIF_SLOW") != "" {
				os.WriteFile(filepath.Join(os.Getenv("VERIF_SLOW"), fmt.Sprintf("%s-%v.json", name, d)), raw, 0o644)
			}
			if last == nil {
				r.stats.Evaluations++
				st.Evaluations++
				if sk, ok := err.(SkipCase); ok {
					r.stats.Skipped[name+": "+sk.Why]++
					return
				}
				for l := range info.Labels {
					st.Labels[l]++
				}
				if info.Nontrivial {
					st.Nontrivial++
					h := fnv.New64a()
					h.Write([]byte(name))
					h.Write(raw)
					r.stats.hashSet[h.Sum64()] = true
					if st.nsamples < 1 && r.shard < 3 && len(raw) < 6000 && st.Nontrivial > 5 {
						st.nsamples++
						sm, _ := json.Marshal(map[string]any{"sub": name, "case": json.RawMessage(raw), "labels": keys(info.Labels)})
						r.stats.Samples = append(r.stats.Samples, sm)
					}
				}
			}
			switch e := err.(type) {
			case nil, SkipCase:
			case HarnessError:
				herr = e
			default:
				lastErr = err
				last = &Violation{Property: r.prop.ID, Sub: name, Case: append(json.RawMessage(nil), raw...), Error: err.Error(), Seed: strconv.FormatUint(r.seed, 10)}
				t.Fatalf("violation")
			}
		}
		_ = lastErr
		h := fnv.New64a()
		fmt.Fprintf(h, "%d/%d/%s/%s", r.seed, r.shard, r.prop.ID, name)
		seed := h.Sum64()>>1 | 1
		flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
		flag.Set("rapid.checks", strconv.Itoa(n))
		flag.Set("rapid.nofailfile", "true")
		flag.Set("rapid.shrinktime", "25s")
		tb := &fakeTB{name: "verif-" + name}
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(stopProp); !ok {
						herr = fmt.Errorf("engine panic: %v\n%s", x, debug.Stack())
					}
				}
			}()
			rapid.Check(tb, prop)
		}()
		if last != nil {
			return last
		}
		if herr != nil {
			r.stats.HarnessErr = name + ": " + herr.Error()
		} else if tb.failed {
			r.stats.HarnessErr = name + ": rapid: " + strings.Join(tb.logs, "\n")
		}
		return nil
	}
	return s
}

func keys(m map[string]bool) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (r *runner) saveCurrent(sub string, raw []byte) {
	if r.cur == nil {
		return
	}
	var hdr [64]byte
	copy(hdr[:], fmt.Sprintf("%s\n%d\n", sub, len(raw)))
	r.cur.WriteAt(append(hdr[:], raw...), 0)
}

// doneCurrent marks the saved case as judged.
func (r *runner) doneCurrent() {
	if r.cur != nil {
		r.cur.WriteAt([]byte("d"), 63)
	}
}

func readCurrent(path string) (sub string, raw []byte, done, ok bool) {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 64 {
		return "", nil, false, false
	}
	parts := strings.SplitN(string(b[:64]), "\n", 3)
	if len(parts) < 3 {
		return "", nil, false, false
	}
	n, err := strconv.Atoi(parts[1])
	if err != nil || 64+n > len(b) {
		return "", nil, false, false
	}
	return parts[0], b[64 : 64+n], b[63] == 'd', true
}

// Worker runs one shard; called from a Test function of the harness binary.
func Worker(t *testing.T) {
	debug.SetMaxStack(256 << 20)
	id := os.Getenv("VERIF_PROP")
	p := Registry[id]
	if p == nil {
		t.Fatalf("unknown property %q", id)
	}
	out := os.Getenv("VERIF_OUT")
	if rp := os.Getenv("VERIF_REPLAY"); rp != "" {
		replayWorker(t, p, rp)
		return
	}
	shard, _ := strconv.Atoi(os.Getenv("VERIF_SHARD"))
	shards, _ := strconv.Atoi(os.Getenv("VERIF_SHARDS"))
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	budget, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if budget == 0 {
		budget = 300
	}
	only := os.Getenv("VERIF_SUB")
	race := os.Getenv("VERIF_RACE") == "1"
	r := &runner{prop: p, tier: os.Getenv("VERIF_TIER"), seed: seed, shard: shard, shards: shards, out: out, t: t}
	r.stats = &Stats{Skipped: map[string]int{}, Subs: map[string]*SubStats{}, hashSet: map[uint64]bool{}}
	f, err := os.Create(filepath.Join(out, fmt.Sprintf("cur-%v-%d", race, shard)))
	if err == nil {
		r.cur = f
		defer f.Close()
	}
	var subs []*Sub
	for _, s := range p.Subs {
		if s.Race == race && (only == "" || only == s.Name) {
			subs = append(subs, s)
		}
	}
	start := time.Now()
	for i, s := range subs {
		// every sub gets its share of what is left of the budget
		left := time.Duration(budget)*time.Second - time.Since(start)
		r.deadline = time.Now().Add(left / time.Duration(len(subs)-i))
		if v := s.run(r); v != nil {
			r.stats.Violation = v
			break
		}
		if r.stats.HarnessErr != "" {
			break
		}
		runtime.GC()
	}
	for h := range r.stats.hashSet {
		r.stats.Hashes = append(r.stats.Hashes, h)
	}
	r.stats.Done = true
	b, err := json.Marshal(r.stats)
	if err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(filepath.Join(out, fmt.Sprintf("stats-%v-%d.json", race, shard)), b, 0o644); err != nil {
		t.Fatal(err)
	}
}

func replayWorker(t *testing.T, p *Property, path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		t.Fatal(err)
	}
	for _, s := range p.Subs {
		if s.Name != v.Sub {
			continue
		}
		// repeat: some violations depend on map iteration order or scheduling
		for i := 0; i < 20; i++ {
			limit := 120
			if l, err := strconv.Atoi(os.Getenv("VERIF_LIMIT")); err == nil {
				limit = l
			}
			watch := time.AfterFunc(time.Duration(limit)*time.Second, func() {
				fmt.Printf("case did not end within %d s\n", limit)
				os.Exit(exitHang)
			})
			viol, herr := s.replay(v.Case, t)
			watch.Stop()
			if herr != nil {
				t.Fatal(herr)
			}
			if viol != nil {
				fmt.Printf("REPRODUCED %s\n", viol.Error())
				os.Exit(41)
			}
		}
		fmt.Println("NOT-REPRODUCED")
		os.Exit(40)
	}
	t.Fatalf("unknown sub %q", v.Sub)
}

// IsHarness tells whether an error is one of the harness.
func IsHarness(err error) bool {
	var h HarnessError
	return errors.As(err, &h)
}
