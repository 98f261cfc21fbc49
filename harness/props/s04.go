package props

import (
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	"github.com/GannettDigital/jstransform/jsonschema"

	"verif/harness/pbt"
)

// CacheCase is a schedule of loads.
type CacheCase struct {
	Kind  string      `json:"kind"` // the type of the values
	Keys  []string    `json:"keys"`
	Loads []cacheLoad `json:"loads"`
}

// cacheLoad is a call of Load; its builder, if it is used, takes Dur and loads other keys of a higher index.
type cacheLoad struct {
	At     int         `json:"at"` // virtual milliseconds, absolute or (nested) ignored
	Key    int         `json:"key"`
	Dur    int         `json:"dur"`
	Fail   bool        `json:"fail,omitempty"`
	Nil    bool        `json:"nil,omitempty"` // the value is nil
	Again  int         `json:"again"`         // the caller loads the key again that much later (-1: not)
	Nested []cacheLoad `json:"nested,omitempty"`
}

var cacheKeys = []string{"", "a", "A", "a|", "|a", "a/b", "/tmp/x|t|true", "/tmp/x|t|false", "ü", "a\x00"}

func genLoad(t *rapid.T, keys, minKey, depth int) cacheLoad {
	l := cacheLoad{At: rapid.IntRange(0, 30).Draw(t, "at"), Key: rapid.IntRange(minKey, keys-1).Draw(t, "key"), Dur: pick(t, "dur", []int{0, 0, 1, 3, 7, 15, 40}),
		Fail: pct(t, 35, "fail"), Nil: pct(t, 8, "nil"), Again: -1}
	if pct(t, 30, "again") {
		l.Again = rapid.IntRange(0, 20).Draw(t, "againAfter")
	}
	if depth > 0 && l.Key+1 < keys && pct(t, 35, "nested") {
		for n := rapid.IntRange(1, 2).Draw(t, "nNested"); n > 0; n-- {
			l.Nested = append(l.Nested, genLoad(t, keys, l.Key+1, depth-1))
		}
	}
	return l
}

func genCache(t *rapid.T) CacheCase {
	c := CacheCase{Kind: pick(t, "kind", []string{"pointer", "pointer", "string", "any"})}
	c.Keys = rapid.Permutation(cacheKeys).Draw(t, "keys")[:rapid.IntRange(1, 5).Draw(t, "nKeys")]
	for n := rapid.IntRange(2, 14).Draw(t, "loads"); n > 0; n-- {
		c.Loads = append(c.Loads, genLoad(t, len(c.Keys), 0, 2))
	}
	return c
}

// build is one run of a builder.
type cacheBuild struct {
	id, key      int
	start, end   int64 // event numbers, end 0: not ended
	endAt        time.Time
	fail         bool
	isNil        bool
	err          error
	nestedFailed bool
}

type cacheCall struct {
	key       int
	in, out   int64
	inAt, at  time.Time
	built     *cacheBuild // by the own builder
	result    int         // id of the build whose value was returned, -1: nil or zero
	err       error
	badResult string
}

type cacheRun struct {
	c      CacheCase
	mu     sync.Mutex
	seq    atomic.Int64
	builds []*cacheBuild
	calls  []*cacheCall
	load   func(key string, builder func() (int, bool, error)) (id int, err error) // id -1: no value, -2: a value of none of the builders
}

func (r *cacheRun) do(l cacheLoad) {
	for {
		call := &cacheCall{key: l.Key, inAt: time.Now(), in: r.seq.Add(1)}
		call.result, call.err = r.load(r.c.Keys[l.Key], func() (int, bool, error) {
			r.mu.Lock()
			b := &cacheBuild{id: len(r.builds), key: l.Key, fail: l.Fail, isNil: l.Nil, err: fmt.Errorf("build failed %d", len(r.builds))}
			r.builds = append(r.builds, b)
			b.start = r.seq.Add(1)
			r.mu.Unlock()
			call.built = b
			time.Sleep(time.Duration(l.Dur) * time.Millisecond)
			for _, n := range l.Nested {
				r.do(n)
			}
			b.endAt, b.end = time.Now(), r.seq.Add(1)
			if l.Fail {
				return b.id, l.Nil, b.err
			}
			return b.id, l.Nil, nil
		})
		call.at, call.out = time.Now(), r.seq.Add(1)
		r.mu.Lock()
		r.calls = append(r.calls, call)
		r.mu.Unlock()
		if l.Again < 0 {
			return
		}
		time.Sleep(time.Duration(l.Again) * time.Millisecond)
		l.Again = -1
	}
}

func loader[T any](wrap func(id int, isNil bool) T, id func(T) int) func(string, func() (int, bool, error)) (int, error) {
	c := new(jsonschema.Cache[T])
	return func(key string, builder func() (int, bool, error)) (int, error) {
		v, err := c.Load(key, func() (T, error) {
			i, isNil, err := builder()
			return wrap(i, isNil), err
		})
		if err != nil {
			return -1, err
		}
		return id(v), nil
	}
}

type boxed struct{ id int }

func (c CacheCase) loader() func(string, func() (int, bool, error)) (int, error) {
	switch c.Kind {
	case "string":
		return loader(func(id int, isNil bool) string {
			if isNil {
				return ""
			}
			return fmt.Sprint("v", id)
		}, func(s string) int {
			if s == "" {
				return -1
			}
			id := -2
			fmt.Sscanf(s, "v%d", &id)
			return id
		})
	case "any":
		return loader(func(id int, isNil bool) any {
			if isNil {
				return nil
			}
			return id
		}, func(v any) int {
			if v == nil {
				return -1
			}
			if id, ok := v.(int); ok {
				return id
			}
			return -2
		})
	}
	return loader(func(id int, isNil bool) *boxed {
		if isNil {
			return nil
		}
		return &boxed{id}
	}, func(b *boxed) int {
		if b == nil {
			return -1
		}
		return b.id
	})
}

func checkCache(c CacheCase, info *pbt.Info) error {
	if info.T == nil {
		return pbt.Harnessf("no testing.T")
	}
	r := &cacheRun{c: c}
	r.load = c.loader()
	synctest.Test(info.T, func(t *testing.T) {
		var wg sync.WaitGroup
		for _, l := range c.Loads {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Duration(l.At) * time.Millisecond)
				r.do(l)
			}()
		}
		wg.Wait()
	})
	return r.judge(info)
}

// owner is the call whose builder the build is.
func (r *cacheRun) owner(b *cacheBuild) *cacheCall {
	for _, c := range r.calls {
		if c.built == b {
			return c
		}
	}
	return nil
}

func (r *cacheRun) judge(info *pbt.Info) error {
	key := func(k int) string { return fmt.Sprintf("%q", r.c.Keys[k]) }
	// builds of one key: never two at once, none after a success
	for i, b := range r.builds {
		if b.end == 0 {
			return fmt.Errorf("build %d of key %s did not end", i, key(b.key))
		}
		for _, o := range r.builds[:i] {
			if o.key != b.key {
				continue
			}
			if o.end > b.start && b.end > o.start {
				return fmt.Errorf("two builds of key %s ran at once", key(b.key))
			}
			if !o.fail && !b.fail {
				return fmt.Errorf("key %s was built twice with success", key(b.key))
			}
		}
	}
	for _, b := range r.builds {
		for _, o := range r.builds {
			if o.key == b.key && !o.fail && o.end < b.start {
				return fmt.Errorf("key %s was built again after a success", key(b.key))
			}
		}
	}
	joined := 0
	for i, c := range r.calls {
		if c.err != nil {
			var src *cacheBuild
			for _, b := range r.builds {
				if errors.Is(c.err, b.err) || c.err.Error() == b.err.Error() {
					src = b
				}
			}
			switch {
			case src == nil:
				return fmt.Errorf("load %d of key %s fails with an error of no builder: %v", i, key(c.key), c.err)
			case src.key != c.key:
				return fmt.Errorf("load %d of key %s gets the error of a build of key %s", i, key(c.key), key(src.key))
			case !src.fail:
				return fmt.Errorf("load %d of key %s fails with the error of a successful build", i, key(c.key))
			case r.owner(src).out < c.in:
				return fmt.Errorf("load %d of key %s gets the error of a build that had failed before it started", i, key(c.key))
			case !c.at.Equal(src.endAt):
				return fmt.Errorf("load %d of key %s returned %v after the build it waited for", i, key(c.key), c.at.Sub(src.endAt))
			}
			if src != c.built {
				joined++
			}
			continue
		}
		var src *cacheBuild
		for _, b := range r.builds {
			if b.key == c.key && !b.fail {
				src = b
			}
		}
		if src == nil || src.start > c.out {
			return fmt.Errorf("load %d of key %s succeeds without a successful build", i, key(c.key))
		}
		if want := src.id; c.result != want && !(src.isNil && c.result == -1) {
			return fmt.Errorf("load %d of key %s gets value %d, the successful build of the key made %d (nil %v)", i, key(c.key), c.result, want, src.isNil)
		}
		if src.isNil != (c.result == -1) {
			return fmt.Errorf("load %d of key %s: nil value is %v, result is %d", i, key(c.key), src.isNil, c.result)
		}
		if c.built != nil && c.built != src {
			return fmt.Errorf("load %d of key %s succeeds although its own builder failed", i, key(c.key))
		}
		want := c.inAt
		if src.endAt.After(want) {
			want = src.endAt
			if src != c.built {
				joined++
			}
		}
		if !c.at.Equal(want) {
			return fmt.Errorf("load %d of key %s returned at %v, its value was there at %v", i, key(c.key), c.at.Sub(c.inAt), want.Sub(c.inAt))
		}
	}
	info.Label(r.c.Kind)
	info.LabelIf(joined > 0, "joined a build")
	failed := map[int]bool{}
	for _, b := range r.builds {
		info.LabelIf(b.isNil && !b.fail, "nil value")
		info.LabelIf(failed[b.key] && !b.fail, "success after failure")
		failed[b.key] = failed[b.key] || b.fail
	}
	info.Nontrivial = joined > 0 && len(r.builds) > 1
	return nil
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "S04",
		Subs: []*pbt.Sub{
			limited(20*time.Second, pbt.NewSub("schedule", "up to 14 goroutines loading up to 5 keys at generated virtual times in a synctest bubble, with builders which take generated times, fail, give nil and load other keys, and callers which load again; every build and call is recorded and the history judged (one success per key, no overlap, errors only from the build waited for, values of the own key, returning exactly when the value is there, no deadlock); non-trivial: a call joined a build of another and there are two builds", 80000, 900000, genCache, checkCache)),
			limited(20*time.Second, race(pbt.NewSub("race", "the same schedules under the race detector; non-trivial as above", 8000, 60000, genCache, checkCache))),
		},
	})
}

func limited(d time.Duration, s *pbt.Sub) *pbt.Sub {
	s.Limit = d
	return s
}
