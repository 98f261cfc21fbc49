package props

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"

	"pgregory.net/rapid"

	"github.com/GannettDigital/jstransform/jsonschema"

	"verif/harness/pbt"
)

// LoadStep loads one file.
type LoadStep struct {
	Set  int    `json:"set"`
	File string `json:"file"`
	Type string `json:"type"`
	Flat bool   `json:"flat"`
	Form string `json:"form"` // how the path is written
	G    int    `json:"g"`
}

// LoadSet is a directory of files that refer to each other.
type LoadSet struct {
	Dir    string            `json:"dir"`
	Files  map[string]string `json:"files"`
	Break  string            `json:"break,omitempty"`  // the file that is broken at first
	Broken *string           `json:"broken,omitempty"` // its content then; nil: it is not there
	Gone   bool              `json:"gone,omitempty"`   // the whole directory is not there at first
}

// LoadCase is a history of loads: the steps before the repair, then those after it.
type LoadCase struct {
	Sets   []LoadSet  `json:"sets"`
	Before []LoadStep `json:"before"`
	After  []LoadStep `json:"after"`
	Gs     int        `json:"gs"`
	Docs   []string   `json:"docs"`
}

// describeAll gives every typed object of a JSON text the description.
func describeAll(s, text string) string {
	var v any
	if json.Unmarshal([]byte(s), &v) != nil {
		return s
	}
	var walk func(v any)
	walk = func(v any) {
		switch x := v.(type) {
		case map[string]any:
			for _, e := range x {
				walk(e)
			}
			switch x["type"].(type) {
			case string, []any:
				x["description"] = text
			}
		case []any:
			for _, e := range x {
				walk(e)
			}
		}
	}
	walk(v)
	return mustJSON(v)
}

func genLoads(race bool) func(t *rapid.T) LoadCase {
	return func(t *rapid.T) LoadCase {
		c := LoadCase{Gs: 1, Docs: []string{"null", "{}"}}
		if race {
			c.Gs = rapid.IntRange(2, 6).Draw(t, "goroutines")
		}
		types := []string{"", "", "nothing"}
		dirs := []string{"p", "P", "q", "p/q", "p|q", "q r", "r/p", "r/s/p"}
		for n := rapid.IntRange(1, 3).Draw(t, "sets"); n > 0; n-- {
			i := rapid.IntRange(0, len(dirs)-1).Draw(t, "dir")
			set := LoadSet{Dir: dirs[i]}
			dirs = append(append([]string{}, dirs[:i]...), dirs[i+1:]...)
			if len(c.Sets) > 0 && chance(t, 35, "variant") { // another version of the files of an earlier directory
				old := c.Sets[rapid.IntRange(0, len(c.Sets)-1).Draw(t, "variantOf")]
				set.Files = map[string]string{}
				for f, s := range old.Files {
					set.Files[f] = describeAll(s, "as in "+set.Dir)
				}
			} else if rapid.Bool().Draw(t, "merge") {
				m := genMerge(t)
				set.Files = m.Files
				types = append(types, m.Types...)
			} else {
				r := genRef(pct(t, 15, "missing"))(t)
				set.Files = r.Files
				if len(c.Docs) < 6 {
					c.Docs = append(c.Docs, r.Input)
				}
			}
			if pct(t, 15, "pipe") {
				// a file whose name is another one's with a type attached
				fs := sortedKeys(set.Files)
				f := pick(t, "pipeOf", fs)
				ty := pick(t, "pipeType", types)
				name := f + "|" + ty + pick(t, "pipeTail", []string{"", "|true", "|false"})
				if set.Files[name] == "" {
					set.Files[name] = `{"type":"object","properties":{"pipe":{"type":"string"}}}`
					types = append(types, ty+"|", strings.TrimPrefix(name, f+"|")+"|")
				}
			}
			if !race && pct(t, 45, "breaks") {
				set.Break = pick(t, "break", sortedKeys(set.Files))
				var s string
				set.Gone = chance(t, 15, "gone")
				switch rapid.IntRange(0, 2).Draw(t, "brokenHow") {
				case 0:
					s = set.Files[set.Break]
					s = s[:len(s)/2]
					set.Broken = &s
				case 1:
					s = pick(t, "brokenText", []string{"", "null x", "[1,", "\x00"})
					set.Broken = &s
				}
			}
			c.Sets = append(c.Sets, set)
		}
		step := func() LoadStep {
			s := LoadStep{
				Set:  rapid.IntRange(0, len(c.Sets)-1).Draw(t, "set"),
				Type: pick(t, "type", types),
				Flat: rapid.Bool().Draw(t, "flat"),
				Form: pick(t, "form", []string{"abs", "abs", "rel", "detour"}),
				G:    rapid.IntRange(0, c.Gs-1).Draw(t, "g"),
			}
			if !race && chance(t, 15, "near") {
				s.Form = "near"
			}
			s.File = pick(t, "file", sortedKeys(c.Sets[s.Set].Files))
			return s
		}
		if !race {
			for k := rapid.IntRange(0, 6).Draw(t, "before"); k > 0; k-- {
				c.Before = append(c.Before, step())
			}
		}
		for k := rapid.IntRange(2, 8).Draw(t, "after") + 5*(c.Gs-1); k > 0; k-- {
			c.After = append(c.After, step())
		}
		return c
	}
}

// loadResult is everything a load shows.
type loadResult struct {
	err     string
	view    view
	noWalk  bool
	text    string
	verdict []string
}

// observe loads the file and looks at the result; base is removed from error texts.
func observe(path, typ string, flat bool, base string, docs []string) (loadResult, error) {
	load := jsonschema.SchemaFromFileNoFlatten
	if flat {
		load = jsonschema.SchemaFromFile
	}
	s, err := load(path, typ)
	if err != nil {
		return loadResult{err: strings.ReplaceAll(err.Error(), base, "")}, nil
	}
	var r loadResult
	if r.view, err = viewOf(s); err != nil { // schemas without types cannot be walked
		r.view, r.noWalk = view{}, true
	}
	raw, err := json.Marshal(s)
	if err != nil {
		return r, fmt.Errorf("%s: the schema does not marshal: %v", path, err)
	}
	var v any
	json.Unmarshal(raw, &v)
	r.text = strings.ReplaceAll(mustJSON(v), base, "")
	for _, d := range docs {
		ok, err := s.Validate([]byte(d))
		r.verdict = append(r.verdict, fmt.Sprint(ok, err))
	}
	return r, nil
}

func (r loadResult) diff(o loadResult) string {
	switch {
	case (r.err == "") != (o.err == ""):
		return fmt.Sprintf("error %q\n   but: %q", r.err, o.err)
	case r.err != "":
		return ""
	}
	if r.noWalk != o.noWalk {
		return fmt.Sprintf("a walk that fails: %v\n   but: %v", r.noWalk, o.noWalk)
	}
	if d := r.view.diff(o.view); d != "" {
		return d
	}
	if r.text != o.text {
		return fmt.Sprintf("schema %s\n   but: %s", r.text, o.text)
	}
	for i := range r.verdict {
		if r.verdict[i] != o.verdict[i] {
			return fmt.Sprintf("validation %s\n   but: %s", r.verdict[i], o.verdict[i])
		}
	}
	return ""
}

func (c LoadCase) write(dir string, repaired bool) error {
	for _, s := range c.Sets {
		if err := s.write(filepath.Join(dir, s.Dir), repaired); err != nil {
			return err
		}
	}
	return nil
}

// write writes the files of the set into the directory base.
func (s LoadSet) write(base string, repaired bool) error {
	if s.Gone && !repaired {
		return nil
	}
	files := map[string]string{}
	for k, v := range s.Files {
		files[k] = v
	}
	if !repaired && s.Break != "" {
		delete(files, s.Break)
		if s.Broken != nil {
			files[s.Break] = *s.Broken
		}
	}
	if err := writeFiles(base, files); err != nil {
		return err
	}
	for _, d := range []string{"sub", "other/sub", "sub/deep/sub", "sub/sub", "other"} {
		os.MkdirAll(filepath.Join(base, d), 0o755)
	}
	return nil
}

var copySeq atomic.Int64

func checkLoads(c LoadCase, info *pbt.Info) error {
	scratch, err := scratchDir()
	if err != nil {
		return err
	}
	defer os.RemoveAll(scratch)
	wd, err := os.Getwd()
	if err != nil {
		return pbt.Harness(err)
	}
	// expected is what the load gives in a directory nothing was loaded from before
	type key struct {
		LoadStep
		repaired bool
	}
	cache := map[key]loadResult{}
	expected := func(s LoadStep, repaired bool) (loadResult, error) {
		s.Form, s.G = "", 0
		if r, ok := cache[key{s, repaired}]; ok {
			return r, nil
		}
		// of a name no other directory had
		d := filepath.Join(scratch, fmt.Sprintf("copy-%d", copySeq.Add(1)))
		if err := c.Sets[s.Set].write(d, repaired); err != nil {
			return loadResult{}, err
		}
		r, err := observe(filepath.Join(d, s.File), s.Type, s.Flat, d, c.Docs)
		os.RemoveAll(d)
		cache[key{s, repaired}] = r
		return r, err
	}
	for _, s := range append(append([]LoadStep{}, c.Before...), c.After...) {
		if _, err := expected(s, true); err != nil {
			return err
		}
	}
	dir := filepath.Join(scratch, "live")
	if err := c.write(dir, false); err != nil {
		return err
	}
	path := func(s LoadStep) (string, error) {
		p := filepath.Join(dir, c.Sets[s.Set].Dir, s.File)
		switch s.Form {
		case "rel":
			return filepath.Rel(wd, p)
		case "detour":
			return filepath.Dir(p) + "/../" + filepath.Base(filepath.Dir(p)) + "/./" + filepath.Base(p), nil
		}
		return p, nil
	}
	do := func(s LoadStep, repaired bool) error {
		p, err := path(s)
		if err != nil {
			return pbt.Harness(err)
		}
		if s.Form == "near" && (repaired || !c.Sets[s.Set].Gone) { // relative to the directory of the set, as the working directory
			p = s.File
			if err := os.Chdir(filepath.Join(dir, c.Sets[s.Set].Dir)); err != nil {
				return pbt.Harness(err)
			}
			defer os.Chdir(wd)
			info.Label("other working directory")
		}
		got, err := observe(p, s.Type, s.Flat, filepath.Join(dir, c.Sets[s.Set].Dir), c.Docs)
		if err != nil {
			return err
		}
		want := cache[key{LoadStep{Set: s.Set, File: s.File, Type: s.Type, Flat: s.Flat}, repaired}]
		if d := got.diff(want); d != "" {
			return fmt.Errorf("load of %s (type %q, flat %v, repaired %v) gives %s (load in a fresh directory)", s.File, s.Type, s.Flat, repaired, d)
		}
		info.LabelIf(got.err != "" && repaired, "fails")
		return nil
	}
	failed := false
	for _, s := range c.Before {
		set := c.Sets[s.Set]
		want, err := expected(s, false)
		if err != nil {
			return err
		}
		// a load that succeeds may be remembered, so only those succeed here that the broken file has no part in
		if set.Break != "" {
			full := cache[key{LoadStep{Set: s.Set, File: s.File, Type: s.Type, Flat: s.Flat}, true}]
			if want.err == "" && (s.File == set.Break || want.diff(full) != "") {
				continue
			}
		}
		if err := do(s, false); err != nil {
			return err
		}
		if want.err != "" && set.Break != "" {
			failed = true
		}
	}
	if err := c.write(dir, true); err != nil {
		return err
	}
	if c.Gs == 1 {
		for _, s := range c.After {
			if err := do(s, true); err != nil {
				return err
			}
		}
	} else {
		errs := make([]error, c.Gs)
		infos := make([]*pbt.Info, c.Gs)
		var wg sync.WaitGroup
		for g := range errs {
			infos[g] = &pbt.Info{Labels: map[string]bool{}}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, s := range c.After {
					if s.G != g || errs[g] != nil {
						continue
					}
					p, err := path(s)
					if err != nil {
						errs[g] = pbt.Harness(err)
						return
					}
					got, err := observe(p, s.Type, s.Flat, filepath.Join(dir, c.Sets[s.Set].Dir), c.Docs)
					if err != nil {
						errs[g] = err
						return
					}
					want := cache[key{LoadStep{Set: s.Set, File: s.File, Type: s.Type, Flat: s.Flat}, true}]
					if d := got.diff(want); d != "" {
						errs[g] = fmt.Errorf("concurrent load of %s (type %q, flat %v) gives %s (load in a fresh directory)", s.File, s.Type, s.Flat, d)
					}
				}
			}()
		}
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				return err
			}
		}
	}
	// what was loaded
	good := map[string]int{}
	for _, s := range c.After {
		if r := cache[key{LoadStep{Set: s.Set, File: s.File, Type: s.Type, Flat: s.Flat}, true}]; r.err == "" {
			good[fmt.Sprint(s.Set, s.File)]++
			info.LabelIf(s.Type != "", "with type")
		}
	}
	info.LabelIf(failed, "failed before the repair")
	info.LabelIf(len(c.Sets) > 1, "several directories")
	n := 0
	for _, k := range good {
		n += k
	}
	info.Nontrivial = n > 1 || failed && n > 0
	return nil
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "S06",
		Subs: []*pbt.Sub{
			pbt.NewSub("history", "one to three directories of files that refer to each other (as for S01 and S02, also names holding `|`, and directories holding other versions of the same files), with some file broken or missing at first; a history of loads of any of the files with requested types, both modes, absolute, relative (also to changing working directories) and detour paths, before and after the file is repaired; every load must show the same properties, items, required lists, Walk, WalkRaw, JSON text and validation verdicts as the only load of a fresh copy of the files in a directory of its own name; non-trivial: two loads succeeded, or one after a failure", 2000, 60000, genLoads(false), checkLoads),
			race(pbt.NewSub("race", "as history, with the loads after the repair taken by two to six goroutines under the race detector", 250, 8000, genLoads(true), checkLoads)),
		},
	})
}
