package props

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"pgregory.net/rapid"

	"github.com/GannettDigital/jstransform/generate"

	"verif/harness/pbt"
)

// GenStep is one generation.
type GenStep struct {
	Case  int    `json:"case"`
	Where string `json:"where"` // fresh: another output directory; again: the one before; over: that one with longer versions of the files written there; moved: other schema and output directories
}

// GenHist is a history of generations.
type GenHist struct {
	Cases []GCase   `json:"cases"`
	Steps []GenStep `json:"steps"`
}

// genBroken makes the generation fail somewhere.
func genBroken(t *rapid.T, c *GCase) {
	u := &c.Units[rapid.IntRange(0, len(c.Units)-1).Draw(t, "brokenUnit")]
	switch rapid.IntRange(0, 4).Draw(t, "broken") {
	case 0:
		c.Files[u.File] = `{"type":"object","properties":{"a":{"type":["string","integer"]},"b":{"type":"string"}}}`
	case 1:
		c.Files[u.File] = `{"type":"object","properties":{"a":{"$ref":"missing.json"},"b":{"type":"string"}}}`
	case 2:
		c.Files[u.File] = `{"type":"object","properties":`
	case 3:
		delete(c.Files, u.File)
	case 4:
		c.Files[u.File] = `{"type":"object","properties":{"not a name":{"type":"string"},"o":{"type":"object","properties":{"x":{"type":"date"}}},"t":{"type":"string","format":"date-time"}}}`
	}
}

func genGenHist(t *rapid.T) GenHist {
	var h GenHist
	n := rapid.IntRange(2, 3).Draw(t, "cases")
	for i := 0; i < n; i++ {
		cfg := defaultG
		cfg.docs, cfg.maxProps = 0, 4
		avro := pct(t, 35, "avro")
		if avro { // names for Avro
			cfg.renames, cfg.hydrate, cfg.maps, cfg.nullP, cfg.nullArr = false, false, false, 0, false
		}
		c := genG(cfg)(t)
		for j := range c.Opts {
			o := &c.Opts[j]
			o.Avro = avro
			o.Msgp = pct(t, 40, "msgp")
			if pct(t, 50, "gql") {
				o.Gql, o.Iface, o.Any = true, rapid.Bool().Draw(t, "iface"), rapid.Bool().Draw(t, "any")
				o.Flat = o.Flat || pct(t, 80, "gqlFlat")
				if o.Flat && !c.distinctTypes(*o) {
					o.Flat = false
				}
			}
		}
		if i > 0 && pct(t, 25, "breakIt") {
			genBroken(t, &c)
		}
		h.Cases = append(h.Cases, c)
	}
	for k := rapid.IntRange(n+1, 6).Draw(t, "steps"); k > 0; k-- {
		h.Steps = append(h.Steps, GenStep{Case: rapid.IntRange(0, n-1).Draw(t, "case"), Where: pick(t, "where", []string{"fresh", "fresh", "again", "over", "moved"})})
	}
	return h
}

// expectedFile tells whether a file belongs to the output of the case.
func (c GCase) expectedFile(o GOpts, f string) bool {
	root := baseName(c.Units[0].File)
	if o.Gql {
		if f == root+".graphqls" {
			return true
		}
		for _, u := range c.Units[0].OneOf {
			if b := baseName(u); o.Iface && (f == b+".graphqls" || f == root+"_"+b+".graphqls") {
				return true
			}
		}
	}
	if o.Msgp && (f == "gen_msgp.go" || f == "gen_msgp_test.go") {
		return true
	}
	for _, u := range c.built() {
		if f == baseName(u.File)+".go" {
			return true
		}
		l := strings.ToLower(o.structName(u.File))
		if o.Avro && (f == l+".avsc" || f == l+"_avro.go" || f == l+"_avro_test.go" || strings.HasPrefix(f, "avro/"+l+"/") && strings.HasSuffix(f, ".go")) {
			return true
		}
	}
	return false
}

type genOutcome struct {
	err   error
	files map[string]string
}

func (a genOutcome) same(b genOutcome) error {
	if (a.err == nil) != (b.err == nil) {
		return fmt.Errorf("one generation gave the error %v, another of the same schema %v", a.err, b.err)
	}
	if a.err != nil {
		return nil
	}
	for f, s := range a.files {
		s2, ok := b.files[f]
		if !ok {
			return fmt.Errorf("%s was written by one generation only", f)
		}
		if s != s2 {
			return fmt.Errorf("%s differs between two generations of the same schema:\n%s\n-----\n%s", f, s, s2)
		}
	}
	for f := range b.files {
		if _, ok := a.files[f]; !ok {
			return fmt.Errorf("%s was written by one generation only", f)
		}
	}
	return nil
}

// lengthen appends a comment to every generated file below dir, as if a longer version of it had been written before.
func lengthen(dir string) error {
	return filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		if err != nil || d.IsDir() || d.Name() == "keep.txt" {
			return err
		}
		tail := "\n# the rest of an older version\n"
		if strings.HasSuffix(p, ".go") {
			tail = "\n// the rest of an older version\n"
		}
		f, err := os.OpenFile(p, os.O_WRONLY|os.O_APPEND, 0)
		if err != nil {
			return pbt.Harness(err)
		}
		defer f.Close()
		if _, err := f.WriteString(tail); err != nil {
			return pbt.Harness(err)
		}
		return nil
	})
}

func checkGenHist(concurrent bool) func(h GenHist, info *pbt.Info) error {
	return func(h GenHist, info *pbt.Info) error {
		top, err := scratchDir()
		if err != nil {
			return err
		}
		defer os.RemoveAll(top)
		type job struct {
			c       *GCase
			schemas string
			out     string
		}
		setup := func(i int, moved, again bool, n int) (job, error) {
			c := &h.Cases[i]
			j := job{c: c, schemas: filepath.Join(top, fmt.Sprint("c", i), "schemas"), out: filepath.Join(top, fmt.Sprint("c", i), fmt.Sprint("out", n), "gen")}
			if moved {
				j.schemas = filepath.Join(top, fmt.Sprint("c", i), fmt.Sprint("moved", n), "s")
			}
			if again {
				j.out = filepath.Join(top, fmt.Sprint("c", i), "first", "gen")
			}
			if err := writeFiles(j.schemas, c.Files); err != nil {
				return j, err
			}
			if err := os.MkdirAll(j.out, 0o755); err != nil {
				return j, pbt.Harness(err)
			}
			return j, os.WriteFile(filepath.Join(j.out, "keep.txt"), []byte("kept"), 0o644)
		}
		generateIt := func(j job) (genOutcome, error) {
			o := j.c.Opts[0]
			var r genOutcome
			if r.err = generate.BuildStructsWithArgs(o.args(filepath.Join(j.schemas, j.c.Units[0].File), j.out)); r.err != nil {
				return r, nil
			}
			files, err := readTree(j.out)
			if err != nil {
				return r, err
			}
			if files["keep.txt"] != "kept" {
				return r, fmt.Errorf("a file of the output directory that is none of the generator was changed: %q", files["keep.txt"])
			}
			delete(files, "keep.txt")
			for f := range files {
				if !j.c.expectedFile(o, f) {
					return r, fmt.Errorf("the file %s was written for %s", f, mustJSON(o))
				}
			}
			r.files = files
			if l, err := os.ReadDir(filepath.Dir(j.out)); err != nil || len(l) != 1 {
				return r, fmt.Errorf("files beside the output directory: %v %v", l, err)
			}
			s, err := readTree(j.schemas)
			if err != nil {
				return r, err
			}
			if mustJSON(s) != mustJSON(j.c.Files) {
				return r, fmt.Errorf("the schema directory was changed: %s", mustJSON(s))
			}
			return r, nil
		}
		first := make([]*genOutcome, len(h.Cases))
		run := func(i int, where string, n int) (genOutcome, error) {
			j, err := setup(i, where == "moved", where == "again" || where == "over", n)
			if err != nil {
				return genOutcome{}, err
			}
			if where == "over" {
				if err := lengthen(j.out); err != nil {
					return genOutcome{}, err
				}
			}
			return generateIt(j)
		}
		describe := func(i int, err error) error {
			return fmt.Errorf("case %d (%s): %w", i, mustJSON(h.Cases[i].Opts), err)
		}
		if concurrent {
			for i := range h.Cases {
				r, err := run(i, "again", 0)
				if err != nil {
					return describe(i, err)
				}
				first[i] = &r
			}
			var wg sync.WaitGroup
			errs := make([]error, len(h.Steps))
			jobs := make([]job, len(h.Steps))
			for n, s := range h.Steps {
				var err error
				if jobs[n], err = setup(s.Case, s.Where == "moved", false, n+1); err != nil {
					return err
				}
			}
			for n, s := range h.Steps {
				j := jobs[n]
				wg.Add(1)
				go func() {
					defer wg.Done()
					r, err := generateIt(j)
					if err == nil {
						err = first[s.Case].same(r)
					}
					if err != nil {
						errs[n] = describe(s.Case, err)
					}
				}()
			}
			wg.Wait()
			for _, err := range errs {
				if err != nil {
					return err
				}
			}
		} else {
			for n, s := range h.Steps {
				r, err := run(s.Case, s.Where, n+1)
				if err != nil {
					return describe(s.Case, err)
				}
				if first[s.Case] == nil {
					first[s.Case] = &r
				} else if err := first[s.Case].same(r); err != nil {
					return describe(s.Case, err)
				} else {
					info.Label("repeated")
					info.Nontrivial = info.Nontrivial || r.err == nil
				}
			}
		}
		for i, f := range first {
			if f == nil {
				continue
			}
			o := h.Cases[i].Opts[0]
			if f.err != nil {
				info.Label("failed generation")
				continue
			}
			info.Nontrivial = info.Nontrivial || concurrent
			info.LabelIf(o.Avro, "avro")
			info.LabelIf(o.Msgp, "msgp")
			info.LabelIf(o.Gql, "graphql")
		}
		return nil
	}
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "G04",
		Subs: []*pbt.Sub{
			pbt.NewSub("history", "two or three schemas (some made to fail) with option sets including MessagePack, Avro and GraphQL, generated in a history of up to six steps into new, the same (also with longer versions of its files) and moved directories; every generation of a schema must give the same bytes, only the files of that schema, and leave everything else as it was; non-trivial: a schema was generated successfully at least twice", 600, 30000, genGenHist, checkGenHist(false)),
			race(pbt.NewSub("concurrent", "the same histories with all steps at once, one goroutine each, under the race detector, compared with sequential generations; non-trivial: some generation succeeds", 160, 8000, genGenHist, checkGenHist(true))),
		},
	})
}
