package props

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"

	"github.com/GannettDigital/jstransform/jsonschema"
	"github.com/GannettDigital/jstransform/transform"

	"verif/harness/pbt"
)

type jsonRaw = json.RawMessage

// RefCase is a schema written in one file and in several with references.
type RefCase struct {
	Inline string            `json:"inline"`
	Files  map[string]string `json:"files"`
	Root   string            `json:"root"`
	Dir    string            `json:"dir"`
	Ident  string            `json:"ident"`
	Input  string            `json:"input"`
	Broken string            `json:"broken"` // the reference whose target is missing
	Kinds  []string          `json:"kinds"`
	HTTP   map[string]string `json:"http,omitempty"` // files served by a web server whose address replaces httpHost
}

const httpHost = "http://served.invalid/"

// serve moves files without references, and with plain names, to the web server.
func (s *refSplitter) serve(root string) map[string]map[string]any {
	out := map[string]map[string]any{}
	for _, f := range sortedKeys(s.files) {
		if f == root || !plainName(f) || strings.Contains(mustJSON(s.files[f]), "\"$ref\"") || !pct(s.t, 60, "served") {
			continue
		}
		out[f] = s.files[f]
		delete(s.files, f)
		for _, u := range s.refs {
			if u.to.file == f {
				_, frag, ok := strings.Cut(u.node["$ref"].(string), "#")
				u.node["$ref"] = httpHost + f
				if ok {
					u.node["$ref"] = httpHost + f + "#" + frag
				}
				s.kinds["http"]++
			}
		}
	}
	return out
}

func plainName(f string) bool {
	return strings.Trim(f, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789/_-.") == ""
}

func genRef(missing bool) func(t *rapid.T) RefCase {
	return func(t *rapid.T) RefCase {
		cfg := defaultJ
		cfg.transP = 50
		j := genJ(cfg)(t)
		var schema map[string]any
		json.Unmarshal([]byte(j.Schema), &schema)
		var pool []any
		annotate(t, schema, &pool, pick(t, "annP", []int{0, 20, 50}))
		c := RefCase{Ident: j.Ident, Input: j.Input, Inline: mustJSON(schema), Root: "root.json"}
		if pct(t, 15, "rootSub") {
			c.Root = "sub/root.json"
		}
		if pct(t, 8, "oddDir") {
			c.Dir = pick(t, "dirName", []string{"a b", "50%", "x#y", "q?", "ü", "%41"})
		}
		var s *refSplitter
		for p := pick(t, "p", []int{10, 30, 60}); ; p = 100 {
			s = &refSplitter{t: t, p: p, sibP: pick(t, "sibP", []int{0, 30, 70}), reuseP: 70, oddP: pick(t, "oddP", []int{0, 10, 40}), rootRefs: true,
				files: map[string]map[string]any{}, edges: map[string]map[string]bool{}, seen: map[string][]loc{}, kinds: map[string]int{}}
			s.store(s.place(copyJSON(schema).(map[string]any), loc{file: c.Root}), loc{file: c.Root})
			if len(s.refs) > 0 || p == 100 || !missing {
				break
			}
		}
		if missing && len(s.refs) > 0 {
			u := s.refs[rapid.IntRange(0, len(s.refs)-1).Draw(t, "broken")]
			old := u.node["$ref"].(string)
			nw := "#/definitions/missing"
			switch rapid.IntRange(0, 3).Draw(t, "how") {
			case 0:
				if file, frag, ok := strings.Cut(old, "#"); ok && frag != "" {
					nw = file + "#" + frag + pick(t, "tail", []string{"x", "/zz", "/0"})
				}
			case 1:
				nw = pick(t, "file", []string{"missing.json", "sub/missing.json", "missing.json#/definitions/d1", "http.json"})
			case 2:
				nw = relRef(u.from, u.to.file) + "#/definitions/missing"
				if strings.ContainsAny(nw[:strings.IndexByte(nw, '#')], "%?\x7f ") {
					nw = "#/definitions/missing"
				}
			}
			u.node["$ref"] = nw
			c.Broken = nw
			c.Kinds = append(c.Kinds, "missing")
		}
		ws, esc := pick(t, "ws", []int{0, 0, 10, 60}), pick(t, "esc", []int{0, 0, 8})
		if chance(t, 12, "http") {
			esc = 0
			if missing && c.Broken != "" && rapid.Bool().Draw(t, "missingThere") {
				for _, u := range s.refs {
					if u.node["$ref"] == c.Broken {
						c.Broken = httpHost + pick(t, "notThere", []string{"missing.json", "missing.json#/definitions/d1", "sub"})
						u.node["$ref"] = c.Broken
						break
					}
				}
				c.HTTP = map[string]string{}
			} else if c.Broken == "" {
				served := s.serve(c.Root)
				for _, f := range sortedKeys(served) {
					if c.HTTP == nil {
						c.HTTP = map[string]string{}
					}
					c.HTTP[f] = spell(t, served[f], ws, 0)
				}
			}
		}
		for k := range s.kinds {
			c.Kinds = append(c.Kinds, k)
		}
		c.Kinds = sortedStrings(c.Kinds)
		c.Files = map[string]string{}
		for _, f := range sortedKeys(s.files) {
			c.Files[f] = spell(t, s.files[f], ws, esc)
		}
		return c
	}
}

func checkRef(c RefCase, info *pbt.Info) error {
	dir, err := scratchDir()
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	inl := filepath.Join(dir, "inline.json")
	if err := os.WriteFile(inl, []byte(c.Inline), 0o644); err != nil {
		return pbt.Harness(err)
	}
	base := filepath.Join(dir, "split", c.Dir)
	files := c.Files
	if c.HTTP != nil {
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			text, ok := c.HTTP[strings.TrimPrefix(r.URL.Path, "/")]
			if !ok {
				http.NotFound(w, r)
				return
			}
			w.Write([]byte(text))
		}))
		defer srv.Close()
		files = map[string]string{}
		for f, text := range c.Files {
			files[f] = strings.ReplaceAll(text, httpHost, srv.URL+"/")
		}
	}
	if err := writeFiles(base, files); err != nil {
		return err
	}
	for _, d := range []string{"sub", "other/sub", "sub/deep/sub", "sub/sub", "other"} {
		os.MkdirAll(filepath.Join(base, d), 0o755)
	}
	info.Label(c.Kinds...)
	info.Nontrivial = len(c.Kinds) > 0 || len(c.Files) > 1
	for _, m := range []struct {
		name string
		load func(string, string) (*jsonschema.Schema, error)
	}{{"SchemaFromFile", jsonschema.SchemaFromFile}, {"SchemaFromFileNoFlatten", jsonschema.SchemaFromFileNoFlatten}} {
		split, err := m.load(filepath.Join(base, c.Root), "")
		if c.Broken != "" {
			if err == nil {
				return fmt.Errorf("%s: no error although the target of %q is missing", m.name, c.Broken)
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("%s of the split schema: %v", m.name, err)
		}
		whole, err := m.load(inl, "")
		if err != nil {
			return fmt.Errorf("%s of the inlined schema: %v", m.name, err)
		}
		a, err := viewOf(split)
		if err != nil {
			return fmt.Errorf("%s of the split schema: %v", m.name, err)
		}
		b, err := viewOf(whole)
		if err != nil {
			return fmt.Errorf("%s of the inlined schema: %v", m.name, err)
		}
		if d := a.diff(b); d != "" {
			return fmt.Errorf("%s: the split schema has %s (inlined schema)", m.name, d)
		}
		ta, erra := transform.NewTransformer(split, c.Ident)
		tb, errb := transform.NewTransformer(whole, c.Ident)
		if (erra == nil) != (errb == nil) {
			return fmt.Errorf("%s: transformer for the split schema: %v, for the inlined schema: %v", m.name, erra, errb)
		}
		if erra == nil {
			oa, ob := runJ(ta, c.Input), runJ(tb, c.Input)
			if !sameOutcome(oa, ob) {
				return fmt.Errorf("%s: transform with the split schema: %v\nwith the inlined schema: %v", m.name, oa, ob)
			}
			info.LabelIf(oa.err == nil && oa.out != "null", "transformed")
		}
	}
	return nil
}

func sortedStrings(x []string) []string {
	m := map[string]bool{}
	for _, s := range x {
		m[s] = true
	}
	return sortedKeys(m)
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "S01",
		Subs: []*pbt.Sub{
			pbt.NewSub("split", "generated schemas with transforms, defaults and annotations written in one file and rewritten into several files with references (definitions, files in directories, plain paths, chains, shared targets, references as a whole file, escaped names, keywords beside references); both loads must show the same properties, items, required lists, Walk, WalkRaw and transform output; non-trivial: at least one reference", 6000, 120000, genRef(false), checkRef),
			pbt.NewSub("missing", "as split, with one reference changed to a target that is not there; the load must fail; all non-trivial", 1500, 20000, genRef(true), checkRef),
		},
	})
}
