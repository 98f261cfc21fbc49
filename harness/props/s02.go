package props

import (
	"encoding/json"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"reflect"
	"strings"

	"pgregory.net/rapid"

	"github.com/GannettDigital/jstransform/jsonschema"

	"verif/harness/pbt"
)

// MergeCase is a family of schema files using allOf and oneOf.
type MergeCase struct {
	Files map[string]string `json:"files"`
	Root  string            `json:"root"`
	Types []string          `json:"types"`
}

type mergeGen struct {
	t     *rapid.T
	files map[string]any
	names []string
	n     int
}

// names that are parts of each other or differ by case only
var mergeNames = []string{"p0", "p", "p1", "xp", "P1", "p1x", "p1x0"}

func (g *mergeGen) leaf(mark string) map[string]any {
	t := g.t
	g.n++
	n := map[string]any{"description": fmt.Sprintf("%s#%d", mark, g.n)}
	switch rapid.IntRange(0, 6).Draw(t, "leafKind") {
	case 0:
		n["type"] = "object"
		ps := map[string]any{}
		for i := rapid.IntRange(0, 3).Draw(t, "inner"); i > 0; i-- {
			ps[fmt.Sprintf("p%d", rapid.IntRange(0, 4).Draw(t, "innerName"))] = map[string]any{"type": "integer", "description": fmt.Sprintf("%s inner %d", mark, i)}
		}
		n["properties"] = ps
		if len(ps) > 0 && rapid.Bool().Draw(t, "innerReq") {
			n["required"] = []any{sortedKeys(ps)[0]}
		}
	case 1:
		n["type"] = "array"
		n["items"] = map[string]any{"type": "string", "description": mark + " items"}
	default:
		n["type"] = pick(t, "leafType", []any{"string", "integer", "boolean", "number", []any{"string", "null"}})
	}
	return n
}

// unit is the content of a file or a definition: entries refer to the later files only.
func (g *mergeGen) unit(i int, mark string, entries bool) map[string]any {
	t := g.t
	n := map[string]any{}
	if !pct(t, 20, "noType") {
		n["type"] = "object"
	}
	later := g.names[min(i+1, len(g.names)):]
	if pct(t, 65, "props") {
		ps := map[string]any{}
		for k := rapid.IntRange(1, 4).Draw(t, "n"); k > 0; k-- {
			name := pick(t, "name", append([]string{"type", "required"}, mergeNames[:6]...))
			if entries && len(later) > 0 && pct(t, 12, "propRef") {
				ps[name] = map[string]any{"$ref": g.ref(i, pick(t, "target", later))}
				continue
			}
			ps[name] = g.leaf(mark)
		}
		n["properties"] = ps
	}
	if pct(t, 50, "req") {
		var req []any
		for k := 0; k <= 6; k++ {
			if pct(t, 25, "reqName") || k == 6 && req == nil {
				req = append(req, mergeNames[k])
			}
		}
		n["required"] = req
	}
	if pct(t, 6, "items") {
		n["items"] = g.leaf(mark)
	}
	if !entries {
		return n
	}
	defs := map[string]any{}
	entry := func() map[string]any {
		e := map[string]any{}
		switch k := rapid.IntRange(0, 9).Draw(t, "entryKind"); {
		case k < 6 && len(later) > 0:
			e["$ref"] = g.ref(i, pick(t, "target", later))
		case k < 8:
			name := fmt.Sprintf("def%d", len(defs))
			defs[name] = g.unit(i, mark+" "+name, false)
			e["$ref"] = "#/definitions/" + name
		default:
			return g.unit(i, mark+" inline", false)
		}
		if pct(t, 15, "beside") {
			over := g.unit(i, mark+" beside", false)
			for _, k := range []string{"properties", "required", "items"} {
				if v, ok := over[k]; ok && rapid.Bool().Draw(t, "beside "+k) {
					e[k] = v
				}
			}
		}
		return e
	}
	if pct(t, 60, "allOf") {
		var l []any
		for k := rapid.IntRange(1, 4).Draw(t, "nAll"); k > 0; k-- {
			l = append(l, entry())
		}
		n["allOf"] = l
	}
	if pct(t, 45, "oneOf") {
		var l []any
		used := map[string]bool{}
		for k := rapid.IntRange(1, 4).Draw(t, "nOne"); k > 0; k-- {
			e := entry()
			name := entryName(e)
			if name != "" && used[name] {
				continue
			}
			used[name] = true
			l = append(l, e)
		}
		n["oneOf"] = l
	}
	if len(defs) > 0 {
		n["definitions"] = defs
	}
	return n
}

func (g *mergeGen) ref(i int, target string) string {
	r := relRef(g.names[i], target)
	if pct(g.t, 10, "dotSlash") {
		r = "./" + r
	}
	return r
}

// entryName is the name oneOf selects an entry by; entries which are no references have none.
func entryName(e map[string]any) string {
	r, ok := e["$ref"].(string)
	if !ok {
		return ""
	}
	return strings.SplitN(path.Base(r), ".", 2)[0]
}

func genMerge(t *rapid.T) MergeCase {
	g := &mergeGen{t: t, files: map[string]any{}}
	k := rapid.IntRange(1, 6).Draw(t, "files")
	pool := []string{"alpha", "beta", "gamma", "delta", "text", "image", "Alpha", "text-2", "te"}
	for i := 0; i < k; i++ {
		dir := pick(t, "dir", []string{"", "", "", "sub/", "sub/deep/"})
		ext := pick(t, "ext", []string{".json", ".json", ".json", ".schema.json", ""})
		j := rapid.IntRange(0, len(pool)-1).Draw(t, "fileName")
		g.names = append(g.names, dir+pool[j]+ext)
		pool = append(append([]string{}, pool[:j]...), pool[j+1:]...)
	}
	c := MergeCase{Files: map[string]string{}, Root: g.names[0]}
	for i := k - 1; i >= 0; i-- {
		u := g.unit(i, g.names[i], true)
		if i == 0 && u["properties"] == nil && u["allOf"] == nil && u["oneOf"] == nil && u["items"] == nil {
			u["properties"] = map[string]any{"p0": g.leaf("root")}
		}
		g.files[g.names[i]] = u
		c.Files[g.names[i]] = mustJSON(u)
	}
	types := []string{"", "nothing", "def0", "alpha.json", "tex"}
	for _, n := range g.names {
		types = append(types, strings.SplitN(path.Base(n), ".", 2)[0])
	}
	for i := rapid.IntRange(1, 4).Draw(t, "nTypes"); i > 0; i-- {
		c.Types = append(c.Types, pick(t, "type", types))
	}
	return c
}

// merged is what a schema with allOf and oneOf stands for.
type merged struct {
	props map[string]any
	req   map[string]bool
	items any
}

type merger struct {
	files   map[string]any
	typ     string
	flatten bool
	uses    map[string]int
}

// file merges a file.
func (m *merger) file(f string) merged {
	v := m.files[f].(map[string]any)
	out := m.node(v, f)
	own := v["properties"] != nil
	for _, e := range asList(v["allOf"]) {
		if m.flatten || !own {
			m.add(&out, m.entry(e.(map[string]any), f))
			m.uses["allOf-merged"]++
		}
	}
	for _, e := range asList(v["oneOf"]) {
		if n := entryName(e.(map[string]any)); n != "" && n == m.typ {
			m.add(&out, m.entry(e.(map[string]any), f))
			m.uses["oneOf-merged"]++
		}
	}
	return out
}

func asList(v any) []any { l, _ := v.([]any); return l }

func (m *merger) add(to *merged, e merged) {
	for k, v := range e.props {
		if _, ok := to.props[k]; ok {
			m.uses["property-overridden"]++
		} else {
			to.props[k] = v
		}
	}
	for k := range e.req {
		to.req[k] = true
	}
	if to.items == nil {
		to.items = e.items
	}
}

// node is a schema without regard to its allOf and oneOf.
func (m *merger) node(v map[string]any, f string) merged {
	out := merged{props: map[string]any{}, req: map[string]bool{}}
	if ps, ok := v["properties"].(map[string]any); ok {
		for k, c := range ps {
			out.props[k] = m.shape(c.(map[string]any), f)
		}
	}
	for _, r := range asList(v["required"]) {
		out.req[r.(string)] = true
	}
	if c, ok := v["items"].(map[string]any); ok {
		out.items = m.shape(c, f)
	}
	return out
}

func (m *merger) entry(e map[string]any, f string) merged {
	ref, ok := e["$ref"].(string)
	if !ok {
		return m.node(e, f)
	}
	var out merged
	if name, ok := strings.CutPrefix(ref, "#/definitions/"); ok {
		out = m.node(m.files[f].(map[string]any)["definitions"].(map[string]any)[name].(map[string]any), f)
	} else {
		out = m.file(path.Join(path.Dir(f), ref))
	}
	over := m.node(e, f)
	if e["properties"] != nil {
		out.props = over.props
	}
	if e["required"] != nil {
		out.req = over.req
	}
	if e["items"] != nil {
		out.items = over.items
	}
	return out
}

// shape is the part of a property that is compared.
func (m *merger) shape(v map[string]any, f string) any {
	if ref, ok := v["$ref"].(string); ok {
		target := path.Join(path.Dir(f), ref)
		v = m.files[target].(map[string]any)
		m.uses["property-file"]++
		return shapeOf(v, m.file(target))
	}
	return shapeOf(v, m.node(v, f))
}

func shapeOf(v map[string]any, mg merged) any {
	out := map[string]any{"required": sortedKeys(mg.req), "items": mg.items, "properties": mg.props, "description": v["description"]}
	if s, ok := v["type"].(string); ok {
		out["type"] = []any{s}
	} else {
		out["type"] = v["type"]
	}
	return out
}

func checkMerge(c MergeCase, info *pbt.Info) error {
	dir, err := scratchDir()
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	if err := writeFiles(dir, c.Files); err != nil {
		return err
	}
	files := map[string]any{}
	for f, text := range c.Files {
		var v any
		if err := json.Unmarshal([]byte(text), &v); err != nil {
			return pbt.Harness(err)
		}
		files[f] = v
	}
	none := &merger{uses: map[string]int{}}
	for i, typ := range c.Types {
		for _, flatten := range []bool{i%2 == 0, i%2 != 0} {
			load, name := jsonschema.SchemaFromFile, "SchemaFromFile"
			if !flatten {
				load, name = jsonschema.SchemaFromFileNoFlatten, "SchemaFromFileNoFlatten"
			}
			m := &merger{files: files, typ: typ, flatten: flatten, uses: map[string]int{}}
			want := m.file(c.Root)
			for k := range m.uses {
				info.Label(k)
				info.Nontrivial = true
			}
			s, err := load(filepath.Join(dir, c.Root), typ)
			if err != nil {
				return fmt.Errorf("%s for type %q: %v", name, typ, err)
			}
			got := merged{props: map[string]any{}, req: map[string]bool{}}
			for k, raw := range s.Properties {
				var v map[string]any
				if err := json.Unmarshal(raw, &v); err != nil {
					return fmt.Errorf("%s for type %q: property %q: %v", name, typ, k, err)
				}
				got.props[k] = none.shape(v, "")
			}
			for _, r := range s.Required {
				got.req[r] = true
			}
			if s.Items != nil {
				var v map[string]any
				if err := json.Unmarshal(s.Items, &v); err != nil {
					return fmt.Errorf("%s for type %q: items: %v", name, typ, err)
				}
				got.items = none.shape(v, "")
			}
			for k := range got.props {
				if _, ok := want.props[k]; !ok {
					return fmt.Errorf("%s for type %q: property %q should not be there: %s", name, typ, k, mustJSON(got.props[k]))
				}
			}
			for _, k := range sortedKeys(want.props) {
				if _, ok := got.props[k]; !ok {
					return fmt.Errorf("%s for type %q: property %q is missing", name, typ, k)
				}
				if a, b := mustJSON(got.props[k]), mustJSON(want.props[k]); a != b {
					return fmt.Errorf("%s for type %q: property %q is\n%s\nnot\n%s", name, typ, k, a, b)
				}
			}
			if !reflect.DeepEqual(got.req, want.req) {
				return fmt.Errorf("%s for type %q: required are %v, not %v", name, typ, sortedKeys(got.req), sortedKeys(want.req))
			}
			if a, b := mustJSON(got.items), mustJSON(want.items); a != b {
				return fmt.Errorf("%s for type %q: items are\n%s\nnot\n%s", name, typ, a, b)
			}
			root := files[c.Root].(map[string]any)
			if more, ok := root["additionalProperties"].(bool); root["$ref"] == nil && s.AdditionalProperties != (!ok || more) {
				return fmt.Errorf("%s for type %q: additionalProperties is %v", name, typ, s.AdditionalProperties)
			}
			if err := m.listed("allOf", root["allOf"], s.AllOf, c.Root); err != nil {
				return fmt.Errorf("%s for type %q: %v", name, typ, err)
			}
			if err := m.listed("oneOf", root["oneOf"], s.OneOf, c.Root); err != nil {
				return fmt.Errorf("%s for type %q: %v", name, typ, err)
			}
			// the walk visits the merged properties
			seen := map[string]bool{}
			if err := jsonschema.Walk(s, func(p string, i jsonschema.Instance) error {
				if p = strings.TrimPrefix(p, "$."); !strings.ContainsAny(p, ".[") && p != "$" {
					seen[p] = true
				}
				return nil
			}); err == nil && !reflect.DeepEqual(sortedKeys(seen), sortedKeys(want.props)) {
				return fmt.Errorf("%s for type %q: Walk visits %v, not %v", name, typ, sortedKeys(seen), sortedKeys(want.props))
			}
		}
	}
	return nil
}

// listed compares the entries of allOf or oneOf with the schema's list.
func (m *merger) listed(key string, want any, got []jsonschema.Instance, f string) error {
	l := asList(want)
	if len(l) != len(got) {
		return fmt.Errorf("%d entries of %s are listed, not %d", len(got), key, len(l))
	}
	for i, e := range l {
		ref, _ := e.(map[string]any)["$ref"].(string)
		if got[i].FromRef != ref {
			return fmt.Errorf("entry %d of %s is listed as %q, not %q", i, key, got[i].FromRef, ref)
		}
		raw, err := json.Marshal(got[i])
		if err != nil {
			return err
		}
		var v map[string]any
		if err := json.Unmarshal(raw, &v); err != nil {
			return err
		}
		none := &merger{uses: map[string]int{}}
		a, b := none.node(v, ""), m.entry(e.(map[string]any), f)
		if x, y := mustJSON([]any{a.props, sortedKeys(a.req), a.items}), mustJSON([]any{b.props, sortedKeys(b.req), b.items}); x != y {
			return fmt.Errorf("entry %d of %s is listed with properties, required and items\n%s\nnot\n%s", i, key, x, y)
		}
	}
	return nil
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "S02",
		Subs: []*pbt.Sub{
			pbt.NewSub("merge", "families of up to six files with overlapping properties, required lists and items, combined by nested allOf and oneOf (references to files and definitions, inline entries, keywords beside references), loaded with and without flattening for several requested types (present, absent, similar, none) and compared with a merge model: properties with their full schema, required, items, listed entries and walk; non-trivial: an entry is merged", 8000, 200000, genMerge, checkMerge),
		},
	})
}
