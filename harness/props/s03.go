package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"pgregory.net/rapid"

	"github.com/GannettDigital/jstransform/jsonschema"

	"verif/harness/pbt"
)

// WalkCase is a schema to walk.
type WalkCase struct {
	Schema string `json:"schema"`
	File   bool   `json:"file"`    // load it from a file
	FailAt []int  `json:"fail_at"` // visits at which the callback fails
}

var walkNames = []string{"type", "properties", "items", "required", "default", "description", "definitions", "allOf", "enum", "format", "transform", "title", "quote\"d", "back\\slash", "a/b", "tab\tx", "ü✓", "0", "Type", "Items"}

// noise adds keywords which do not influence what is walked and look like those that do.
func noise(t *rapid.T, n map[string]any) {
	decoys := []any{
		map[string]any{"type": "object", "properties": map[string]any{"decoy": map[string]any{"type": "string"}}},
		map[string]any{"type": "array", "items": map[string]any{"type": "string"}},
		[]any{map[string]any{"type": "integer"}, "type", "properties"},
		"\"type\":\"object\"", 1.5, nil, true, `}{][,`, "\\",
	}
	for _, k := range []string{"default", "examples", "x-note", "transform", "title", "const", "a"} {
		if pct(t, 12, "noise "+k) {
			n[k] = pick(t, "decoy", decoys)
		}
	}
	if s, ok := n["title"]; ok {
		n["title"] = fmt.Sprint(s)
	}
	if _, ok := n["transform"].(map[string]any); !ok {
		delete(n, "transform")
	}
	if pct(t, 20, "desc") {
		n["description"] = genStr(t)
	}
	if pct(t, 8, "enum") {
		n["enum"] = []any{"a", "type", map[string]any{"properties": map[string]any{}}}
	}
	if pct(t, 8, "addl") {
		n["additionalProperties"] = rapid.Bool().Draw(t, "addlV")
	}
}

func genWalkNode(t *rapid.T, depth int, kind string) map[string]any {
	n := map[string]any{}
	if kind == "" {
		kind = "scalar"
		if depth > 0 {
			kind = pick(t, "kind", []string{"scalar", "scalar", "object", "object", "array"})
		}
	}
	typ := kind
	switch kind {
	case "scalar":
		typ = pick(t, "scalar", []string{"string", "integer", "number", "boolean", "graphql-hydration"})
		if typ == "graphql-hydration" {
			typ = "string"
		}
		if typ == "string" && pct(t, 20, "fmt") {
			n["format"] = pick(t, "format", []string{"date-time", "uri", "email"})
		}
	case "object":
		ps := map[string]any{}
		names := append(append([]string{}, identKeys...), walkNames...)
		for i := rapid.IntRange(0, 4).Draw(t, "props"); i > 0; i-- {
			name := pick(t, "name", names)
			if pct(t, 10, "oddName") {
				name = pick(t, "odd", append([]string{"a.b", "x[0]", " ", " a "}, oddKeys...))
			}
			ps[name] = genWalkNode(t, depth-1, "")
		}
		n["properties"] = ps
		if len(ps) > 0 && pct(t, 30, "req") {
			n["required"] = []any{pick(t, "reqName", sortedKeys(ps))}
		}
	case "array":
		n["items"] = genWalkNode(t, depth-1, "")
	}
	n["type"] = typ
	noise(t, n)
	return n
}

func genWalk(t *rapid.T) WalkCase {
	kind := "object"
	if pct(t, 15, "rootArray") {
		kind = "array"
	}
	n := genWalkNode(t, rapid.IntRange(1, 5).Draw(t, "depth"), kind)
	both := false
	if chance(t, 10, "rootBoth") { // the root may have properties and items
		if n["properties"] == nil {
			n["properties"] = genWalkNode(t, 2, "object")["properties"]
		} else {
			n["items"] = genWalkNode(t, 2, "")
		}
		both = true
	}
	// the meta schema is stricter for files, and the root's own default etc. do not matter here
	retype(t, n, pick(t, "retype", []int{0, 30}))
	if both {
		n["type"] = pick(t, "rootType", []any{[]any{"object", "array"}, []any{"array", "object"}, []any{"array", "null", "object"}})
	}
	c := WalkCase{File: pct(t, 50, "file")}
	c.Schema = spell(t, n, pick(t, "ws", []int{0, 0, 10, 60}), pick(t, "esc", []int{0, 0, 8, 30}))
	for i := rapid.IntRange(1, 6).Draw(t, "fails"); i > 0; i-- {
		c.FailAt = append(c.FailAt, rapid.IntRange(1, 25).Draw(t, "failAt"))
	}
	return c
}

type visit struct {
	path   string
	node   map[string]any
	parent string // the path of the parent instance, or ""
}

func enumerate(n map[string]any, path, parent string, out *[]visit) {
	if ps, ok := n["properties"].(map[string]any); ok && hasType(n, "object") {
		for _, k := range sortedKeys(ps) {
			c := ps[k].(map[string]any)
			*out = append(*out, visit{path + "." + k, c, parent})
			enumerate(c, path+"."+k, path+"."+k, out)
		}
	}
	if c, ok := n["items"].(map[string]any); ok && hasType(n, "array") {
		*out = append(*out, visit{path + "[*]", c, parent})
		enumerate(c, path+"[*]", path+"[*]", out)
	}
}

func hasType(n map[string]any, typ string) bool {
	if n["type"] == typ {
		return true
	}
	for _, x := range asList(n["type"]) {
		if x == typ {
			return true
		}
	}
	return false
}

// sameInstance compares a decoded instance with its schema.
func sameInstance(i jsonschema.Instance, n map[string]any) error {
	var types []string
	if s, ok := n["type"].(string); ok {
		types = []string{s}
	}
	for _, x := range asList(n["type"]) {
		types = append(types, x.(string))
	}
	if !reflect.DeepEqual(types, i.Type) {
		return fmt.Errorf("type %v, not %v", i.Type, types)
	}
	var req []string
	for _, r := range asList(n["required"]) {
		req = append(req, r.(string))
	}
	if !reflect.DeepEqual(req, nilIfEmpty(i.Required)) {
		return fmt.Errorf("required %v, not %v", i.Required, req)
	}
	d, _ := n["description"].(string)
	f, _ := n["format"].(string)
	if i.Description != d || i.Format != f {
		return fmt.Errorf("description %q and format %q, not %q and %q", i.Description, i.Format, d, f)
	}
	ps, _ := n["properties"].(map[string]any)
	if len(ps) != len(i.Properties) {
		return fmt.Errorf("%d properties, not %d", len(i.Properties), len(ps))
	}
	for k, c := range ps {
		if err := sameJSON(i.Properties[k], c); err != nil {
			return fmt.Errorf("property %q: %v", k, err)
		}
	}
	if c, ok := n["items"]; ok {
		return sameJSON(i.Items, c)
	}
	return nil
}

func sameJSON(raw []byte, want any) error {
	var v any
	if err := json.Unmarshal(raw, &v); err != nil {
		return fmt.Errorf("no JSON: %v: %q", err, raw)
	}
	if !reflect.DeepEqual(v, want) {
		return fmt.Errorf("%s, not %s", mustJSON(v), mustJSON(want))
	}
	return nil
}

func checkWalk(c WalkCase, info *pbt.Info) error {
	var s *jsonschema.Schema
	var err error
	if c.File {
		dir, err := scratchDir()
		if err != nil {
			return err
		}
		defer os.RemoveAll(dir)
		p := filepath.Join(dir, "s.json")
		if err := os.WriteFile(p, []byte(c.Schema), 0o644); err != nil {
			return pbt.Harness(err)
		}
		if s, err = jsonschema.SchemaFromFile(p, ""); err != nil {
			return fmt.Errorf("SchemaFromFile: %v", err)
		}
		info.Label("file")
	} else if s, err = schemaValue(c.Schema); err != nil {
		return err
	}
	var root map[string]any
	if err := json.Unmarshal([]byte(c.Schema), &root); err != nil {
		return pbt.Harness(err)
	}
	var want []visit
	enumerate(root, "$", "", &want)
	byPath := map[string]visit{}
	ambiguous := false // names with dots may make two instances have one path
	for _, v := range want {
		if _, dup := byPath[v.path]; dup {
			ambiguous = true
		}
		byPath[v.path] = v
	}
	if ambiguous {
		return pbt.Skip("two instances have the same path")
	}
	info.Nontrivial = len(want) >= 3
	info.LabelIf(len(want) >= 10, "ten-instances")
	info.LabelIf(strings.Contains(c.Schema, `\u`), "escapes")

	walks := []struct {
		name string
		run  func(visit func(path string, check func(n map[string]any) error) error) error
	}{
		{"Walk", func(f func(string, func(map[string]any) error) error) error {
			return jsonschema.Walk(s, func(p string, i jsonschema.Instance) error {
				return f(p, func(n map[string]any) error { return sameInstance(i, n) })
			})
		}},
		{"WalkRaw", func(f func(string, func(map[string]any) error) error) error {
			return jsonschema.WalkRaw(s, func(p string, raw json.RawMessage) error {
				return f(p, func(n map[string]any) error { return sameJSON(raw, n) })
			})
		}},
	}
	for _, w := range walks {
		for _, failAt := range append([]int{0}, c.FailAt...) {
			if failAt > len(want) {
				failAt = 1 + failAt%max(len(want), 1)
			}
			if failAt > len(want) {
				continue
			}
			seen := map[string]bool{}
			var bad, after error
			n := 0
			injected := errors.New("injected failure 4711")
			err := w.run(func(p string, check func(map[string]any) error) error {
				n++
				if failAt > 0 && n > failAt && after == nil {
					after = fmt.Errorf("%s visits %s after the callback failed at visit %d", w.name, p, failAt)
				}
				v, ok := byPath[p]
				switch {
				case bad != nil:
				case !ok:
					bad = fmt.Errorf("%s visits %q which is no instance", w.name, p)
				case seen[p]:
					bad = fmt.Errorf("%s visits %q twice", w.name, p)
				case v.parent != "" && !seen[v.parent]:
					bad = fmt.Errorf("%s visits %q before its parent", w.name, p)
				default:
					if err := check(v.node); err != nil {
						bad = fmt.Errorf("%s at %q gives the wrong schema: %v", w.name, p, err)
					}
				}
				seen[p] = true
				if n == failAt {
					return injected
				}
				return nil
			})
			if bad != nil {
				return bad
			}
			if after != nil {
				return after
			}
			if failAt == 0 {
				if err != nil {
					return fmt.Errorf("%s: %v", w.name, err)
				}
				for _, v := range want {
					if !seen[v.path] {
						return fmt.Errorf("%s does not visit %q", w.name, v.path)
					}
				}
			} else if err == nil || !strings.Contains(err.Error(), injected.Error()) {
				return fmt.Errorf("%s returns %v although the callback failed at visit %d of %d", w.name, err, failAt, len(want))
			}
		}
	}
	return nil
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "S03",
		Subs: []*pbt.Sub{
			pbt.NewSub("walk", "generated schemas up to five levels with property names and keyword values that look like schema keywords, in random spelling, from memory or a file; both walks are compared with an enumeration of the schema (paths, schemas, order of parents, count) without and with a callback failing at up to six visits; non-trivial: three or more instances", 60000, 900000, genWalk, checkWalk),
		},
	})
}
