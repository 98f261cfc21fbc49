package props

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"

	"pgregory.net/rapid"

	"github.com/GannettDigital/jstransform/jsonschema"

	"verif/harness/pbt"
)

// TypeCase is an instance whose type is reported.
type TypeCase struct {
	Schema string `json:"schema"`
}

// SummaryCase is a schema file.
type SummaryCase struct {
	Schema string `json:"schema"`
}

var typeNames = []string{"string", "integer", "number", "boolean", "object", "array", "graphql-hydration", "t\"x", "ü", "Null", "nul"}

func genType(t *rapid.T) TypeCase {
	n := genWalkNode(t, rapid.IntRange(0, 2).Draw(t, "depth"), "")
	k := rapid.IntRange(0, 11).Draw(t, "typeKind")
	switch {
	case k < 3:
		n["type"] = pick(t, "type", typeNames)
	case k < 5:
		n["type"] = []any{pick(t, "type", typeNames)}
	case k < 8:
		l := []any{pick(t, "type", typeNames), "null"}
		if rapid.Bool().Draw(t, "nullFirst") {
			l[0], l[1] = l[1], l[0]
		}
		n["type"] = l
	case k < 10: // a union
		perm := rapid.Permutation(typeNames).Draw(t, "perm")
		var l []any
		for _, x := range perm[:rapid.IntRange(2, 4).Draw(t, "n")] {
			l = append(l, x)
		}
		if rapid.Bool().Draw(t, "withNull") {
			i := rapid.IntRange(0, len(l)).Draw(t, "at")
			l = append(l[:i], append([]any{"null"}, l[i:]...)...)
		}
		n["type"] = l
	case k == 10:
		delete(n, "type")
	default:
		n["type"] = pick(t, "noType", []any{nil, 1.0, true, map[string]any{"type": "string"}})
	}
	return TypeCase{spell(t, n, pick(t, "ws", []int{0, 0, 10, 60}), pick(t, "esc", []int{0, 0, 8, 40}))}
}

func checkType(c TypeCase, info *pbt.Info) error {
	var n map[string]any
	if err := json.Unmarshal([]byte(c.Schema), &n); err != nil {
		return pbt.Harness(err)
	}
	var types []string
	null := false
	switch x := n["type"].(type) {
	case string:
		types = []string{x}
	case []any:
		for _, e := range x {
			if e == "null" {
				null = true
			} else {
				types = append(types, e.(string))
			}
		}
	}
	got, nullable, err := jsonschema.FieldType([]byte(c.Schema))
	info.Nontrivial = true
	if len(types) != 1 {
		info.Label(fmt.Sprintf("%d types", len(types)))
		if err == nil {
			return fmt.Errorf("no error for the types %s but %q", mustJSON(n["type"]), got)
		}
		return nil
	}
	info.LabelIf(null, "nullable")
	if err != nil {
		return fmt.Errorf("error for type %s: %v", mustJSON(n["type"]), err)
	}
	if got != types[0] || nullable != null {
		return fmt.Errorf("type %s is reported as %q, nullable %v", mustJSON(n["type"]), got, nullable)
	}
	// the instance as decoded by the walk agrees
	var i jsonschema.Instance
	if err := json.Unmarshal([]byte(c.Schema), &i); err != nil {
		return fmt.Errorf("instance does not decode: %v", err)
	}
	var all []string
	if s, ok := n["type"].(string); ok {
		all = []string{s}
	}
	for _, e := range asList(n["type"]) {
		all = append(all, e.(string))
	}
	if !reflect.DeepEqual(i.Type, all) {
		return fmt.Errorf("decoded types are %q, not %q", i.Type, all)
	}
	return nil
}

func genSummary(t *rapid.T) SummaryCase {
	n := genWalkNode(t, rapid.IntRange(1, 2).Draw(t, "depth"), "object")
	if pct(t, 30, "noProps") {
		delete(n, "properties")
	} else if pct(t, 10, "noName") {
		n["properties"].(map[string]any)[""] = genWalkNode(t, 0, "")
	}
	for _, key := range []string{"allOf", "oneOf", "anyOf"} {
		if !pct(t, 60, key) {
			continue
		}
		var l []any
		for i := rapid.IntRange(0, 5).Draw(t, "n"); i > 0; i-- {
			e := map[string]any{}
			if !pct(t, 20, "inline") {
				e["$ref"] = pick(t, "ref", []string{"./a.json", "b.json", "sub/c.json", "#/definitions/x", "b.json#/definitions/y", "ü.json", "q\"t.json", "./a.json"})
			}
			if pct(t, 25, "beside") {
				e["properties"] = map[string]any{"inner": map[string]any{"type": "string", "$ref": "inner.json"}}
				e["required"] = []any{"inner"}
			}
			if pct(t, 15, "nested") {
				e["allOf"] = []any{map[string]any{"$ref": "nested.json"}}
				e["oneOf"] = []any{map[string]any{"$ref": "nested2.json"}}
			}
			if len(e) > 0 && rapid.Bool().Draw(t, "typed") {
				e["type"] = "object"
			}
			l = append(l, e)
		}
		n[key] = l
	}
	return SummaryCase{spell(t, n, pick(t, "ws", []int{0, 0, 10, 60}), pick(t, "esc", []int{0, 0, 8, 40}))}
}

func checkSummary(c SummaryCase, info *pbt.Info) error {
	dir, err := scratchDir()
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	p := filepath.Join(dir, "s.json")
	if err := os.WriteFile(p, []byte(c.Schema), 0o644); err != nil {
		return pbt.Harness(err)
	}
	var n map[string]any
	if err := json.Unmarshal([]byte(c.Schema), &n); err != nil {
		return pbt.Harness(err)
	}
	refs := func(key string) (out []string) {
		for _, e := range asList(n[key]) {
			if r, ok := e.(map[string]any)["$ref"].(string); ok {
				out = append(out, r)
			} else {
				info.Label("inline-" + key)
			}
		}
		return
	}
	ps, _ := n["properties"].(map[string]any)
	wantAll, wantOne, wantProps := refs("allOf"), refs("oneOf"), nilIfEmpty(sortedKeys(ps))
	info.Nontrivial = len(wantAll)+len(wantOne) > 1 || len(wantProps) > 1
	all, one, props, err := jsonschema.SchemaTypes(p)
	if err != nil {
		return fmt.Errorf("SchemaTypes: %v", err)
	}
	for _, x := range []struct {
		name      string
		got, want []string
	}{{"allOf", all, wantAll}, {"oneOf", one, wantOne}, {"properties", props, wantProps}} {
		if !reflect.DeepEqual(nilIfEmpty(x.got), x.want) {
			return fmt.Errorf("%s are reported as %q, not %q", x.name, x.got, x.want)
		}
	}
	return nil
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "S07",
		Subs: []*pbt.Sub{
			pbt.NewSub("type", "generated instances with every spelling of types (string, list, null in any position, unions, missing, no string) among keywords and property names that look like types, in random spelling; all non-trivial", 100000, 600000, genType, checkType),
			pbt.NewSub("summary", "generated schema files with allOf, oneOf and anyOf lists of references and inline entries; non-trivial: more than one reference or property", 40000, 200000, genSummary, checkSummary),
		},
	})
}
