package props

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"

	"pgregory.net/rapid"

	"github.com/GannettDigital/jstransform/jsonschema"
	"github.com/GannettDigital/jstransform/transform"

	"verif/harness/pbt"
)

// NoiseCase is a schema with and without things that must not matter.
type NoiseCase struct {
	Format string   `json:"format"`
	Ident  string   `json:"ident"`
	Plain  string   `json:"plain"`
	Noisy  string   `json:"noisy"`
	Others []string `json:"others"` // transformers for these identifiers are built from the noisy schema first
	File   bool     `json:"file"`
	Inputs []string `json:"inputs"`
}

func copyJSON(v any) any {
	var out any
	json.Unmarshal([]byte(mustJSON(v)), &out)
	return out
}

// noisy decorates a schema instance and everything below it.
type noisy struct {
	t      *rapid.T
	ident  string
	xml    bool
	pool   []any // transform sections of the schema
	others []string
	p      int
}

func (g *noisy) collect(v any) {
	switch x := v.(type) {
	case map[string]any:
		if sec, ok := x["transform"].(map[string]any); ok && sec[g.ident] != nil {
			g.pool = append(g.pool, sec[g.ident])
		}
		for _, k := range sortedKeys(x) {
			g.collect(x[k])
		}
	case []any:
		for _, e := range x {
			g.collect(e)
		}
	}
}

// section is a transform section for another identifier; it may be invalid.
func (g *noisy) section() any {
	t := g.t
	switch rapid.IntRange(0, 9).Draw(t, "secKind") {
	case 0:
		return map[string]any{"from": []any{map[string]any{"jsonPath": "$.a", "xmlPath": "//a", "operations": []any{map[string]any{"type": "noSuchOperation"}}}}}
	case 1:
		return map[string]any{"method": "noSuchMethod", "from": []any{}}
	case 2:
		return pick(t, "junk", []any{nil, "text", 3.0, true, []any{}, []any{"x"}, map[string]any{"from": "text"}, map[string]any{"from": []any{nil}}, map[string]any{"from": map[string]any{"jsonPath": "$.a"}}, map[string]any{}})
	case 3:
		return map[string]any{"from": []any{map[string]any{"jsonPath": "$$[", "xmlPath": "//["}}}
	case 4: // one that fails on every input
		return map[string]any{"from": []any{map[string]any{"jsonPath": "$", "xmlPath": "/*", "operations": []any{op("duration"), op("inverse")}}}}
	}
	if len(g.pool) > 0 && pct(t, 60, "fromPool") {
		return copyJSON(pick(t, "poolSec", g.pool))
	}
	return map[string]any{"from": []any{map[string]any{"jsonPath": "$." + pick(t, "k", identKeys), "xmlPath": "//" + pick(t, "xk", []string{"a", "b", "item"})}}}
}

func (g *noisy) annotation() any {
	t := g.t
	switch rapid.IntRange(0, 5).Draw(t, "annKind") {
	case 0:
		return map[string]any{"transform": map[string]any{g.ident: g.section()}, "default": "nope", "type": "array", "properties": map[string]any{"q": map[string]any{"type": "string"}}}
	case 1:
		return []any{map[string]any{"type": "object", "default": genScalar(t)}, "items"}
	case 2:
		return map[string]any{g.ident: g.section(), "from": []any{}, "format": "date-time"}
	}
	return genVal(t, 1, defaultJ)
}

func (g *noisy) instance(n map[string]any) {
	t := g.t
	if pct(t, g.p, "others") {
		sec, _ := n["transform"].(map[string]any)
		if sec == nil {
			sec = map[string]any{}
		}
		for k := rapid.IntRange(1, 2).Draw(t, "howMany"); k > 0; k-- {
			sec[pick(t, "other", g.others)] = g.section()
		}
		n["transform"] = sec
	}
	if sec, ok := n["transform"].(map[string]any); ok {
		if tr, ok := sec[g.ident].(map[string]any); ok {
			if from, ok := tr["from"].([]any); ok {
				for _, f := range from {
					m, ok := f.(map[string]any)
					if !ok || !pct(t, g.p, "otherPath") {
						continue
					}
					key, paths := "xmlPath", oddXPaths
					if g.xml {
						key, paths = "jsonPath", oddPaths
					}
					if pct(t, 30, "delPath") {
						delete(m, key)
					} else if pct(t, 40, "oddPath") {
						m[key] = pick(t, "odd", paths)
					} else {
						m[key] = pick(t, "path", []string{"//a", "/r/b/@id", "$.a", "@.b", "$.list[*].x", "name"})
					}
				}
				if len(from) > 0 && pct(t, g.p/2, "otherFormat") { // an instruction for the other format only
					in := map[string]any{"jsonPath": pick(t, "foreign", append([]string{"$.a", "@.b", "$"}, oddPaths...))}
					if !g.xml {
						in = map[string]any{"xmlPath": pick(t, "foreign", append([]string{"//a", "/r", "."}, oddXPaths...))}
					}
					if pct(t, 30, "foreignOps") {
						in["operations"] = []any{op("duration"), op("inverse")}
					}
					at := rapid.IntRange(0, len(from)).Draw(t, "foreignAt")
					tr["from"] = append(append(append([]any{}, from[:at]...), in), from[at:]...)
				}
			}
			for _, k := range sortedKeys(sec) { // remove sections of others
				if k != g.ident && pct(t, g.p/3, "removeOther") {
					delete(sec, k)
				}
			}
		}
	}
	if pct(t, g.p, "annotate") {
		for k := rapid.IntRange(1, 3).Draw(t, "anns"); k > 0; k-- {
			switch rapid.IntRange(0, 3).Draw(t, "annKey") {
			case 0:
				n["description"] = genStr(t)
			case 1:
				n["title"] = genStr(t)
			case 2:
				n[pick(t, "annName", []string{"$comment", "Transform", "transforms", "Default", "x-default", "Type", "_type", "propertiesX", "readOnlyX", "mixin", "itemsOf", "0", "é"})] = g.annotation()
			default:
				n["examples"] = []any{g.annotation()}
			}
		}
		if c, ok := n["$comment"]; ok {
			if _, ok := c.(string); !ok {
				n["$comment"] = mustJSON(c)
			}
		}
	} else if pct(t, 10, "noDesc") {
		delete(n, "description")
	}
	g.below(n)
}

func (g *noisy) below(n map[string]any) {
	if ps, ok := n["properties"].(map[string]any); ok {
		for _, k := range sortedKeys(ps) {
			if m, ok := ps[k].(map[string]any); ok {
				g.instance(m)
			}
		}
	}
	if it, ok := n["items"].(map[string]any); ok {
		g.instance(it)
	}
}

func genNoise(t *rapid.T) NoiseCase {
	c := NoiseCase{Format: pick(t, "format", []string{"json", "json", "xml"}), Ident: "x", File: pct(t, 25, "file")}
	if c.Format == "xml" {
		x := genX(t)
		c.Plain = x.Schema
		c.Inputs = append(c.Inputs, x.xml())
		for n := rapid.IntRange(0, 2).Draw(t, "more"); n > 0; n-- {
			c.Inputs = append(c.Inputs, xmlString(mutateXML(t, x.Doc, 10)))
		}
	} else {
		cfg := defaultJ
		cfg.transP = 65
		j := genJ(cfg)(t)
		c.Plain, c.Ident = j.Schema, j.Ident
		c.Inputs = append(c.Inputs, j.Input)
		var v any
		json.Unmarshal([]byte(j.Input), &v)
		for n := rapid.IntRange(0, 2).Draw(t, "more"); n > 0; n-- {
			c.Inputs = append(c.Inputs, mustJSON(mutateTree(t, v, 8)))
		}
	}
	var s any
	json.Unmarshal([]byte(c.Plain), &s)
	g := &noisy{t: t, ident: c.Ident, xml: c.Format == "xml", p: pick(t, "noise", []int{8, 30, 80})}
	g.others = []string{"other", c.Ident + "2", c.Ident + ".v2", "pre" + c.Ident, c.Ident[:len(c.Ident)-1] + "-", "X", "from", "transform", "default", "é " + c.Ident, "\"" + c.Ident, ""}
	g.collect(s)
	m := s.(map[string]any)
	g.below(m)
	if pct(t, 30, "rootNoise") {
		m["title"] = genStr(t)
		m["description"] = genStr(t)
		m["examples"] = []any{g.annotation()}
	}
	c.Noisy = mustJSON(s)
	for n := rapid.IntRange(0, 2).Draw(t, "alsoBuild"); n > 0; n-- {
		c.Others = append(c.Others, pick(t, "alsoIdent", g.others))
	}
	return c
}

func checkNoise(c NoiseCase, info *pbt.Info) error {
	dir := ""
	load := func(text, name string) (*jsonschema.Schema, error) {
		if !c.File {
			return schemaValue(text)
		}
		if dir == "" {
			var err error
			if dir, err = scratchDir(); err != nil {
				return nil, err
			}
		}
		p := filepath.Join(dir, name)
		if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
			return nil, pbt.Harness(err)
		}
		return jsonschema.SchemaFromFile(p, "")
	}
	defer func() {
		if dir != "" {
			os.RemoveAll(dir)
		}
	}()
	build := transform.NewTransformer
	if c.Format == "xml" {
		build = transform.NewXMLTransformer
	}
	ps, perr := load(c.Plain, "plain.json")
	ns, nerr := load(c.Noisy, "noisy.json")
	if perr != nil || nerr != nil {
		if (perr == nil) != (nerr == nil) {
			return fmt.Errorf("loading the plain schema: %v, the noisy one: %v", perr, nerr)
		}
		return pbt.Skip("schema does not load")
	}
	plain, perr := build(ps, c.Ident)
	for _, o := range c.Others {
		if tr, err := build(ns, o); err == nil {
			tr.TransformNoValidation([]byte(c.Inputs[0]))
			info.Label("transformer of another identifier used")
		} else {
			info.Label("transformer of another identifier refused")
		}
	}
	loud, nerr := build(ns, c.Ident)
	if (perr == nil) != (nerr == nil) {
		return fmt.Errorf("building with the plain schema: %v, with the noisy one: %v", perr, nerr)
	}
	if perr != nil {
		return pbt.Skip("refused schema")
	}
	okN := 0
	for i, in := range c.Inputs {
		a, b := call(plain, false, []byte(in)), call(loud, false, []byte(in))
		if !sameOutcome(a, b) {
			return fmt.Errorf("input %d: the plain schema gives %v\nthe noisy one %v", i, a, b)
		}
		if a.err == nil && a.out != "null" {
			okN++
		}
		if c.File {
			a, b := call(plain, true, []byte(in)), call(loud, true, []byte(in))
			if !sameOutcome(a, b) {
				return fmt.Errorf("input %d, validating: the plain schema gives %v\nthe noisy one %v", i, a, b)
			}
		}
	}
	info.Label(c.Format)
	info.LabelIf(c.File, "schema file")
	info.Nontrivial = okN > 0 && c.Plain != c.Noisy
	return nil
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "T10",
		Subs: []*pbt.Sub{
			pbt.NewSub("noise", "schemas (JSON and XML) with and without sections of other identifiers (valid, invalid, failing), paths of the other format, descriptions and annotations holding misleading keywords, and transformers of other identifiers built and used first; both must give the same outcome on up to three inputs; non-trivial: the schemas differ and some output is non-empty", 30000, 200000, genNoise, checkNoise),
		},
	})
}
