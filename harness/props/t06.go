package props

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"pgregory.net/rapid"

	"github.com/GannettDigital/jstransform/jsonschema"
	"github.com/GannettDigital/jstransform/transform"

	"verif/harness/model"
	"verif/harness/pbt"
)

// GateCase is a schema with constraints, spread over files, and inputs for it.
type GateCase struct {
	Format string            `json:"format"`
	Schema string            `json:"schema"` // the constraints with nothing moved to other files
	Files  map[string]string `json:"files"`  // root.json and what it refers to
	Ident  string            `json:"ident"`
	Inputs []string          `json:"inputs"`
}

// constrain adds constraint keywords to a schema, mostly ones the values satisfy.
type constrainer struct {
	t    *rapid.T
	left int // how many keywords may still be added
	p    int
	badP int
}

func typesOf(n map[string]any) map[string]bool {
	out := map[string]bool{}
	switch x := n["type"].(type) {
	case string:
		out[x] = true
	case []any:
		for _, e := range x {
			if s, ok := e.(string); ok {
				out[s] = true
			}
		}
	}
	return out
}

func (c *constrainer) node(n map[string]any, vals []any) {
	t := c.t
	ts := typesOf(n)
	for i := 0; i < 2 && c.left > 0 && pct(t, c.p, "constrain"); i++ {
		c.left--
		c.add(n, ts, vals)
		// contradictory bounds are no valid schema
		for _, k := range []string{"Length", "Items", "Properties", "imum"} {
			lo, ok1 := n["min"+k].(float64)
			hi, ok2 := n["max"+k].(float64)
			if ok1 && ok2 && lo > hi {
				delete(n, "max"+k)
			}
		}
	}
	if ps, ok := n["properties"].(map[string]any); ok {
		for _, k := range sortedKeys(ps) {
			var sub []any
			for _, v := range vals {
				if m, ok := v.(map[string]any); ok {
					if e, ok := m[k]; ok {
						sub = append(sub, e)
					}
				}
			}
			if p, ok := ps[k].(map[string]any); ok {
				c.node(p, sub)
			}
		}
	}
	if it, ok := n["items"].(map[string]any); ok {
		var sub []any
		for _, v := range vals {
			if l, ok := v.([]any); ok {
				sub = append(sub, l...)
			}
		}
		c.node(it, sub)
	}
}

func (c *constrainer) add(n map[string]any, ts map[string]bool, vals []any) {
	t := c.t
	var v any
	if len(vals) > 0 {
		v = vals[rapid.IntRange(0, len(vals)-1).Draw(t, "val")]
	}
	bad := pct(t, c.badP, "bad")
	d := 0
	if bad {
		d = rapid.IntRange(1, 3).Draw(t, "by")
	}
	if pct(t, 20, "enum") {
		e := []any{"only", 3.25}
		seen := map[string]bool{`"only"`: true, "3.25": true}
		if !bad && v != nil {
			for i, x := range vals {
				if k := mustJSON(x); i < 20 && !seen[k] {
					seen[k] = true
					e = append(e, x)
				}
			}
		}
		if pct(t, 20, "const") && !bad && len(vals) == 1 {
			n["const"] = v
		} else {
			n["enum"] = e
		}
		return
	}
	switch {
	case ts["object"]:
		ps, _ := n["properties"].(map[string]any)
		switch rapid.IntRange(0, 4).Draw(t, "objKey") {
		case 0, 1:
			var req []any
			m, _ := v.(map[string]any)
			for _, k := range sortedKeys(ps) {
				if _, ok := m[k]; ok && pct(t, 50, "req") || bad && len(req) == 0 && m != nil && !ok {
					req = append(req, k)
				}
			}
			if len(req) > 0 {
				n["required"] = req
			}
		case 2:
			n["additionalProperties"] = false
		case 3:
			n["minProperties"] = float64(1 + d)
		default:
			n["maxProperties"] = float64(max(0, len(ps)-d))
		}
	case ts["array"]:
		lo, hi := 0, 0
		for i, x := range vals {
			if l, ok := x.([]any); ok {
				if i == 0 || len(l) < lo {
					lo = len(l)
				}
				hi = max(hi, len(l))
			}
		}
		switch rapid.IntRange(0, 2).Draw(t, "arrKey") {
		case 0:
			n["minItems"] = float64(lo + d)
		case 1:
			n["maxItems"] = float64(max(0, hi-d))
		default:
			n["uniqueItems"] = true
		}
	case ts["number"] || ts["integer"]:
		var lo, hi float64
		first := true
		for _, x := range vals {
			if f, ok := x.(float64); ok {
				if first || f < lo {
					lo = f
				}
				if first || f > hi {
					hi = f
				}
				first = false
			}
		}
		switch rapid.IntRange(0, 4).Draw(t, "numKey") {
		case 0:
			n["minimum"] = lo + float64(d)
		case 1:
			n["maximum"] = hi - float64(d)
		case 2:
			n["exclusiveMinimum"] = lo - 1 + float64(d)
		case 3:
			n["exclusiveMaximum"] = hi + 1 - float64(d)
		default:
			n["multipleOf"] = pick(t, "mult", []any{1.0, 2.0, 0.5, 0.01})
		}
	case ts["string"]:
		lo, hi := 0, 0
		var words []string
		for i, x := range vals {
			if s, ok := x.(string); ok {
				l := len([]rune(s))
				if i == 0 || l < lo {
					lo = l
				}
				hi = max(hi, l)
				words = append(words, regexp.QuoteMeta(s))
			}
		}
		switch rapid.IntRange(0, 2).Draw(t, "strKey") {
		case 0:
			n["minLength"] = float64(lo + d)
		case 1:
			n["maxLength"] = float64(max(0, hi-d))
		default:
			if bad || len(words) == 0 {
				n["pattern"] = pick(t, "pat", []string{"^[a-z]+$", "^[0-9]*$", "o", "^.{2,7}$"})
			} else {
				n["pattern"] = "^(" + strings.Join(words, "|") + ")$"
			}
		}
	}
}

func genGate(t *rapid.T) GateCase {
	c := GateCase{Format: pick(t, "format", []string{"json", "json", "json", "xml"}), Ident: "x"}
	var schema map[string]any
	var want any
	if c.Format == "xml" {
		x := genX(t)
		exp, _, err := modelX(x)
		if err == nil {
			want = exp.want
		}
		json.Unmarshal([]byte(x.Schema), &schema)
		c.Inputs = append(c.Inputs, x.xml())
		for n := rapid.IntRange(0, 3).Draw(t, "more"); n > 0; n-- {
			c.Inputs = append(c.Inputs, xmlString(mutateXML(t, x.Doc, 8)))
		}
	} else {
		cfg := defaultJ
		cfg.opsP, cfg.missP, cfg.badOpP, cfg.defP = 8, 12, 1, 35
		j := genJ(cfg)(t)
		c.Ident = j.Ident
		exp, _, _, err := modelJ(j)
		if err == nil {
			want = exp.want
		}
		json.Unmarshal([]byte(j.Schema), &schema)
		c.Inputs = append(c.Inputs, j.Input)
		var v any
		json.Unmarshal([]byte(j.Input), &v)
		for n := rapid.IntRange(0, 3).Draw(t, "more"); n > 0; n-- {
			c.Inputs = append(c.Inputs, mustJSON(mutateTree(t, v, 6)))
		}
	}
	con := &constrainer{t: t, left: rapid.IntRange(0, 5).Draw(t, "keywords"), p: pick(t, "density", []int{15, 50}), badP: pick(t, "badness", []int{0, 15, 40})}
	var vals []any
	if want != nil {
		vals = []any{want}
	}
	con.node(schema, vals)
	if ps, ok := schema["properties"].(map[string]any); ok && len(ps) > 1 && pct(t, 25, "allOf") {
		// some of the root's properties live in allOf entries
		part := map[string]any{}
		for _, k := range sortedKeys(ps) {
			if len(ps) > 1 && pct(t, 50, "part") {
				part[k] = ps[k]
				delete(ps, k)
			}
		}
		if len(part) > 0 {
			entry := map[string]any{"type": "object", "properties": part}
			if pct(t, 40, "partReq") {
				entry["required"] = []any{sortedKeys(part)[0]}
			}
			schema["allOf"] = []any{entry}
		}
	}
	c.Schema = mustJSON(schema)
	sp := &splitter{t: t, p: pick(t, "splitP", []int{0, 10, 40}), files: map[string]map[string]any{"root.json": schema}, kinds: []string{"local", "file", "def", "dir"}}
	sp.children("root.json", schema)
	if l, ok := schema["allOf"].([]any); ok {
		e := l[0].(map[string]any)
		if rapid.Bool().Draw(t, "allOfFile") {
			sp.files["part.json"] = e
			sp.edge("root.json", "part.json")
			sp.children("part.json", e)
			l[0] = map[string]any{"$ref": "part.json"}
		} else {
			sp.children("root.json", e)
		}
	}
	c.Files = filesText(sp.files)
	return c
}

func checkGate(c GateCase, info *pbt.Info) error {
	dir, err := scratchDir()
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	if err := writeFiles(dir, c.Files); err != nil {
		return err
	}
	sch, err := model.DecodeNumber([]byte(c.Schema))
	if err != nil {
		return pbt.Harness(err)
	}
	s, err := jsonschema.SchemaFromFile(filepath.Join(dir, "root.json"), "")
	if err != nil {
		return fmt.Errorf("SchemaFromFile: %v", err)
	}
	build := transform.NewTransformer
	if c.Format == "xml" {
		build = transform.NewXMLTransformer
	}
	plain, err := build(s, c.Ident)
	if err != nil {
		return fmt.Errorf("building the transformer: %v", err)
	}
	strict, err := build(s, c.Ident)
	if err != nil {
		return err
	}
	info.Label(c.Format)
	info.LabelIf(len(c.Files) > 1, "several files")
	for i, in := range c.Inputs {
		base := call(plain, false, []byte(in))
		raw, terr := strict.Transform([]byte(in))
		got := outcome{terr, string(raw)}
		if terr != nil && len(raw) != 0 {
			return fmt.Errorf("input %d: Transform returned an error and output: %v, %s", i, terr, raw)
		}
		if base.err != nil {
			info.Label("transform fails")
			if terr == nil {
				return fmt.Errorf("input %d: Transform gave %v although TransformNoValidation gave %v", i, got, base)
			}
			continue
		}
		doc, err := model.DecodeNumber([]byte(base.out))
		if err != nil {
			return fmt.Errorf("input %d: output is no JSON: %s", i, base.out)
		}
		v := model.Validate(sch, doc, func(string) (any, bool) { return nil, false })
		if terr == nil && got.out != base.out {
			return fmt.Errorf("input %d: Transform gave %v, TransformNoValidation %v", i, got, base)
		}
		switch {
		case len(v.Bad) > 0:
			if terr == nil {
				return fmt.Errorf("input %d: Transform returned an output that violates the schema (%v): %s", i, v.Bad, got.out)
			}
			for _, b := range v.Bad {
				info.Label("rejected for " + b[strings.LastIndex(b, ": ")+2:])
			}
		case len(v.Unknown) > 0:
			info.Label("left open")
		default:
			if terr != nil {
				return fmt.Errorf("input %d: the output %s satisfies the schema, but Transform gave %v", i, base.out, terr)
			}
			info.Label("accepted")
			if base.out != "null" {
				info.Nontrivial = true
			}
		}
		if len(v.Bad) > 0 && doc != nil {
			info.Nontrivial = true
		}
	}
	return nil
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "T06",
		Subs: []*pbt.Sub{
			pbt.NewSub("gate", "schemas with up to five constraint keywords (enum, const, required, bounds, pattern, additionalProperties, item and property counts, allOf) at any depth, spread over files and definitions, with up to four inputs; the outcome of Transform is derived from TransformNoValidation and an independent validator; non-trivial: some non-null output was judged accepted or rejected", 16000, 200000, genGate, checkGate),
		},
	})
}
