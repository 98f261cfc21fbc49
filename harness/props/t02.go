package props

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"github.com/GannettDigital/jstransform/transform"

	"verif/harness/pbt"
)

// source of a method case: the value the input holds for it, or none.
type methodSource struct {
	State string `json:"state"` // value, absent, null, empty (an empty list)
	Value any    `json:"value,omitempty"`
	Upper bool   `json:"upper,omitempty"` // changeCase on it (strings)
}

// MethodCase is one transform with its sources; the same transformer is used for several documents.
type MethodCase struct {
	Format string           `json:"format"` // json, xml
	Kind   string           `json:"kind"`
	Method string           `json:"method"`
	Delim  *string          `json:"delim"`
	InArr  bool             `json:"inArr"` // the field is in the items of an array, one document per item
	Docs   [][]methodSource `json:"docs"`
	Ops    []bool           `json:"ops"`
}

func genMethod(t *rapid.T) MethodCase {
	c := MethodCase{Format: pick(t, "format", []string{"json", "json", "xml"}), Kind: pick(t, "kind", []string{"string", "string", "string", "number", "boolean", "integer", "free"}),
		Method: pick(t, "method", []string{"", "first", "last", "last", "concatenate", "concatenate", "concatenate"}), InArr: rapid.Bool().Draw(t, "inArr")}
	if c.Format == "xml" {
		c.Kind = pick(t, "xkind", []string{"string", "string", "integer", "boolean"})
	}
	n := rapid.IntRange(1, 8).Draw(t, "n")
	if pct(t, 60, "delim") {
		d := pick(t, "delimiter", []string{"", "/", ", ", "--", " ", "\n", "%d", "é"})
		c.Delim = &d
	}
	for i := 0; i < n; i++ {
		c.Ops = append(c.Ops, c.Kind == "string" && pct(t, 15, "upper"))
	}
	nd := rapid.IntRange(1, 4).Draw(t, "docs")
	odd := pct(t, 25, "oddTypes")
	missing := pick(t, "missing", []int{10, 50, 85})
	for d := 0; d < nd; d++ {
		var doc []methodSource
		for i := 0; i < n; i++ {
			s := methodSource{State: "value"}
			switch {
			case pct(t, missing, "gone"):
				s.State = pick(t, "state", []string{"absent", "absent", "null", "empty"})
				if c.Format == "xml" {
					s.State = "absent"
				}
			case c.Kind == "free":
				if odd && rapid.Bool().Draw(t, "scalarInstead") {
					s.Value = genScalarNN(t)
				} else {
					s.Value = map[string]any{"k": genStr(t), "i": i}
				}
			case c.Kind == "string":
				s.Value = pick(t, "sv", []string{"", "", "a", "b", "Hello World", "x/y", "é", "12", "true", strconv.Itoa(i)})
				if c.Format == "json" && odd && !c.Ops[i] && rapid.Bool().Draw(t, "objInstead") {
					s.Value = map[string]any{"k": "v"} // no string: kept as it is
				}
			case c.Kind == "boolean":
				s.Value = rapid.Bool().Draw(t, "bv")
			default:
				s.Value = float64(rapid.IntRange(-3, 40).Draw(t, "nv"))
			}
			doc = append(doc, s)
		}
		c.Docs = append(c.Docs, doc)
	}
	return c
}

func genScalarNN(t *rapid.T) any {
	v := genScalar(t)
	if v == nil {
		return "nn"
	}
	return v
}

// expected folds the sources of one document by hand.
func (c MethodCase) expected(doc []methodSource) (any, error) {
	var vals []any
	for i, s := range doc {
		if s.State != "value" {
			continue
		}
		v := s.Value
		if str, ok := v.(string); ok && c.Ops[i] {
			v = strings.ToUpper(str)
		}
		vals = append(vals, v)
	}
	if len(vals) == 0 {
		return nil, nil
	}
	switch c.Method {
	case "", "first":
		return vals[0], nil
	case "last":
		return vals[len(vals)-1], nil
	}
	if len(vals) == 1 {
		return vals[0], nil
	}
	out, sep := "", ""
	for _, v := range vals {
		s, ok := v.(string)
		if !ok {
			return nil, fmt.Errorf("no strings")
		}
		if s == "" {
			continue
		}
		out += sep + s
		if c.Delim != nil {
			sep = *c.Delim
		}
	}
	return out, nil
}

func (c MethodCase) schema(perm []int) string {
	base := "$."
	if c.InArr {
		base = "@."
	}
	if c.Format == "xml" {
		base = "/r/"
		if c.InArr {
			base = ""
		}
	}
	var from []any
	for _, i := range perm {
		in := map[string]any{}
		key := "jsonPath"
		if c.Format == "xml" {
			key = "xmlPath"
		}
		if i < 0 {
			in[key] = base + "nowhere"
		} else {
			in[key] = fmt.Sprintf("%ss%d", base, i)
			if c.Ops[i] {
				in["operations"] = []any{op("changeCase", "to", "upper")}
			}
		}
		from = append(from, in)
	}
	tr := map[string]any{"from": from}
	if c.Method != "" {
		tr["method"] = c.Method
	}
	if c.Delim != nil {
		tr["methodOptions"] = map[string]any{"concatenateDelimiter": *c.Delim}
	}
	f := map[string]any{"type": c.Kind, "transform": map[string]any{"x": tr}}
	if c.Kind == "free" {
		f["type"], f["properties"] = "object", map[string]any{}
	}
	props := map[string]any{"out": f}
	if c.InArr {
		l := map[string]any{"type": "array", "items": map[string]any{"type": "object", "properties": props}}
		p := map[string]any{"jsonPath": "$.l"}
		if c.Format == "xml" {
			p = map[string]any{"xmlPath": "/r/i"}
		}
		l["transform"] = map[string]any{"x": map[string]any{"from": []any{p}}}
		props = map[string]any{"list": l}
	}
	return mustJSON(map[string]any{"type": "object", "properties": props})
}

func (c MethodCase) input(docs [][]methodSource) string {
	if c.Format == "xml" {
		var b strings.Builder
		b.WriteString("<r>")
		for _, d := range docs {
			if c.InArr {
				b.WriteString("<i><pad><q/></pad>")
			}
			for i, s := range d {
				if s.State == "value" {
					fmt.Fprintf(&b, "<s%d>%s</s%d>", i, fmt.Sprint(s.Value), i)
				}
			}
			if c.InArr {
				b.WriteString("</i>")
			}
		}
		b.WriteString("</r>")
		return b.String()
	}
	var items []any
	for _, d := range docs {
		m := map[string]any{}
		for i, s := range d {
			k := fmt.Sprintf("s%d", i)
			switch s.State {
			case "value":
				m[k] = s.Value
			case "null":
				m[k] = nil
			case "empty":
				m[k] = []any{}
			}
		}
		items = append(items, m)
	}
	if c.InArr {
		return mustJSON(map[string]any{"l": items})
	}
	return mustJSON(items[0])
}

func newTr(format, schema, ident string) (*transform.Transformer, error) {
	s, err := schemaValue(schema)
	if err != nil {
		return nil, err
	}
	if format == "xml" {
		return transform.NewXMLTransformer(s, ident)
	}
	return transform.NewTransformer(s, ident)
}

func checkMethod(c MethodCase, info *pbt.Info) error {
	n := len(c.Docs[0])
	perm := make([]int, n)
	for i := range perm {
		perm[i] = i
	}
	// the same sources with absent ones in between
	padded := []int{-1}
	for i := range perm {
		padded = append(padded, i, -1)
	}
	present := 0
	for _, d := range c.Docs {
		for _, s := range d {
			if s.State == "value" {
				present++
			}
		}
	}
	info.Label("method "+c.Method, c.Format, c.Kind)
	info.LabelIf(c.InArr, "inside array items")
	info.Nontrivial = present >= 2 && n >= 2
	wrap := func(docs [][]methodSource) expectation {
		var items []any
		for _, d := range docs {
			v, err := c.expected(d)
			if err != nil {
				return expectation{err: err}
			}
			if v != nil {
				items = append(items, map[string]any{"out": v})
			}
		}
		if len(items) == 0 {
			return expectation{}
		}
		if c.InArr {
			return expectation{want: canonMust(map[string]any{"list": items})}
		}
		return expectation{want: canonMust(items[0])}
	}
	for _, p := range [][]int{perm, padded} {
		tr, err := newTr(c.Format, c.schema(p), "x")
		if err != nil {
			return fmt.Errorf("NewTransformer: %v", err)
		}
		for round := 0; round < 3; round++ {
			if c.InArr {
				e := wrap(c.Docs)
				info.LabelIf(e.err != nil, "error expected")
				if err := e.compare(runJ(tr, c.input(c.Docs))); err != nil {
					return fmt.Errorf("round %d: %v", round, err)
				}
				continue
			}
			for _, d := range c.Docs {
				one := [][]methodSource{d}
				e := wrap(one)
				info.LabelIf(e.err != nil, "error expected")
				if err := e.compare(runJ(tr, c.input(one))); err != nil {
					return fmt.Errorf("round %d: %v", round, err)
				}
			}
		}
	}
	return nil
}

func canonMust(v any) any {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	var out any
	if err := json.Unmarshal(b, &out); err != nil {
		panic(err)
	}
	return out
}

func init() {
	multi := defaultJ
	multi.multiP, multi.transP, multi.opsP = 85, 80, 10
	pbt.Register(&pbt.Property{
		ID: "T02",
		Subs: []*pbt.Sub{
			pbt.NewSub("fold", "one field with up to eight sources, each present, absent, null or an empty list, in JSON or XML, in the root or in array items; the value is compared with a fold of the sources, three times on the same transformer and again with absent sources in between; non-trivial: two or more sources present", 60000, 600000, genMethod, checkMethod),
			pbt.NewSub("model", "generated schemas whose transforms mostly have several sources, compared with the reference model; non-trivial: non-empty output and at least two different resolution routes", 30000, 300000, genJ(multi), checkJModel),
		},
	})
}
