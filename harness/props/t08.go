package props

import (
	"encoding/json"
	"fmt"
	"reflect"

	"pgregory.net/rapid"

	"github.com/GannettDigital/jstransform/transform"

	"verif/harness/model"
	"verif/harness/pbt"
)

var arrayJ = jcfg{transP: 55, opsP: 8, defP: 25, multiP: 15, arrayP: 60, maxProps: 3, depth: 4, rootArr: 20, missP: 12, longArr: 25, badOpP: 1}

// ScopeCase is an array field whose items only use themselves and the unrelated part of the document.
type ScopeCase struct {
	Mode string `json:"mode"`
	Item string `json:"item"` // the schema of the items
	Doc  any    `json:"doc"`
	List []any  `json:"list"`
}

var scopeModes = []string{"transform", "same", "default", "object", "star", "root"}

// scopeSelf is the wildcard path of the list in the output.
func scopeSelf(mode string) string {
	switch mode {
	case "root":
		return "$"
	case "object":
		return "$.out.zlist"
	}
	return "$.zlist"
}

func genScope(t *rapid.T) ScopeCase {
	cfg := arrayJ
	cfg.depth, cfg.arrayP = 3, 45
	cfg.opsP = 12
	c := ScopeCase{Mode: pick(t, "mode", scopeModes)}
	n := rapid.IntRange(1, 6).Draw(t, "len")
	switch rapid.IntRange(0, 3).Draw(t, "lenKind") {
	case 0:
		n = rapid.IntRange(7, 15).Draw(t, "len2")
	case 1:
		n = rapid.IntRange(10, 40).Draw(t, "len3")
	}
	// some different items, repeated and varied
	var kinds []any
	for i := rapid.IntRange(1, 3).Draw(t, "kinds"); i > 0; i-- {
		switch {
		case pct(t, 70, "objItem"):
			m := genMap(t, 3, cfg)
			for len(m) == 0 {
				m[genKey(t)] = genVal(t, 2, cfg)
			}
			kinds = append(kinds, m)
		case pct(t, 50, "scalarItem"):
			kinds = append(kinds, genScalarNN(t))
		default:
			kinds = append(kinds, genVal(t, 2, cfg))
		}
	}
	for i := 0; i < n; i++ {
		v := mutateTree(t, pick(t, "kindOf", kinds), pick(t, "vary", []int{0, 0, 6, 20}))
		if l, ok := v.([]any); v == nil || ok && len(l) == 0 {
			v = fmt.Sprintf("item %d", i)
		}
		c.List = append(c.List, v)
	}
	doc := genMap(t, 3, cfg)
	c.Doc = doc
	g := &jg{t: t, cfg: cfg, ident: "x", budget: 14}
	g.input = map[string]any{"doc": doc}
	if c.Mode != "root" {
		collect("$.doc", doc, &g.abs, 80)
	} else {
		g.abs = []pv{{"$.nowhere", nil}}
	}
	var crel []pv
	for _, it := range c.List {
		collect("@", it, &crel, 60)
	}
	if len(crel) == 0 {
		crel = []pv{{"@.zz", nil}}
	}
	self := scopeSelf(c.Mode) + "[*]"
	g.arrays = []string{self}
	c.Item = mustJSON(g.node(cfg.depth, c.List[0], crel, self, false))
	return c
}

// run transforms a list as the source of the array field.
func (c ScopeCase) run(list []any) (outcome, []any, error) {
	var item any
	if err := json.Unmarshal([]byte(c.Item), &item); err != nil {
		return outcome{}, nil, pbt.Harness(err)
	}
	field := map[string]any{"type": "array", "items": item}
	in := map[string]any{"doc": c.Doc, "src": list}
	from := func(p string) {
		field["transform"] = map[string]any{"x": map[string]any{"from": []any{map[string]any{"jsonPath": p}}}}
	}
	schema := map[string]any{"type": "object", "properties": map[string]any{"zlist": field}}
	var input any = in
	switch c.Mode {
	case "transform":
		from("$.src")
	case "same":
		in["zlist"] = list
		delete(in, "src")
	case "default":
		field["default"] = list
		delete(in, "src")
	case "object":
		from("$.src")
		schema = map[string]any{"type": "object", "properties": map[string]any{"out": map[string]any{"type": "object", "properties": map[string]any{"zlist": field}}}}
	case "star":
		from("$.src[*]")
	case "root":
		schema = map[string]any{"type": "array", "items": item}
		input = list
	}
	s, err := schemaValue(mustJSON(schema))
	if err != nil {
		return outcome{}, nil, err
	}
	tr, err := transform.NewTransformer(s, "x")
	if err != nil {
		return outcome{}, nil, fmt.Errorf("NewTransformer: %v", err)
	}
	o := runJ(tr, mustJSON(input))
	if o.err != nil {
		return o, nil, nil
	}
	v, err := model.DecodeJSON([]byte(o.out))
	if err != nil {
		return o, nil, fmt.Errorf("output is no JSON: %s", o.out)
	}
	m, _ := v.(map[string]any)
	switch c.Mode {
	case "root":
		l, _ := v.([]any)
		return o, l, nil
	case "object":
		m, _ = m["out"].(map[string]any)
	}
	l, _ := m["zlist"].([]any)
	return o, l, nil
}

func checkScope(c ScopeCase, info *pbt.Info) error {
	whole, got, err := c.run(c.List)
	if err != nil {
		return err
	}
	var want []any
	fails := -1
	nonEmpty := 0
	for i, it := range c.List {
		o, one, err := c.run([]any{it})
		if err != nil {
			return err
		}
		if o.err != nil {
			fails = i
			break
		}
		if len(one) > 1 {
			return fmt.Errorf("the list holding only item %d gave %d items: %s", i, len(one), o.out)
		}
		nonEmpty += len(one)
		want = append(want, one...)
	}
	info.Label("mode " + c.Mode)
	if fails >= 0 || whole.err != nil {
		info.Label("error")
		if (fails >= 0) != (whole.err != nil) {
			return fmt.Errorf("the whole list gave %v, but alone item %d fails", whole, fails)
		}
		return nil
	}
	if !reflect.DeepEqual(got, want) {
		return fmt.Errorf("the list gives other items than its items alone\n got: %s\nwant: %s", mustJSON(got), mustJSON(want))
	}
	// the reverse list, twice
	var rev, wantRev []any
	for k := 0; k < 2; k++ {
		for i := len(c.List) - 1; i >= 0; i-- {
			rev = append(rev, c.List[i])
		}
		for i := len(want) - 1; i >= 0; i-- {
			wantRev = append(wantRev, want[i])
		}
	}
	o, got, err := c.run(rev)
	if err != nil {
		return err
	}
	if o.err != nil || !reflect.DeepEqual(got, wantRev) {
		return fmt.Errorf("the reversed list twice gives %v\nwant: %s", o, mustJSON(wantRev))
	}
	info.LabelIf(nonEmpty >= 10, "ten or more items")
	info.LabelIf(nonEmpty < len(c.List), "some items resolve to nothing")
	info.Nontrivial = nonEmpty >= 2
	return nil
}

// XScopeCase is the same for XML: rows under the root element.
type XScopeCase struct {
	Item string         `json:"item"`
	Rows []*model.XNode `json:"rows"`
	Path string         `json:"path"`
}

func genXScope(t *rapid.T) XScopeCase {
	g := &xg{t: t, budget: 60}
	c := XScopeCase{Path: pick(t, "path", []string{"/r/row", "//row", "/r/*", "/*/row", "/r/row[@on]"})}
	for n := rapid.IntRange(1, 16).Draw(t, "rows"); n > 0; n-- {
		if g.budget < 10 {
			g.budget = 10
		}
		r := g.elem("row", 2)
		r.Attrs = append(r.Attrs, [2]string{"on", "1"})
		c.Rows = append(c.Rows, r)
	}
	c.Item = mustJSON(g.node(c.Rows, false, true, 2))
	return c
}

func (c XScopeCase) run(rows []*model.XNode) (outcome, []any, error) {
	var item any
	if err := json.Unmarshal([]byte(c.Item), &item); err != nil {
		return outcome{}, nil, pbt.Harness(err)
	}
	schema := map[string]any{"type": "object", "properties": map[string]any{"zlist": map[string]any{"type": "array", "items": item,
		"transform": map[string]any{"x": map[string]any{"from": []any{map[string]any{"xmlPath": c.Path}}}}}}}
	s, err := schemaValue(mustJSON(schema))
	if err != nil {
		return outcome{}, nil, err
	}
	tr, err := transform.NewXMLTransformer(s, "x")
	if err != nil {
		return outcome{}, nil, fmt.Errorf("NewXMLTransformer: %v", err)
	}
	o := runJ(tr, xmlString(&model.XNode{Name: "r", Attrs: [][2]string{{"xmlns:n", "urn:n"}}, Kids: rows}))
	if o.err != nil {
		return o, nil, nil
	}
	v, err := model.DecodeJSON([]byte(o.out))
	if err != nil {
		return o, nil, fmt.Errorf("output is no JSON: %s", o.out)
	}
	m, _ := v.(map[string]any)
	l, _ := m["zlist"].([]any)
	return o, l, nil
}

func checkXScope(c XScopeCase, info *pbt.Info) error {
	whole, got, err := c.run(c.Rows)
	if err != nil {
		return err
	}
	var want []any
	fails := -1
	for i, r := range c.Rows {
		o, one, err := c.run([]*model.XNode{r})
		if err != nil {
			return err
		}
		if o.err != nil {
			fails = i
			break
		}
		want = append(want, one...)
	}
	if fails >= 0 || whole.err != nil {
		info.Label("error")
		if (fails >= 0) != (whole.err != nil) {
			return fmt.Errorf("all rows gave %v, but alone row %d fails", whole, fails)
		}
		return nil
	}
	if !reflect.DeepEqual(got, want) {
		return fmt.Errorf("the rows give other items than alone\n got: %s\nwant: %s", mustJSON(got), mustJSON(want))
	}
	info.LabelIf(len(want) >= 10, "ten or more items")
	info.Nontrivial = len(want) >= 2
	return nil
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "T08",
		Subs: []*pbt.Sub{
			pbt.NewSub("model", "array-heavy schemas (nested arrays, root arrays, lists of more than ten items, `@` and absolute item paths) compared with the reference model; non-trivial: non-empty output and at least two different resolution routes", 40000, 300000, genJ(arrayJ), checkJModel),
			pbt.NewSub("scope", "one array field (from a transform, the same path, the default, in an object, as the root) with up to 40 items whose schema refers to the item and to an unrelated part of the document; the list must give what each item gives alone, in order, also reversed and doubled; non-trivial: two or more output items", 10000, 80000, genScope, checkScope),
			pbt.NewSub("scope-xml", "the same for rows of an XML document; non-trivial: two or more output items", 8000, 60000, genXScope, checkXScope),
		},
	})
}
