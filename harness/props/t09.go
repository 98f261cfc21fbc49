package props

import (
	"fmt"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"github.com/GannettDigital/jstransform/transform"

	"verif/harness/model"
	"verif/harness/pbt"
)

// XCase is a schema with xmlPath instructions and a document.
type XCase struct {
	Schema string       `json:"schema"`
	Doc    *model.XNode `json:"doc"`
	Decl   bool         `json:"decl"`
}

func (c XCase) xml() string {
	var b strings.Builder
	if c.Decl {
		b.WriteString(`<?xml version="1.0" encoding="UTF-8"?>` + "\n")
	}
	c.Doc.Render(&b)
	return b.String()
}

type xg struct {
	t      *rapid.T
	budget int
}

var elemNames = []string{"a", "b", "c", "item", "name", "n:a", "row-x", "Val"}
var attrNames = []string{"id", "k", "type", "data-x"}

func (g *xg) text() string {
	t := g.t
	return pick(t, "xtext", []string{"one", "two", "12", "-3", "4.5", "true", "false", "00:13", "01:02:03", "2018-06-25T20:21:13Z", "a|b|C", "Hello World", "é✓", "x & <y>", "extra-base-hit", "1", "0", "abc", "7", " pad ", "2019-05-16"})
}

func (g *xg) elem(name string, depth int) *model.XNode {
	t := g.t
	g.budget--
	n := &model.XNode{Name: name}
	for _, a := range attrNames {
		if pct(t, 22, "attr") {
			n.Attrs = append(n.Attrs, [2]string{a, g.text()})
		}
	}
	form := rapid.IntRange(0, 9).Draw(t, "form")
	if depth <= 2 && chance(t, 4, "emptyLeaf") {
		n.Attrs = nil
		if chance(t, 20, "emptyAttr") {
			n.Attrs = [][2]string{{"id", ""}}
		}
		return n
	}
	if depth <= 0 || g.budget <= 0 || form < 3 {
		switch rapid.IntRange(0, 7).Draw(t, "leaf") {
		case 0:
			if chance(t, 30, "blank") {
				n.Kids = append(n.Kids, &model.XNode{Text: pick(t, "blankText", []string{" ", "\n  ", "\u00a0"})})
			}
		case 1:
			n.Kids = append(n.Kids, &model.XNode{Text: g.text(), CDATA: true})
		case 2:
			n.Kids = append(n.Kids, &model.XNode{Text: " c ", Comment: true}, &model.XNode{Text: g.text()})
		default:
			n.Kids = append(n.Kids, &model.XNode{Text: g.text()})
		}
		return n
	}
	ws := pct(t, 25, "indent")
	mixed := pct(t, 8, "mixed")
	names := []string{pick(t, "en", elemNames), pick(t, "en", elemNames), pick(t, "en", elemNames)}
	for k := rapid.IntRange(1, 6).Draw(t, "nkids"); k > 0; k-- {
		if ws {
			n.Kids = append(n.Kids, &model.XNode{Text: "\n  "})
		}
		if mixed && rapid.Bool().Draw(t, "mixedText") {
			n.Kids = append(n.Kids, &model.XNode{Text: g.text()})
		}
		if pct(t, 5, "comment") {
			n.Kids = append(n.Kids, &model.XNode{Text: "note", Comment: true})
		}
		if pct(t, 75, "repeatName") {
			n.Kids = append(n.Kids, g.elem(pick(t, "rn", names), depth-1))
		} else {
			n.Kids = append(n.Kids, g.elem(pick(t, "en", elemNames), depth-1))
		}
	}
	return n
}

type xp struct {
	path string
	n    *model.XNode // nil for an attribute
	leaf bool
	text string
}

// paths lists relative paths below the nodes.
func xpaths(nodes []*model.XNode, prefix string, depth int, out *[]xp) {
	if depth == 0 || len(*out) > 80 {
		return
	}
	seen := map[string]bool{}
	var names []string
	kids := map[string][]*model.XNode{}
	for _, n := range nodes {
		for _, a := range n.Attrs {
			if !strings.HasPrefix(a[0], "xmlns") && !seen["@"+a[0]] {
				seen["@"+a[0]] = true
				*out = append(*out, xp{prefix + "@" + a[0], nil, true, a[1]})
			}
		}
		for _, k := range n.Kids {
			if k.Name != "" {
				if kids[k.Name] == nil {
					names = append(names, k.Name)
				}
				kids[k.Name] = append(kids[k.Name], k)
			}
		}
	}
	sort.Strings(names)
	for _, name := range names {
		k := kids[name]
		leaf := true
		for _, c := range k[0].Kids {
			if c.Name != "" {
				leaf = false
			}
		}
		*out = append(*out, xp{prefix + name, k[0], leaf, k[0].InnerText()})
		xpaths(k, prefix+name+"/", depth-1, out)
	}
}

// path draws a path for the kind from a context.
func (g *xg) path(ctx []*model.XNode, root bool, kind string) (string, []*model.XNode) {
	t := g.t
	prefix := ""
	if root {
		prefix = "/"
	}
	var ps []xp
	xpaths(ctx, "", 4, &ps)
	if len(ps) == 0 && !root && len(ctx) > 0 && chance(t, 70, "selfOnly") {
		return pick(t, "selfForm", []string{".", ".", ".", "text()"}), ctx
	}
	if len(ps) == 0 || pct(t, 12, "xmiss") {
		return prefix + pick(t, "nowhere", []string{"zz", "a/zz", "@zz", "zz[1]", "a[@zz='1']", "zz/@id"}), nil
	}
	if !root && pct(t, 12, "self") {
		return pick(t, "selfForm", []string{".", ".", "text()", "./" + ps[0].path}), ctx
	}
	var p xp
	for i := 0; i < 5; i++ {
		p = ps[rapid.IntRange(0, len(ps)-1).Draw(t, "xpIdx")]
		if (kind == "array" && p.n != nil) || (kind == "object" && p.n != nil && !p.leaf) || (kind != "array" && kind != "object" && p.leaf) {
			break
		}
	}
	if kind == "object" && chance(t, 15, "emptyElem") {
		for _, q := range ps {
			if q.n != nil && q.leaf && strings.TrimSpace(q.text) == "" {
				p = q
				break
			}
		}
	}
	path := p.path
	if p.n != nil && pct(t, 20, "xpred") {
		var preds []string
		for _, a := range p.n.Attrs {
			if !strings.Contains(a[1], "'") && !strings.HasPrefix(a[0], "xmlns") {
				preds = append(preds, "[@"+a[0]+"='"+a[1]+"']", "[@"+a[0]+"]")
			}
		}
		for _, k := range p.n.Kids {
			if k.Name != "" && !strings.Contains(k.InnerText(), "'") && !strings.Contains(k.Name, "-") {
				preds = append(preds, "["+k.Name+"]", "["+k.Name+"='"+k.InnerText()+"']")
			}
		}
		preds = append(preds, "[1]", "[2]", "[last()]")
		path += pick(t, "xpredPick", preds)
	} else if i := strings.LastIndex(path, "/"); pct(t, 20, "desc") {
		path = "//" + path[i+1:]
		if strings.HasPrefix(path, "//text") {
			path = p.path
		} else if !root {
			path = "." + path
		}
	} else if i >= 0 && pct(t, 12, "starStep") {
		parts := strings.Split(path, "/")
		parts[rapid.IntRange(0, len(parts)-2).Draw(t, "starAt")] = "*"
		path = strings.Join(parts, "/")
	} else if p.n != nil && p.leaf && pct(t, 8, "textStep") {
		path += "/text()"
	}
	if root && !strings.HasPrefix(path, "/") {
		path = prefix + path
	}
	var all []*model.XNode
	for i, c := range ctx {
		if i > 3 {
			break
		}
		ns, err := model.FindX(c, path)
		if err == nil {
			all = append(all, ns...)
		}
	}
	return path, all
}

func (g *xg) transform(ctx []*model.XNode, root bool, kind string) (map[string]any, []*model.XNode) {
	t := g.t
	n := 1
	if pct(t, 20, "multi") {
		n = rapid.IntRange(2, 4).Draw(t, "nfrom")
	}
	var first []*model.XNode
	var from []any
	for i := 0; i < n; i++ {
		p, ns := g.path(ctx, root, kind)
		if first == nil {
			first = ns
		}
		in := map[string]any{"xmlPath": p}
		if pct(t, 6, "jsonNoise") {
			in["jsonPath"] = "$.noise"
		}
		if kind != "array" && kind != "object" && pct(t, 15, "xops") {
			var v any = "x"
			if len(ns) > 0 {
				v = ns[0].InnerText()
				if len(ns) > 1 && kind == "boolean" {
					v = model.XMLNodes{N: len(ns)}
				} else if c, err := model.Coerce(v, kind); err == nil && c != nil {
					v = c
				}
			}
			var ops []any
			if _, ok := v.(model.XMLNodes); ok {
				ops = []any{op("valueExists")}
			} else {
				jgen := &jg{t: t, cfg: jcfg{badOpP: 3}}
				ops = jgen.ops(kind, v)
			}
			in["operations"] = ops
		} else if kind == "array" && pct(t, 10, "xsplit") {
			in["operations"] = []any{op("split", "on", pick(t, "xon", []string{"|", " ", "-"}))}
		}
		from = append(from, in)
	}
	tr := map[string]any{"from": from}
	if n > 1 || pct(t, 10, "methodAnyway") {
		tr["method"] = pick(t, "xmethod", []string{"first", "last", "first", "last", "concatenate"})
		if kind != "string" && tr["method"] == "concatenate" && !pct(t, 10, "oddConcat") {
			tr["method"] = "last"
		}
		if pct(t, 50, "xdelim") {
			tr["methodOptions"] = map[string]any{"concatenateDelimiter": pick(t, "xd", []string{"/", ", ", ""})}
		}
	}
	return tr, first
}

func (g *xg) node(ctx []*model.XNode, root, item bool, depth int) map[string]any {
	t := g.t
	kind := pick(t, "xkind", []string{"string", "string", "string", "integer", "number", "boolean", "date-time", "array", "array", "object"})
	if depth <= 0 && (kind == "array" || kind == "object") {
		kind = "string"
	}
	f := map[string]any{"type": kind}
	if kind == "date-time" {
		f["type"], f["format"] = "string", "date-time"
	}
	if kind != "date-time" && kind != "string" && chance(t, 5, "idleFormat") {
		f["format"] = "date-time" // formats apply to strings
	}
	if pct(t, 20, "nullable") {
		f["type"] = []any{f["type"], "null"}
	}
	sub, subRoot := ctx, root
	if kind == "array" || pct(t, 85, "hasTrans") && (kind != "object" || pct(t, 60, "objTrans")) {
		if !(item && kind != "array" && kind != "object" && pct(t, 40, "plainItem")) {
			tr, ns := g.transform(ctx, root, kind)
			f["transform"] = map[string]any{"x": tr}
			if kind == "array" || kind == "object" {
				sub, subRoot = ns, false
			}
		}
	}
	switch kind {
	case "object":
		props := map[string]any{}
		for n := rapid.IntRange(1, 4).Draw(t, "nprops"); n > 0; n-- {
			props[pick(t, "pname", identKeys)] = g.node(sub, subRoot, false, depth-1)
		}
		f["properties"] = props
		if pct(t, 15, "objDef") {
			f["default"] = map[string]any{"extra": genScalarNN(t)}
		}
	case "array":
		f["items"] = g.node(sub, false, true, depth-1)
		if pct(t, 15, "arrDef") {
			f["default"] = []any{genScalarNN(t), genScalarNN(t)}
		}
	default:
		if pct(t, 20, "def") {
			jgen := &jg{t: t}
			f["default"] = jgen.scalarDefault(kind)
		}
	}
	return f
}

func genX(t *rapid.T) XCase {
	g := &xg{t: t, budget: 30}
	r := g.elem(pick(t, "rootName", []string{"r", "feed", "n:root"}), 4)
	r.Attrs = append(r.Attrs, [2]string{"xmlns:n", "urn:n"})
	if rapid.Bool().Draw(t, "list") { // make sure there is something to iterate over
		name := pick(t, "listName", elemNames)
		for k := rapid.IntRange(0, 12).Draw(t, "listLen"); k > 0; k-- {
			r.Kids = append(r.Kids, g.elem(name, 2))
		}
	}
	doc := []*model.XNode{{Name: "#document", Kids: []*model.XNode{r}}}
	props := map[string]any{}
	for n := rapid.IntRange(1, 6).Draw(t, "nroot"); n > 0; n-- {
		props[pick(t, "pname", identKeys)] = g.node(doc, true, false, 3)
	}
	return XCase{Schema: mustJSON(map[string]any{"type": "object", "properties": props}), Doc: r, Decl: rapid.Bool().Draw(t, "decl")}
}

func modelX(c XCase) (expectation, map[string]int, error) {
	n, err := model.ParseSchema([]byte(c.Schema), "x")
	if err != nil {
		return expectation{}, nil, pbt.Harness(err)
	}
	routes := map[string]int{}
	model.Trace = func(s string) { routes[s]++ }
	defer func() { model.Trace = func(string) {} }()
	v, err := n.EvalXML(c.Doc)
	if d, ok := err.(model.ErrDomain); ok {
		return expectation{}, nil, pbt.Skip(d.Why)
	}
	if err != nil {
		return expectation{err: err}, routes, nil
	}
	want, err := model.Canon(v)
	if err != nil {
		return expectation{err: err}, routes, nil
	}
	return expectation{want: want}, routes, nil
}

func checkX(c XCase, info *pbt.Info) error {
	exp, routes, err := modelX(c)
	if err != nil {
		return err
	}
	for r := range routes {
		info.Label(r)
	}
	info.LabelIf(exp.err != nil, "error expected")
	info.LabelIf(exp.err == nil && exp.want == nil, "empty-output")
	info.Nontrivial = exp.err == nil && exp.want != nil && len(routes) >= 2
	in := c.xml()
	for i := 0; i < 2; i++ {
		s, err := schemaValue(c.Schema)
		if err != nil {
			return err
		}
		tr, err := transform.NewXMLTransformer(s, "x")
		if err != nil {
			return fmt.Errorf("NewXMLTransformer: %v", err)
		}
		for j := 0; j < 2; j++ {
			if err := exp.compare(runJ(tr, in)); err != nil {
				return fmt.Errorf("%v\ndocument: %s", err, in)
			}
		}
	}
	return nil
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "T09",
		Subs: []*pbt.Sub{
			pbt.NewSub("model", "generated documents (attributes, namespaces, CDATA, comments, repeated and nested elements) and schemas with xmlPath instructions drawn from them (absolute, relative, // and predicate steps), compared with a reference model on its own tree; non-trivial: non-empty output and at least two different routes", 80000, 800000, genX, checkX),
		},
	})
}
