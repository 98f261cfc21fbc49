package model

import (
	"bytes"
	"encoding/xml"
	"errors"
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

// XNode is an element, or a text, CDATA or comment node (Name empty).
type XNode struct {
	Name    string      `json:"name,omitempty"`
	Attrs   [][2]string `json:"attrs,omitempty"`
	Kids    []*XNode    `json:"kids,omitempty"`
	Text    string      `json:"text,omitempty"`
	CDATA   bool        `json:"cdata,omitempty"`
	Comment bool        `json:"comment,omitempty"`
	attr    bool
}

// Render writes the document.
func (n *XNode) Render(b *strings.Builder) {
	switch {
	case n.Name == "" && n.Comment:
		b.WriteString("<!--" + n.Text + "-->")
	case n.Name == "" && n.CDATA:
		b.WriteString("<![CDATA[" + n.Text + "]]>")
	case n.Name == "":
		var x bytes.Buffer
		xml.EscapeText(&x, []byte(n.Text))
		b.Write(x.Bytes())
	default:
		b.WriteString("<" + n.Name)
		for _, a := range n.Attrs {
			var x bytes.Buffer
			xml.EscapeText(&x, []byte(a[1]))
			b.WriteString(" " + a[0] + `="` + x.String() + `"`)
		}
		if len(n.Kids) == 0 {
			b.WriteString("/>")
			return
		}
		b.WriteString(">")
		for _, k := range n.Kids {
			k.Render(b)
		}
		b.WriteString("</" + n.Name + ">")
	}
}

// InnerText is all text below the node in document order.
func (n *XNode) InnerText() string {
	if n.attr {
		return n.Text
	}
	if n.Name == "" {
		if n.Comment {
			return ""
		}
		return n.Text
	}
	var b strings.Builder
	for _, k := range n.Kids {
		b.WriteString(k.InnerText())
	}
	return b.String()
}

func (n *XNode) leaf() bool {
	for _, k := range n.Kids {
		if k.Name != "" {
			return false
		}
	}
	return true
}

type xstep struct {
	desc  bool   // reached with //
	test  string // name, *, ., @name, text()
	preds []string
}

var xstepRe = regexp.MustCompile(`^(@?[A-Za-z_][\w:.-]*|\*|\.|text\(\))((?:\[[^\]]*\])*)$`)
var xpredRe = regexp.MustCompile(`\[([^\]]*)\]`)

func parseXPath(s string) (abs bool, steps []xstep, err error) {
	if s == "" {
		return false, nil, errors.New("empty path")
	}
	if strings.HasPrefix(s, "/") {
		abs = true
		if !strings.HasPrefix(s, "//") {
			s = s[1:]
		}
	}
	for s != "" {
		st := xstep{}
		if strings.HasPrefix(s, "//") {
			st.desc, s = true, s[2:]
		} else if strings.HasPrefix(s, "/") && len(steps) > 0 {
			s = s[1:]
		}
		j, depth := 0, 0
		for j < len(s) && (s[j] != '/' || depth > 0) {
			switch s[j] {
			case '[':
				depth++
			case ']':
				depth--
			}
			j++
		}
		m := xstepRe.FindStringSubmatch(s[:j])
		if m == nil {
			return false, nil, fmt.Errorf("step %q", s[:j])
		}
		st.test = m[1]
		for _, p := range xpredRe.FindAllStringSubmatch(m[2], -1) {
			st.preds = append(st.preds, p[1])
		}
		steps = append(steps, st)
		s = s[j:]
	}
	return abs, steps, nil
}

func nameTest(test string, n *XNode) bool {
	if n.Name == "" {
		return false
	}
	return test == "*" || n.Name == test
}

func (n *XNode) descendants(f func(*XNode)) {
	for _, k := range n.Kids {
		f(k)
		k.descendants(f)
	}
}

// FindX evaluates the XPath subset from a node; root marks the document node (whose only element child is kids[0]).
func FindX(ctx *XNode, path string) ([]*XNode, error) {
	_, steps, err := parseXPath(path)
	if err != nil {
		return nil, ErrDomain{err.Error()}
	}
	cur := []*XNode{ctx}
	for _, st := range steps {
		var next []*XNode
		seen := map[*XNode]bool{}
		for _, c := range cur {
			if c.attr && st.test != "." {
				return nil, ErrDomain{"step below an attribute"}
			}
			var cand []*XNode
			add := func(k *XNode) {
				if nameTest(st.test, k) {
					cand = append(cand, k)
				}
			}
			attrs := func(k *XNode) {
				for _, a := range k.Attrs {
					if "@"+a[0] == st.test && !strings.HasPrefix(a[0], "xmlns") {
						cand = append(cand, &XNode{Text: a[1], attr: true})
					}
				}
			}
			switch {
			case st.test == ".":
				cand = append(cand, c)
			case st.test == "text()":
				if st.desc {
					return nil, ErrDomain{"//text()"}
				}
				for _, k := range c.Kids {
					if k.Name == "" && !k.Comment {
						cand = append(cand, k)
					}
				}
				if len(cand) > 1 {
					return nil, ErrDomain{"several text nodes"}
				}
			case strings.HasPrefix(st.test, "@"):
				if st.desc {
					attrs(c)
					c.descendants(attrs)
				} else if !c.attr {
					attrs(c)
				}
			case st.desc:
				c.descendants(add)
			default:
				for _, k := range c.Kids {
					add(k)
				}
			}
			for _, p := range st.preds {
				var kept []*XNode
				for i, k := range cand {
					ok, err := xpred(p, k, i, len(cand), st.desc)
					if err != nil {
						return nil, err
					}
					if ok {
						kept = append(kept, k)
					}
				}
				cand = kept
			}
			for _, k := range cand {
				if !seen[k] {
					seen[k] = true
					next = append(next, k)
				}
			}
		}
		cur = next
	}
	return cur, nil
}

var predAttrRe = regexp.MustCompile(`^@([\w:.-]+)(?:(!?=)'([^']*)')?$`)
var predChildRe = regexp.MustCompile(`^([\w:]+)(?:='([^']*)')?$`)

func xpred(p string, n *XNode, i, total int, desc bool) (bool, error) {
	if k, err := strconv.Atoi(p); err == nil {
		if desc {
			return false, ErrDomain{"position below //"}
		}
		return i+1 == k, nil
	}
	if p == "last()" {
		if desc {
			return false, ErrDomain{"position below //"}
		}
		return i+1 == total, nil
	}
	if m := predAttrRe.FindStringSubmatch(p); m != nil {
		for _, a := range n.Attrs {
			if a[0] == m[1] {
				switch m[2] {
				case "":
					return true, nil
				case "=":
					return a[1] == m[3], nil
				default:
					return a[1] != m[3], nil
				}
			}
		}
		return false, nil
	}
	if m := predChildRe.FindStringSubmatch(p); m != nil {
		for _, k := range n.Kids {
			if k.Name == m[1] && (!strings.Contains(p, "=") || k.InnerText() == m[2]) {
				return true, nil
			}
		}
		return false, nil
	}
	return false, ErrDomain{"predicate " + p}
}

// EvalXML computes the transform of an XML document (root is the root element).
func (n *Node) EvalXML(root *XNode) (any, error) {
	doc := &XNode{Name: "#document", Kids: []*XNode{root}}
	return n.evalXML(doc, false)
}

func (n *Node) evalXML(ctx *XNode, item bool) (any, error) {
	switch n.Kind {
	case "object":
		if n.Trans != nil {
			v, err := n.xinstr(ctx, "object")
			if err != nil {
				return nil, err
			}
			if v == nil {
				Trace("xobject-not-found")
				if n.Default != nil {
					return n.Default, nil
				}
				return nil, nil
			}
			nodes, ok := v.([]*XNode)
			if !ok {
				return nil, ErrDomain{"operations on an XML object"}
			}
			if len(nodes) == 1 && nodes[0].leaf() && nodes[0].InnerText() == "" && len(nodes[0].Attrs) == 0 {
				Trace("xobject-empty")
				return nil, nil
			}
			Trace("xobject-transform")
			ctx = nodes[0]
		}
		base := map[string]any{}
		if m, ok := n.Default.(map[string]any); ok {
			for k, x := range m {
				base[k] = x
			}
		}
		for _, k := range sortedProps(n.Props) {
			cv, err := n.Props[k].evalXML(ctx, false)
			if err != nil {
				return nil, err
			}
			if cv != nil {
				base[k] = cv
			}
		}
		if len(base) == 0 {
			return nil, nil
		}
		return base, nil
	case "array":
		var list []any
		if n.Trans != nil {
			v, err := n.xinstr(ctx, "array")
			if err != nil {
				return nil, err
			}
			switch x := v.(type) {
			case nil:
			case []*XNode:
				Trace("xarray-nodes")
				var out []any
				for _, e := range x {
					cv, err := n.Items.evalXML(e, true)
					if err != nil {
						return nil, err
					}
					if cv != nil {
						out = append(out, cv)
					}
				}
				if len(out) == 0 {
					return nil, nil
				}
				return out, nil
			case []any:
				list = x
				Trace("xarray-operations")
			default:
				list = []any{v}
				Trace("xarray-operations")
			}
		}
		if list == nil {
			l, _ := n.Default.([]any)
			list = l
			if l != nil {
				Trace("xarray-default")
			}
		}
		var out []any
		for _, e := range list {
			if e != nil {
				out = append(out, e)
			}
		}
		if len(out) == 0 {
			return nil, nil
		}
		return out, nil
	}
	if n.Trans != nil {
		v, err := n.xinstr(ctx, n.Kind)
		if err != nil {
			return nil, err
		}
		if v != nil {
			Trace("xscalar-transform")
			return v, nil
		}
	} else if item {
		if v, err := Coerce(ctx.InnerText(), n.Kind); err == nil && v != nil {
			Trace("xscalar-item-text")
			return v, nil
		}
	}
	if n.Default != nil {
		Trace("xscalar-default")
	} else {
		Trace("xscalar-omitted")
	}
	return n.Default, nil
}

func (n *Node) xinstr(ctx *XNode, kind string) (any, error) {
	return Combine(n.Trans, func(f InstrSpec) (any, error) {
		if f.XMLPath == "" {
			return nil, nil
		}
		nodes, err := FindX(ctx, f.XMLPath)
		if err != nil {
			return nil, err
		}
		if len(nodes) == 0 {
			return nil, nil
		}
		var v any
		single := len(nodes) == 1 && nodes[0].leaf()
		switch {
		case (kind == "array" || kind == "object") && len(f.Operations) == 0:
			return nodes, nil
		case kind == "array" || kind == "object":
			v = XMLNodes{len(nodes)}
			if single {
				v = nodes[0].InnerText()
			}
		case kind == "string":
			var parts []string
			for _, e := range nodes {
				parts = append(parts, e.InnerText())
			}
			if len(parts) > 1 {
				Trace("xscalar-joined")
			}
			v = strings.Join(parts, " ")
		default:
			v, err = Coerce(nodes[0].InnerText(), kind)
			if err != nil {
				v = nil
				if len(f.Operations) > 0 {
					v = XMLNodes{len(nodes)}
					if single {
						v = nodes[0].InnerText()
					}
				}
			}
		}
		if v == nil {
			return nil, nil
		}
		return ApplyOps(v, f.Operations)
	})
}
