package props

import (
	"encoding/json"
	"fmt"
	"net/url"
	"path"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"github.com/GannettDigital/jstransform/jsonschema"
)

// loc is a place in a file: the tokens of a JSON pointer.
type loc struct {
	file string
	ptr  []string
}

func (l loc) at(k ...string) loc { return loc{l.file, append(append([]string{}, l.ptr...), k...)} }

// refSplitter rewrites a schema into several files with references. Unlike splitter it uses every spelling of
// references, keywords beside references, chains, shared targets and references to plain paths.
type refSplitter struct {
	t        *rapid.T
	p        int // percent of the subschemas that are moved
	sibP     int // percent of the references with keywords beside them
	reuseP   int // percent of the repeated subschemas that refer to an earlier one
	oddP     int // percent of odd names
	rootRefs bool
	n        int
	files    map[string]map[string]any
	edges    map[string]map[string]bool
	seen     map[string][]loc
	refs     []refUse
	kinds    map[string]int
}

// refUse is a reference that was written.
type refUse struct {
	node map[string]any
	from string
	to   loc
}

func (s *refSplitter) reaches(from, to string) bool {
	if from == to {
		return true
	}
	for k := range s.edges[from] {
		if s.reaches(k, to) {
			return true
		}
	}
	return false
}

func (s *refSplitter) edge(from, to string) {
	if from == to {
		return
	}
	if s.edges[from] == nil {
		s.edges[from] = map[string]bool{}
	}
	s.edges[from][to] = true
}

// ref writes the text of a reference from a file to a place.
func (s *refSplitter) ref(from string, to loc) string {
	t := s.t
	out := ""
	if to.file != from {
		out = relRef(from, to.file)
	} else if pct(t, 20, "selfName") {
		out = path.Base(from)
		s.kinds["own-name"]++
	}
	if out != "" {
		out = (&url.URL{Path: out}).EscapedPath()
		if pct(t, 10, "dotSlash") {
			out = "./" + out
		} else if pct(t, 5, "detour") {
			out = "sub/../" + out
		}
	}
	if len(to.ptr) == 0 {
		if pct(t, 10, "hash") {
			out += "#"
		}
		return out
	}
	out += "#"
	for _, tok := range to.ptr {
		tok = strings.ReplaceAll(strings.ReplaceAll(tok, "~", "~0"), "/", "~1")
		if e := url.PathEscape(tok); e != tok && (strings.ContainsAny(tok, "%") || pct(t, 60, "percent")) {
			tok = e
			s.kinds["percent-escape"]++
		}
		out += "/" + tok
	}
	return out
}

var oddDefNames = []string{"a/b", "x~y", "sp ace", "ünï", "100%", "q\"t", "~1", "properties", "0", "[0]", "$x", "a.b"}

func (s *refSplitter) defName() string {
	s.n++
	if pct(s.t, s.oddP, "oddDef") {
		s.kinds["odd-definition-name"]++
		return fmt.Sprintf("%s%d", pick(s.t, "defName", oddDefNames), s.n)
	}
	return fmt.Sprintf("d%d", s.n)
}

func (s *refSplitter) fileName() string {
	s.n++
	dir := pick(s.t, "dir", []string{"", "", "sub/", "sub/deep/", "other/"})
	if pct(s.t, s.oddP, "oddFile") {
		s.kinds["odd-file-name"]++
		return fmt.Sprintf("%s%s%d.json", dir, pick(s.t, "fileName", []string{"http", "https-x", "a b", "ü✓", "x.y", "file", "50%", "f#", "q?", "a&b", "\u007f"}), s.n)
	}
	return fmt.Sprintf("%sf%d.json", dir, s.n)
}

func (s *refSplitter) file(f string) map[string]any {
	if s.files[f] == nil {
		s.files[f] = map[string]any{"type": "object", "properties": map[string]any{}}
	}
	return s.files[f]
}

// sibling keywords a reference may carry, with the values its target may hold instead
var sibKeys = map[string][]any{
	"description": {"overridden", ""},
	"default":     {"overridden", 1.0, map[string]any{"q": 1.0}},
	"transform":   {map[string]any{"cumulo": map[string]any{"from": []any{map[string]any{"jsonPath": "$.overridden"}}}}},
	"required":    {[]any{"overridden"}},
	"format":      {"date-time"},
	"enum":        {[]any{"overridden"}},
	"type":        {"string", "object", []any{"integer", "null"}},
	"properties":  {map[string]any{"overridden": map[string]any{"type": "string"}}},
	"items":       {map[string]any{"type": "boolean"}},

	"additionalProperties": {true, false},
}

// place writes the subschema n at a place and returns what stands there: n itself or a reference.
func (s *refSplitter) place(n map[string]any, at loc) map[string]any {
	t := s.t
	text := mustJSON(n)
	if ls := s.seen[text]; len(ls) > 0 && pct(t, s.reuseP, "reuse") {
		l := ls[rapid.IntRange(0, len(ls)-1).Draw(t, "which")]
		if l.file == at.file || !s.reaches(l.file, at.file) {
			s.edge(at.file, l.file)
			s.kinds["shared"]++
			if len(l.ptr) > 0 && (l.ptr[0] == "properties" || l.ptr[0] == "items") {
				s.kinds["path"]++
			}
			return s.write(map[string]any{}, at, l)
		}
	}
	if len(at.ptr) == 0 && !s.rootRefs || !pct(t, s.p, "move") {
		s.seen[text] = append(s.seen[text], at)
		s.below(n, at)
		return n
	}
	if len(at.ptr) == 0 {
		s.kinds["root-ref"]++
	}
	var to loc
	switch pick(t, "kind", []string{"local", "local", "file", "file", "def"}) {
	case "file":
		to = loc{file: s.fileName()}
	case "def":
		f := "defs.json"
		if s.reaches(f, at.file) {
			f = at.file
		}
		to = loc{f, s.defPtr(f)}
	default:
		to = loc{at.file, s.defPtr(at.file)}
	}
	s.edge(at.file, to.file)
	// keywords that stay beside the reference
	beside := map[string]any{}
	if pct(t, s.sibP, "siblings") {
		for _, k := range sortedKeys(sibKeys) {
			v, ok := n[k]
			if !ok || !pct(t, 40, "sib "+k) {
				continue
			}
			beside[k] = v
			s.kinds["sibling"]++
			delete(n, k)
			if pct(t, 60, "garbage") {
				n[k] = copyJSON(pick(t, "garbageVal", sibKeys[k]))
			}
		}
	}
	// a chain: the target is a reference itself
	end := to
	if len(beside) == 0 && (len(to.ptr) > 0 || s.rootRefs) && pct(t, 25, "chain") {
		s.kinds["chain"]++
		if len(to.ptr) == 0 {
			s.kinds["root-ref"]++
		}
		end = loc{to.file, s.defPtr(to.file)}
		if pct(t, 40, "chainFile") {
			end = loc{file: s.fileName()}
			s.edge(to.file, end.file)
		}
	}
	s.below(n, end)
	s.below(beside, at)
	if len(beside) == 0 {
		s.seen[text] = append(s.seen[text], at)
	}
	s.store(n, end)
	if len(end.ptr) != len(to.ptr) || end.file != to.file || fmt.Sprint(end) != fmt.Sprint(to) {
		s.store(s.write(map[string]any{}, to, end), to)
	}
	return s.write(beside, at, to)
}

// defPtr is the place of a new definition.
func (s *refSplitter) defPtr(file string) []string {
	key := pick(s.t, "defsKey", []string{"definitions", "definitions", "$defs"})
	if pct(s.t, 10, "nestedDefs") {
		return []string{key, "group", s.defName()}
	}
	return []string{key, s.defName()}
}

func (s *refSplitter) write(n map[string]any, from, to loc) map[string]any {
	n["$ref"] = s.ref(from.file, to)
	s.refs = append(s.refs, refUse{n, from.file, to})
	return n
}

// store puts a finished schema at its place.
func (s *refSplitter) store(n map[string]any, to loc) {
	if len(to.ptr) == 0 {
		if old := s.files[to.file]; old != nil { // definitions stored before
			for _, k := range []string{"definitions", "$defs"} {
				if d, ok := old[k]; ok {
					n[k] = d
				}
			}
		}
		s.files[to.file] = n
		return
	}
	m := s.file(to.file)
	for _, k := range to.ptr[:len(to.ptr)-1] {
		c, _ := m[k].(map[string]any)
		if c == nil {
			c = map[string]any{}
			m[k] = c
		}
		m = c
	}
	m[to.ptr[len(to.ptr)-1]] = n
}

// below places the children of n.
func (s *refSplitter) below(n map[string]any, at loc) {
	if ps, ok := n["properties"].(map[string]any); ok {
		for _, k := range sortedKeys(ps) {
			if c, ok := ps[k].(map[string]any); ok {
				ps[k] = s.place(c, at.at("properties", k))
			}
		}
	}
	if c, ok := n["items"].(map[string]any); ok {
		n["items"] = s.place(c, at.at("items"))
	}
	for _, k := range []string{"allOf", "anyOf", "oneOf"} {
		l, _ := n[k].([]any)
		for i := range l {
			if c, ok := l[i].(map[string]any); ok {
				was := len(s.refs)
				l[i] = s.place(c, at.at(k, strconv.Itoa(i)))
				if len(s.refs) > was {
					s.kinds["list-entry"]++
				}
			}
		}
	}
}

// annotate adds keywords without influence on transforms and repeats subschemas.
func annotate(t *rapid.T, n map[string]any, pool *[]any, p int) {
	if pct(t, p, "annReq") {
		var req []any
		if ps, ok := n["properties"].(map[string]any); ok {
			for _, k := range sortedKeys(ps) {
				if rapid.Bool().Draw(t, "req") {
					req = append(req, k)
				}
			}
		}
		if len(req) > 0 {
			n["required"] = req
		}
	}
	if pct(t, p, "annDesc") {
		n["description"] = genStr(t)
	}
	if pct(t, p/2, "annAdd") {
		n["additionalProperties"] = rapid.Bool().Draw(t, "additional")
	}
	if pct(t, p/3, "annEnum") {
		n["enum"] = []any{genScalar(t), "x1", map[string]any{"k": genStr(t)}}
	}
	if _, ok := n["properties"]; !ok && rare(t, 12, "annList") {
		// lists of subschemas, which neither walks nor transforms look at
		var l []any
		for i := rapid.IntRange(1, 12).Draw(t, "annEntries"); i > 0; i-- {
			e := map[string]any{"type": pick(t, "annType", []string{"string", "number", "object"})}
			if pct(t, 40, "annEntryDesc") {
				e["description"] = genStr(t)
			}
			if pct(t, 20, "annEntryProp") {
				e["properties"] = map[string]any{"a": map[string]any{"type": "string"}}
			}
			l = append(l, e)
		}
		n["anyOf"] = l
	}
	if ps, ok := n["properties"].(map[string]any); ok {
		for _, k := range sortedKeys(ps) {
			c, ok := ps[k].(map[string]any)
			if !ok {
				continue
			}
			if len(*pool) > 0 && pct(t, 15, "repeat") {
				ps[k] = copyJSON((*pool)[rapid.IntRange(0, len(*pool)-1).Draw(t, "repeated")])
				continue
			}
			annotate(t, c, pool, p)
			*pool = append(*pool, c)
		}
	}
	if c, ok := n["items"].(map[string]any); ok {
		annotate(t, c, pool, p)
		*pool = append(*pool, c)
	}
}

// plainSchema is a schema value without the traces references leave: at every schema level fromRef, definitions and an
// absent type, with types as lists.
func plainSchema(v any) any {
	m, ok := v.(map[string]any)
	if !ok {
		return v
	}
	out := map[string]any{}
	for k, x := range m {
		switch k {
		case "fromRef", "definitions", "$defs", "$schema":
			continue
		case "type":
			if x == nil {
				continue
			}
			if s, ok := x.(string); ok {
				x = []any{s}
			}
		case "additionalProperties":
			if x == true {
				continue
			}
		case "properties":
			if ps, ok := x.(map[string]any); ok {
				o := map[string]any{}
				for k, c := range ps {
					o[k] = plainSchema(c)
				}
				x = o
			}
		case "items", "not", "if", "then", "else":
			x = plainSchema(x)
		case "allOf", "oneOf", "anyOf":
			if l, ok := x.([]any); ok {
				o := []any{}
				for _, c := range l {
					o = append(o, plainSchema(c))
				}
				x = o
			}
		}
		out[k] = x
	}
	return out
}

// view is what a loaded schema shows.
type view struct {
	props    map[string]any
	items    any
	required []string
	typ      []string
	desc     string
	format   string
	addl     bool
	walk     map[string]instView
	raw      map[string]any
}

type instView struct {
	typ, required []string
	desc, format  string
	props         map[string]any
	items         any
}

func plainRaw(b []byte) (any, error) {
	var v any
	if err := json.Unmarshal(b, &v); err != nil {
		return nil, err
	}
	return plainSchema(v), nil
}

func plainProps(m map[string]jsonRaw) (map[string]any, error) {
	if len(m) == 0 {
		return nil, nil
	}
	out := map[string]any{}
	for k, r := range m {
		v, err := plainRaw(r)
		if err != nil {
			return nil, fmt.Errorf("property %q is no JSON: %v: %s", k, err, r)
		}
		out[k] = v
	}
	return out, nil
}

func viewOf(s *jsonschema.Schema) (view, error) {
	v := view{required: nilIfEmpty(s.Required), typ: s.Type, desc: s.Description, format: s.Format, addl: s.AdditionalProperties, walk: map[string]instView{}, raw: map[string]any{}}
	var err error
	if v.props, err = plainProps(s.Properties); err != nil {
		return v, err
	}
	if len(s.Items) > 0 {
		if v.items, err = plainRaw(s.Items); err != nil {
			return v, fmt.Errorf("items: %v", err)
		}
	}
	err = jsonschema.Walk(s, func(p string, i jsonschema.Instance) error {
		if _, dup := v.walk[p]; dup {
			return fmt.Errorf("Walk visits %s twice", p)
		}
		iv := instView{typ: i.Type, required: nilIfEmpty(i.Required), desc: i.Description, format: i.Format}
		var err error
		if iv.props, err = plainProps(i.Properties); err != nil {
			return err
		}
		if len(i.Items) > 0 {
			if iv.items, err = plainRaw(i.Items); err != nil {
				return err
			}
		}
		v.walk[p] = iv
		return nil
	})
	if err != nil {
		return v, fmt.Errorf("Walk: %v", err)
	}
	err = jsonschema.WalkRaw(s, func(p string, r jsonRaw) error {
		if _, dup := v.raw[p]; dup {
			return fmt.Errorf("WalkRaw visits %s twice", p)
		}
		var err error
		v.raw[p], err = plainRaw(r)
		return err
	})
	if err != nil {
		return v, fmt.Errorf("WalkRaw: %v", err)
	}
	return v, nil
}

func nilIfEmpty(x []string) []string {
	if len(x) == 0 {
		return nil
	}
	return x
}

// diff tells the first difference between two views.
func (v view) diff(w view) string {
	if !reflect.DeepEqual(v.props, w.props) {
		var ks []string
		for k := range v.props {
			ks = append(ks, k)
		}
		for k := range w.props {
			if _, ok := v.props[k]; !ok {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			if a, b := v.props[k], w.props[k]; !reflect.DeepEqual(a, b) {
				return fmt.Sprintf("property %q: %s\n   but: %s", k, mustJSON(a), mustJSON(b))
			}
		}
		return fmt.Sprintf("properties: %s\n   but: %s", mustJSON(v.props), mustJSON(w.props))
	}
	if !reflect.DeepEqual(v.items, w.items) {
		return fmt.Sprintf("items: %s\n   but: %s", mustJSON(v.items), mustJSON(w.items))
	}
	a, b := v, w
	a.props, b.props, a.walk, b.walk, a.raw, b.raw, a.items, b.items = nil, nil, nil, nil, nil, nil, nil, nil
	if !reflect.DeepEqual(a, b) {
		return fmt.Sprintf("keywords of the root: %+v\n   but: %+v", a, b)
	}
	for _, p := range sortedKeys(v.walk) {
		if _, ok := w.walk[p]; !ok {
			return "Walk: " + p + " only in the first"
		}
		if !reflect.DeepEqual(v.walk[p], w.walk[p]) {
			return fmt.Sprintf("Walk at %s: %+v\n   but: %+v", p, v.walk[p], w.walk[p])
		}
	}
	for p := range w.walk {
		if _, ok := v.walk[p]; !ok {
			return "Walk: " + p + " only in the second"
		}
	}
	if !reflect.DeepEqual(v.raw, w.raw) {
		return fmt.Sprintf("WalkRaw: %s\n   but: %s", mustJSON(v.raw), mustJSON(w.raw))
	}
	return ""
}
