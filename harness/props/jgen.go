package props

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"

	"verif/harness/model"
)

// JCase is a schema with transform sections, the identifier to use and one input document.
type JCase struct {
	Schema string `json:"schema"`
	Ident  string `json:"ident"`
	Input  string `json:"input"`
}

// jcfg tunes the generator.
type jcfg struct {
	transP   int // percent of nodes with a transform section
	opsP     int // percent of instructions with operations
	defP     int // percent of nodes with a default
	multiP   int // percent of transforms with several sources / methods
	arrayP   int // percent of array nodes
	maxProps int
	depth    int
	rootArr  int  // percent of root array schemas
	missP    int  // percent of paths that point nowhere
	longArr  int  // percent of arrays with more than ten items
	badOpP   int  // percent of operations that do not suit their input
	richT    bool // more conversions between types
}

var defaultJ = jcfg{transP: 55, opsP: 15, defP: 30, multiP: 30, arrayP: 22, maxProps: 5, depth: 3, rootArr: 7, missP: 20, longArr: 8, badOpP: 3}

var identKeys = []string{"a", "b", "c", "d", "e", "name", "value", "id", "list", "items", "x_1", "type", "attributes", "héllo", "A", "camelCase"}
var oddKeys = []string{"x-y", "og:image", "sp ace", "1st", "q\"t", "b\\s", "n😀", "#"}

func pct(t *rapid.T, p int, l string) bool { return rapid.IntRange(0, 99).Draw(t, l) < p }

// chance is true in p of 100 draws (pct favours small numbers and is true much more often for a small p).
func chance(t *rapid.T, p int, l string) bool {
	x := uint64(rapid.IntRange(0, 1<<20).Draw(t, l))
	if x == 0 {
		return false
	}
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return int((x^x>>31)%100) < p
}

// rare is true once in about n draws (pct favours small numbers, as rapid does).
func rare(t *rapid.T, n int, l string) bool { return rapid.IntRange(0, 1<<20).Draw(t, l)%n == n/2+1 }

func pick[T any](t *rapid.T, l string, xs []T) T { return xs[rapid.IntRange(0, len(xs)-1).Draw(t, l)] }

var strPool = []string{"", "abc", "Hello World", "true", "false", "12", "-3", "4.50", "1e3", "0", "00:13", "01:02:03", "2018-06-25T20:21:13Z", "2018-06-25T20:21:13.120+02:00",
	"a|b|C", "<p>hi <b>there</b></p>", "extra-base-hit", "ünïcødé ✓", "line\nbreak", "quote\"back\\slash", "x", "TRUE", "t", "2019-05-16", "Ab", "$1", "null", "[]", "{}", "007", "a  b", " pad ", "NaN", "Infinity", "-inf", "9999-12-31T23:59:59Z", "99999999999999999999"}

func genStr(t *rapid.T) string {
	switch rapid.IntRange(0, 9).Draw(t, "strKind") {
	case 0:
		return rapid.StringOfN(rapid.RuneFrom([]rune("abcXYZ 019-|:.,<>&\"\\/é\n")), 0, 12, -1).Draw(t, "str")
	case 1:
		return rapid.StringMatching(`[a-zA-Z]{1,8}`).Draw(t, "word")
	default:
		return pick(t, "strPool", strPool)
	}
}

func genNum(t *rapid.T) any {
	switch rapid.IntRange(0, 5).Draw(t, "numKind") {
	case 0:
		return pick(t, "numPool", []any{0.0, -1.0, 1.0, 2.5, -3.14, 1529958073.0, 1e6, 1e21, 1e-7, 100.0, -0.5, 9007199254740991.0, 253402300799.0, 253402300800.0, 1e300, -1e12})
	case 1:
		return float64(rapid.IntRange(-1000000, 1000000).Draw(t, "num")) / 100
	default:
		return float64(rapid.IntRange(-50, 200).Draw(t, "int"))
	}
}

func genScalar(t *rapid.T) any {
	switch rapid.IntRange(0, 9).Draw(t, "scalarKind") {
	case 0, 1, 2, 3, 4:
		return genStr(t)
	case 5, 6, 7:
		return genNum(t)
	case 8:
		return rapid.Bool().Draw(t, "bool")
	}
	return nil
}

func genKey(t *rapid.T) string {
	if pct(t, 12, "oddKey") {
		return pick(t, "key", oddKeys)
	}
	return pick(t, "key", identKeys)
}

// genVal generates an arbitrary JSON value.
func genVal(t *rapid.T, depth int, cfg jcfg) any {
	k := rapid.IntRange(0, 9).Draw(t, "valKind")
	if depth <= 0 || k < 4 {
		return genScalar(t)
	}
	if k < 7 {
		return genMap(t, depth, cfg)
	}
	n := rapid.IntRange(0, 4).Draw(t, "arrLen")
	if pct(t, cfg.longArr, "longArr") {
		n = rapid.IntRange(10, 14).Draw(t, "arrLenLong")
	}
	arr := make([]any, 0, n)
	switch rapid.IntRange(0, 4).Draw(t, "arrKind") {
	case 0: // scalars of one kind
		kind := rapid.IntRange(0, 2).Draw(t, "arrScalar")
		for i := 0; i < n; i++ {
			switch kind {
			case 0:
				arr = append(arr, genStr(t))
			case 1:
				arr = append(arr, genNum(t))
			default:
				arr = append(arr, genScalar(t))
			}
		}
	case 1: // list of lists
		for i := 0; i < n; i++ {
			m := rapid.IntRange(0, 3).Draw(t, "inner")
			in := []any{}
			for j := 0; j < m; j++ {
				in = append(in, genScalar(t))
			}
			arr = append(arr, in)
		}
	default: // objects with common keys
		ks := rapid.SliceOfNDistinct(rapid.SampledFrom(identKeys), 1, 4, rapid.ID[string]).Draw(t, "rowKeys")
		for i := 0; i < n; i++ {
			if pct(t, 4, "oddItem") {
				arr = append(arr, genScalar(t))
				continue
			}
			m := map[string]any{}
			for _, k := range ks {
				if pct(t, 12, "missing") {
					continue
				}
				switch k {
				case "name", "type":
					m[k] = pick(t, "nm", []string{"one", "two", "length", "Keywords"})
				case "id", "value":
					if rapid.Bool().Draw(t, "numId") {
						m[k] = float64(rapid.IntRange(-5, 9).Draw(t, "id"))
					} else {
						m[k] = genScalar(t)
					}
				default:
					m[k] = genVal(t, depth-2, cfg)
				}
			}
			arr = append(arr, m)
		}
	}
	return arr
}

func genMap(t *rapid.T, depth int, cfg jcfg) map[string]any {
	n := rapid.IntRange(0, 5).Draw(t, "mapLen")
	m := map[string]any{}
	for i := 0; i < n; i++ {
		k := genKey(t)
		m[k] = genVal(t, depth-1, cfg)
	}
	return m
}

type pv struct {
	path string
	val  any
}

func seg(k string) string {
	if model.IsIdent(k) {
		return "." + k
	}
	b, _ := json.Marshal(k)
	return "[" + string(b) + "]"
}

func collect(prefix string, v any, out *[]pv, max int) {
	if len(*out) >= max {
		return
	}
	switch t := v.(type) {
	case map[string]any:
		ks := make([]string, 0, len(t))
		for k := range t {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			p := prefix + seg(k)
			*out = append(*out, pv{p, t[k]})
			collect(p, t[k], out, max)
		}
	case []any:
		for i, e := range t {
			p := fmt.Sprintf("%s[%d]", prefix, i)
			*out = append(*out, pv{p, e})
			collect(p, e, out, max)
		}
	}
}

type jg struct {
	t      *rapid.T
	cfg    jcfg
	input  any
	abs    []pv
	ident  string
	budget int
	arrays []string // wildcard output paths of the enclosing arrays
}

func fits(v any, kind string) bool {
	switch v.(type) {
	case []any:
		return kind == "array"
	case map[string]any:
		return kind == "object" || kind == "free"
	case nil:
		return false
	}
	return kind != "array" && kind != "object" && kind != "free"
}

// path draws a path for a node of the kind; rel are the values reachable with `@`.
func (g *jg) path(kind string, rel []pv) (string, any) {
	p, v := g.path1(kind, rel)
	if len(g.arrays) > 0 && rel != nil && strings.HasPrefix(p, "@") && pct(g.t, 12, "absItem") {
		// the same item by its absolute path
		p = g.arrays[len(g.arrays)-1] + p[1:]
	}
	return p, v
}

func (g *jg) path1(kind string, rel []pv) (string, any) {
	t := g.t
	pool := g.abs
	if len(rel) > 0 && !pct(t, 15, "absInArray") {
		pool = rel
	}
	if len(pool) == 0 || pct(t, g.cfg.missP, "miss") {
		base := "$"
		if len(rel) > 0 {
			base = "@"
		}
		return base + seg(genKey(t)) + pick(t, "missTail", []string{"", ".zz", "[7]", ".a.b", "[*]", ".a[*].b"}), nil
	}
	var c pv
	for i := 0; i < 6; i++ {
		c = pool[rapid.IntRange(0, len(pool)-1).Draw(t, "poolIdx")]
		if fits(c.val, kind) {
			break
		}
	}
	p := c.path
	// generalise
	if strings.Contains(p, "[") && pct(t, 35, "generalise") {
		var idx []int
		for i := 0; i < len(p); i++ {
			if p[i] == '[' && i+1 < len(p) && p[i+1] >= '0' && p[i+1] <= '9' {
				idx = append(idx, i)
			}
		}
		if len(idx) > 0 {
			i := pick(t, "genIdx", idx)
			j := i + strings.IndexByte(p[i:], ']')
			repl := "[*]"
			switch rapid.IntRange(0, 3).Draw(t, "genKind") {
			case 0, 1:
				repl = g.filter()
			case 2:
				repl = pick(t, "range", []string{"[0:2]", "[1:9]", "[*]"})
			}
			p = p[:i] + repl + p[j+1:]
		}
	} else if fits(c.val, "array") && pct(t, 30, "star") {
		p += "[*]"
		if kind != "array" && pct(t, 50, "starKey") {
			p += seg(pick(t, "starKeyName", identKeys))
		}
	} else if _, ok := c.val.(map[string]any); ok && pct(t, 20, "dotstar") {
		p += ".*"
	}
	return p, c.val
}

func (g *jg) filter() string {
	t := g.t
	switch rapid.IntRange(0, 2).Draw(t, "filterKind") {
	case 0:
		return `[?(@.name` + pick(t, "fop", []string{"==", "!="}) + `"` + pick(t, "fname", []string{"one", "two", "length", "Keywords", "nobody"}) + `")]`
	case 1:
		return `[?(@.id` + pick(t, "fop", []string{"==", "!="}) + fmt.Sprint(rapid.IntRange(0, 5).Draw(t, "fnum")) + `)]`
	}
	return `[?(@.type=="` + pick(t, "fname", []string{"one", "two", "length", "Keywords"}) + `")]`
}

func (g *jg) ops(kind string, v any) []any {
	t := g.t
	var out []any
	n := rapid.IntRange(1, 2).Draw(t, "nops")
	for i := 0; i < n; i++ {
		var o, nv any
		for try := 0; try < 4; try++ {
			o, nv = genOp(t, v, g.cfg.badOpP)
			b, _ := json.Marshal(o)
			var sp model.OpSpec
			json.Unmarshal(b, &sp)
			if v == nil {
				break
			}
			r, err := model.ApplyOps(v, []model.OpSpec{sp})
			if err == nil && r != nil {
				nv = r
				break
			}
			if pct(t, g.cfg.badOpP, "keepBad") {
				break
			}
			o = nil
		}
		if o == nil {
			break
		}
		out, v = append(out, o), nv
	}
	return out
}

func op(name string, kv ...string) map[string]any {
	m := map[string]any{"type": name}
	if len(kv) > 0 {
		a := map[string]any{}
		for i := 0; i+1 < len(kv); i += 2 {
			a[kv[i]] = kv[i+1]
		}
		m["args"] = a
	}
	return m
}

var strOps = []func(t *rapid.T) (map[string]any, any){
	func(t *rapid.T) (map[string]any, any) {
		return op("changeCase", "to", pick(t, "to", []string{"lower", "upper"})), "AB"
	},
	func(t *rapid.T) (map[string]any, any) {
		re := pick(t, "regex", []string{"a", "[0-9]+", "(.)(.)", "^", "$", " ", "[aeiou]", `(\w+)-(\w+)`, "x*", `\.`, "(?i)ab", "b|c", "(http://.*net)/", `[\D]`})
		return op("replace", "regex", re, "new", pick(t, "new", []string{"", "-", "$1", "$2$1", "${1}z", "$$", "QQ", `\`})), "ab"
	},
	func(t *rapid.T) (map[string]any, any) {
		return op("split", "on", pick(t, "on", []string{"|", " ", ",", "", "-", "ab", ":"})), []any{"a", "b"}
	},
	func(t *rapid.T) (map[string]any, any) {
		return op("toCamelCase", "delimiter", pick(t, "delim", []string{"-", "_", " ", ""})), "ab"
	},
	func(t *rapid.T) (map[string]any, any) { return op("removeHTML"), "ab" },
	func(t *rapid.T) (map[string]any, any) { return op("valueExists"), true },
}

// genOp draws an operation that suits v (mostly) and a rough guess of what it yields.
func genOp(t *rapid.T, v any, badP int) (any, any) {
	if pct(t, badP, "badOp") {
		v = pick(t, "badFor", []any{"s", 1.0, true, []any{1.0}})
	}
	switch x := v.(type) {
	case string:
		if pct(t, 55, "specific") {
			switch {
			case strings.Count(x, ":") >= 1 && len(x) <= 8:
				return op("duration"), 3.0
			case strings.HasPrefix(x, "20") && strings.Contains(x, "T"):
				return op("timeParse", "format", "2006-01-02T15:04:05Z07:00", "layout", pick(t, "layout", []string{"03:04", "2006-01-02", "Jan 2, 2006 at 3:04pm (MST)"})), "x"
			case x == "2019-05-16":
				return op("timeParse", "format", "2006-01-02", "layout", "02 Jan 06"), "x"
			case x == "true" || x == "false" || x == "TRUE" || x == "t":
				return op("convertToBool"), true
			case x != "" && x[0] >= '0' && x[0] <= '9' || x == "-3":
				if rapid.Bool().Draw(t, "i64") {
					return op("convertToInt64"), 3.0
				}
				return op("convertToFloat64"), 3.0
			}
		}
		o, r := strOps[rapid.IntRange(0, len(strOps)-1).Draw(t, "strOp")](t)
		return o, r
	case float64:
		switch rapid.IntRange(0, 2).Draw(t, "numOp") {
		case 0:
			return op("convertToBool"), true
		case 1:
			return op("convertToInt64"), x
		}
		return op("convertToFloat64"), x
	case int, int64:
		return op(pick(t, "intOp", []string{"convertToInt64", "convertToBool"})), true
	case time.Time:
		return op("convertToBool"), true
	case bool:
		if rapid.Bool().Draw(t, "inv") {
			return op("inverse"), !x
		}
		return op("convertToBool"), x
	case []any:
		if len(x) > 0 {
			if m, ok := x[0].(map[string]any); ok && pct(t, 70, "max") {
				by, ret := "id", "name"
				for _, k := range identKeys {
					if _, ok := m[k].(float64); ok {
						by = k
						break
					}
				}
				if pct(t, 40, "maxRet") {
					ret = pick(t, "ret", identKeys)
				}
				return op("max", "by", "@."+by, "return", "@."+ret), "x"
			}
		}
		return op("convertToBool"), true
	}
	return op("changeCase", "to", "lower"), "x"
}

func (g *jg) transform(kind string, rel []pv) (map[string]any, any) {
	t := g.t
	n := 1
	multi := pct(t, g.cfg.multiP, "multi")
	if multi {
		n = rapid.IntRange(2, 4).Draw(t, "nfrom")
	}
	var from []any
	var first any
	for i := 0; i < n; i++ {
		pk := kind
		withOps := pct(t, g.cfg.opsP, "withOps")
		if withOps && kind != "array" && kind != "object" && kind != "free" && pct(t, 20, "opArr") {
			pk = "array"
		}
		p, v := g.path(pk, rel)
		if (kind == "object") && !fits(v, kind) && !pct(t, 4, "oddObj") {
			p, v = p[:1]+".zz", nil
		}
		if strings.HasPrefix(p, "$") {
			if st, err := model.ResolvePath(p, nil, nil); err == nil {
				v, _ = model.GetPath(g.input, st)
			}
		}
		if c, err := model.Coerce(v, kind); err == nil {
			v = c
		}
		in := map[string]any{"jsonPath": p}
		if first == nil {
			first = v
		}
		if withOps {
			in["operations"] = g.ops(kind, v)
		}
		if pct(t, 8, "xmlNoise") {
			in["xmlPath"] = "//noise"
		}
		from = append(from, in)
	}
	tr := map[string]any{"from": from}
	if multi || pct(t, 15, "methodAnyway") {
		m := pick(t, "method", []string{"first", "last", "last", "concatenate", "concatenate"})
		if kind != "string" && m == "concatenate" && !pct(t, 5, "concatOdd") {
			m = "last"
		}
		tr["method"] = m
		if m == "concatenate" && pct(t, 60, "delim") {
			tr["methodOptions"] = map[string]any{"concatenateDelimiter": pick(t, "delimiter", []string{"/", ", ", "", "--"})}
		}
	}
	return tr, first
}

var scalarKinds = []string{"string", "string", "string", "number", "integer", "boolean", "date-time"}

func natural(v any) string {
	switch x := v.(type) {
	case string:
		if strings.HasPrefix(x, "2018-") {
			return "date-time"
		}
		return "string"
	case float64:
		return "number"
	case bool:
		return "boolean"
	case []any:
		return "array"
	case map[string]any:
		return "object"
	}
	return "string"
}

// node generates one schema instance. same: the input value at the same path (nil if none), rel: values reachable
// with `@`, out: the wildcard output path.
func (g *jg) node(depth int, same any, rel []pv, out string, allowRel bool) map[string]any {
	t := g.t
	g.budget--
	kind := pick(t, "kind", scalarKinds)
	if same != nil && pct(t, 65, "natural") {
		kind = natural(same)
	} else if pct(t, g.cfg.arrayP, "array") {
		kind = "array"
	} else if pct(t, 18, "object") {
		kind = "object"
	} else if pct(t, 6, "free") {
		kind = "free"
	}
	if (depth <= 0 || g.budget <= 0) && (kind == "array" || kind == "object") {
		kind = pick(t, "leafKind", scalarKinds)
	}
	n := map[string]any{}
	typ := kind
	switch kind {
	case "free":
		typ = "object"
		n["properties"] = map[string]any{}
	case "date-time":
		typ = "string"
		n["format"] = "date-time"
	}
	switch rapid.IntRange(0, 9).Draw(t, "typeForm") {
	case 0:
		n["type"] = []any{typ, "null"}
	case 1:
		n["type"] = []any{"null", typ}
	case 2:
		n["type"] = []any{typ}
	default:
		n["type"] = typ
	}
	if typ != "string" && rare(t, 20, "idleFormat") {
		n["format"] = "date-time" // formats apply to strings
	}
	if pct(t, 10, "desc") {
		n["description"] = genStr(t)
	}
	var first any
	hasTrans := pct(t, g.cfg.transP, "trans")
	if hasTrans && (kind == "object" || kind == "free") && !pct(t, 40, "objTrans") {
		hasTrans = false
	}
	r := rel
	if !allowRel && (kind == "array" || kind == "object" || kind == "free") {
		r = nil
	}
	if hasTrans {
		var tr map[string]any
		tr, first = g.transform(kind, r)
		sec := map[string]any{g.ident: tr}
		if pct(t, 15, "otherIdent") {
			o, _ := g.transform(kind, r)
			sec[g.ident+"2"] = o
		}
		n["transform"] = sec
	} else if pct(t, 6, "onlyOther") {
		o, _ := g.transform(kind, r)
		n["transform"] = map[string]any{g.ident + "2": o}
	}
	hasDef := pct(t, g.cfg.defP, "def")
	switch kind {
	case "object":
		props := map[string]any{}
		np := rapid.IntRange(1, g.cfg.maxProps).Draw(t, "nprops")
		sm, _ := same.(map[string]any)
		names := g.names(np, sm)
		for _, k := range names {
			var crel []pv
			if rel != nil {
				collect("@", sm, &crel, 60)
				if len(crel) == 0 {
					crel = []pv{{"@.zz", nil}}
				}
			} else if pct(t, 15, "relOutside") {
				collect("@", sm, &crel, 60)
			}
			props[k] = g.node(depth-1, sm[k], crel, out+seg(k), true)
		}
		n["properties"] = props
		if hasDef {
			d := map[string]any{}
			if len(names) > 0 && pct(t, 70, "defKnown") {
				d[pick(t, "defKey", names)] = genScalar(t)
			}
			if pct(t, 30, "defExtra") {
				d["extra"] = genVal(t, 1, g.cfg)
			}
			n["default"] = d
		}
	case "array":
		var items []any
		if first != nil {
			if a, ok := first.([]any); ok {
				items = a
			} else {
				items = []any{first}
			}
		} else if a, ok := same.([]any); ok {
			items = a
		} else if same != nil {
			items = []any{same}
		}
		var def []any
		if hasDef {
			m := rapid.IntRange(0, 3).Draw(t, "defLen")
			def = []any{}
			for i := 0; i < m; i++ {
				if len(items) > 0 && pct(t, 50, "defLike") {
					def = append(def, items[0])
				} else {
					def = append(def, genVal(t, 1, g.cfg))
				}
			}
			n["default"] = def
			if len(items) == 0 {
				items = def
			}
		}
		var rep any
		if len(items) > 0 {
			rep = items[rapid.IntRange(0, len(items)-1).Draw(t, "rep")]
		}
		var crel []pv
		for i, it := range items {
			if i > 5 {
				break
			}
			collect("@", it, &crel, 60)
		}
		if len(crel) == 0 {
			crel = []pv{{"@.zz", nil}}
		}
		g.arrays = append(g.arrays, out+"[*]")
		n["items"] = g.node(depth-1, rep, crel, out+"[*]", false)
		g.arrays = g.arrays[:len(g.arrays)-1]
	default:
		if hasDef {
			n["default"] = g.scalarDefault(kind)
		}
	}
	return n
}

func (g *jg) scalarDefault(kind string) any {
	t := g.t
	switch kind {
	case "string":
		return genStr(t)
	case "number":
		return genNum(t)
	case "integer":
		return float64(rapid.IntRange(-3, 3).Draw(t, "defInt"))
	case "boolean":
		return rapid.Bool().Draw(t, "defBool")
	case "date-time":
		return "2020-01-02T03:04:05Z"
	}
	return map[string]any{"k": genScalar(t)}
}

func (g *jg) names(n int, sm map[string]any) []string {
	t := g.t
	have := make([]string, 0, len(sm))
	for k := range sm {
		have = append(have, k)
	}
	sort.Strings(have)
	seen := map[string]bool{}
	var out []string
	for i := 0; i < n; i++ {
		k := pick(t, "name", identKeys)
		if pct(t, 3, "oddName") {
			k = pick(t, "oddName", oddKeys)
		}
		if len(have) > 0 && pct(t, 55, "haveName") {
			k = pick(t, "have", have)
		}
		if !seen[k] {
			seen[k] = true
			out = append(out, k)
		}
	}
	return out
}

func genJ(cfg jcfg) func(t *rapid.T) JCase {
	return func(t *rapid.T) JCase {
		g := &jg{t: t, cfg: cfg, ident: pick(t, "ident", []string{"cumulo", "id1", "presentationv4"}), budget: 22}
		var schema map[string]any
		if pct(t, cfg.rootArr, "rootArr") {
			n := rapid.IntRange(0, 4).Draw(t, "rootLen")
			arr := []any{}
			for i := 0; i < n; i++ {
				arr = append(arr, genVal(t, 2, cfg))
			}
			g.input = arr
			collect("$", g.input, &g.abs, 150)
			var rep any
			if n > 0 {
				rep = arr[0]
			}
			var crel []pv
			for _, it := range arr {
				collect("@", it, &crel, 60)
			}
			g.arrays = []string{"$[*]"}
			schema = map[string]any{"type": "array", "items": g.node(cfg.depth, rep, crel, "$[*]", false)}
		} else {
			m := genMap(t, cfg.depth+1, cfg)
			for len(m) < 2 {
				m[genKey(t)] = genVal(t, cfg.depth, cfg)
			}
			g.input = m
			collect("$", g.input, &g.abs, 150)
			props := map[string]any{}
			for _, k := range g.names(rapid.IntRange(1, cfg.maxProps+1).Draw(t, "nroot"), m) {
				props[k] = g.node(cfg.depth, m[k], nil, "$"+seg(k), true)
			}
			schema = map[string]any{"type": "object", "properties": props}
		}
		if arr, ok := g.input.([]any); ok && len(arr) > 0 && chance(t, 20, "singleRoot") {
			g.input = arr[0] // a single item instead of a list
		} else if rare(t, 40, "otherRoot") {
			g.input = pick(t, "otherRootKind", []any{[]any{g.input}, "text", 3.0, nil, true, []any{}})
		}
		sb, err := json.Marshal(schema)
		if err != nil {
			panic(err)
		}
		ib, err := json.Marshal(g.input)
		if err != nil {
			panic(err)
		}
		return JCase{Schema: string(sb), Ident: g.ident, Input: string(ib)}
	}
}
