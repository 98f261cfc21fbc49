package props

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"

	"github.com/GannettDigital/jstransform/transform"

	"verif/harness/model"
	"verif/harness/pbt"
)

// opCase builds the case: one field of the kind whose single source is $.v with the operations.
func opCase(kind string, v any, ops []any) JCase {
	f := map[string]any{"type": kind, "transform": map[string]any{"x": map[string]any{"from": []any{map[string]any{"jsonPath": "$.v", "operations": ops}}}}}
	switch kind {
	case "free":
		f["type"], f["properties"] = "object", map[string]any{}
	case "array":
		f["items"] = map[string]any{"type": "string"}
	case "date-time":
		f["type"], f["format"] = "string", "date-time"
	}
	return JCase{Schema: mustJSON(map[string]any{"type": "object", "properties": map[string]any{"out": f}}), Ident: "x", Input: mustJSON(map[string]any{"v": v})}
}

var opNames = []string{"duration", "changeCase", "inverse", "max", "replace", "split", "timeParse", "toCamelCase", "removeHTML", "convertToFloat64", "convertToInt64", "convertToBool", "valueExists"}

func genWords(t *rapid.T, seps string, max int) string {
	n := rapid.IntRange(0, max).Draw(t, "nwords")
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 || pct(t, 15, "leadSep") {
			b.WriteByte(seps[rapid.IntRange(0, len(seps)-1).Draw(t, "sep")])
		}
		b.WriteString(pick(t, "word", []string{"extra", "base", "HIT", "Ab", "éa", "", "x", "ßtraße", "1st", "DŽ", "it's", "a.b", "ǆ"}))
	}
	if pct(t, 15, "trailSep") {
		b.WriteByte(seps[0])
	}
	return b.String()
}

func genTimeStr(t *rapid.T, layout string) string {
	d := time.Date(rapid.IntRange(1, 9999).Draw(t, "year"), time.Month(rapid.IntRange(1, 12).Draw(t, "mon")), rapid.IntRange(1, 31).Draw(t, "day"),
		rapid.IntRange(0, 23).Draw(t, "h"), rapid.IntRange(0, 59).Draw(t, "m"), rapid.IntRange(0, 59).Draw(t, "s"), rapid.IntRange(0, 999999999).Draw(t, "ns"), time.FixedZone("", rapid.IntRange(-50, 50).Draw(t, "zone")*900))
	return d.Format(layout)
}

var layouts = []string{time.RFC3339, time.RFC3339Nano, time.RFC1123Z, time.RFC850, time.ANSIC, "2006-01-02", "01/02/06 15:04", "03:04PM", "Jan _2 2006", "02 January 2006", "2006-01-02T15:04:05.000Z0700", "15:04", "Monday", "2006", ""}

// genOpInput draws a value for the named operation, arguments and the field kind that hands it over.
func genOpInput(t *rapid.T, name string) (kind string, v any, o map[string]any) {
	kind = "string"
	wrong := pct(t, 8, "wrongType")
	switch name {
	case "duration":
		part := func() string {
			return pick(t, "part", []string{"0", "00", "1", "59", "60", "61", "99", "7", "007", strconv.Itoa(rapid.IntRange(0, 100000).Draw(t, "big"))})
		}
		s := part() + ":" + part()
		if rapid.Bool().Draw(t, "hours") {
			s += ":" + part()
		}
		if pct(t, 12, "badDuration") {
			s = pick(t, "bad", []string{"12", "a:b", "1:2:3:4", "-1:30", "1:30 ", "1.5:30", "1:3x", "", "12:00pm", "+1:00", "1h30m", "٣:٤", ":30", "1:", ":", "::", "1::30", ":1:30", "1:30:", "99999999999999999999:00", "1:99999999999999999999", "99999999999999999999:1:1", "1:99999999999999999999:1"})
		}
		v, o = s, op("duration")
		if pct(t, 10, "inList") {
			kind, v = "array", [][]any{{s}, {s}, {s}, {}, {s, s}, {[]any{s}}}[rapid.IntRange(0, 5).Draw(t, "listForm")]
		}
	case "changeCase":
		v, o = genWords(t, " -", 4), op("changeCase", "to", pick(t, "to", []string{"lower", "upper"}))
	case "inverse":
		kind, v, o = "boolean", rapid.Bool().Draw(t, "b"), op("inverse")
	case "max":
		kind = "array"
		n := rapid.IntRange(2, 12).Draw(t, "n")
		if pct(t, 20, "rangeOne") {
			n = rapid.IntRange(0, 2).Draw(t, "n2")
		}
		nested := pct(t, 30, "nestedBy")
		key := "by"
		if !nested && pct(t, 15, "oddBy") {
			key = pick(t, "byKey", []string{"a@b", "@", "b.y", "b y"})
		}
		var items []any
		for i := 0; i < n; i++ {
			var by any
			switch rapid.IntRange(0, 5).Draw(t, "byKind") {
			case 0:
				by = float64(rapid.IntRange(-3, 3).Draw(t, "by"))
			case 1:
				by = rapid.Float64Range(-1e6, 1e6).Draw(t, "byF")
			case 2:
				by = -rapid.Float64Range(0, 1e300).Draw(t, "byNeg")
			default:
				by = float64(rapid.IntRange(-1000, 1000).Draw(t, "byI"))
			}
			if pct(t, 2, "badBy") {
				by = pick(t, "by", []any{"12", nil, true})
			}
			m := map[string]any{"url": fmt.Sprintf("u%d", i), "obj": map[string]any{"i": i}}
			if nested {
				m["q"] = map[string]any{"by": by}
			} else {
				m[key] = by
			}
			if pct(t, 2, "noBy") {
				delete(m, key)
			}
			if pct(t, 4, "noRet") {
				delete(m, "url")
			}
			items = append(items, m)
			if pct(t, 1, "oddItem") {
				items = append(items, pick(t, "item", []any{nil, "by", 7.0}))
			}
		}
		by := "@.by"
		if key != "by" {
			by = `@["` + key + `"]`
		}
		if nested {
			by = "@.q.by"
		}
		v, o = items, op("max", "by", by, "return", pick(t, "ret", []string{"@.url", "@.url", "@.obj", "@.obj.i", "@.by"}))
		if n == 0 {
			v = []any{}
		}
	case "replace":
		re := pick(t, "regex", []string{"a", "[0-9]+", "(.)(.)", "^", "$", " ", "[aeiou]", `(\w+)-(\w+)`, "x*", `\.`, "(?i)ab", "b|c", `(?P<n>[a-z]+)`, `[\D]`, "(http://.*net)/", `\s+`, "(a)|(b)", "é"})
		v = pick(t, "rs", []string{"aab", "http://x.net/y", "ab-cd ef-gh", "", "a.b.c", "12 and 34", "éé"}) + genWords(t, " -", 2)
		o = op("replace", "regex", re, "new", pick(t, "new", []string{"", "-", "$1", "$2$1", "${1}z", "$1z", "$$", "${n}", `\1`, "$", "é"}))
	case "split":
		seps := pick(t, "seps", []string{"|", " ", ",", "-", "ab"})
		v = genWords(t, seps, 6)
		on := seps[:1]
		if pct(t, 20, "on") {
			on = pick(t, "onv", []string{"", "ab", "  ", "é", "zz", "a"})
		}
		o = op("split", "on", on)
	case "timeParse":
		from, to := pick(t, "from", layouts), pick(t, "to", layouts)
		s := genTimeStr(t, from)
		if pct(t, 15, "badTime") {
			s = pick(t, "bad", []string{"", "yesterday", "2018-13-01", "2018-02-30", "24:00", s + " ", " " + s})
		}
		v, o = s, op("timeParse", "format", from, "layout", to)
	case "toCamelCase":
		d := pick(t, "delim", []string{"-", "_", " ", "", ".", "--", "é"})
		sep := "-"
		if d != "" && len(d) == 1 {
			sep = d
		}
		v, o = genWords(t, sep+" ", 5), op("toCamelCase", "delimiter", d)
	case "removeHTML":
		n := rapid.IntRange(0, 8).Draw(t, "n")
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(pick(t, "tok", []string{"<p>", "</p>", "<b>", "</b>", "<br/>", `<a href="http://x.net/a">`, "</a>", "hello", " ", "world", "&amp;", "&lt;", "&gt;", "&quot;", "&#39;", "&nbsp;", "lt;", "amp;", "\"", "'", "  ", "x.y", "\n", "é", "<div class=\"a b\">", "</div>", "1 2"}))
		}
		v, o = b.String(), op("removeHTML")
	case "convertToFloat64", "convertToInt64":
		o = op(name)
		switch rapid.IntRange(0, 3).Draw(t, "numForm") {
		case 0:
			v = strconv.FormatInt(rapid.Int64().Draw(t, "i64"), 10)
		case 1:
			kind, v = "number", float64(rapid.IntRange(-1000000, 1000000).Draw(t, "hundredths"))/100
		case 2:
			kind, v = "integer", strconv.Itoa(rapid.IntRange(-100000, 100000).Draw(t, "int"))
		default:
			v = pick(t, "ns", []string{"1.5", "-0", "1e3", "", "abc", "12abc", " 1", "9223372036854775807", "9223372036854775808", "+5", "0.1", "1e400", ".5", "007"})
		}
	case "convertToBool":
		o = op(name)
		switch rapid.IntRange(0, 4).Draw(t, "boolForm") {
		case 0:
			v = pick(t, "bs", []string{"true", "false", "T", "F", "1", "0", "TRUE", "False", "yes", "", "tRUE", "2"})
		case 1:
			kind, v = "number", pick(t, "bn", []any{0.0, 1.0, -1.0, 0.5, -0.25, 100.0})
		case 2:
			kind, v = "boolean", rapid.Bool().Draw(t, "bb")
		case 3:
			kind = "array"
			v = pick(t, "ba", []any{[]any{"a", "b"}, []any{nil, nil}, []any{0.0, 0.0}})
		default:
			kind, v = "integer", pick(t, "bi", []any{"0", "7", "-7"})
		}
	case "valueExists":
		v, o = pick(t, "vs", []string{"", " ", "x", "false", "0"}), op(name)
	}
	if wrong {
		kind = pick(t, "wrongKind", []string{"free", "free", "number", "boolean", "array", "date-time", "string"})
		v = pick(t, "wrongVal", []any{1.5, true, "s", map[string]any{"k": "v"}, []any{1.0, 2.0}, []any{"a", "b"}, nil, "2018-06-25T20:21:13Z", []any{}, 0.0, "12", false})
	}
	return kind, v, o
}

func genOps(t *rapid.T) JCase {
	name := pick(t, "op", opNames)
	kind, v, o := genOpInput(t, name)
	ops := []any{o}
	cur, _ := model.Coerce(v, kind)
	step := func(o any) bool {
		b, _ := json.Marshal(o)
		var sp model.OpSpec
		json.Unmarshal(b, &sp)
		r, err := model.ApplyOps(cur, []model.OpSpec{sp})
		cur = r
		return err == nil && r != nil
	}
	ok := step(o)
	for n := rapid.IntRange(0, 3).Draw(t, "chain"); n > 0 && ok; n-- {
		o, _ := genOp(t, cur, 6)
		ops = append(ops, o)
		ok = step(o)
	}
	return opCase(kind, v, ops)
}

func checkOps(c JCase, info *pbt.Info) error {
	var s struct {
		Properties struct {
			Out struct {
				Transform struct {
					X model.TransSpec `json:"x"`
				} `json:"transform"`
			} `json:"out"`
		} `json:"properties"`
	}
	if err := json.Unmarshal([]byte(c.Schema), &s); err != nil {
		return pbt.Harness(err)
	}
	ops := s.Properties.Out.Transform.X.From[0].Operations
	if err := checkJModel(c, info); err != nil {
		return err
	}
	for _, o := range ops {
		info.Label("op " + o.Type)
	}
	info.LabelIf(len(ops) > 1, "chain")
	info.Nontrivial = true
	for l := range info.Labels {
		if strings.HasPrefix(l, "error expected") || l == "empty-output" {
			info.Nontrivial = false
		}
	}
	return nil
}

// CurrentTimeCase is a use of currentTime.
type CurrentTimeCase struct {
	RFC bool   `json:"rfc"`
	V   string `json:"v"`
}

func checkCurrentTime(c CurrentTimeCase, info *pbt.Info) error {
	format := "2006-01-02T15:04:05.999999999Z07:00"
	if c.RFC {
		format = "RFC3339"
	}
	jc := opCase("string", c.V, []any{op("currentTime", "format", format)})
	tr, err := newTr("json", jc.Schema, "x")
	if err != nil {
		return err
	}
	before := time.Now().Add(-time.Second)
	o := runJ(tr, jc.Input)
	after := time.Now().Add(time.Second)
	var out struct{ Out string }
	if o.err != nil || json.Unmarshal([]byte(o.out), &out) != nil {
		return fmt.Errorf("no time: %v", o)
	}
	got, err := time.Parse(time.RFC3339, out.Out)
	if err != nil {
		return fmt.Errorf("currentTime gives %q which is not in the requested format", out.Out)
	}
	if got.Before(before) || got.After(after) {
		return fmt.Errorf("currentTime gives %v, it is between %v and %v", got, before, after)
	}
	info.Nontrivial = true
	return nil
}

// DurationCase checks duration by arithmetic.
type DurationCase struct{ H, M, S int }

func checkDuration(c DurationCase, info *pbt.Info) error {
	info.Nontrivial = c.H > 0 && c.M > 0
	for _, f := range []struct {
		s    string
		want int
	}{{fmt.Sprintf("%02d:%02d:%02d", c.H, c.M, c.S), c.H*3600 + c.M*60 + c.S}, {fmt.Sprintf("%02d:%02d", c.M, c.S), c.M*60 + c.S}} {
		jc := opCase("string", f.s, []any{op("duration")})
		tr, err := newTr("json", jc.Schema, "x")
		if err != nil {
			return err
		}
		e := expectation{want: map[string]any{"out": float64(f.want)}}
		if err := e.compare(runJ(tr, jc.Input)); err != nil {
			return fmt.Errorf("%q: %v", f.s, err)
		}
	}
	return nil
}

// ConfigCase is a schema whose selected instructions are right or wrong in one place.
type ConfigCase struct {
	Schema string `json:"schema"`
	XML    bool   `json:"xml"`
	Bad    bool   `json:"bad"`
	What   string `json:"what"`
}

func genConfig(t *rapid.T) ConfigCase {
	type bad struct {
		what string
		o    any
	}
	c := ConfigCase{XML: rapid.Bool().Draw(t, "xml"), Bad: rapid.Bool().Draw(t, "bad")}
	good := func() any {
		switch name := pick(t, "goodOp", append([]string{"currentTime"}, opNames...)); name {
		case "currentTime":
			return op("currentTime", "format", "RFC3339")
		case "max":
			return op("max", "by", "@.a", "return", "@.b")
		default:
			_, _, o := genOpInput(t, name)
			return o
		}
	}
	instr := func() map[string]any {
		in := map[string]any{"jsonPath": "$.v", "xmlPath": "/v"}
		var ops []any
		for n := rapid.IntRange(0, 3).Draw(t, "n"); n > 0; n-- {
			ops = append(ops, good())
		}
		if ops != nil {
			in["operations"] = ops
		}
		return in
	}
	from := []any{}
	for n := rapid.IntRange(1, 3).Draw(t, "from"); n > 0; n-- {
		from = append(from, instr())
	}
	tr := map[string]any{"from": from}
	if rapid.Bool().Draw(t, "method") {
		tr["method"] = pick(t, "m", []string{"first", "last", "concatenate", ""})
	}
	if c.Bad {
		b := pick(t, "badKind", []bad{
			{"unknown operation", op(pick(t, "unk", []string{"uppercase", "Duration", "", "max ", "changecase", "convertToInt"}))},
			{"unknown method", nil},
			{"missing arguments", pick(t, "noArgs", []any{op("changeCase"), op("max"), op("replace"), op("split"), op("timeParse"), op("currentTime"), op("toCamelCase")})},
			{"one argument missing", pick(t, "oneArg", []any{op("max", "by", "@.a"), op("max", "return", "@.a"), op("replace", "regex", "a"), op("replace", "new", "a"), op("timeParse", "format", "2006"), op("timeParse", "layout", "2006")})},
			{"wrong argument name", pick(t, "wrongArg", []any{op("changeCase", "case", "lower"), op("split", "by", ","), op("toCamelCase", "on", "-"), op("max", "by", "@.a", "ret", "@.b"), op("replace", "regexp", "a", "new", "b"), op("timeParse", "format", "2006", "output", "06"), op("currentTime", "layout", "2006")})},
			{"invalid regular expression", op("replace", "regex", pick(t, "re", []string{"(", "[", "a{2,1}", "*", "(?<=a)b", `\8`, "(?P<n", "a**"}), "new", "x")},
			{"invalid case", op("changeCase", "to", pick(t, "case", []string{"", "Lower", "UPPER", "title", "lower "}))},
		})
		c.What = b.what
		if b.o == nil {
			tr["method"] = pick(t, "badMethod", []string{"First", "concat", "all", " first", "LAST", "none"})
		} else {
			in := from[rapid.IntRange(0, len(from)-1).Draw(t, "where")].(map[string]any)
			ops, _ := in["operations"].([]any)
			k := rapid.IntRange(0, len(ops)).Draw(t, "pos")
			ops = append(ops[:k:k], append([]any{b.o}, ops[k:]...)...)
			in["operations"] = ops
		}
	}
	f := map[string]any{"type": pick(t, "type", []string{"string", "number", "boolean", "integer"}), "transform": map[string]any{"x": tr, "other": map[string]any{"from": []any{instr()}}}}
	switch rapid.IntRange(0, 3).Draw(t, "holder") {
	case 0:
		f["type"], f["items"] = "array", map[string]any{"type": "string"}
	case 1:
		f["type"], f["properties"] = "object", map[string]any{}
	case 2:
		f["type"], f["properties"] = "object", map[string]any{"k": map[string]any{"type": "string"}}
	}
	var node any = f
	for d := rapid.IntRange(0, 3).Draw(t, "depth"); d > 0; d-- {
		if rapid.Bool().Draw(t, "inArray") {
			node = map[string]any{"type": "array", "items": node}
		} else {
			node = map[string]any{"type": "object", "properties": map[string]any{"a": map[string]any{"type": "string"}, "b": node}}
		}
	}
	root := map[string]any{"type": "object", "properties": map[string]any{"first": map[string]any{"type": "string"}, "n": node}}
	if pct(t, 20, "rootArr") {
		root = map[string]any{"type": "array", "items": node}
	}
	c.Schema = mustJSON(root)
	return c
}

func checkConfig(c ConfigCase, info *pbt.Info) error {
	info.Nontrivial = c.Bad
	info.Label("config " + c.What)
	s, err := schemaValue(c.Schema)
	if err != nil {
		return err
	}
	build := transform.NewTransformer
	if c.XML {
		build = transform.NewXMLTransformer
	}
	if _, err = build(s, "x"); c.Bad && err == nil {
		return fmt.Errorf("a schema with %s is accepted", c.What)
	} else if !c.Bad && err != nil {
		return fmt.Errorf("a valid schema is refused: %v", err)
	}
	if _, err = build(s, "unused"); err != nil {
		return fmt.Errorf("a schema whose instructions for another identifier are wrong is refused: %v", err)
	}
	return nil
}

func init() {
	_ = math.Pi
	pbt.Register(&pbt.Property{
		ID: "T03",
		Subs: []*pbt.Sub{
			pbt.NewSub("ops", "chains of one to four operations on a value made for the first operation (8% of a wrong type), compared with independent implementations; non-trivial: a result other than an error or no value", 200000, 2000000, genOps, checkOps),
			pbt.NewSub("duration", "duration of generated hours, minutes and seconds against arithmetic; non-trivial: hours and minutes above zero", 20000, 200000, func(t *rapid.T) DurationCase {
				return DurationCase{rapid.IntRange(0, 2000).Draw(t, "h"), rapid.IntRange(0, 120).Draw(t, "m"), rapid.IntRange(0, 120).Draw(t, "s")}
			}, checkDuration),
			pbt.NewSub("currentTime", "currentTime lies between the times around the call and has the requested format", 400, 2000, func(t *rapid.T) CurrentTimeCase {
				return CurrentTimeCase{rapid.Bool().Draw(t, "rfc"), rapid.StringMatching("[a-z]{0,5}").Draw(t, "v")}
			}, checkCurrentTime),
			pbt.NewSub("config", "schemas with right instructions, half of them with one planted configuration error at any place; non-trivial: with an error", 30000, 300000, genConfig, checkConfig),
		},
	})
}
