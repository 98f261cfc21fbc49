package props

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"math/big"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// ConvCase is one value handed to one field of a declared type.
type ConvCase struct {
	Kind    string          `json:"kind"`
	Route   string          `json:"route"` // path: the field's own path; source: a transform source; xml: a transform source of an XML document
	Null    int             `json:"null"`  // how null is part of the type: 0 not, 1 first, 2 last
	Default json.RawMessage `json:"default,omitempty"`
	Place   string          `json:"place"` // root, object, array
	Value   json.RawMessage `json:"value"`
}

var decimalRe = regexp.MustCompile(`^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]{1,3})?$`)
var plainIntRe = regexp.MustCompile(`^[+-]?[0-9]+$`)
var rfc3339Re = regexp.MustCompile(`^([0-9]{4})-([0-9]{2})-([0-9]{2})T([0-9]{2}):([0-9]{2}):([0-9]{2})(\.[0-9]+)?(Z|[+-][0-9]{2}:[0-9]{2})$`)

// conv is what the oracle says about a value.
type conv struct {
	state string // value, none, unusable, undefined
	check func(got any) error
}

func undefinedConv() conv { return conv{state: "undefined"} }

func exactly(want any) conv {
	return conv{"value", func(got any) error {
		if !reflect.DeepEqual(got, want) {
			return fmt.Errorf("got %v, want %v", got, want)
		}
		return nil
	}}
}

// numberExactly: the JSON number got has exactly the value (nearest double for non integers).
func numberExactly(text string) conv {
	want, ok := new(big.Rat).SetString(text)
	if !ok {
		return undefinedConv()
	}
	isInt64 := plainIntRe.MatchString(text) && want.IsInt() && want.Num().IsInt64()
	wf, _ := want.Float64()
	return conv{"value", func(got any) error {
		n, ok := got.(json.Number)
		if !ok {
			return fmt.Errorf("got %T %v, want the number %s", got, got, text)
		}
		g, ok := new(big.Rat).SetString(n.String())
		if !ok {
			return fmt.Errorf("got %q which is no number", n)
		}
		if isInt64 {
			if g.Cmp(want) != 0 {
				return fmt.Errorf("got %s, want exactly %s", n, text)
			}
			return nil
		}
		if gf, _ := g.Float64(); gf != wf {
			return fmt.Errorf("got %s, want %s (%v)", n, text, wf)
		}
		return nil
	}}
}

// days since 1970-01-01 of a proleptic Gregorian date.
func civilDays(y, m, d int64) int64 {
	if m <= 2 {
		y--
	}
	era := y / 400
	if y < 0 {
		era = (y - 399) / 400
	}
	yoe := y - era*400
	mp := (m + 9) % 12
	doy := (153*mp+2)/5 + d - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	return era*146097 + doe - 719468
}

// instant parses an RFC 3339 date-time into nanoseconds since 1970.
func instant(s string) (*big.Int, bool) {
	m := rfc3339Re.FindStringSubmatch(s)
	if m == nil {
		return nil, false
	}
	at := func(i int) int64 { n, _ := strconv.ParseInt(m[i], 10, 64); return n }
	y, mo, d, h, mi, sec := at(1), at(2), at(3), at(4), at(5), at(6)
	dim := []int64{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
	if mo < 1 || mo > 12 || d < 1 || h > 23 || mi > 59 || sec > 59 {
		return nil, false
	}
	max := dim[mo-1]
	if mo == 2 && (y%4 == 0 && y%100 != 0 || y%400 == 0) {
		max = 29
	}
	if d > max {
		return nil, false
	}
	secs := civilDays(y, mo, d)*86400 + h*3600 + mi*60 + sec
	if z := m[8]; z != "Z" {
		zh, _ := strconv.ParseInt(z[1:3], 10, 64)
		zm, _ := strconv.ParseInt(z[4:6], 10, 64)
		if zh > 23 || zm > 59 {
			return nil, false
		}
		off := zh*3600 + zm*60
		if z[0] == '-' {
			off = -off
		}
		secs -= off
	}
	n := new(big.Int).Mul(big.NewInt(secs), big.NewInt(1e9))
	if f := m[7]; f != "" {
		f = (f[1:] + "000000000")[:9]
		ns, _ := strconv.ParseInt(f, 10, 64)
		n.Add(n, big.NewInt(ns))
	}
	return n, true
}

func instantExactly(want *big.Int) conv {
	return conv{"value", func(got any) error {
		s, ok := got.(string)
		if !ok {
			return fmt.Errorf("got %v, want a date-time", got)
		}
		g, ok := instant(s)
		if !ok {
			return fmt.Errorf("got %q which is no RFC 3339 date-time", s)
		}
		if g.Cmp(want) != 0 {
			return fmt.Errorf("got %q, another instant (%v instead of %v ns)", s, g, want)
		}
		return nil
	}}
}

var boolWords = map[string]bool{"1": true, "t": true, "T": true, "true": true, "TRUE": true, "True": true, "0": false, "f": false, "F": false, "false": false, "FALSE": false, "False": false}

func convOracle(kind string, v any) conv {
	for depth := 0; ; depth++ {
		l, ok := v.([]any)
		if !ok {
			break
		}
		if len(l) == 0 {
			if depth > 0 {
				return undefinedConv() // a list whose first entry is an empty list
			}
			return conv{state: "none"}
		}
		v = l[0]
	}
	if v == nil {
		return conv{state: "none"}
	}
	unusable := conv{state: "unusable"}
	switch x := v.(type) {
	case map[string]any:
		return unusable
	case bool:
		switch kind {
		case "boolean":
			return exactly(x)
		case "string":
			return exactly(map[bool]string{true: "true", false: "false"}[x])
		case "number", "integer":
			return numberExactly(map[bool]string{true: "1", false: "0"}[x])
		}
		return unusable
	case json.Number:
		f, _ := strconv.ParseFloat(x.String(), 64)
		rat, _ := new(big.Rat).SetString(x.String())
		switch kind {
		case "boolean":
			return exactly(f > 0)
		case "number", "integer":
			c := numberExactly(x.String() + "e0") // a JSON number has double precision
			if strings.ContainsAny(x.String(), "eE") {
				c = numberExactly(x.String())
			}
			return c
		case "string":
			return conv{"value", func(got any) error {
				s, ok := got.(string)
				if !ok || !decimalRe.MatchString(s) {
					return fmt.Errorf("got %v, want the number %s as a string", got, x)
				}
				g, _ := new(big.Rat).SetString(s)
				if gf, _ := g.Float64(); gf != f {
					return fmt.Errorf("got %q, want the value %s", s, x)
				}
				if strings.ContainsAny(s, "eE") {
					return fmt.Errorf("got %q, want plain decimal notation", s)
				}
				return nil
			}}
		case "date-time":
			if !rat.IsInt() {
				return undefinedConv()
			}
			n := rat.Num()
			if n.Cmp(big.NewInt(253402300799)) > 0 || n.Cmp(big.NewInt(-62167219200)) < 0 {
				return unusable
			}
			return instantExactly(new(big.Int).Mul(n, big.NewInt(1e9)))
		}
	case string:
		switch kind {
		case "string":
			return exactly(x)
		case "boolean":
			if x == "" {
				return undefinedConv()
			}
			if b, ok := boolWords[x]; ok {
				return exactly(b)
			}
			return unusable
		case "number", "integer":
			if x == "" {
				return conv{state: "none"}
			}
			if decimalRe.MatchString(x) {
				if c := numberExactly(x); c.state == "value" {
					r, _ := new(big.Rat).SetString(x)
					f, _ := r.Float64()
					if f-f != 0 {
						return unusable
					}
					return c
				}
				return undefinedConv()
			}
			if strings.ContainsAny(x, "xX_pP") {
				return undefinedConv() // other notations Go accepts
			}
			return unusable
		case "date-time":
			if x == "" {
				return conv{state: "none"}
			}
			if n, ok := instant(x); ok {
				if n.Cmp(new(big.Int).Mul(big.NewInt(-62135596800), big.NewInt(1e9))) == 0 {
					return undefinedConv() // the zero time
				}
				return instantExactly(n)
			}
			if strings.ContainsAny(x, ",") || strings.Contains(x, "24:") || regexp.MustCompile(`^\d{4}-\d\d-\d\dT\d:`).MatchString(x) {
				return undefinedConv() // spellings Go tolerates
			}
			return unusable
		}
	}
	return undefinedConv()
}

func (c ConvCase) schemaAndInput() (string, string, error) {
	f := map[string]any{"type": c.Kind}
	if c.Kind == "date-time" {
		f["type"], f["format"] = "string", "date-time"
	}
	switch c.Null {
	case 1:
		f["type"] = []any{"null", f["type"]}
	case 2:
		f["type"] = []any{f["type"], "null"}
	}
	if c.Default != nil {
		f["default"] = c.Default
	}
	var v any = c.Value
	src := "f"
	xml := c.Route == "xml"
	if c.Route != "path" {
		src = "other"
		p := map[string]string{"root": "$.other", "object": "@.other", "array": "@.other"}[c.Place]
		in := map[string]any{"jsonPath": p}
		if xml {
			in = map[string]any{"xmlPath": map[string]string{"root": "/r/other", "object": "/r/o/other", "array": "other"}[c.Place]}
		}
		f["transform"] = map[string]any{"x": map[string]any{"from": []any{in}}}
	}
	props := map[string]any{"f": f}
	obj := map[string]any{"type": "object", "properties": props}
	doc := map[string]any{src: v}
	body := ""
	if xml {
		var s string
		if json.Unmarshal(c.Value, &s) != nil {
			return "", "", pbt.Harnessf("no string for XML")
		}
		body = "<other>" + xmlEscape(s) + "</other>"
	}
	switch c.Place {
	case "object":
		obj = map[string]any{"type": "object", "properties": map[string]any{"o": obj}}
		doc = map[string]any{"o": doc}
		body = "<o>" + body + "</o>"
	case "array":
		arr := map[string]any{"type": "array", "items": obj, "transform": map[string]any{"x": map[string]any{"from": []any{map[string]any{"jsonPath": "$.o", "xmlPath": "/r/o"}}}}}
		obj = map[string]any{"type": "object", "properties": map[string]any{"o": arr}}
		doc = map[string]any{"o": []any{doc}}
		body = "<o>" + body + "<z><zz/></z></o>"
	}
	if xml {
		return mustJSON(obj), "<r>" + body + "</r>", nil
	}
	return mustJSON(obj), mustJSON(doc), nil
}

func xmlEscape(s string) string {
	var b bytes.Buffer
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

func genConv(t *rapid.T) ConvCase {
	c := ConvCase{Kind: pick(t, "kind", []string{"string", "number", "integer", "boolean", "date-time"}), Route: pick(t, "route", []string{"path", "path", "path", "source", "xml"}),
		Null: rapid.IntRange(0, 2).Draw(t, "null"), Place: pick(t, "place", []string{"root", "object", "array"})}
	if rapid.Bool().Draw(t, "hasDefault") {
		c.Default = json.RawMessage(map[string]string{"string": `"dflt"`, "number": `-77.5`, "integer": `-77`, "boolean": pick(t, "bd", []string{"true", "false"}), "date-time": `"2001-02-03T04:05:06Z"`}[c.Kind])
	}
	v := genConvValue(t, c.Route == "xml", 2)
	if c.Route != "xml" && chance(t, 8, "wrap") {
		for i := rapid.IntRange(1, 5).Draw(t, "wraps"); i > 0; i-- {
			v = "[" + v + pick(t, "wrapTail", []string{"", "", `,"x"`, ",[1]"}) + "]"
		}
	}
	c.Value = json.RawMessage(v)
	return c
}

func quote(s string) string { return mustJSON(s) }

func genConvValue(t *rapid.T, str bool, depth int) string {
	k := rapid.IntRange(0, 11).Draw(t, "vk")
	if str && (k >= 6 || k == 0) {
		k = 1 + k%5
	}
	if depth == 0 && k == 10 {
		k = 9
	}
	switch k {
	case 0, 6, 7: // a JSON number
		switch rapid.IntRange(0, 6).Draw(t, "nk") {
		case 0:
			return strconv.Itoa(rapid.IntRange(-100, 100).Draw(t, "small"))
		case 1:
			return strconv.FormatInt(rapid.Int64Range(-9007199254740991, 9007199254740991).Draw(t, "int"), 10)
		case 2:
			f := rapid.Float64().Draw(t, "float")
			if f-f != 0 {
				f = 1.5
			}
			return mustJSON(f)
		case 3:
			return mustJSON(rapid.Float64Range(-1e6, 1e6).Draw(t, "float1"))
		case 4:
			return strconv.FormatInt(rapid.Int64Range(-62167219200-1000, 253402300799+1000).Draw(t, "secs"), 10)
		case 5:
			return pick(t, "np", []string{"0", "-0", "1", "1.0", "1e3", "1E-7", "0.1", "253402300799", "253402300800", "1e21", "123456789012345680000", "5e-324", "1.7976931348623157e308", "-1", "0.30000000000000004"})
		}
		return fmt.Sprintf("%d.%02d", rapid.IntRange(-1000, 1000).Draw(t, "whole"), rapid.IntRange(0, 99).Draw(t, "cents"))
	case 1: // numeric string
		switch rapid.IntRange(0, 4).Draw(t, "sk") {
		case 0:
			return quote(strconv.FormatInt(rapid.Int64().Draw(t, "i64"), 10))
		case 1:
			return quote(strconv.FormatFloat(rapid.Float64Range(-1e9, 1e9).Draw(t, "sf"), pick(t, "fmt", []byte{'f', 'e', 'g'}), rapid.IntRange(-1, 12).Draw(t, "prec"), 64))
		case 2:
			return quote(pick(t, "edge", []string{"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "007", "+7", "-0", "1.", ".5", "1e400", "-1e400", "1e-400", "00", "0.1", "123456789012345678901234567890"}))
		case 3:
			return quote(pick(t, "nonnum", []string{"NaN", "nan", "Inf", "-Infinity", "1,000", "12px", "1 2", " 1", "1 ", "١٢", "--1", "1e", "e1", ".", "+", "-", "0x10", "1_000", "$5", "one", "1.2.3"}))
		}
		return quote(strconv.Itoa(rapid.IntRange(-1000, 1000).Draw(t, "si")))
	case 2: // boolean words
		return quote(pick(t, "bw", []string{"true", "false", "True", "False", "TRUE", "FALSE", "t", "f", "T", "F", "1", "0", "yes", "no", "on", "off", "tRue", "2", "-1", "y", "null", " true", "truely"}))
	case 3, 8: // dates
		if rapid.IntRange(0, 3).Draw(t, "dk") == 0 {
			return quote(pick(t, "de", []string{"2018-02-30T00:00:00Z", "2016-02-29T23:59:59Z", "2018-06-25", "2018-06-25T20:21:13", "2018-06-25 20:21:13Z", "9999-12-31T23:59:59.999999999Z", "9999-12-31T23:59:59-01:00", "0001-01-01T00:00:00Z", "0001-01-01T00:00:01Z", "1970-01-01T00:00:00Z", "1969-12-31T23:59:59Z", "1970-01-01T01:00:00+01:00", "0000-01-01T00:00:00Z", "2018-06-25T20:21:60Z", "2018-06-25T24:00:00Z", "2018-06-25T20:21:13+24:00", "2018-06-25T20:21:13+23:59", "2018-13-01T00:00:00Z", "20180625T202113Z", "Mon, 25 Jun 2018 20:21:13 GMT", "2018-06-25t20:21:13z", "2018-06-25T20:21:13+0200", "2018-06-25T20:21:13.Z", "2018-06-25T20:21:13,5Z", "2100-02-29T00:00:00Z", "1900-02-29T00:00:00Z", "2000-02-29T00:00:00Z"}))
		}
		s := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d", rapid.IntRange(0, 9999).Draw(t, "y"), rapid.IntRange(1, 12).Draw(t, "mo"), rapid.IntRange(1, 31).Draw(t, "d"), rapid.IntRange(0, 23).Draw(t, "h"), rapid.IntRange(0, 59).Draw(t, "mi"), rapid.IntRange(0, 59).Draw(t, "s"))
		if rapid.Bool().Draw(t, "frac") {
			s += fmt.Sprintf(".%0*d", rapid.IntRange(1, 9).Draw(t, "fd"), rapid.IntRange(0, 9).Draw(t, "f"))
		}
		if rapid.Bool().Draw(t, "zone") {
			s += fmt.Sprintf("%s%02d:%02d", pick(t, "zs", []string{"+", "-"}), rapid.IntRange(0, 14).Draw(t, "zh"), pick(t, "zm", []int{0, 30, 45}))
		} else {
			s += "Z"
		}
		return quote(s)
	case 4:
		return quote(pick(t, "str", []string{"", "abc", "Hello World", "é✓", "line\nbreak", "q\"uote", "<b>&amp;</b>", "0", "[]", "{}", "a b  c"}))
	case 5:
		return quote(rapid.StringOfN(rapid.RuneFrom([]rune("abz019.-+eETZ:x é\"\\<&")), 0, 8, -1).Draw(t, "rs"))
	case 9:
		return pick(t, "misc", []string{"true", "false", "null", "null", "{}", `{"a":1}`, "[]"})
	case 10: // a list
		n := rapid.IntRange(0, 3).Draw(t, "ll")
		var parts []string
		for i := 0; i < n; i++ {
			parts = append(parts, genConvValue(t, false, depth-1))
		}
		return "[" + strings.Join(parts, ",") + "]"
	}
	return quote(genStr(t))
}

func decodeNumber(b []byte) (any, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	err := d.Decode(&v)
	return v, err
}

func checkConv(c ConvCase, info *pbt.Info) error {
	v, err := decodeNumber(c.Value)
	if err != nil {
		return pbt.Harness(err)
	}
	if s, ok := v.(string); ok && c.Route == "xml" {
		if strings.TrimSpace(s) != s || strings.ContainsAny(s, "\r\n\t") || s == "" {
			return pbt.Skip("white space in XML text")
		}
	}
	o := convOracle(c.Kind, v)
	if o.state == "undefined" {
		return pbt.Skip("conversion the property does not define")
	}
	if o.state == "unusable" && c.Route == "source" {
		return pbt.Skip("unconvertible transform result")
	}
	schema, input, err := c.schemaAndInput()
	if err != nil {
		return err
	}
	format := "json"
	if c.Route == "xml" {
		format = "xml"
	}
	tr, err := newTr(format, schema, "x")
	if err != nil {
		return fmt.Errorf("NewTransformer: %v", err)
	}
	res := runJ(tr, input)
	if res.err != nil {
		return fmt.Errorf("%s %s value to %s: %v", c.Route, o.state, c.Kind, res.err)
	}
	got, err := decodeNumber([]byte(res.out))
	if err != nil {
		return fmt.Errorf("output is no JSON: %s", res.out)
	}
	if got != nil && c.Place != "root" {
		got = got.(map[string]any)["o"]
		if l, ok := got.([]any); ok && len(l) == 1 {
			got = l[0]
		}
	}
	if m, ok := got.(map[string]any); ok {
		got = m["f"]
	}
	info.Label(o.state, "to "+c.Kind, c.Route)
	_, isList := v.([]any)
	info.LabelIf(isList, "list")
	info.Nontrivial = o.state == "value" || c.Default != nil
	if o.state == "value" {
		if err := o.check(got); err != nil {
			return fmt.Errorf("%s converted to %s: %v (output %s)", c.Value, c.Kind, err, res.out)
		}
		return nil
	}
	var want any
	if c.Default != nil {
		want, _ = decodeNumber(c.Default)
	}
	if !reflect.DeepEqual(got, want) {
		return fmt.Errorf("%s is %s for %s, so the default %s applies, got %v (output %s)", c.Value, o.state, c.Kind, c.Default, got, res.out)
	}
	return nil
}

// RoundTripCase is a number or boolean sent to a string field and back.
type RoundTripCase struct {
	Kind  string          `json:"kind"`
	Value json.RawMessage `json:"value"`
}

func checkConvRound(c RoundTripCase, info *pbt.Info) error {
	info.Label(c.Kind)
	info.Nontrivial = true
	conv := func(kind, v string) (string, error) {
		f := map[string]any{"type": kind}
		if kind == "date-time" {
			f["type"], f["format"] = "string", "date-time"
		}
		tr, err := newTr("json", mustJSON(map[string]any{"type": "object", "properties": map[string]any{"f": f}}), "x")
		if err != nil {
			return "", err
		}
		res := runJ(tr, `{"f":`+v+`}`)
		if res.err != nil {
			return "", res.err
		}
		var m map[string]json.RawMessage
		if err := json.Unmarshal([]byte(res.out), &m); err != nil || len(m["f"]) == 0 {
			return "", fmt.Errorf("no value in %s", res.out)
		}
		return string(m["f"]), nil
	}
	s, err := conv("string", string(c.Value))
	if err != nil {
		return err
	}
	back, err := conv(c.Kind, s)
	if err != nil {
		return fmt.Errorf("%s became %s: %v", c.Value, s, err)
	}
	var a, b any
	json.Unmarshal(c.Value, &a)
	json.Unmarshal([]byte(back), &b)
	if !reflect.DeepEqual(a, b) {
		return fmt.Errorf("%s became the string %s and then %s", c.Value, s, back)
	}
	// converting a converted value again changes nothing
	again, err := conv(c.Kind, back)
	if err != nil || again != back {
		return fmt.Errorf("converting %s again gives %s (%v)", back, again, err)
	}
	return nil
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "T04",
		Subs: []*pbt.Sub{
			pbt.NewSub("convert", "a value of any JSON kind for a field of any scalar type, by its own path, a transform source or an XML text, in the root, an object or array items, judged with exact arithmetic; non-trivial: convertible, or with a default to fall back to", 400000, 4000000, genConv, checkConv),
			pbt.NewSub("roundtrip", "numbers and booleans sent to a string field and back keep their value; every case is non-trivial", 40000, 400000, func(t *rapid.T) RoundTripCase {
				switch rapid.IntRange(0, 3).Draw(t, "k") {
				case 0:
					return RoundTripCase{"boolean", json.RawMessage(mustJSON(rapid.Bool().Draw(t, "b")))}
				case 1:
					return RoundTripCase{"integer", json.RawMessage(mustJSON(rapid.Int64Range(-9007199254740991, 9007199254740991).Draw(t, "i")))}
				}
				f := rapid.Float64().Draw(t, "f")
				if f-f != 0 {
					f = 0.1
				}
				return RoundTripCase{"number", json.RawMessage(mustJSON(f))}
			}, checkConvRound),
		},
	})
}
