package model

import (
	"encoding/json"
	"math/big"
	"reflect"
	"regexp"
	"strings"
	"time"
	"unicode/utf8"
)

// Verdict of the small JSON schema validator.
type Verdict struct {
	Bad     []string // violations, as "path: keyword"
	Unknown []string // keywords the specification leaves open for this value
}

// Validate judges a decoded document (numbers as json.Number) against a decoded schema (numbers as json.Number). refs
// resolves the value of a $ref keyword.
func Validate(schema, doc any, refs func(string) (any, bool)) Verdict {
	var v Verdict
	validate(schema, doc, "$", refs, &v, 0)
	return v
}

// DecodeNumber decodes JSON keeping number literals.
func DecodeNumber(b []byte) (any, error) {
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	var v any
	err := d.Decode(&v)
	return v, err
}

func ratOf(v any) *big.Rat {
	n, ok := v.(json.Number)
	if !ok {
		return nil
	}
	r, ok := new(big.Rat).SetString(string(n))
	if !ok {
		return nil
	}
	return r
}

func jsonEqual(a, b any) bool {
	if x, y := ratOf(a), ratOf(b); x != nil && y != nil {
		return x.Cmp(y) == 0
	}
	switch x := a.(type) {
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !jsonEqual(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			e, ok := y[k]
			if !ok || !jsonEqual(x[k], e) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

func isType(t string, doc any) bool {
	switch x := doc.(type) {
	case nil:
		return t == "null"
	case bool:
		return t == "boolean"
	case string:
		return t == "string"
	case json.Number:
		return t == "number" || t == "integer" && ratOf(x) != nil && ratOf(x).IsInt()
	case []any:
		return t == "array"
	case map[string]any:
		return t == "object"
	}
	return false
}

func validate(schema, doc any, path string, refs func(string) (any, bool), out *Verdict, depth int) {
	if depth > 60 {
		out.Unknown = append(out.Unknown, path+": depth")
		return
	}
	if b, ok := schema.(bool); ok {
		if !b {
			out.Bad = append(out.Bad, path+": false")
		}
		return
	}
	s, ok := schema.(map[string]any)
	if !ok {
		out.Unknown = append(out.Unknown, path+": no schema")
		return
	}
	bad := func(k string) { out.Bad = append(out.Bad, path+": "+k) }
	if r, ok := s["$ref"].(string); ok {
		t, ok := refs(r)
		if !ok {
			out.Unknown = append(out.Unknown, path+": ref "+r)
			return
		}
		validate(t, doc, path, refs, out, depth+1)
		return
	}
	sub := func(sch any, d any, p string) Verdict {
		var v Verdict
		validate(sch, d, p, refs, &v, depth+1)
		return v
	}
	merge := func(v Verdict) {
		out.Bad = append(out.Bad, v.Bad...)
		out.Unknown = append(out.Unknown, v.Unknown...)
	}
	switch t := s["type"].(type) {
	case string:
		if !isType(t, doc) {
			bad("type")
		}
	case []any:
		any := false
		for _, e := range t {
			if n, ok := e.(string); ok && isType(n, doc) {
				any = true
			}
		}
		if !any {
			bad("type")
		}
	}
	if e, ok := s["enum"].([]any); ok {
		found := false
		for _, x := range e {
			found = found || jsonEqual(x, doc)
		}
		if !found {
			bad("enum")
		}
	}
	if e, ok := s["const"]; ok && !jsonEqual(e, doc) {
		bad("const")
	}
	limit := func(k string, n int, lower bool) {
		if l := ratOf(s[k]); l != nil {
			c := new(big.Rat).SetInt64(int64(n)).Cmp(l)
			if lower && c < 0 || !lower && c > 0 {
				bad(k)
			}
		}
	}
	switch x := doc.(type) {
	case string:
		limit("minLength", utf8.RuneCountInString(x), true)
		limit("maxLength", utf8.RuneCountInString(x), false)
		if p, ok := s["pattern"].(string); ok && !regexp.MustCompile(p).MatchString(x) {
			bad("pattern")
		}
		if s["format"] == "date-time" {
			if _, err := time.Parse(time.RFC3339, x); err != nil {
				// whether format is an assertion, and how lenient, is up to the implementation
				if x == "" || x[0] < '0' || x[0] > '9' {
					bad("format")
				} else {
					out.Unknown = append(out.Unknown, path+": format")
				}
			}
		}
	case json.Number:
		r := ratOf(x)
		cmp := func(k string, f func(int) bool) {
			if l := ratOf(s[k]); l != nil && !f(r.Cmp(l)) {
				bad(k)
			}
		}
		cmp("minimum", func(c int) bool { return c >= 0 })
		cmp("maximum", func(c int) bool { return c <= 0 })
		cmp("exclusiveMinimum", func(c int) bool { return c > 0 })
		cmp("exclusiveMaximum", func(c int) bool { return c < 0 })
		if m := ratOf(s["multipleOf"]); m != nil && !new(big.Rat).Quo(r, m).IsInt() {
			bad("multipleOf")
		}
	case []any:
		limit("minItems", len(x), true)
		limit("maxItems", len(x), false)
		if s["uniqueItems"] == true {
			for i := range x {
				for j := 0; j < i; j++ {
					if jsonEqual(x[i], x[j]) {
						bad("uniqueItems")
					}
				}
			}
		}
		if it, ok := s["items"]; ok {
			for _, e := range x {
				merge(sub(it, e, path+"[]"))
			}
		}
	case map[string]any:
		limit("minProperties", len(x), true)
		limit("maxProperties", len(x), false)
		if req, ok := s["required"].([]any); ok {
			for _, k := range req {
				if n, ok := k.(string); ok {
					if _, ok := x[n]; !ok {
						bad("required")
					}
				}
			}
		}
		props, _ := s["properties"].(map[string]any)
		for k, e := range x {
			if p, ok := props[k]; ok {
				merge(sub(p, e, path+"."+k))
				continue
			}
			switch ap := s["additionalProperties"].(type) {
			case bool:
				if !ap {
					bad("additionalProperties")
				}
			case map[string]any:
				merge(sub(ap, e, path+"."+k))
			}
		}
	}
	if l, ok := s["allOf"].([]any); ok {
		for _, e := range l {
			merge(sub(e, doc, path))
		}
	}
	for _, k := range []string{"anyOf", "oneOf"} {
		if l, ok := s[k].([]any); ok {
			okN, unk := 0, false
			for _, e := range l {
				v := sub(e, doc, path)
				if len(v.Bad) == 0 && len(v.Unknown) > 0 {
					unk = true
				} else if len(v.Bad) == 0 {
					okN++
				}
			}
			switch {
			case unk:
				out.Unknown = append(out.Unknown, path+": "+k)
			case okN == 0 || k == "oneOf" && okN > 1:
				bad(k)
			}
		}
	}
	if n, ok := s["not"]; ok {
		v := sub(n, doc, path)
		if len(v.Bad) == 0 && len(v.Unknown) == 0 {
			bad("not")
		} else if len(v.Bad) == 0 {
			out.Unknown = append(out.Unknown, path+": not")
		}
	}
}
