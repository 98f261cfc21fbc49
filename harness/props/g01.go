package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"time"

	"verif/harness/pbt"
)

// zeroJSON tells whether an optional value may be left out, or be there without having been given: it decodes to the
// zero value of its type (or an empty list or map).
func zeroJSON(n map[string]any, v any) bool {
	if v == nil {
		return true
	}
	switch kindOf(n) {
	case "date-time":
		s, _ := v.(string)
		t, err := time.Parse(time.RFC3339, s)
		return err == nil && t.IsZero()
	case "object":
		m, ok := v.(map[string]any)
		ps, _ := n["properties"].(map[string]any)
		for k, x := range m {
			p, known := ps[k].(map[string]any)
			if !known || !zeroJSON(p, x) {
				return false
			}
		}
		return ok
	case "map":
		m, ok := v.(map[string]any)
		return ok && len(m) == 0
	case "array":
		l, ok := v.([]any)
		return ok && len(l) == 0
	}
	switch x := v.(type) {
	case string:
		return x == ""
	case float64:
		return x == 0
	case json.Number:
		f, err := x.Float64()
		return err == nil && f == 0
	case bool:
		return !x
	}
	return false
}

// survives compares a document with what comes back; required: the value has to be written.
func survives(n map[string]any, in any, inOK bool, out any, outOK, required bool, path string) error {
	if required && !outOK {
		return fmt.Errorf("%s is required but was not written", path)
	}
	if !inOK || in == nil {
		switch {
		case !outOK || out == nil:
		case inOK && isNullable(n) && kindOf(n) != "array":
			return fmt.Errorf("%s: null became %s", path, mustJSON(out))
		case kindOf(n) == "object" && !inOK && !required:
			return fmt.Errorf("%s: an optional object without a value was written as %s", path, mustJSON(out))
		case !zeroJSON(n, out):
			return fmt.Errorf("%s: %s without a value given", path, mustJSON(out))
		}
		return nil
	}
	if !outOK {
		if zeroJSON(n, in) && !(isNullable(n) && kindOf(n) != "array") {
			return nil
		}
		return fmt.Errorf("%s: %s was lost", path, mustJSON(in))
	}
	bad := fmt.Errorf("%s: %s became %s", path, mustJSON(in), mustJSON(out))
	switch kindOf(n) {
	case "object":
		a, b := in.(map[string]any), map[string]any{}
		b, ok := out.(map[string]any)
		if !ok {
			return bad
		}
		ps := n["properties"].(map[string]any)
		req := map[string]bool{}
		for _, r := range asList(n["required"]) {
			req[r.(string)] = true
		}
		for k := range b {
			if p, ok := ps[k].(map[string]any); !ok || kindOf(p) == "graphql-hydration" {
				return fmt.Errorf("%s: %q is no property of the schema", path, k)
			}
		}
		for _, k := range sortedKeys(ps) {
			p := ps[k].(map[string]any)
			if kindOf(p) == "graphql-hydration" {
				continue
			}
			x, xOK := a[k]
			y, yOK := b[k]
			if err := survives(p, x, xOK, y, yOK, req[k], path+"."+k); err != nil {
				return err
			}
		}
		return nil
	case "map":
		if mustJSON(in) != mustJSON(out) {
			return bad
		}
	case "array":
		a, b := in.([]any), out
		l, ok := b.([]any)
		if !ok || len(l) != len(a) {
			return bad
		}
		for i := range a {
			if err := survives(n["items"].(map[string]any), a[i], true, l[i], true, true, fmt.Sprintf("%s[%d]", path, i)); err != nil {
				return err
			}
		}
	case "date-time":
		s, _ := out.(string)
		x, err := time.Parse(time.RFC3339, in.(string))
		y, err2 := time.Parse(time.RFC3339, s)
		if err != nil {
			return pbt.Harness(err)
		}
		if err2 != nil || !x.Equal(y) {
			return bad
		}
	case "integer", "number":
		b, ok := out.(json.Number)
		if !ok {
			return bad
		}
		y, err := b.Float64()
		if err != nil || y != in.(float64) {
			return bad
		}
	default:
		if in != out {
			return bad
		}
	}
	return nil
}

func decodeNumbers(b []byte) (any, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	err := d.Decode(&v)
	return v, err
}

func checkStructs(c GCase, info *pbt.Info) error {
	dir, err := scratchDir()
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	o := c.Opts[0]
	files, err := c.generated(dir, o)
	if err != nil {
		return err
	}
	g, err := checkGo(files)
	if err != nil {
		return err
	}
	for _, u := range c.built() {
		enc, err := g.codec(o.structName(u.File))
		if err != nil {
			return err
		}
		s := c.merged(u)
		for _, doc := range c.Docs[u.File] {
			in := mustJSON(doc)
			b, err := enc([]byte(in))
			if err != nil {
				return fmt.Errorf("%s: %s: %v", u.File, in, err)
			}
			out, err := decodeNumbers(b)
			if err != nil {
				return fmt.Errorf("%s: %s became %s: %v", u.File, in, b, err)
			}
			if err := survives(s, doc, true, out, true, true, "$"); err != nil {
				return fmt.Errorf("%s: %s became %s: %v\n%s", u.File, in, b, err, files[baseName(u.File)+".go"])
			}
			again, err := enc(b)
			if err == nil {
				out, err = decodeNumbers(again)
			}
			if err == nil {
				err = survives(s, doc, true, out, true, true, "$")
			}
			if err != nil {
				return fmt.Errorf("%s: %s became %s and then %s: %v", u.File, in, b, again, err)
			}
			if m, ok := doc.(map[string]any); ok && len(m) > 0 {
				info.Nontrivial = true
			}
		}
	}
	info.LabelIf(o.Flat, "separate types")
	info.LabelIf(o.Ptr, "pointers")
	info.LabelIf(len(c.Units) > 1, "several units")
	info.LabelIf(o.Embed && len(c.Units) > 1, "embedded")
	return nil
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "G01",
		Subs: []*pbt.Sub{
			pbt.NewSub("round-trip", "generated schemas, layouts and options with up to four valid documents for each struct; the package is type-checked, its structs rebuilt with reflection, and every document decoded and encoded; non-trivial: some document has members", 24000, 300000, genG(defaultG), checkStructs),
		},
	})
}
