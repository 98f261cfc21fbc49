package props

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"

	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// canon brings what a struct writes to a form that is the same for all option sets: an optional value that may be left
// out is left out, and a null that stands for a missing value becomes it.
func canon(n map[string]any, v any) any {
	if v == nil && (isNullable(n) || kindOf(n) == "array") {
		return nil
	}
	switch kindOf(n) {
	case "object":
		m, _ := v.(map[string]any)
		out := map[string]any{}
		req := map[string]bool{}
		for _, r := range asList(n["required"]) {
			req[r.(string)] = true
		}
		ps := n["properties"].(map[string]any)
		for k, x := range m {
			if _, ok := ps[k]; !ok {
				out[k] = x // of no property: kept, so that it shows
			}
		}
		for k, p := range ps {
			p := p.(map[string]any)
			if kindOf(p) == "graphql-hydration" {
				if x, ok := m[k]; ok {
					out[k] = x
				}
				continue
			}
			x, ok := m[k]
			if !req[k] && (!ok || x == nil || zeroJSON(p, x) && (!isNullable(p) || kindOf(p) == "array")) {
				continue
			}
			out[k] = canon(p, x)
		}
		return out
	case "array":
		var out []any
		for _, x := range v.([]any) {
			out = append(out, canon(n["items"].(map[string]any), x))
		}
		return out
	case "date-time":
		if v == nil {
			return "0001-01-01T00:00:00Z"
		}
	case "map":
		if v == nil {
			return map[string]any{}
		}
	case "string":
		if v == nil {
			return ""
		}
	case "integer", "number":
		if v == nil {
			return json.Number("0")
		}
	case "boolean":
		if v == nil {
			return false
		}
	}
	return v
}

func genOpts(t *rapid.T) GCase {
	cfg := defaultG
	cfg.optsN, cfg.docs = rapid.IntRange(2, 3).Draw(t, "opts"), 3
	c := genG(cfg)(t)
	for _, u := range c.built() {
		l := c.Docs[u.File]
		for _, d := range l {
			if rapid.Bool().Draw(t, "mutate") {
				c.Docs[u.File] = append(c.Docs[u.File], mutateTree(t, copyJSON(d), pick(t, "mutateP", []int{5, 15, 40})))
			}
		}
	}
	return c
}

func checkOpts(c GCase, info *pbt.Info) error {
	dir, err := scratchDir()
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	type result struct {
		err   error
		canon string
		raw   string
	}
	first := map[string]result{}
	var firstOpts string
	for i, o := range c.Opts {
		files, err := c.generated(filepath.Join(dir, fmt.Sprint(i)), o)
		if err != nil {
			return err
		}
		g, err := checkGo(files)
		if err != nil {
			return err
		}
		if i == 0 {
			firstOpts = mustJSON(o)
		} else if mustJSON(o) != firstOpts {
			info.Nontrivial = true
		}
		for _, u := range c.built() {
			enc, err := g.codec(o.structName(u.File))
			if err != nil {
				return err
			}
			s := c.merged(u)
			for k, doc := range c.Docs[u.File] {
				var r result
				b, err := enc([]byte(mustJSON(doc)))
				r.err, r.raw = err, string(b)
				if err == nil {
					v, err := decodeNumbers(b)
					if err != nil {
						return fmt.Errorf("%s becomes %s: %v", mustJSON(doc), b, err)
					}
					r.canon = mustJSON(canon(s, v))
				}
				key := fmt.Sprint(u.File, k)
				if i == 0 {
					first[key] = r
					info.LabelIf(err != nil, "refused document")
					continue
				}
				f := first[key]
				if (f.err == nil) != (r.err == nil) || f.canon != r.canon {
					return fmt.Errorf("%s: the document %s becomes\n%s (%v) with %s\n%s (%v) with %s\nof which %s\nand %s have to be the same", u.File, mustJSON(doc),
						f.raw, f.err, firstOpts, r.raw, r.err, mustJSON(o), f.canon, r.canon)
				}
			}
		}
	}
	return nil
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "G03",
		Subs: []*pbt.Sub{
			pbt.NewSub("options", "generated schemas with two or three option sets (nested or separate types, descriptions, embedding, pointers, renames) and valid and mutated documents for every struct; all sets must accept the same documents and write the same JSON, up to optional zero values; non-trivial: two option sets differ", 16000, 200000, genOpts, checkOpts),
		},
	})
}
