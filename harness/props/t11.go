package props

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"unicode/utf16"

	"pgregory.net/rapid"

	"github.com/GannettDigital/jstransform/jsonschema"
	"github.com/GannettDigital/jstransform/transform"

	"verif/harness/pbt"
)

// SpellCase is one schema in two spellings.
type SpellCase struct {
	Format string   `json:"format"`
	Ident  string   `json:"ident"`
	A      string   `json:"a"`
	B      string   `json:"b"`
	Inputs []string `json:"inputs"`
}

// speller writes a JSON value with random key order, whitespace and escapes.
type speller struct {
	t   *rapid.T
	b   strings.Builder
	esc int
	ws  int
}

func (s *speller) space() {
	if pct(s.t, s.ws, "ws") {
		s.b.WriteString(pick(s.t, "wsKind", []string{" ", "\n", "\t", "  ", "\r\n", "\n    "}))
	}
}

func (s *speller) str(v string) {
	if s.esc == 0 || !pct(s.t, s.esc*3, "escStr") {
		s.b.WriteString(mustJSON(v))
		return
	}
	s.b.WriteByte('"')
	for _, r := range v {
		switch {
		case pct(s.t, s.esc, "esc"):
			if r > 0xffff {
				a, b := utf16.EncodeRune(r)
				fmt.Fprintf(&s.b, `\u%04x\u%04X`, a, b)
			} else {
				fmt.Fprintf(&s.b, `\u%04x`, r)
			}
		case r == '/' && pct(s.t, 30, "escSlash"):
			s.b.WriteString(`\/`)
		default:
			q := mustJSON(string(r))
			s.b.WriteString(q[1 : len(q)-1])
		}
	}
	s.b.WriteByte('"')
}

func (s *speller) num(v float64) {
	t := mustJSON(v)
	if !strings.ContainsAny(t, "eE") && pct(s.t, 20, "numForm") {
		switch {
		case strings.Contains(t, "."):
			t += "0"
		case rapid.Bool().Draw(s.t, "exp"):
			t += "e0"
		default:
			t += ".0"
		}
	}
	s.b.WriteString(t)
}

func (s *speller) value(v any) {
	switch x := v.(type) {
	case map[string]any:
		ks := sortedKeys(x)
		if len(ks) > 1 && pct(s.t, 80, "shuffle") {
			ks = rapid.Permutation(ks).Draw(s.t, "order")
		}
		s.b.WriteByte('{')
		s.space()
		for i, k := range ks {
			if i > 0 {
				s.b.WriteByte(',')
				s.space()
			}
			s.str(k)
			s.space()
			s.b.WriteByte(':')
			s.space()
			s.value(x[k])
			s.space()
		}
		s.b.WriteByte('}')
	case []any:
		s.b.WriteByte('[')
		s.space()
		for i, e := range x {
			if i > 0 {
				s.b.WriteByte(',')
				s.space()
			}
			s.value(e)
			s.space()
		}
		s.b.WriteByte(']')
	case string:
		s.str(x)
	case float64:
		s.num(x)
	default:
		s.b.WriteString(mustJSON(v))
	}
}

// retype writes the types of a schema in other equivalent ways.
func retype(t *rapid.T, n map[string]any, p int) {
	var typ string
	switch x := n["type"].(type) {
	case string:
		typ = x
	case []any:
		for _, e := range x {
			if s, ok := e.(string); ok && s != "null" {
				typ = s
			}
		}
	}
	if typ != "" && pct(t, p, "retype") {
		n["type"] = pick(t, "spelling", []any{typ, []any{typ}, []any{typ, "null"}, []any{"null", typ}})
	}
	if ps, ok := n["properties"].(map[string]any); ok {
		for _, k := range sortedKeys(ps) {
			if m, ok := ps[k].(map[string]any); ok {
				retype(t, m, p)
			}
		}
	}
	if it, ok := n["items"].(map[string]any); ok {
		retype(t, it, p)
	}
}

func spell(t *rapid.T, v any, ws, esc int) string {
	s := &speller{t: t, ws: ws, esc: esc}
	s.space()
	s.value(v)
	s.space()
	return s.b.String()
}

func genSpell(t *rapid.T) SpellCase {
	c := SpellCase{Format: pick(t, "format", []string{"json", "json", "xml"}), Ident: "x"}
	var schema map[string]any
	if c.Format == "xml" {
		x := genX(t)
		json.Unmarshal([]byte(x.Schema), &schema)
		c.Inputs = append(c.Inputs, x.xml())
		for n := rapid.IntRange(0, 2).Draw(t, "more"); n > 0; n-- {
			c.Inputs = append(c.Inputs, xmlString(mutateXML(t, x.Doc, 10)))
		}
	} else {
		cfg := defaultJ
		cfg.transP, cfg.opsP = 60, 20
		j := genJ(cfg)(t)
		c.Ident = j.Ident
		json.Unmarshal([]byte(j.Schema), &schema)
		c.Inputs = append(c.Inputs, j.Input)
		var v any
		json.Unmarshal([]byte(j.Input), &v)
		for n := rapid.IntRange(0, 2).Draw(t, "more"); n > 0; n-- {
			c.Inputs = append(c.Inputs, mustJSON(mutateTree(t, v, 8)))
		}
	}
	c.A = mustJSON(schema)
	retype(t, schema, pick(t, "retypeP", []int{0, 30, 80}))
	c.B = spell(t, schema, pick(t, "ws", []int{0, 10, 60}), pick(t, "esc", []int{0, 0, 8, 30}))
	return c
}

func checkSpell(c SpellCase, info *pbt.Info) error {
	dir, err := scratchDir()
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	build := transform.NewTransformer
	if c.Format == "xml" {
		build = transform.NewXMLTransformer
	}
	names := []string{"spelling A in memory", "spelling B in memory", "spelling A in a file", "spelling B in a file"}
	var trs []*transform.Transformer
	var errs []error
	for i, name := range names {
		text := c.A
		if i%2 == 1 {
			text = c.B
		}
		var s *jsonschema.Schema
		if i < 2 {
			s, err = schemaValue(text)
			if err != nil {
				if !json.Valid([]byte(text)) {
					return err
				}
				err = fmt.Errorf("%s does not decode: %v", name, err)
				if i == 0 {
					return pbt.Harness(err)
				}
				return err
			}
		} else {
			p := filepath.Join(dir, fmt.Sprintf("s%d.json", i))
			if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
				return pbt.Harness(err)
			}
			if s, err = jsonschema.SchemaFromFile(p, ""); err != nil {
				return fmt.Errorf("%s does not load: %v", name, err)
			}
		}
		tr, err := build(s, c.Ident)
		trs, errs = append(trs, tr), append(errs, err)
	}
	for i := range names {
		if (errs[i] == nil) != (errs[0] == nil) {
			return fmt.Errorf("building with %s: %v\nwith %s: %v", names[0], errs[0], names[i], errs[i])
		}
	}
	if errs[0] != nil {
		return pbt.Skip("refused schema")
	}
	okN := 0
	for k, in := range c.Inputs {
		want := call(trs[0], false, []byte(in))
		for i := range names {
			if got := call(trs[i], false, []byte(in)); !sameOutcome(got, want) {
				return fmt.Errorf("input %d: %s gives %v\n%s gives %v", k, names[0], want, names[i], got)
			}
		}
		if want.err == nil && want.out != "null" {
			okN++
		}
	}
	info.Label(c.Format)
	info.LabelIf(strings.Contains(c.B, `\u`), "escapes")
	info.Nontrivial = okN > 0 && c.A != c.B
	return nil
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "T11",
		Subs: []*pbt.Sub{
			pbt.NewSub("respell", "generated schemas written compactly with sorted keys and again with random key order, whitespace, string escapes, number forms and type spellings, each in memory and in a file; all four transformers must give the same outcome on up to three inputs; non-trivial: the texts differ and some output is non-empty", 24000, 200000, genSpell, checkSpell),
		},
	})
}
