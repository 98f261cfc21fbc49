package props

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"regexp"
	"strings"
	"time"

	"pgregory.net/rapid"

	"github.com/GannettDigital/jstransform/transform"

	"verif/harness/pbt"
)

// FuzzCase is a schema that may be odd and inputs that may be no documents at all.
type FuzzCase struct {
	Format string   `json:"format"`
	Schema string   `json:"schema"`
	Ident  string   `json:"ident"`
	Inputs [][]byte `json:"inputs"`
	Bad    []bool   `json:"bad"`             // the input is known to be no well formed document
	Known  bool     `json:"known,omitempty"` // the case of a known finding
}

// mutateBytes changes a text in a few places.
func mutateBytes(t *rapid.T, in []byte) []byte {
	b := append([]byte{}, in...)
	for n := rapid.IntRange(1, 4).Draw(t, "edits"); n > 0; n-- {
		if len(b) == 0 {
			return []byte(pick(t, "fromNothing", []string{"", "{", "<", "\x00", "0"}))
		}
		i := rapid.IntRange(0, len(b)-1).Draw(t, "at")
		switch rapid.IntRange(0, 6).Draw(t, "edit") {
		case 0:
			b = b[:i]
		case 1:
			b[i] = byte(rapid.IntRange(0, 255).Draw(t, "byte"))
		case 2:
			tok := pick(t, "tok", []string{`{`, `}`, `[`, `]`, `"`, `,`, `:`, `null`, `1e999`, `-`, `\u0000`, `\ud800`, "\xff", `<`, `>`, `&`, `</`, `/>`, `<![CDATA[`, `]]>`, `<!--`, `-->`, `<?`, `<!DOCTYPE a [`, `&amp;`, `&#x110000;`, `&nope;`, " ", "\n", `true`, `0`, "\ufeff"})
			b = append(b[:i:i], append([]byte(tok), b[i:]...)...)
		case 3:
			j := min(len(b), i+rapid.IntRange(1, 12).Draw(t, "cut"))
			b = append(b[:i:i], b[j:]...)
		case 4:
			j := min(len(b), i+rapid.IntRange(1, 20).Draw(t, "dup"))
			b = append(b[:j:j], b[i:]...)
		case 5:
			b[i] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		default:
			j := rapid.IntRange(0, len(b)-1).Draw(t, "swap")
			b[i], b[j] = b[j], b[i]
		}
	}
	return b
}

var oddPaths = []string{"", "$", "@", "$.", "$..", "@.", "@[*]", "$..a", "$..*", "$.*", "$[0]", "$[*]", "$[-1]", "$[::2]", "$[0:1:0]", "$[?(@.a>1)]", "$[?(@)]", "$.a[?(@.b==\"x\")].c", "$[(@.length-1)]",
	"a", "$a", "$.a.", "$['a']", "$[\"a\",\"b\"]", "$[0,1]", "{\"x\":$.a}", "[$.a,$.b]", "$.a+$.b", "1", "\"s\"", "null", "true", "$.a[", "$.a]", "[", "(", "$.a[99999999999999999999]", "$.a[?(1/0)]", "$.a[?(@.b=~\"(\")]", "$.a[5:2]", "$.a[-3:]", "#", "\u0000", "$.a[?($.b[?(@.c)])]", "[*]", ".", "..", "@@", "$.a[*][*]", "$$", "{#1:$[*]}", "{#:$.*}"}

var oddXPaths = []string{"", "/", "//", ".", "..", "../..", "//*", "//@*", "/*/*", "//text()", "//comment()", "//node()", "[", "]", "//a[", "//a[]", "//a[0]", "//a[-1]", "//a[last()+1]", "//a[position()<3]", "count(//a)", "1", "'s'", "true()", "//a|//b", "//a[b='", "@id", "@*", "//a/@id/..", "//a/following-sibling::*", "ancestor::*", "//a[contains(., 'x')]", "//a[unknown()]", "sum(//a)", "//n:a", "$x", "//a[.//b]", "//a[1][2]", "//a/text()/..", "concat('a','b')", "//a[substring(., 5, -1)]", "//a[normalize-space()='']", "string(//a)", "\u0000", "//a[number(.)>1]", "/..", "//a[..]", "self::node()", "//*[name()='a']", "//a[@id=../@id]"}

// oddSchema changes instructions, types, defaults and annotations of a schema, mostly to what still is a schema.
func oddSchema(t *rapid.T, v any, p int, x bool) any {
	switch s := v.(type) {
	case map[string]any:
		out := map[string]any{}
		for _, k := range sortedKeys(s) {
			e := s[k]
			if (k == "jsonPath" || k == "xmlPath") && pct(t, p*10, "oddPath") {
				ps := oddPaths
				if k == "xmlPath" {
					ps = oddXPaths
				}
				if str, ok := e.(string); ok && rapid.Bool().Draw(t, "mutPath") {
					out[k] = strings.ToValidUTF8(string(mutateBytes(t, []byte(str))), "?")
				} else {
					out[k] = pick(t, "oddPath", ps)
				}
				continue
			}
			if k == "type" && pct(t, p, "oddType") {
				out[k] = pick(t, "newType", []any{"string", "number", "integer", "boolean", "object", "array", "null", []any{"object", "null"}, []any{"null"}, []any{}, "", "any", 3.0, nil, []any{"string", "number"}})
				continue
			}
			if k == "default" && pct(t, p*2, "oddDefault") {
				out[k] = genVal(t, 2, defaultJ)
				continue
			}
			if k == "operations" && pct(t, p*10, "oddOps") {
				var l []any
				for n := rapid.IntRange(0, 3).Draw(t, "n"); n > 0; n-- {
					o, _ := genOp(t, genVal(t, 1, defaultJ), 50)
					l = append(l, o)
				}
				out[k] = l
				continue
			}
			if k == "properties" {
				if ps, ok := e.(map[string]any); ok && pct(t, p, "oddName") {
					m := map[string]any{}
					for _, n := range sortedKeys(ps) {
						m[n] = oddSchema(t, ps[n], p, x)
					}
					m[pick(t, "newName", []string{"x-y", "a b", "", "1", "$", "@", "*", "é", "a\"b", "a\\b", "a/b", "a.b", "a[0]", "[*]", ".", "a[", "]"})] = map[string]any{"type": pick(t, "nt", []any{"string", "object", "array"}), "properties": map[string]any{"q": map[string]any{"type": "string"}}, "items": map[string]any{"type": "string"}}
					out[k] = m
					continue
				}
			}
			if pct(t, p/3, "oddValue") {
				out[k] = genVal(t, 1, defaultJ)
				continue
			}
			if pct(t, p/3, "dropKey") {
				continue
			}
			out[k] = oddSchema(t, e, p, x)
		}
		return out
	case []any:
		out := make([]any, 0, len(s))
		for _, e := range s {
			out = append(out, oddSchema(t, e, p, x))
		}
		return out
	}
	return v
}

func nest(open, mid, close string, n int) []byte {
	return []byte(strings.Repeat(open, n) + mid + strings.Repeat(close, n))
}

func genFuzz(format string, odd bool) func(t *rapid.T) FuzzCase {
	return func(t *rapid.T) FuzzCase {
		c := FuzzCase{Format: format, Ident: "x"}
		var schema any
		add := func(b []byte, bad bool) { c.Inputs, c.Bad = append(c.Inputs, b), append(c.Bad, bad) }
		if format == "xml" {
			x := genX(t)
			json.Unmarshal([]byte(x.Schema), &schema)
			text := []byte(x.xml())
			add(text, false)
			for n := rapid.IntRange(1, 4).Draw(t, "inputs"); n > 0; n-- {
				switch rapid.IntRange(0, 5).Draw(t, "inKind") {
				case 0:
					add([]byte(xmlString(mutateXML(t, x.Doc, 15))), false)
				case 1: // the end of the root element is missing
					end := bytes.LastIndex(text, []byte("</"))
					start := bytes.Index(text, []byte("<"+x.Doc.Name))
					if end > start && start >= 0 && bytes.HasSuffix(bytes.TrimSpace(text), []byte("</"+x.Doc.Name+">")) {
						cut := rapid.IntRange(start+1, end).Draw(t, "cut")
						add(text[:cut], true)
					}
				case 2:
					d := pick(t, "deep", []int{10, 300, 2000})
					add(nest("<a>", "x", "</a>", d), false)
				case 3: // mismatched end tag
					i := bytes.LastIndex(text, []byte("</"))
					if i > 0 {
						add(append(append([]byte{}, text[:i]...), []byte("</zzzz>")...), true)
					}
				default:
					add(mutateBytes(t, text), false)
				}
			}
		} else {
			cfg := defaultJ
			cfg.opsP, cfg.badOpP, cfg.transP = 45, 35, 70
			j := genJ(cfg)(t)
			c.Ident = j.Ident
			json.Unmarshal([]byte(j.Schema), &schema)
			var v any
			json.Unmarshal([]byte(j.Input), &v)
			add([]byte(j.Input), false)
			for n := rapid.IntRange(1, 4).Draw(t, "inputs"); n > 0; n-- {
				switch rapid.IntRange(0, 6).Draw(t, "inKind") {
				case 0, 1, 2:
					add([]byte(mustJSON(mutateTree(t, v, pick(t, "mp", []int{4, 10, 30})))), false)
				case 3:
					add([]byte(mustJSON(genVal(t, 3, defaultJ))), false)
				case 4:
					d := pick(t, "deep", []int{10, 300, 3000, 12000})
					if odd { // descendant paths take the path library cubic time
						d = min(d, 300)
					}
					if rapid.Bool().Draw(t, "deepArr") {
						add(nest("[", "1", "]", d), false)
					} else {
						add(nest(`{"`+pick(t, "dk", identKeys[:6])+`":`, "1", "}", d), false)
					}
				default:
					add(mutateBytes(t, []byte(j.Input)), false)
				}
			}
			for i := range c.Inputs {
				c.Bad[i] = !json.Valid(c.Inputs[i])
			}
		}
		if odd {
			schema = oddSchema(t, schema, pick(t, "oddness", []int{1, 2, 5, 12}), format == "xml")
		}
		c.Schema = mustJSON(schema)
		return c
	}
}

var xmlPathRe = regexp.MustCompile(`"xmlPath":("(?:[^"\\]|\\.)*")`)

// comparison reports whether the XPath is a comparison outside of predicates and function arguments (a known finding:
// the path library never ends on those that are true).
func comparison(path string) bool {
	depth := 0
	var quote rune
	for _, r := range path {
		switch {
		case quote != 0:
			if r == quote {
				quote = 0
			}
		case r == '\'' || r == '"':
			quote = r
		case r == '[' || r == '(':
			depth++
		case r == ']' || r == ')':
			depth--
		case (r == '=' || r == '<' || r == '>' || r == '!') && depth <= 0:
			return true
		}
	}
	return false
}

func hasComparison(schema string) bool {
	for _, m := range xmlPathRe.FindAllStringSubmatch(schema, -1) {
		var p string
		if json.Unmarshal([]byte(m[1]), &p) == nil && comparison(p) {
			return true
		}
	}
	return false
}

// xmlBroken reports whether the tags of an XML text do not nest.
func xmlBroken(b []byte) bool {
	d := xml.NewDecoder(bytes.NewReader(b))
	d.CharsetReader = func(l string, r io.Reader) (io.Reader, error) { return r, nil }
	for {
		_, err := d.Token()
		if err == io.EOF {
			return false
		}
		if err != nil {
			return strings.Contains(err.Error(), "closed by") || strings.Contains(err.Error(), "unexpected end element") || strings.Contains(err.Error(), "unexpected EOF")
		}
	}
}

func checkFuzz(c FuzzCase, info *pbt.Info) error {
	if c.Format == "xml" && !c.Known && hasComparison(c.Schema) {
		return pbt.Skip("an xmlPath that is a comparison (known finding)")
	}
	s, err := schemaValue(c.Schema)
	if err != nil {
		info.Label("schema not decodable")
		return nil
	}
	build := transform.NewTransformer
	if c.Format == "xml" {
		build = transform.NewXMLTransformer
	}
	tr, err := build(s, c.Ident)
	if err != nil {
		info.Label("schema refused")
		return nil
	}
	ok, fail := 0, 0
	for i, in := range c.Inputs {
		o := call(tr, false, append([]byte{}, in...))
		if o.err != nil {
			if o.out != "" {
				return fmt.Errorf("input %d: an error (%v) and output %q", i, o.err, o.out)
			}
			fail++
			info.LabelIf(c.Bad[i], "malformed input refused")
			continue
		}
		ok++
		if !json.Valid([]byte(o.out)) {
			return fmt.Errorf("input %d: output is no JSON document: %q", i, o.out)
		}
		if c.Bad[i] || c.Format == "xml" && xmlBroken(in) {
			return fmt.Errorf("input %d is not well formed, but gives %q: %q", i, o.out, in)
		}
	}
	info.LabelIf(ok > 0, "transformed")
	info.LabelIf(fail > 0, "error")
	info.Nontrivial = len(c.Inputs) >= 2
	return nil
}

func init() {
	rule := "; oracle: no panic, no hang, output is one valid JSON document or an error without output, malformed input is an error; non-trivial: the schema was accepted and two or more inputs ran"
	limit := func(s *pbt.Sub) *pbt.Sub {
		s.Limit = 45 * time.Second
		return s
	}
	pbt.Register(&pbt.Property{
		ID: "T07",
		Subs: []*pbt.Sub{
			limit(pbt.NewSub("json", "operation-heavy schemas with up to five inputs: the document, tree mutations of it, byte edits, unrelated documents, deep nesting"+rule, 10000, 150000, genFuzz("json", false), checkFuzz)),
			limit(pbt.NewSub("xml", "the same for XML schemas and documents, with truncations and mismatched tags"+rule, 6000, 100000, genFuzz("xml", false), checkFuzz)),
			limit(pbt.NewSub("odd-json", "schemas changed at random (paths, types, defaults, operations, names, dropped keys), whatever the builder accepts"+rule, 10000, 200000, genFuzz("json", true), checkFuzz)),
			limit(pbt.NewSub("odd-xml", "the same for XML schemas"+rule, 6000, 150000, genFuzz("xml", true), checkFuzz)),
		},
	})
}
