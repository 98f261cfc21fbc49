package props

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"

	"pgregory.net/rapid"

	"github.com/GannettDigital/jstransform/jsonschema"
	"github.com/GannettDigital/jstransform/transform"

	"verif/harness/model"
	"verif/harness/pbt"
)

// HistCase is a history of transforms over transformers sharing one schema value.
type HistCase struct {
	Format string   `json:"format"`
	Schema string   `json:"schema"`
	Idents []string `json:"idents"` // one transformer each (a name may be repeated)
	Inputs []string `json:"inputs"`
	File   bool     `json:"file"` // the schema is loaded from a file and the validating transform is used, too
	Ops    []histOp `json:"ops"`
}

type histOp struct {
	Tr    int  `json:"tr"`
	In    int  `json:"in"`
	Valid bool `json:"valid,omitempty"` // Transform instead of TransformNoValidation
	New   bool `json:"new,omitempty"`   // build the transformer again first
}

func xmlString(n *model.XNode) string {
	var b strings.Builder
	n.Render(&b)
	return b.String()
}

// mutateXML changes a document in a few places.
func mutateXML(t *rapid.T, n *model.XNode, p int) *model.XNode {
	c := &model.XNode{Name: n.Name, Text: n.Text, CDATA: n.CDATA, Comment: n.Comment}
	if n.Name == "" {
		if pct(t, p, "xtextMut") {
			c.Text = pick(t, "xt", []string{"7", "x", "true", ""})
		}
		return c
	}
	for _, a := range n.Attrs {
		if strings.HasPrefix(a[0], "xmlns") || !pct(t, p, "xattrDrop") {
			c.Attrs = append(c.Attrs, a)
		}
	}
	for _, k := range n.Kids {
		switch {
		case pct(t, p, "xdrop"):
		case pct(t, p, "xdup"):
			c.Kids = append(c.Kids, mutateXML(t, k, p), k)
		default:
			c.Kids = append(c.Kids, mutateXML(t, k, p))
		}
	}
	return c
}

// addIdents gives every transform section of the schema more identifiers with instructions taken from it.
func addIdents(t *rapid.T, v any, from string, to []string) {
	switch x := v.(type) {
	case map[string]any:
		for _, k := range sortedKeys(x) {
			if sec, ok := x[k].(map[string]any); ok && k == "transform" && sec[from] != nil {
				for _, id := range to {
					if id != from && sec[id] == nil && pct(t, 70, "also") {
						var cp any
						json.Unmarshal([]byte(mustJSON(sec[from])), &cp)
						m := cp.(map[string]any)
						if pct(t, 50, "method") {
							m["method"] = pick(t, "otherMethod", []string{"first", "last"})
						}
						if f, ok := m["from"].([]any); ok && len(f) > 1 && pct(t, 50, "cutFrom") {
							m["from"] = f[1:]
						}
						sec[id] = m
					}
				}
				continue
			}
			addIdents(t, x[k], from, to)
		}
	case []any:
		for _, e := range x {
			addIdents(t, e, from, to)
		}
	}
}

// respace adds bytes around and within an input which a careless reader may want to remove in place.
func respace(t *rapid.T, in, format string) string {
	ends := pick(t, "ends", []string{"\r\n", "\n", "\t", " ", "\ufeff", "\x00"})
	if format == "xml" {
		switch pick(t, "where", []string{"before", "after", "within", "prolog"}) {
		case "before":
			return ends + in
		case "after":
			return in + ends
		case "prolog":
			return "<?xml version=\"1.0\" encoding=\"UTF-8\"?>" + ends + "<!-- " + ends + " -->" + in
		}
		return strings.ReplaceAll(in, ">", ">"+ends)
	}
	switch pick(t, "where", []string{"before", "after", "within", "escapes"}) {
	case "before":
		return ends + in
	case "after":
		return in + ends
	case "escapes":
		return strings.ReplaceAll(in, "a", "\\u0061")
	}
	return strings.ReplaceAll(strings.ReplaceAll(in, ":", ":"+ends), ",", ends+",")
}

func genHist(race bool) func(t *rapid.T) HistCase {
	return func(t *rapid.T) HistCase {
		c := HistCase{Format: pick(t, "format", []string{"json", "json", "xml"}), File: pct(t, 40, "file")}
		ident := "x"
		nIn := rapid.IntRange(1, 4).Draw(t, "inputs")
		if c.Format == "xml" {
			x := genX(t)
			c.Schema = x.Schema
			c.Inputs = append(c.Inputs, x.xml())
			for i := 1; i < nIn; i++ {
				c.Inputs = append(c.Inputs, xmlString(mutateXML(t, x.Doc, 12)))
			}
			if pct(t, 25, "garbage") {
				c.Inputs = append(c.Inputs, pick(t, "bad", []string{"<r><a></r>", "", "<r", "no xml"}))
			}
		} else {
			cfg := defaultJ
			cfg.opsP, cfg.transP, cfg.missP = 25, 65, 8
			j := genJ(cfg)(t)
			c.Schema, ident = j.Schema, j.Ident
			var v any
			json.Unmarshal([]byte(j.Input), &v)
			c.Inputs = append(c.Inputs, j.Input)
			for i := 1; i < nIn; i++ {
				c.Inputs = append(c.Inputs, mustJSON(mutateTree(t, v, 8)))
			}
			if pct(t, 25, "garbage") {
				c.Inputs = append(c.Inputs, pick(t, "bad", []string{"{", "", "nul", "[]", "{}", "null", "3", `"s"`}))
			}
		}
		for i, in := range c.Inputs {
			if chance(t, 15, "respace") {
				c.Inputs[i] = respace(t, in, c.Format)
			}
		}
		var s any
		json.Unmarshal([]byte(c.Schema), &s)
		addIdents(t, s, ident, []string{"second", "third"})
		c.Schema = mustJSON(s)
		for n := rapid.IntRange(1, 4).Draw(t, "ntr"); n > 0; n-- {
			c.Idents = append(c.Idents, pick(t, "trIdent", []string{ident, ident, "second", "third", "unknown"}))
		}
		max := 14
		if race {
			max = 24
		}
		for n := rapid.IntRange(2, max).Draw(t, "nops"); n > 0; n-- {
			c.Ops = append(c.Ops, histOp{Tr: rapid.IntRange(0, len(c.Idents)-1).Draw(t, "tr"), In: rapid.IntRange(0, len(c.Inputs)-1).Draw(t, "in"),
				Valid: c.File && rapid.Bool().Draw(t, "valid"), New: pct(t, 10, "new")})
		}
		return c
	}
}

var fileSeq atomic.Int64

// scratchDir makes a directory below the scratch directory of the run; the caller removes it.
func scratchDir() (string, error) {
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		return "", pbt.Harnessf("VERIF_SCRATCH not set")
	}
	d := filepath.Join(base, "case", fmt.Sprintf("%d-%d", os.Getpid(), fileSeq.Add(1)))
	if err := os.MkdirAll(d, 0o755); err != nil {
		return "", pbt.Harness(err)
	}
	return d, nil
}

// loadSchema gives a schema value, from a file of its own if asked for.
func (c HistCase) load(dir string) (*jsonschema.Schema, error) {
	if !c.File {
		return schemaValue(c.Schema)
	}
	p := filepath.Join(dir, fmt.Sprintf("s%d.json", fileSeq.Add(1)))
	if err := os.WriteFile(p, []byte(c.Schema), 0o644); err != nil {
		return nil, pbt.Harness(err)
	}
	return jsonschema.SchemaFromFile(p, "")
}

func (c HistCase) build(s *jsonschema.Schema, ident string) (*transform.Transformer, error) {
	if c.Format == "xml" {
		return transform.NewXMLTransformer(s, ident)
	}
	return transform.NewTransformer(s, ident)
}

func call(tr *transform.Transformer, valid bool, buf []byte) outcome {
	var out []byte
	var err error
	if valid {
		out, err = tr.Transform(buf)
	} else {
		out, err = tr.TransformNoValidation(buf)
	}
	return outcome{err, string(out)}
}

func sameOutcome(a, b outcome) bool {
	return (a.err == nil) == (b.err == nil) && a.out == b.out
}

// fresh computes the outcomes of the operations with a transformer of its own each.
func (c HistCase) fresh(dir string) (map[histOp]outcome, error) {
	want := map[histOp]outcome{}
	for _, o := range c.Ops {
		o.New = false
		key := o
		if _, ok := want[key]; ok {
			continue
		}
		s, err := c.load(dir)
		if err != nil {
			return nil, err
		}
		tr, err := c.build(s, c.Idents[o.Tr])
		if err != nil {
			return nil, fmt.Errorf("building a transformer: %v", err)
		}
		want[key] = call(tr, o.Valid, []byte(c.Inputs[o.In]))
	}
	return want, nil
}

func checkHist(concurrent bool) func(c HistCase, info *pbt.Info) error {
	return func(c HistCase, info *pbt.Info) error {
		dir, err := scratchDir()
		if err != nil {
			return err
		}
		defer os.RemoveAll(dir)
		var want map[histOp]outcome
		if !concurrent { // (in the concurrent run the expected results are computed afterwards: caches start cold)
			if want, err = c.fresh(dir); err != nil {
				return err
			}
		}
		s, err := c.load(dir)
		if err != nil {
			return err
		}
		before := mustJSON(s.Instance)
		trs := make([]*transform.Transformer, len(c.Idents))
		for i, id := range c.Idents {
			if trs[i], err = c.build(s, id); err != nil {
				return fmt.Errorf("building transformer %d: %v", i, err)
			}
		}
		got := make([]outcome, len(c.Ops))
		raws := make([][]byte, len(c.Ops))
		if concurrent {
			var wg sync.WaitGroup
			start := make(chan struct{})
			// every input is one buffer shared by all goroutines
			bufs := make([][]byte, len(c.Inputs))
			for i := range bufs {
				bufs[i] = []byte(c.Inputs[i])
			}
			for i, o := range c.Ops {
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if r := recover(); r != nil {
							got[i] = outcome{fmt.Errorf("panic: %v", r), "PANIC"}
						}
					}()
					<-start
					tr := trs[o.Tr]
					if o.New {
						var err error
						if tr, err = c.build(s, c.Idents[o.Tr]); err != nil {
							got[i] = outcome{err, "BUILD"}
							return
						}
					}
					got[i] = call(tr, o.Valid, bufs[o.In])
				}()
			}
			close(start)
			wg.Wait()
			for i := range bufs {
				if string(bufs[i]) != c.Inputs[i] {
					return fmt.Errorf("input %d was modified", i)
				}
			}
			if want, err = c.fresh(dir); err != nil {
				return err
			}
		} else {
			for i, o := range c.Ops {
				if o.New {
					if trs[o.Tr], err = c.build(s, c.Idents[o.Tr]); err != nil {
						return fmt.Errorf("operation %d: building the transformer again: %v", i, err)
					}
				}
				buf := []byte(c.Inputs[o.In])
				var out []byte
				if o.Valid {
					out, err = trs[o.Tr].Transform(buf)
				} else {
					out, err = trs[o.Tr].TransformNoValidation(buf)
				}
				if string(buf) != c.Inputs[o.In] {
					return fmt.Errorf("operation %d modified its input", i)
				}
				for k := range buf { // the caller may use its buffer again
					buf[k] = '#'
				}
				raws[i], got[i] = out, outcome{err, string(out)}
			}
		}
		okN, errN := 0, 0
		for i, o := range c.Ops {
			o.New = false
			w := want[o]
			if !sameOutcome(got[i], w) {
				return fmt.Errorf("operation %d (transformer %d for %q, input %d, validating %v) gave %v\na fresh transformer gives %v", i, o.Tr, c.Idents[o.Tr], o.In, o.Valid, got[i], w)
			}
			if raws[i] != nil && string(raws[i]) != w.out {
				return fmt.Errorf("the result of operation %d was changed later: %s\nbefore: %s", i, raws[i], w.out)
			}
			if w.err == nil && w.out != "null" {
				okN++
			} else if w.err != nil {
				errN++
			}
			info.LabelIf(o.Valid, "validating")
		}
		if after := mustJSON(s.Instance); after != before {
			return fmt.Errorf("the schema was changed\nbefore: %s\nafter:  %s", before, after)
		}
		info.Label(c.Format)
		info.LabelIf(c.File, "schema file")
		info.LabelIf(errN > 0, "failed transforms in the history")
		info.LabelIf(len(c.Idents) > 1, "several transformers")
		info.Nontrivial = okN >= 2
		return nil
	}
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "T05",
		Subs: []*pbt.Sub{
			pbt.NewSub("history", "sequences of up to 14 transforms (valid, failing and malformed inputs, validating or not) over up to 4 transformers of one shared schema value; every result is compared byte for byte with the one of a fresh transformer of a fresh schema, the input buffer is overwritten after each call; non-trivial: two or more calls with non-empty output", 6400, 120000, genHist(false), checkHist(false)),
			race(pbt.NewSub("concurrent", "the same operations started at once from one goroutine each, sharing transformers, schema and input buffers, under the race detector; same comparison; non-trivial as above", 1600, 24000, genHist(true), checkHist(true))),
		},
	})
}

func race(s *pbt.Sub) *pbt.Sub {
	s.Race = true
	return s
}
