package props

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"pgregory.net/rapid"

	"github.com/GannettDigital/jstransform/jsonschema"

	"verif/harness/model"
	"verif/harness/pbt"
)

// ValTree is one schema, written in one piece and spread over files.
type ValTree struct {
	Dir    string            `json:"dir"`
	Root   string            `json:"root"`
	Inline string            `json:"inline"`
	Files  map[string]string `json:"files"`
}

// ValStep validates one document with one of the ways to get a validator.
type ValStep struct {
	Tree int    `json:"tree"`
	Doc  int    `json:"doc"`
	Via  string `json:"via"`
	G    int    `json:"g"` // the goroutine that takes the step
}

// ValCase is a history of validations.
type ValCase struct {
	Trees []ValTree `json:"trees"`
	Docs  []string  `json:"docs"`
	Steps []ValStep `json:"steps"`
	Gs    int       `json:"gs"`
}

// derive builds a schema the values satisfy.
func derive(t *rapid.T, vals []any, depth int) map[string]any {
	out := map[string]any{}
	kinds := map[string]bool{}
	for _, v := range vals {
		k := natural(v)
		if k == "date-time" {
			k = "string"
		}
		kinds[k] = true
	}
	if pct(t, 12, "extraType") {
		kinds[pick(t, "extra", []string{"null", "string", "object", "boolean"})] = true
	}
	var types []any
	for _, k := range sortedKeys(kinds) {
		if k == "number" && !kinds["integer"] && pct(t, 40, "int") {
			whole := true
			for _, v := range vals {
				if f, ok := v.(float64); ok && f != float64(int64(f)) {
					whole = false
				}
			}
			if whole {
				k = "integer"
			}
		}
		types = append(types, k)
	}
	switch {
	case len(types) == 1 && !pct(t, 15, "asList"):
		out["type"] = types[0]
	case len(types) > 0 && !pct(t, 5, "noType"):
		out["type"] = types
	}
	if depth <= 0 {
		return out
	}
	if kinds["object"] {
		subs := map[string][]any{}
		for _, v := range vals {
			if m, ok := v.(map[string]any); ok {
				for k, e := range m {
					subs[k] = append(subs[k], e)
				}
			}
		}
		ps := map[string]any{}
		for _, k := range sortedKeys(subs) {
			if !pct(t, 10, "leaveOut") {
				ps[k] = derive(t, subs[k], depth-1)
			}
		}
		if pct(t, 30, "absent") {
			ps[pick(t, "absentKey", identKeys)+"2"] = map[string]any{"type": "string"}
		}
		out["properties"] = ps
		if pct(t, 8, "addSchema") {
			out["additionalProperties"] = map[string]any{"type": "string"}
		}
	}
	if kinds["array"] {
		var items []any
		for _, v := range vals {
			if l, ok := v.([]any); ok {
				items = append(items, l...)
			}
		}
		if len(items) > 0 {
			out["items"] = derive(t, items, depth-1)
		}
	}
	return out
}

// combine wraps some subschemas in anyOf, oneOf, allOf and not.
func combine(t *rapid.T, n map[string]any, p int, left *int) map[string]any {
	if ps, ok := n["properties"].(map[string]any); ok {
		for _, k := range sortedKeys(ps) {
			ps[k] = combine(t, ps[k].(map[string]any), p, left)
		}
	}
	if it, ok := n["items"].(map[string]any); ok {
		n["items"] = combine(t, it, p, left)
	}
	if *left == 0 || !pct(t, p, "combine") {
		return n
	}
	*left--
	other := func() any {
		return copyJSON(pick(t, "other", []any{
			map[string]any{"type": "boolean"},
			map[string]any{"type": "string", "maxLength": 1.0},
			map[string]any{"type": "object", "required": []any{"zz"}},
			map[string]any{"type": []any{"array", "null"}},
			map[string]any{"type": "number", "minimum": 10.0},
		}))
	}
	switch rapid.IntRange(0, 4).Draw(t, "how") {
	case 0:
		return map[string]any{"anyOf": []any{other(), n}}
	case 1:
		return map[string]any{"oneOf": []any{n, other()}}
	case 2:
		n["not"] = other()
		return n
	case 3:
		return map[string]any{"allOf": []any{n, map[string]any{"not": other()}}}
	default:
		n["anyOf"] = []any{map[string]any{"type": typesList(n)}, other()}
		return n
	}
}

func typesList(n map[string]any) any {
	if t, ok := n["type"]; ok {
		return copyJSON(t)
	}
	return []any{"string", "number", "object", "array", "null", "boolean"}
}

var valDirs = []string{"p", "P", "p q", "p%20q", "p#q", "pq", "p/q", "http", "p?q", "p+q", "pé", "p;q", "p&q=1", "%70", "p:q"}

func genVTree(t *rapid.T, dir string) (ValTree, any) {
	cfg := defaultJ
	v := genVal(t, 3, cfg)
	if _, ok := v.(map[string]any); !ok && pct(t, 80, "object") {
		v = genMap(t, 3, cfg)
	}
	vals := []any{v}
	schema := derive(t, vals, 4)
	con := &constrainer{t: t, left: rapid.IntRange(0, 6).Draw(t, "keywords"), p: pick(t, "density", []int{15, 50}), badP: pick(t, "badness", []int{0, 0, 20})}
	con.node(schema, vals)
	left := rapid.IntRange(0, 3).Draw(t, "combinators")
	schema = combine(t, schema, 20, &left)
	tr := ValTree{Dir: dir, Root: pick(t, "root", []string{"root.json", "root.json", "Root.json", "root", "r o.json", "sub/root.json"}), Inline: mustJSON(schema)}
	s := &refSplitter{t: t, p: pick(t, "p", []int{0, 15, 50}), reuseP: 50, oddP: pick(t, "oddP", []int{0, 0, 20}),
		files: map[string]map[string]any{}, edges: map[string]map[string]bool{}, seen: map[string][]loc{}, kinds: map[string]int{}}
	s.store(s.place(schema, loc{file: tr.Root}), loc{file: tr.Root})
	tr.Files = map[string]string{}
	for _, f := range sortedKeys(s.files) {
		tr.Files[f] = mustJSON(s.files[f])
	}
	return tr, v
}

func genVals(race bool) func(t *rapid.T) ValCase {
	return func(t *rapid.T) ValCase {
		var c ValCase
		n := rapid.IntRange(1, 3).Draw(t, "trees")
		dirs := map[string]bool{}
		var vals []any
		for i := 0; i < n; i++ {
			d := "p"
			if i > 0 || pct(t, 30, "odd") {
				d = pick(t, "dir", valDirs)
			}
			if dirs[d] {
				continue
			}
			dirs[d] = true
			tr, v := genVTree(t, d)
			c.Trees = append(c.Trees, tr)
			vals = append(vals, v)
		}
		for _, v := range vals {
			c.Docs = append(c.Docs, mustJSON(v))
			for k := rapid.IntRange(0, 3).Draw(t, "mutants"); k > 0; k-- {
				c.Docs = append(c.Docs, mustJSON(mutateTree(t, v, pick(t, "mutP", []int{4, 10, 25}))))
			}
		}
		if pct(t, 20, "noJSON") {
			d := c.Docs[rapid.IntRange(0, len(c.Docs)-1).Draw(t, "whichDoc")]
			switch rapid.IntRange(0, 3).Draw(t, "breakHow") {
			case 0:
				d = d[:len(d)/2]
			case 1:
				d += pick(t, "tail", []string{"}", "x", " {}", ",", "]"})
			case 2:
				d = ""
			default:
				d = strings.Replace(d, "\"", "'", 1) + " '"
			}
			c.Docs = append(c.Docs, d)
		}
		c.Gs = 1
		if race {
			c.Gs = rapid.IntRange(2, 6).Draw(t, "goroutines")
		}
		for k := rapid.IntRange(3, 10).Draw(t, "steps") + 6*(c.Gs-1); k > 0; k-- {
			c.Steps = append(c.Steps, ValStep{
				Tree: rapid.IntRange(0, len(c.Trees)-1).Draw(t, "tree"),
				Doc:  rapid.IntRange(0, len(c.Docs)-1).Draw(t, "doc"),
				Via:  pick(t, "via", []string{"kept", "kept", "new", "relative", "schema", "detour"}),
				G:    rapid.IntRange(0, c.Gs-1).Draw(t, "g"),
			})
		}
		// every document of a single history is validated with every schema at least once
		if !race {
			for i := range c.Trees {
				for j := range c.Docs {
					c.Steps = append(c.Steps, ValStep{Tree: i, Doc: j, Via: "kept"})
				}
			}
		}
		return c
	}
}

type valResult struct {
	ok  bool
	msg string
	err bool
}

// step validates and checks what holds for every validation.
func valStep(v jsonschema.Validator, doc string) (valResult, error) {
	buf := []byte(doc)
	ok, err := v.Validate(json.RawMessage(buf))
	if string(buf) != doc {
		return valResult{}, fmt.Errorf("Validate changed the document")
	}
	r := valResult{ok: ok, err: err != nil}
	if err != nil {
		r.msg = err.Error()
	}
	if ok && err != nil {
		return r, fmt.Errorf("Validate returned true and the error %v", err)
	}
	if !ok && err == nil {
		return r, fmt.Errorf("Validate returned false without an error")
	}
	if err != nil && r.msg == "" {
		return r, fmt.Errorf("the error has no text")
	}
	return r, nil
}

// pathNames are the property names of a path a verdict reports.
func lastName(bad string) string {
	p := bad[:strings.LastIndex(bad, ": ")]
	p = strings.TrimPrefix(p, "$")
	for strings.HasSuffix(p, "[]") {
		p = p[:len(p)-2]
	}
	if i := strings.LastIndexAny(p, ".]"); i >= 0 {
		p = p[i+1:]
	}
	return p
}

func checkVals(c ValCase, info *pbt.Info) error {
	dir, err := scratchDir()
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	wd, err := os.Getwd()
	if err != nil {
		return pbt.Harness(err)
	}
	roots := make([]string, len(c.Trees))
	rels := make([]string, len(c.Trees))
	for i, tr := range c.Trees {
		base := filepath.Join(dir, tr.Dir)
		if err := writeFiles(base, tr.Files); err != nil {
			return err
		}
		for _, d := range []string{"sub", "other/sub", "sub/deep/sub", "sub/sub"} {
			os.MkdirAll(filepath.Join(base, d), 0o755)
		}
		roots[i] = filepath.Join(base, tr.Root)
		if rels[i], err = filepath.Rel(wd, roots[i]); err != nil {
			return pbt.Harness(err)
		}
	}
	// the verdicts of the model
	type key struct{ tree, doc int }
	verdicts := map[key]model.Verdict{}
	noJSON := map[int]bool{}
	plain := make([]bool, len(c.Trees)) // no combinators: every violation is named
	for i, tr := range c.Trees {
		sch, err := model.DecodeNumber([]byte(tr.Inline))
		if err != nil {
			return pbt.Harness(err)
		}
		plain[i] = !strings.Contains(tr.Inline, "Of\"") && !strings.Contains(tr.Inline, "\"not\"")
		for j, d := range c.Docs {
			if !json.Valid([]byte(d)) {
				noJSON[j] = true
				continue
			}
			doc, err := model.DecodeNumber([]byte(d))
			if err != nil {
				return pbt.Harness(err)
			}
			verdicts[key{i, j}] = model.Validate(sch, doc, func(string) (any, bool) { return nil, false })
		}
	}
	var mu sync.Mutex
	seen := map[key]valResult{}
	judge := func(s ValStep, r valResult) error {
		k := key{s.Tree, s.Doc}
		mu.Lock()
		defer mu.Unlock()
		where := fmt.Sprintf("schema %d (%s), document %s, via %s", s.Tree, c.Trees[s.Tree].Inline, c.Docs[s.Doc], s.Via)
		if old, ok := seen[k]; ok && old != r {
			return fmt.Errorf("%s: validated as %v %q before, now %v %q", where, old.ok, old.msg, r.ok, r.msg)
		}
		seen[k] = r
		if noJSON[s.Doc] {
			if r.ok {
				return fmt.Errorf("%s: accepted although it is no JSON", where)
			}
			info.Label("no JSON")
			return nil
		}
		v := verdicts[k]
		switch {
		case len(v.Bad) > 0:
			if r.ok {
				return fmt.Errorf("%s: accepted although it violates %v", where, v.Bad)
			}
			if plain[s.Tree] {
				for _, b := range v.Bad {
					if n := lastName(b); n != "" && !strings.Contains(r.msg, n) {
						return fmt.Errorf("%s: the violation %q is not named by: %s", where, b, r.msg)
					}
				}
				info.LabelIf(len(v.Bad) > 1, "several violations named")
			}
			info.Label("rejected")
		case len(v.Unknown) > 0:
			info.Label("left open")
			return nil
		default:
			if !r.ok {
				return fmt.Errorf("%s: rejected (%s) although it satisfies the schema", where, r.msg)
			}
			info.Label("accepted")
		}
		return nil
	}
	kept := make([]jsonschema.Validator, len(c.Trees))
	var kmu sync.Mutex
	get := func(s ValStep) (jsonschema.Validator, error) {
		path := roots[s.Tree]
		switch s.Via {
		case "kept":
			kmu.Lock()
			defer kmu.Unlock()
			if kept[s.Tree] == nil {
				v, err := jsonschema.NewValidator(path)
				if err != nil {
					return nil, err
				}
				kept[s.Tree] = v
			}
			return kept[s.Tree], nil
		case "relative":
			path = rels[s.Tree]
		case "detour":
			path = filepath.Dir(path) + "/../" + filepath.Base(filepath.Dir(path)) + "/./" + filepath.Base(path)
		case "schema":
			if strings.Contains(c.Trees[s.Tree].Inline, "\"additionalProperties\":{") {
				break // supported by the validator alone
			}
			sch, err := jsonschema.SchemaFromFile(path, "")
			if err != nil {
				return nil, err
			}
			return schemaValidator{sch}, nil
		}
		v, err := jsonschema.NewValidator(path)
		if err != nil {
			return nil, err
		}
		return v, nil
	}
	errs := make([]error, c.Gs)
	var wg sync.WaitGroup
	for g := 0; g < c.Gs; g++ {
		wg.Add(1)
		work := func() {
			defer wg.Done()
			for _, s := range c.Steps {
				if s.G != g {
					continue
				}
				v, err := get(s)
				if err != nil {
					errs[g] = fmt.Errorf("validator of schema %d via %s: %v", s.Tree, s.Via, err)
					return
				}
				r, err := valStep(v, c.Docs[s.Doc])
				if err == nil {
					err = judge(s, r)
				}
				if err != nil {
					errs[g] = err
					return
				}
			}
		}
		if c.Gs == 1 {
			work()
		} else {
			go work()
		}
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	acc, rej := 0, 0
	for k, r := range seen {
		if noJSON[k.doc] {
			continue
		}
		if r.ok {
			acc++
		} else {
			rej++
		}
	}
	info.LabelIf(len(c.Trees) > 1, "several schemas")
	info.Nontrivial = acc > 0 && rej > 0
	return nil
}

// schemaValidator validates through a loaded schema.
type schemaValidator struct{ s *jsonschema.Schema }

func (v schemaValidator) Validate(raw json.RawMessage) (bool, error) { return v.s.Validate(raw) }

// RecCase is a recursive schema and documents.
type RecCase struct {
	Files map[string]string `json:"files"`
	Docs  []string          `json:"docs"`
}

func genRec(t *rapid.T) RecCase {
	leaf := pick(t, "leaf", []string{"string", "number", "boolean"})
	node := map[string]any{"type": "object", "properties": map[string]any{
		"v":    map[string]any{"type": leaf},
		"kids": map[string]any{"type": "array", "items": map[string]any{"$ref": "#/definitions/node"}},
		"next": map[string]any{"$ref": "#/definitions/node"},
	}, "required": []any{"v"}}
	if rapid.Bool().Draw(t, "closed") {
		node["additionalProperties"] = false
	}
	root := map[string]any{"$ref": "#/definitions/node", "definitions": map[string]any{"node": node}}
	c := RecCase{Files: map[string]string{"tree.json": mustJSON(root)}}
	if rapid.Bool().Draw(t, "other") {
		c.Files["root.json"] = mustJSON(map[string]any{"type": "object", "properties": map[string]any{"t": map[string]any{"$ref": "tree.json"}}})
	} else {
		c.Files["root.json"] = mustJSON(map[string]any{"type": "object", "properties": map[string]any{"t": map[string]any{"$ref": "tree.json#/definitions/node"}}})
	}
	var tree func(d int) any
	tree = func(d int) any {
		m := map[string]any{}
		if !pct(t, 3, "noV") {
			switch {
			case pct(t, 3, "badV"):
				m["v"] = nil
			case leaf == "string":
				m["v"] = genStr(t)
			case leaf == "number":
				m["v"] = genNum(t)
			default:
				m["v"] = true
			}
		}
		if d > 0 && pct(t, 50, "next") {
			m["next"] = tree(d - 1)
		}
		if d > 0 && pct(t, 40, "kids") {
			var l []any
			for i := rapid.IntRange(0, 3).Draw(t, "n"); i > 0; i-- {
				l = append(l, tree(d-1))
			}
			if l != nil {
				m["kids"] = l
			}
		}
		if pct(t, 2, "extra") {
			m["zz"] = 1.0
		}
		return m
	}
	for i := rapid.IntRange(1, 4).Draw(t, "docs"); i > 0; i-- {
		c.Docs = append(c.Docs, mustJSON(map[string]any{"t": tree(rapid.IntRange(0, 5).Draw(t, "depth"))}))
	}
	return c
}

func checkRec(c RecCase, info *pbt.Info) error {
	dir, err := scratchDir()
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	if err := writeFiles(dir, c.Files); err != nil {
		return err
	}
	sch, err := model.DecodeNumber([]byte(c.Files["root.json"]))
	if err != nil {
		return pbt.Harness(err)
	}
	tree, err := model.DecodeNumber([]byte(c.Files["tree.json"]))
	if err != nil {
		return pbt.Harness(err)
	}
	node := tree.(map[string]any)["definitions"].(map[string]any)["node"]
	v, err := jsonschema.NewValidator(filepath.Join(dir, "root.json"))
	if err != nil {
		return fmt.Errorf("NewValidator: %v", err)
	}
	for _, d := range c.Docs {
		doc, err := model.DecodeNumber([]byte(d))
		if err != nil {
			return pbt.Harness(err)
		}
		verdict := model.Validate(sch, doc, func(string) (any, bool) { return node, true })
		r, err := valStep(v, d)
		if err != nil {
			return err
		}
		if len(verdict.Unknown) > 0 {
			continue
		}
		if r.ok != (len(verdict.Bad) == 0) {
			return fmt.Errorf("document %s: Validate says %v %q, violations are %v", d, r.ok, r.msg, verdict.Bad)
		}
		info.LabelIf(r.ok, "accepted")
		info.LabelIf(!r.ok, "rejected")
		info.Nontrivial = info.Nontrivial || len(d) > 40
	}
	return nil
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "S05",
		Subs: []*pbt.Sub{
			pbt.NewSub("history", "one to three schemas derived from generated values (types, bounds, enum, required, pattern, additionalProperties, anyOf, oneOf, allOf, not), spread over files with references, in directories with similar and odd names; documents satisfying one of them, mutated ones and broken JSON; a history of validations by kept, new, relative-path and schema validators; verdicts come from an independent validator, messages must be equal for equal documents and name every violated property; non-trivial: documents accepted and rejected", 12000, 120000, genVals(false), checkVals),
			pbt.NewSub("recursive", "documents of a schema that refers to itself, in one and two files; non-trivial: nested documents", 1500, 40000, genRec, checkRec),
			race(pbt.NewSub("race", "the same validations taken by two to six goroutines under the race detector", 300, 8000, genVals(true), checkVals)),
		},
	})
}
