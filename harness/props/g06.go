package props

import (
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"pgregory.net/rapid"

	"verif/harness/gendrv"
	"verif/harness/pbt"
)

func genAvro(n int) func(t *rapid.T) GBatch {
	return func(t *rapid.T) GBatch {
		pkg := rapid.Custom(func(t *rapid.T) GPkg {
			cfg := defaultG
			cfg.docs, cfg.renames, cfg.hydrate, cfg.maps, cfg.nullP, cfg.nullArr, cfg.avro = 5, true, true, false, 0, false, true
			p := GPkg{GCase: genG(cfg)(t)}
			p.Opts[0].Avro = true
			p.Opts[0].Msgp = rare(t, 8, "msgp")
			p.Flips = nil
			min := 1 << 20
			for _, d := range p.Docs {
				if len(d) < min {
					min = len(d)
				}
			}
			doc := func() int { return rapid.IntRange(0, min-1).Draw(t, "doc") }
			for k := rapid.IntRange(1, 5).Draw(t, "writes"); k > 0; k-- {
				w := gendrv.Write{Kind: pick(t, "write", []string{"one", "deleted", "one", "bulk", "bulk", "deleted"}),
					Time: rapid.Int64Range(-62135596799999, 253402300799999).Draw(t, "at"), Nanos: rapid.Int64Range(0, 999999).Draw(t, "nanos"), Zone: rapid.IntRange(-50000, 50000).Draw(t, "zone"),
					Now: rare(t, 5, "now")}
				if rare(t, 12, "nil") {
					w.Kind = pick(t, "nilKind", []string{"nilOne", "nilDeleted"})
				}
				switch w.Kind {
				case "bulk":
					for k := rapid.IntRange(0, 6).Draw(t, "items"); k > 0; k-- {
						i := doc()
						if rare(t, 6, "nilItem") {
							i = -1
						}
						w.Docs = append(w.Docs, i)
					}
					w.Chunk = rare(t, 6, "slow")
				default:
					w.Docs = []int{doc()}
				}
				if rare(t, 8, "fail") {
					w.Fail = 1 + rapid.IntRange(0, 4000).Draw(t, "failAt")
				}
				p.Hist = append(p.Hist, w)
			}
			return p
		})
		return GBatch{Pkgs: rapid.SliceOfN(pkg, 1, n).Draw(t, "pkgs")}
	}
}

// avroWant compares a schema node with an Avro type.
func (o GOpts) avroWant(n map[string]any, required bool, t *avroType, path string) error {
	bad := func(want string) error { return fmt.Errorf("%s: %s instead of %s", path, t, want) }
	inner, optional := t, false
	if t.kind == "union" {
		if len(t.union) != 2 || t.union[0].kind != "null" {
			return bad("a union with null")
		}
		inner, optional = t.union[1], true
	}
	kind := kindOf(n)
	wantOpt := !required
	switch kind {
	case "array", "boolean":
		wantOpt = false
	case "object":
		wantOpt = !required && o.Ptr && o.Flat
	}
	if optional != wantOpt {
		return fmt.Errorf("%s: %s; optional: %v", path, t, wantOpt)
	}
	switch kind {
	case "object":
		if inner.kind != "record" {
			return bad("a record")
		}
		return o.avroFields(n, inner, path)
	case "array":
		if inner.kind != "array" {
			return bad("an array")
		}
		return o.avroWant(n["items"].(map[string]any), true, inner.items, path+"[]")
	case "date-time":
		if inner.kind != "long" || inner.logical != "timestamp-millis" {
			return bad("a long of timestamp-millis")
		}
		return nil
	}
	want := map[string]string{"string": "string", "boolean": "boolean", "integer": "long", "number": "double"}[kind]
	if inner.kind != want || inner.logical != "" {
		return bad(want)
	}
	return nil
}

func (o GOpts) avroFields(n map[string]any, t *avroType, path string) error {
	ps, _ := n["properties"].(map[string]any)
	req := map[string]bool{}
	for _, r := range asList(n["required"]) {
		req[r.(string)] = true
	}
	seen := map[string]bool{}
	for _, f := range t.fields {
		p, ok := ps[f.name].(map[string]any)
		if !ok {
			return fmt.Errorf("%s: the field %q is no property", path, f.name)
		}
		seen[f.name] = true
		if err := o.avroWant(p, req[f.name], f.typ, path+"."+f.name); err != nil {
			return err
		}
		d, _ := p["description"].(string)
		d = strings.Split(d, "\n")[0]
		if o.DescTag && goText(f.doc) != goText(d) || !o.DescTag && f.doc != "" {
			return fmt.Errorf("%s.%s: doc %q instead of %q", path, f.name, f.doc, d)
		}
	}
	for _, k := range sortedKeys(ps) {
		if !seen[k] && kindOf(ps[k].(map[string]any)) != "graphql-hydration" {
			return fmt.Errorf("%s: no field for the property %q", path, k)
		}
	}
	return nil
}

const zeroMillis = -62135596800000

// avroHolds compares a document with a decoded value.
func (o GOpts) avroHolds(n map[string]any, in any, ok, required bool, got any, path string) error {
	missing := !ok || in == nil
	bad := fmt.Errorf("%s: %s became %s", path, mustJSON(in), mustJSON(showAvro(got)))
	if missing {
		bad = fmt.Errorf("%s: %s without a value given", path, mustJSON(showAvro(got)))
	}
	switch kindOf(n) {
	case "object":
		rec, isRec := got.(*avroRecord)
		if missing && o.Ptr && o.Flat && !required {
			if got != nil {
				return bad
			}
			return nil
		}
		if !isRec {
			return bad
		}
		m, _ := in.(map[string]any)
		return o.avroRecordHolds(n, m, rec, path)
	case "array":
		l, isList := got.([]any)
		items, _ := in.([]any)
		if !isList || len(l) != len(items) {
			return bad
		}
		for i := range items {
			if err := o.avroHolds(n["items"].(map[string]any), items[i], true, true, l[i], fmt.Sprintf("%s[%d]", path, i)); err != nil {
				return err
			}
		}
		return nil
	case "date-time":
		x, isNum := got.(int64)
		if missing {
			if got == nil || isNum && (x == zeroMillis || x == 0 && o.Ptr) {
				return nil
			}
			return bad
		}
		tm, err := time.Parse(time.RFC3339, in.(string))
		if err != nil {
			return pbt.Harness(err)
		}
		want := tm.Unix()*1000 + int64(tm.Nanosecond()/1e6)
		if got == nil && !required && tm.IsZero() && !o.Ptr {
			return nil
		}
		if !isNum || x != want {
			return bad
		}
		return nil
	}
	var want any = in
	if missing {
		if got == nil {
			return nil
		}
		want = map[string]any{"string": "", "boolean": false, "integer": 0.0, "number": 0.0}[kindOf(n)]
	}
	if got == nil && !required && zeroJSON(n, in) {
		return nil
	}
	if kindOf(n) == "integer" {
		if x, ok := got.(int64); ok {
			got = float64(x)
		}
	}
	if got != want {
		return bad
	}
	return nil
}

func showAvro(v any) any {
	switch x := v.(type) {
	case *avroRecord:
		if x == nil {
			return nil
		}
		m := map[string]any{}
		for k, e := range x.values {
			m[k] = showAvro(e)
		}
		return m
	case []any:
		l := []any{}
		for _, e := range x {
			l = append(l, showAvro(e))
		}
		return l
	}
	return v
}

func (o GOpts) avroRecordHolds(n map[string]any, doc map[string]any, rec *avroRecord, path string) error {
	ps, _ := n["properties"].(map[string]any)
	req := map[string]bool{}
	for _, r := range asList(n["required"]) {
		req[r.(string)] = true
	}
	for _, k := range sortedKeys(ps) {
		if kindOf(ps[k].(map[string]any)) == "graphql-hydration" {
			continue
		}
		got, ok := rec.values[k]
		if !ok {
			return fmt.Errorf("%s.%s is no field of the record", path, k)
		}
		v, has := doc[k]
		if err := o.avroHolds(ps[k].(map[string]any), v, has, req[k], got, path+"."+k); err != nil {
			return err
		}
	}
	return nil
}

func checkAvro(b GBatch, info *pbt.Info) error {
	r, err := b.run()
	if err != nil {
		return err
	}
	defer r.close()
	for i := range b.Pkgs {
		p := &b.Pkgs[i]
		o := p.Opts[0]
		for _, u := range p.built() {
			tn := o.structName(u.File)
			q := fmt.Sprintf("p%d.%s", i, tn)
			text, err := os.ReadFile(filepath.Join(r.dir, fmt.Sprintf("p%d", i), strings.ToLower(tn)+".avsc"))
			if err != nil {
				return fmt.Errorf("no Avro schema: %v", err)
			}
			fail := func(err error) error { return fmt.Errorf("%s: %v\n%s", q, err, text) }
			s, err := parseAvroSchema(text)
			if err != nil {
				return fail(err)
			}
			if s.kind != "record" || s.name != tn || len(s.fields) < 2 || s.fields[0].name != "AvroWriteTime" || s.fields[0].typ.String() != "long(timestamp-millis)" ||
				s.fields[1].name != "AvroDeleted" || s.fields[1].typ.kind != "boolean" || s.fields[1].def != false {
				return fail(fmt.Errorf("no record %s with the metadata fields: %s", tn, s))
			}
			m := p.merged(u)
			body := *s
			body.fields = s.fields[2:]
			if err := o.avroFields(m, &body, "$"); err != nil {
				return fail(err)
			}
			docs := p.Docs[u.File]
			for k, w := range r.results[q].Writes {
				h := p.hist(u)[k]
				fail := func(err error) error {
					return fmt.Errorf("%s: write %+v of %s: %v", q, h, mustJSON(docs), err)
				}
				data, err := hex.DecodeString(w.Hex)
				if err != nil {
					return pbt.Harness(err)
				}
				if strings.HasPrefix(h.Kind, "nil") {
					if len(w.Errs) == 0 {
						return fail(fmt.Errorf("no error for a nil value"))
					}
					continue
				}
				if w.Hung {
					return fail(fmt.Errorf("the writer did not end"))
				}
				if !w.Same {
					return fail(fmt.Errorf("the value was changed"))
				}
				if w.Failed {
					if len(w.Errs) != 1 || !strings.Contains(w.Errs[0], "stop") {
						return fail(fmt.Errorf("the destination failed after %d bytes, the errors are %q", h.Fail-1, w.Errs))
					}
					info.Label("failing destination")
					continue
				}
				if len(w.Errs) > 0 {
					return fail(fmt.Errorf("errors: %q", w.Errs))
				}
				if len(h.Docs) == 0 && len(data) == 0 {
					info.Label("no items")
					continue
				}
				hs, recs, err := readOCF(data)
				if err != nil {
					return fail(fmt.Errorf("%v: %x", err, data))
				}
				if ft, err := parseAvroSchema(hs); err != nil || ft.String() != s.String() {
					return fail(fmt.Errorf("the schema of the file is\n%s\nthe schema\n%s", hs, text))
				}
				if len(recs) != len(h.Docs) || h.Kind == "bulk" && w.Sent != len(h.Docs) {
					return fail(fmt.Errorf("%d records, %d items were taken", len(recs), w.Sent))
				}
				for x, rec := range recs {
					at, _ := rec.values["AvroWriteTime"].(int64)
					if h.Now && (at < w.Before || at > w.After) || !h.Now && at != h.Time {
						return fail(fmt.Errorf("record %d: AvroWriteTime is %d (the call was from %d to %d)", x, at, w.Before, w.After))
					}
					di := h.Docs[x]
					if del := rec.values["AvroDeleted"]; del != (h.Kind == "deleted" || di < 0) {
						return fail(fmt.Errorf("record %d: AvroDeleted is %v", x, del))
					}
					if di < 0 {
						info.Label("nil item")
						continue
					}
					doc, _ := docs[di].(map[string]any)
					if err := o.avroRecordHolds(m, doc, rec, "$"); err != nil {
						return fail(fmt.Errorf("record %d: %v", x, err))
					}
					if len(doc) > 0 {
						info.Nontrivial = true
					}
				}
			}
		}
		info.LabelIf(o.Flat, "separate types")
		info.LabelIf(o.Ptr, "pointers")
		info.LabelIf(len(p.Units) > 1, "several units")
	}
	return nil
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "G06",
		Subs: []*pbt.Sub{
			limited(8*time.Minute, pbt.NewSub("compiled", "batches of generated packages with Avro code, compiled into one program that runs a history of single, delete and bulk writes (some failing) over up to five documents of every struct; the schemas and files are read by an independent Avro reader; non-trivial: a record of a document with members was read", 200, 3000, genAvro(4), checkAvro)),
		},
	})
}
