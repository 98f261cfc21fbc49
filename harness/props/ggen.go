package props

import (
	"fmt"
	"go/token"
	"os"
	"path"
	"path/filepath"
	"strings"
	"unicode"

	"pgregory.net/rapid"

	"github.com/GannettDigital/jstransform/generate"

	"verif/harness/pbt"
)

// GUnit is a schema file that becomes one struct file.
type GUnit struct {
	File   string         `json:"file"`             // e.g. image.json
	Schema map[string]any `json:"schema"`           // own properties and required, without references
	AllOf  []string       `json:"allOf,omitempty"`  // files
	OneOf  []string       `json:"oneOf,omitempty"`  // files, the root only
	Inline map[string]any `json:"inline,omitempty"` // an allOf entry of the root that is no reference
}

// GOpts are the options of the generator.
type GOpts struct {
	Flat    bool              `json:"flat"` // NoNestedStructs
	Ptr     bool              `json:"ptr"`
	DescTag bool              `json:"descTag"`
	Embed   bool              `json:"embed"`
	Structs map[string]string `json:"structs,omitempty"`
	Fields  map[string]string `json:"fields,omitempty"`
	Gql     bool              `json:"gql,omitempty"`
	Iface   bool              `json:"iface,omitempty"`
	Msgp    bool              `json:"msgp,omitempty"`
	Avro    bool              `json:"avro,omitempty"`
	Types   map[string]string `json:"types,omitempty"` // GraphQL type names
	Any     bool              `json:"any,omitempty"`
}

// GCase is a set of schema files with options.
type GCase struct {
	Units []GUnit           `json:"units"` // the root first
	Files map[string]string `json:"files"`
	Opts  []GOpts           `json:"opts"`
	Docs  map[string][]any  `json:"docs,omitempty"` // documents by unit
}

func (o GOpts) args(schema, out string) generate.BuildArgs {
	return generate.BuildArgs{SchemaPath: schema, OutputDir: out, DescriptionAsStructTag: o.DescTag, NoNestedStructs: o.Flat, Pointers: o.Ptr,
		EmbedAllOf: o.Embed, StructNameMap: o.Structs, FieldNameMap: o.Fields, GenerateGraphQL: o.Gql, InterfaceFiles: o.Iface,
		GenerateMessagePack: o.Msgp, GenerateAvro: o.Avro, GraphQLTypeNameMap: o.Types, ScalarAny: o.Any, ImportPath: "example.com/gen"}
}

func (c GCase) unit(file string) *GUnit {
	for i := range c.Units {
		if c.Units[i].File == file {
			return &c.Units[i]
		}
	}
	return nil
}

func baseName(file string) string { return strings.SplitN(path.Base(file), ".", 2)[0] }

// title is the exported form of a name.
func title(s string) string {
	r := []rune(s)
	if len(r) > 0 {
		r[0] = unicode.ToTitle(r[0])
	}
	return string(r)
}

// gcfg tunes the generator.
type gcfg struct {
	multi    bool // several units
	descP    int
	reqP     int
	nullP    int
	renames  bool // names that need a rename
	hydrate  bool // graphql-hydration properties
	maps     bool // free-form objects
	times    bool
	depth    int
	maxProps int
	splitP   int
	nullArr  bool // nullable arrays and items
	nullMaps bool // nullable free-form objects
	optsN    int
	docs     int
	avro     bool // Avro names
	gql      bool // GraphQL names, targets, arguments and deprecations
}

var defaultG = gcfg{multi: true, descP: 30, reqP: 35, nullP: 18, renames: true, hydrate: true, maps: true, times: true, depth: 3, maxProps: 5, splitP: 12, nullArr: true, nullMaps: true, optsN: 1, docs: 4}

var gNames = []string{"a", "b", "c", "id", "name", "type", "URL", "camelCase", "x_1", "value", "items", "list", "properties", "required", "héllo", "été", "title", "time", "string", "json", "ab", "aB", "bC", "cD", "error", "len", "description", "fields", "date2", "Upper"}
var gOdd = []string{"-", "x-y", "og:image", "sp ace", "1st", "_id", "$x", "@type", "a+b", "日本"}

type gg struct {
	t      *rapid.T
	c      gcfg
	fields map[string]string // renames
	used   map[string]bool   // Go names of one unit family's root fields that must stay distinct
}

// name draws a property name; taken holds the Go names of the object.
func (g *gg) name(taken map[string]bool) string {
	for i := 0; i < 20; i++ {
		n := pick(g.t, "prop", gNames)
		if (g.c.gql || g.c.avro) && n == "héllo" || (g.c.gql || g.c.avro) && n == "été" {
			n = "_h2"
			if g.c.avro {
				n = "h2_"
			} else if g.fields[n] == "" {
				g.fields[n] = "H2"
			}
		}
		if g.c.avro && rare(g.t, 9, "avroName") {
			n = pick(g.t, "special", []string{"schema", "Serialize", "get", "setDefault", "avroId", "Avro", "finalize", "x_1", "under_", "Long", "double", "record", "fields_record"})
		}
		if g.c.renames && !g.c.gql && !g.c.avro && chance(g.t, 10, "oddName") {
			n = pick(g.t, "odd", gOdd)
			if g.fields[n] == "" {
				g.fields[n] = fmt.Sprintf("R%d", len(g.fields)+1)
				if chance(g.t, 30, "lower") {
					g.fields[n] = strings.ToLower(g.fields[n])
				}
			}
		} else if g.c.renames && chance(g.t, 4, "rename") && g.fields[n] == "" && !g.used["~"+n] {
			g.fields[n] = fmt.Sprintf("Renamed%d", len(g.fields)+1)
		}
		if g.fields[n] == "" {
			g.used["~"+n] = true // used under its own name, no later rename
		}
		k := n
		if r, ok := g.fields[n]; ok {
			k = r
		}
		k = strings.ToLower(k) // JSON decoding ignores case
		if l := strings.ToLower(n); !taken[k] && !taken[l] {
			taken[k], taken[l] = true, true
			return n
		}
	}
	return ""
}

var gDescs = []string{"a thing", "The URL of it", "two\nlines", "says \"quoted\"", "back\\slash", "tick ` here", "ünï ✓", "ends with a quote\"", "trailing space ", " leading", "json:\"fake\"", "*/ end", "// comment", "tab\there", "percent %s %d", "first\n\nthird", "a: b", "line\r\nwin", "'single'", "{{x}}", "\"\"\"", "#hash", "x\\", "x\\n", "bell\u0007", "del\u007f\u0001", "flag \U0001F3F4\U000E0067", "mark\ufeff", "nul\u0000", "no-break\u00a0space\u2028line"}

func (g *gg) types(kind string, nullable bool) any {
	if nullable {
		if rapid.Bool().Draw(g.t, "nullFirst") {
			return []any{"null", kind}
		}
		return []any{kind, "null"}
	}
	if chance(g.t, 10, "typeList") {
		return []any{kind}
	}
	return kind
}

func (g *gg) node(depth int, item bool) map[string]any {
	t := g.t
	kinds := []string{"string", "string", "integer", "number", "boolean"}
	if g.c.times {
		kinds = append(kinds, "date-time")
	}
	if depth > 0 {
		kinds = append(kinds, "object", "object")
		if !item {
			kinds = append(kinds, "array", "array")
		}
	}
	if g.c.maps {
		kinds = append(kinds, "map")
	}
	if g.c.gql && rare(t, 10, "hydrate") {
		n := map[string]any{"type": g.types("graphql-hydration", rare(t, 5, "nullHydration")), "target": pick(t, "target", []string{"Author", "Author!", "[Asset!]!", "[Tag]", "String"})}
		if item {
			n["target"] = pick(t, "target", []string{"Author", "Asset"})
		} else if chance(t, 30, "args") {
			n["graphql-arguments"] = pick(t, "arguments", [][]any{{"id: ID!"}, {"\"the first ones\"", "first: Int", "", "after: [String!]"}, {"where: Filter!, limit: Int"}})
		}
		return g.described(n)
	}
	if !g.c.gql && g.c.hydrate && !item && chance(t, 4, "hydrate") {
		return map[string]any{"type": g.types("graphql-hydration", rare(t, 3, "nullHydration")), "description": "filled by a resolver"}
	}
	kind := pick(t, "kind", kinds)
	null := chance(t, g.c.nullP, "nullable")
	if (item || kind == "array") && !g.c.nullArr || kind == "map" && !g.c.nullMaps {
		null = false
	}
	n := map[string]any{}
	switch kind {
	case "date-time":
		n["type"], n["format"] = g.types("string", null), "date-time"
	case "map":
		n["type"], n["properties"] = g.types("object", null), map[string]any{}
		if rapid.Bool().Draw(t, "addl") {
			n["additionalProperties"] = true
		}
	case "object":
		n = g.object(depth-1, map[string]bool{})
		n["type"] = g.types("object", null)
	case "array":
		it := g.node(depth-1, true)
		if kindOf(it) == "map" && !g.c.nullMaps {
			null = false // the items would be pointers
		}
		n["type"], n["items"] = g.types("array", null), it
	default:
		n["type"] = g.types(kind, null)
		if kind == "string" && chance(t, 10, "otherFormat") {
			n["format"] = pick(t, "format", []string{"date", "uri", "email"})
		}
	}
	if g.c.gql && kind != "map" && kind != "array" && rare(t, 14, "target") {
		n["target"] = pick(t, "target", []string{"Author", "Asset", "String"})
	}
	if it, ok := n["items"].(map[string]any); ok && g.c.gql && it["target"] == nil && kindOf(it) != "object" && kindOf(it) != "map" && rare(t, 14, "listTarget") {
		n["target"] = pick(t, "target", []string{"Author", "Asset", "String"})
	}
	return g.described(n)
}

// described gives a node a description, or not.
func (g *gg) described(n map[string]any) map[string]any {
	if chance(g.t, g.c.descP, "desc") {
		n["description"] = pick(g.t, "description", gDescs)
		if g.c.gql && chance(g.t, 20, "deprecated") {
			n["description"] = pick(g.t, "deprecated", gDeprecated)
		}
	}
	return n
}

var gDeprecated = []string{"DEPRECATED: use b instead", "DEPRECATED: use b\nthe old one", "DEPRECATED: says \"no\" \\o/\nold", "DEPRECATED:", "DEPRECATED:x\ntwo\nlines", "DEPRECATED: ünï\u00a0✓ 😀", "DEPRECATED: tab\there\r\nthen", "DEPRECATED: bell\u0007", "not DEPRECATED: really", "DEPRECATED: %d %s"}

// object draws an object schema with at least one property that is a field.
func (g *gg) object(depth int, taken map[string]bool) map[string]any {
	t := g.t
	ps := map[string]any{}
	real := false
	for k := rapid.IntRange(1, g.c.maxProps).Draw(t, "props"); k > 0 || !real; k-- {
		n := g.name(taken)
		if n == "" {
			n = fmt.Sprintf("p%d", len(taken)) // names ran out
			taken[n] = true
		}
		p := g.node(depth, false)
		if kindOf(p) != "graphql-hydration" {
			real = true
		}
		ps[n] = p
	}
	if chance(t, 12, "joined") { // an object with the joined name of a nested one, or nearly so
		near := pick(t, "near", []int{0, 1, 1, 2})
		for _, k := range sortedKeys(ps) {
			sub, _ := ps[k].(map[string]any)["properties"].(map[string]any)
			for _, k2 := range sortedKeys(sub) {
				n := k + title(k2)
				if near == 1 {
					n = k + k2
				} else if near == 2 {
					n = k + "_" + k2
				}
				if kindOf(sub[k2].(map[string]any)) != "object" || !token.IsIdentifier(n) || g.fields[k] != "" || g.fields[k2] != "" || g.fields[n] != "" || taken[strings.ToLower(n)] {
					continue
				}
				taken[strings.ToLower(n)] = true
				g.used["~"+n] = true
				ps[n] = g.object(0, map[string]bool{})
			}
		}
	}
	out := map[string]any{"type": "object", "properties": ps}
	var req []any
	for _, k := range sortedKeys(ps) {
		if kindOf(ps[k].(map[string]any)) != "graphql-hydration" && chance(t, g.c.reqP, "req") {
			req = append(req, k)
		}
	}
	if len(req) > 0 {
		out["required"] = req
	}
	return out
}

// sepTypeNames lists the names of the separate types below an object; ok is false when two are the same.
func sepTypeNames(prefix string, n map[string]any, fields map[string]string, into map[string]bool) bool {
	ps, _ := n["properties"].(map[string]any)
	ok := true
	for _, k := range sortedKeys(ps) {
		p := ps[k].(map[string]any)
		for {
			it, isArr := p["items"].(map[string]any)
			if !isArr {
				break
			}
			p = it
		}
		if kindOf(p) != "object" {
			continue
		}
		if r, isRen := fields[k]; isRen && !token.IsIdentifier("T"+k) {
			k = r
		}
		name := prefix + title(k)
		if into[name] {
			ok = false
		}
		into[name] = true
		ok = sepTypeNames(name, p, fields, into) && ok
	}
	return ok
}

// distinctTypes tells whether all separate types of the package have names of their own.
func (c GCase) distinctTypes(o GOpts) bool {
	into := map[string]bool{}
	ok := true
	for _, u := range c.built() {
		n := o.structName(u.File)
		if into[n] {
			ok = false
		}
		into[n] = true
	}
	for _, u := range c.built() {
		own, _ := c.own(u, o)
		of := map[string]bool{}
		sepTypeNames(o.structName(u.File), own, o.Fields, of)
		for n := range of {
			if into[n] {
				ok = false
			}
			into[n] = true
		}
	}
	return ok
}

func genG(cfg gcfg) func(t *rapid.T) GCase {
	return func(t *rapid.T) GCase {
		g := &gg{t: t, c: cfg, fields: map[string]string{}, used: map[string]bool{}}
		var c GCase
		layout := "one"
		if cfg.multi {
			layout = pick(t, "layout", []string{"one", "one", "allOf", "allOf", "oneOf", "both", "all", "inline", "nested"})
			if cfg.gql && rare(t, 8, "nestedOwn") {
				layout = "nestedOwn"
			}
		}
		rootTaken := map[string]bool{}
		files := []string{"simple.json", "image.json", "gallery.json", "metaData.json", "text-x.json"}
		structs := map[string]string{}
		unit := func(file string, fields bool) GUnit {
			u := GUnit{File: file, Schema: map[string]any{"type": "object"}}
			if fields {
				u.Schema = g.object(cfg.depth, rootTaken)
			}
			b := baseName(file)
			rootTaken[strings.ToLower(b)] = true
			if b == "text-x" || chance(t, 12, "renameStruct") {
				structs[b] = fmt.Sprintf("Struct%d", len(structs)+1)
			}
			return u
		}
		// names of the files first, so that no field gets the name of an embedded struct
		for _, f := range append([]string{"root.json"}, files...) {
			rootTaken[strings.ToLower(baseName(f))] = true
			rootTaken[strings.ToLower(fmt.Sprintf("Struct%d", len(rootTaken)))] = true
		}
		root := unit(pick(t, "rootName", []string{"root.json", "root.schema.json", "article.json", "my_type.json"}), layout != "both")
		c.Units = []GUnit{root}
		var all, one []string
		override := func(u *GUnit) { // a property the struct gets from an embedded one, too
			from := &c.Units[rapid.IntRange(0, len(c.Units)-1).Draw(t, "overridden")]
			for _, f := range one {
				if f == from.File {
					return
				}
			}
			ps, _ := from.Schema["properties"].(map[string]any)
			if len(ps) == 0 {
				return
			}
			k := pick(t, "overriddenName", sortedKeys(ps))
			if kindOf(ps[k].(map[string]any)) == "graphql-hydration" {
				return
			}
			n := g.node(1, false)
			if kindOf(n) == "graphql-hydration" {
				return
			}
			u.Schema["properties"].(map[string]any)[k] = n
			for _, r := range asList(from.Schema["required"]) {
				if r == k {
					u.Schema["required"] = append(asList(u.Schema["required"]), k)
				}
			}
		}
		add := func(into *[]string, n int, allOf []string) {
			for ; n > 0 && len(files) > 0; n-- {
				i := rapid.IntRange(0, len(files)-1).Draw(t, "file")
				u := unit(files[i], true)
				u.AllOf = allOf
				if into == &one && !cfg.gql && chance(t, 30, "override") {
					override(&u)
				}
				files = append(append([]string{}, files[:i]...), files[i+1:]...)
				c.Units = append(c.Units, u)
				*into = append(*into, u.File)
			}
		}
		switch layout {
		case "allOf":
			add(&all, rapid.IntRange(1, 2).Draw(t, "nAll"), nil)
		case "oneOf":
			add(&one, rapid.IntRange(1, 2).Draw(t, "nOne"), nil)
		case "both", "all":
			add(&all, rapid.IntRange(1, 2).Draw(t, "nAll"), nil)
			add(&one, rapid.IntRange(1, 2).Draw(t, "nOne"), nil)
		case "nested": // oneOf entries that list the same allOf
			add(&all, 1, nil)
			add(&one, rapid.IntRange(1, 2).Draw(t, "nOne"), append([]string{}, all...))
			if rapid.Bool().Draw(t, "noRootProps") {
				c.Units[0].Schema = map[string]any{"type": "object"}
			}
		case "nestedOwn": // oneOf entries with allOf entries of their own
			if rapid.Bool().Draw(t, "withAllOf") {
				add(&all, 1, nil)
			}
			for k := 0; k < 2; k++ {
				var l []string
				add(&l, 1, nil)
				add(&one, 1, l)
			}
		case "inline":
			c.Units[0].Inline = g.object(cfg.depth-1, rootTaken)
		}
		c.Units[0].AllOf, c.Units[0].OneOf = all, one
		// the files
		sp := &splitter{t: t, p: cfg.splitP, files: map[string]map[string]any{}, kinds: []string{"local", "local", "dir"}}
		for _, u := range c.Units {
			s := copyJSON(u.Schema).(map[string]any)
			sp.files[u.File] = s
			for _, k := range []struct {
				key  string
				list []string
			}{{"allOf", u.AllOf}, {"oneOf", u.OneOf}} {
				var l []any
				for _, f := range k.list {
					l = append(l, map[string]any{"$ref": f})
					sp.edge(u.File, f)
				}
				if k.key == "allOf" && u.Inline != nil {
					l = append(l, copyJSON(u.Inline))
				}
				if l != nil {
					s[k.key] = l
				}
			}
		}
		for _, u := range c.Units {
			sp.children(u.File, sp.files[u.File])
		}
		c.Files = filesText(sp.files)
		for i := 0; i < cfg.optsN; i++ {
			o := GOpts{Flat: rapid.Bool().Draw(t, "flat"), Ptr: rapid.Bool().Draw(t, "ptr"), DescTag: rapid.Bool().Draw(t, "descTag"), Embed: rapid.Bool().Draw(t, "embed"),
				Structs: structs, Fields: map[string]string{}}
			for _, k := range sortedKeys(g.fields) {
				v := g.fields[k]
				if cfg.optsN == 1 || !token.IsIdentifier(title(k)) || !token.IsExported(title(k)) || rapid.Bool().Draw(t, "rename") {
					o.Fields[k] = v
				}
			}
			if cfg.optsN > 1 {
				o.Structs = map[string]string{}
				for _, k := range sortedKeys(structs) {
					if k == "text-x" || rapid.Bool().Draw(t, "renamed") {
						o.Structs[k] = structs[k]
					}
				}
			}
			if o.Flat && !c.distinctTypes(o) {
				o.Flat = false // types of different files with the same name are not supported
			}
			c.Opts = append(c.Opts, o)
		}
		if cfg.docs > 0 {
			c.Docs = map[string][]any{}
			for _, u := range c.built() {
				s := c.merged(u)
				for k := rapid.IntRange(1, cfg.docs).Draw(t, "docs"); k > 0; k-- {
					c.Docs[u.File] = append(c.Docs[u.File], genDoc(t, s, pick(t, "fill", []int{10, 50, 90})))
				}
			}
		}
		return c
	}
}

// genDoc draws a document that is valid for the schema.
func genDoc(t *rapid.T, s map[string]any, fill int) any {
	ts := typesOf(s)
	if ts["null"] && chance(t, 20, "null") {
		return nil
	}
	switch {
	case ts["object"]:
		out := map[string]any{}
		ps, _ := s["properties"].(map[string]any)
		if len(ps) == 0 {
			for k := rapid.IntRange(0, 3).Draw(t, "members"); k > 0; k-- {
				out[pick(t, "member", []string{"k", "k2", "x-y", "", "Ä"})] = genStr(t)
			}
			return out
		}
		req := map[string]bool{}
		for _, r := range asList(s["required"]) {
			req[r.(string)] = true
		}
		for _, k := range sortedKeys(ps) {
			p := ps[k].(map[string]any)
			if kindOf(p) == "graphql-hydration" {
				continue
			}
			if req[k] || chance(t, fill, "present") {
				out[k] = genDoc(t, p, fill)
			}
		}
		return out
	case ts["array"]:
		l := []any{}
		for k := rapid.IntRange(0, 3).Draw(t, "len"); k > 0; k-- {
			l = append(l, genDoc(t, s["items"].(map[string]any), fill))
		}
		return l
	case ts["string"] && s["format"] == "date-time":
		return pick(t, "time", []string{"2018-06-25T20:21:13Z", "2018-06-25T20:21:13.120+02:00", "0001-01-01T00:00:00Z", "1969-12-31T23:59:59.999999999Z", "9999-12-31T23:59:59Z", "2020-02-29T00:00:00-11:30", "2000-01-01T00:00:00.000001Z"})
	case ts["string"]:
		return genStr(t)
	case ts["integer"]:
		if chance(t, 20, "bigInt") {
			return pick(t, "int", []any{9007199254740991.0, -9007199254740991.0, 0.0, 2147483648.0, 1e15})
		}
		return float64(rapid.IntRange(-100, 100).Draw(t, "smallInt"))
	case ts["number"]:
		return genNum(t)
	case ts["boolean"]:
		return rapid.Bool().Draw(t, "bool")
	}
	panic(fmt.Sprintf("no document for %v", s))
}

// built are the units that become struct files.
func (c GCase) built() []*GUnit {
	var out []*GUnit
	root := &c.Units[0]
	for _, f := range root.AllOf {
		out = append(out, c.unit(f))
	}
	if root.hasProps() || len(root.AllOf) == 0 && len(root.OneOf) == 0 {
		out = append(out, root)
	}
	for _, f := range root.OneOf {
		out = append(out, c.unit(f))
	}
	return out
}

func (u *GUnit) hasProps() bool { return u.Schema["properties"] != nil }

// merged is the schema of the documents of a unit's struct: its own properties over those of its allOf entries and, for
// a oneOf entry of the root, those of the root and its allOf entries.
func (c GCase) merged(u *GUnit) map[string]any {
	ps := map[string]any{}
	var req []any
	add := func(s map[string]any) {
		if m, ok := s["properties"].(map[string]any); ok {
			for k, v := range m {
				if _, ok := ps[k]; !ok {
					ps[k] = v
				}
			}
		}
		req = append(req, asList(s["required"])...)
	}
	add(u.Schema)
	for _, f := range u.AllOf {
		add(c.unit(f).Schema)
	}
	if u.Inline != nil {
		add(u.Inline)
	}
	root := &c.Units[0]
	for _, f := range root.OneOf {
		if f == u.File {
			for _, a := range root.AllOf {
				add(c.unit(a).Schema)
			}
			add(root.Schema)
			if root.Inline != nil {
				add(root.Inline)
			}
		}
	}
	out := map[string]any{"type": "object", "properties": ps}
	if len(req) > 0 {
		out["required"] = req
	}
	return out
}

// pkgName is the name of the directory the code is generated into, and so of its package.
func (c GCase) pkgName() string {
	return []string{"gen", "Gen", "gen_v2", "gen"}[(len(c.Files)+len(c.Units[0].File))%4]
}

// generated writes the schema files and runs the generator; it returns the generated files.
func (c GCase) generated(dir string, o GOpts) (map[string]string, error) {
	if err := writeFiles(filepath.Join(dir, "schemas"), c.Files); err != nil {
		return nil, err
	}
	out := filepath.Join(dir, c.pkgName())
	if err := os.MkdirAll(out, 0o755); err != nil {
		return nil, pbt.Harness(err)
	}
	if err := generate.BuildStructsWithArgs(o.args(filepath.Join(dir, "schemas", c.Units[0].File), out)); err != nil {
		return nil, fmt.Errorf("BuildStructsWithArgs: %v", err)
	}
	return readTree(out)
}

// readTree reads all files below a directory.
func readTree(dir string) (map[string]string, error) {
	out := map[string]string{}
	err := filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return err
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		rel, err := filepath.Rel(dir, p)
		out[rel] = string(b)
		return err
	})
	if err != nil {
		return nil, pbt.Harness(err)
	}
	return out, nil
}
