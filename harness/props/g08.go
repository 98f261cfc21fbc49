package props

import (
	"fmt"
	"go/types"
	"os"
	"reflect"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/pbt"
)

func genGQL(t *rapid.T) GCase {
	cfg := defaultG
	cfg.docs, cfg.gql, cfg.descP = 0, true, 40
	c := genG(cfg)(t)
	o := &c.Opts[0]
	o.Gql, o.Iface, o.Any = true, rapid.Bool().Draw(t, "iface"), rapid.Bool().Draw(t, "any")
	o.Flat = true
	nested := false
	for i := range c.Units {
		for _, n := range []map[string]any{c.Units[i].Schema, c.Units[i].Inline} {
			seen := map[string]bool{}
			joinedNames("", n, seen, map[string]bool{})
			nested = nested || len(seen) > 0
			if len(seen) > 0 && rapid.Bool().Draw(t, "renameNested") { // nested types of the root level
				k := title(baseName(c.Units[i].File)) + pick(t, "renamed", sortedKeys(seen))
				if o.Types == nil {
					o.Types = map[string]string{}
				}
				o.Types[k] = fmt.Sprintf("Nested%d", len(o.Types))
			}
		}
		if rapid.IntRange(0, 3).Draw(t, "gqlRename") == 2 || baseName(c.Units[i].File) == "text-x" { // no GraphQL name
			if o.Types == nil {
				o.Types = map[string]string{}
			}
			o.Types[baseName(c.Units[i].File)] = fmt.Sprintf("Named%d", len(o.Types))
		}
	}
	for _, f := range c.Units[0].OneOf {
		for _, a := range c.unit(f).AllOf {
			for _, r := range c.Units[0].AllOf {
				if a == r {
					o.Embed = true // otherwise the entry has types of its own for the properties of the interface
				}
			}
		}
	}
	if !nested && rapid.Bool().Draw(t, "nestedStructs") {
		o.Flat = false
	}
	return c
}

// splitDeprecated gives the description and the reason of a deprecation.
func splitDeprecated(desc string) (string, *string) {
	rest, ok := strings.CutPrefix(desc, "DEPRECATED:")
	if !ok {
		return desc, nil
	}
	reason, rest, _ := strings.Cut(rest, "\n")
	reason = strings.TrimSpace(reason)
	return strings.TrimSpace(rest), &reason
}

// sameText compares a description, up to what a block string does not keep: the indentation and blank lines around it.
func sameText(got, want string) bool {
	if !strings.Contains(want, "\n") {
		return got == want
	}
	return blockStringValue("\n"+got) == blockStringValue("\n"+want)
}

type gqlCheck struct {
	o    GOpts
	defs map[string]*sdlDef
	used map[string]int
	g    *goPkg
	info *pbt.Info
}

var gqlScalar = map[string]string{"boolean": "Boolean", "number": "Float", "integer": "Int", "string": "String", "date-time": "DateTime", "map": "Any"}

func (c *gqlCheck) checkDesc(where, desc string, got string, has bool, dirs []sdlDirective) error {
	want, reason := splitDeprecated(desc)
	if has != (want != "") || has && !sameText(got, want) {
		return fmt.Errorf("%s: description %q (present: %v), want %q", where, got, has, want)
	}
	var dep *string
	for _, d := range dirs {
		if d.name == "deprecated" {
			s := d.args["reason"]
			if len(d.args) != 1 || !strings.HasPrefix(s, `"`) {
				return fmt.Errorf("%s: deprecation %v", where, d.args)
			}
			s = s[1:]
			dep = &s
		}
	}
	if (dep == nil) != (reason == nil) || dep != nil && *dep != *reason {
		return fmt.Errorf("%s: deprecation differs from the description %q: %s", where, desc, mustJSON(dirs))
	}
	c.info.LabelIf(dep != nil, "deprecated")
	return nil
}

func dirNames(ds []sdlDirective) (out []string) {
	for _, d := range ds {
		if d.name != "deprecated" {
			s := d.name
			for _, k := range sortedKeys(d.args) {
				s += " " + k + "=" + d.args[k]
			}
			out = append(out, s)
		}
	}
	return out
}

// fields compares the fields of a type with the properties of an object.
func (c *gqlCheck) fields(d *sdlDef, n map[string]any) error {
	ps := n["properties"].(map[string]any)
	req := map[string]bool{}
	for _, r := range asList(n["required"]) {
		req[r.(string)] = true
	}
	want := map[string]bool{}
	for _, k := range sortedKeys(ps) {
		p := ps[k].(map[string]any)
		f := d.byName[k]
		where := d.name + "." + k
		if f == nil {
			return fmt.Errorf("%s is missing", where)
		}
		want[k] = true
		desc, _ := p["description"].(string)
		if err := c.checkDesc(where, desc, f.desc, f.hasDesc, f.dirs); err != nil {
			return err
		}
		if kindOf(p) == "array" {
			renamed := k
			if r, ok := c.o.Fields[k]; ok {
				renamed = r
			}
			tn := "total" + title(renamed)
			tf := d.byName[tn]
			if tf == nil {
				return fmt.Errorf("%s.%s is missing", d.name, tn)
			}
			want[tn] = true
			td := fmt.Sprintf("The total length of the %s list at this same level in the data, this number is unaffected by filtering.", renamed)
			if first, _, _ := strings.Cut(desc, "\n"); strings.HasPrefix(desc, "DEPRECATED:") {
				td = first + "\n" + td
			}
			if err := c.checkDesc(d.name+"."+tn, td, tf.desc, tf.hasDesc, tf.dirs); err != nil {
				return err
			}
			if tf.typ.String() != "Int!" || len(tf.args) > 0 || len(dirNames(tf.dirs)) > 0 {
				return fmt.Errorf("%s.%s has type %v, %d arguments", d.name, tn, tf.typ, len(tf.args))
			}
		}
		if err := c.field(where, f, p, req[k], title(d.name)+title(k)); err != nil {
			return err
		}
	}
	for _, f := range d.fields {
		if !want[f.name] {
			return fmt.Errorf("%s.%s is none of the properties", d.name, f.name)
		}
	}
	if !sort.SliceIsSorted(d.fields, func(i, j int) bool { return c.goName(d.fields[i].name) < c.goName(d.fields[j].name) }) {
		return fmt.Errorf("the fields of %s are not sorted", d.name)
	}
	return nil
}

func (c *gqlCheck) goName(k string) string {
	if r, ok := c.o.Fields[k]; ok {
		k = r
	}
	return title(k)
}

func (c *gqlCheck) field(where string, f *sdlField, p map[string]any, required bool, sepName string) error {
	kind := kindOf(p)
	if kind == "graphql-hydration" {
		c.info.Label("hydration")
		t, err := parseSDLType(p["target"].(string))
		if err != nil {
			return pbt.Harness(err)
		}
		var lines []string
		for _, a := range asList(p["graphql-arguments"]) {
			lines = append(lines, a.(string))
		}
		var args []sdlArg
		if lines != nil {
			if args, err = parseSDLArgs(strings.Join(lines, "\n")); err != nil {
				return pbt.Harness(err)
			}
		}
		if f.typ.String() != t.String() || !reflect.DeepEqual(f.args, args) || len(dirNames(f.dirs)) > 0 {
			return fmt.Errorf("%s: type %v with %d arguments for %s", where, f.typ, len(f.args), mustJSON(p))
		}
		return nil
	}
	t := f.typ
	item := p
	if kind == "array" {
		c.info.Label("list")
		item = p["items"].(map[string]any)
		if f.typ.list == nil {
			return fmt.Errorf("%s: type %v for an array", where, f.typ)
		}
		if want := !isNullable(p) && !(c.o.Ptr && !required); f.typ.nonNull != want {
			return fmt.Errorf("%s: type %v for %s (required: %v), list non-null expected: %v", where, f.typ, mustJSON(p), required, want)
		}
		t = f.typ.list
		if kindOf(item) == "graphql-hydration" { // a resolver fills the list
			if t.String() != item["target"].(string) || len(f.args) > 0 || len(dirNames(f.dirs)) > 0 {
				return fmt.Errorf("%s: type %v with %d arguments for a list of %s", where, f.typ, len(f.args), mustJSON(item))
			}
			c.info.Label("list of hydration")
			return nil
		}
		if len(f.args) != 2 || f.args[0].name != "filter" || f.args[0].typ.String() != "ListFilter" || f.args[1].name != "sort" || f.args[1].typ.String() != "ListSortParams" {
			return fmt.Errorf("%s: arguments of a list", where)
		}
		if ds := dirNames(f.dirs); len(ds) != 1 || ds[0] != "goField forceResolver=true" {
			return fmt.Errorf("%s: directives %v of a list", where, ds)
		}
	} else if len(f.args) > 0 || len(dirNames(f.dirs)) > 0 {
		return fmt.Errorf("%s: arguments or directives %v", where, dirNames(f.dirs))
	}
	if t.list != nil {
		return fmt.Errorf("%s: type %v for %s", where, f.typ, mustJSON(p))
	}
	kind = kindOf(item)
	target, _ := item["target"].(string)
	if target == "" {
		target, _ = p["target"].(string)
	}
	nonNull := !isNullable(item) && (required || !c.o.Ptr)
	switch {
	case target != "":
		c.info.Label("target")
		if kind == "date-time" {
			nonNull = t.nonNull // date-times may be missing, whatever the target
		}
	case kind == "date-time" || kind == "map":
		nonNull = false
	case kind != "object":
		nonNull = !isNullable(item)
	}
	if t.nonNull != nonNull {
		return fmt.Errorf("%s: type %v for %s (required: %v), non-null expected: %v", where, f.typ, mustJSON(p), required, nonNull)
	}
	if target == "" {
		target = gqlScalar[kind]
	}
	if target != "" {
		if t.name != target {
			return fmt.Errorf("%s: type %v for %s, want %s", where, f.typ, mustJSON(p), target)
		}
		return nil
	}
	d := c.defs[t.name]
	if d == nil {
		return fmt.Errorf("%s: the type %s is not defined", where, t.name)
	}
	if c.used[t.name]++; c.used[t.name] > 1 {
		return fmt.Errorf("%s: the type %s is used for two objects", where, t.name)
	}
	if want, ok := c.o.Types[sepName]; ok && t.name != want && !strings.Contains(t.name, "_") {
		return fmt.Errorf("%s: the type %s is to be named %s", where, t.name, want)
	} else if ok {
		c.info.Label("nested type renamed")
	}
	if d.kind != "type" || len(d.implements) > 0 {
		return fmt.Errorf("%s: %s is no plain type", where, t.name)
	}
	desc, _ := item["description"].(string)
	if d.hasDesc != (desc != "") || !sameText(d.desc, desc) {
		return fmt.Errorf("description %q of the type %s, want %q", d.desc, t.name, desc)
	}
	if err := c.model(d, item, true); err != nil {
		return err
	}
	return c.fields(d, item)
}

// isVirtual tells whether a property is filled by a resolver.
func isVirtual(p map[string]any) bool {
	if it, ok := p["items"].(map[string]any); ok {
		p = it
	}
	return kindOf(p) == "graphql-hydration"
}

// model checks that the Go model of a type is a generated struct with all its fields.
func (c *gqlCheck) model(d *sdlDef, n map[string]any, own bool) error {
	virtual := true
	for _, p := range n["properties"].(map[string]any) {
		if kindOf(p.(map[string]any)) != "graphql-hydration" {
			virtual = false
		}
	}
	for _, x := range d.dirs {
		if x.name != "goModel" {
			return fmt.Errorf("directive %s of %s", x.name, d.name)
		}
	}
	if virtual {
		if len(d.dirs) > 0 {
			return fmt.Errorf("%s has a model, but only fields filled by resolvers", d.name)
		}
		return nil
	}
	if len(d.dirs) != 1 {
		return fmt.Errorf("%s has no model", d.name)
	}
	m, ok := strings.CutPrefix(d.dirs[0].args["model"], "\"example.com/gen.")
	if !ok {
		return fmt.Errorf("model %v of %s", d.dirs[0].args, d.name)
	}
	if c.g == nil || !own || !c.o.Flat {
		return nil
	}
	s, err := c.g.structOf(m)
	if err != nil {
		return fmt.Errorf("the model %s of %s: %v", m, d.name, err)
	}
	c.info.Label("model checked")
	have := map[string]bool{}
	jsonNames(s, have, map[types.Type]bool{})
	for k, p := range n["properties"].(map[string]any) {
		if !isVirtual(p.(map[string]any)) && !have[k] {
			return fmt.Errorf("the model %s of %s has no field for %s", m, d.name, k)
		}
	}
	return nil
}

func jsonNames(s *types.Struct, into map[string]bool, seen map[types.Type]bool) {
	if seen[s] {
		return
	}
	seen[s] = true
	for i := 0; i < s.NumFields(); i++ {
		if f := s.Field(i); f.Embedded() {
			if e, ok := f.Type().Underlying().(*types.Struct); ok {
				jsonNames(e, into, seen)
			}
			continue
		}
		n, _, _ := strings.Cut(reflect.StructTag(s.Tag(i)).Get("json"), ",")
		into[n] = true
	}
}

func union(ss ...map[string]any) map[string]any {
	ps := map[string]any{}
	var req []any
	for _, s := range ss {
		if m, ok := s["properties"].(map[string]any); ok {
			for k, v := range m {
				ps[k] = v
			}
		}
		req = append(req, asList(s["required"])...)
	}
	return map[string]any{"properties": ps, "required": req}
}

func checkGQL(c GCase, info *pbt.Info) error {
	o := c.Opts[0]
	dir, err := scratchDir()
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	files, err := c.generated(dir, o)
	if err != nil {
		return err
	}
	k := &gqlCheck{o: o, defs: map[string]*sdlDef{}, used: map[string]int{}, info: info}
	goFiles := map[string]string{}
	text := ""
	rootName := baseName(c.Units[0].File)
	wantFiles := map[string]bool{rootName + ".graphqls": true}
	ownAllOf := false
	for _, f := range c.Units[0].OneOf {
		b := baseName(f)
		if o.Iface {
			if !strings.HasPrefix(b, rootName) {
				b = rootName + "_" + b
			}
			wantFiles[b+".graphqls"] = true
		}
		for _, a := range c.unit(f).AllOf {
			listed := false
			for _, r := range c.Units[0].AllOf {
				listed = listed || a == r
			}
			ownAllOf = ownAllOf || !listed
		}
	}
	for _, f := range sortedKeys(files) {
		if strings.HasSuffix(f, ".go") {
			goFiles[f] = files[f]
			continue
		}
		text += "--- " + f + "\n" + files[f]
		if !wantFiles[f] {
			return fmt.Errorf("unexpected file %s", f)
		}
		delete(wantFiles, f)
		if !strings.HasPrefix(files[f], "# ") || !strings.Contains(strings.SplitN(files[f], "\n", 2)[0], "DO NOT EDIT") {
			return fmt.Errorf("%s has no header", f)
		}
		defs, err := parseSDL(files[f])
		if err != nil {
			return fmt.Errorf("%s is not valid: %v\n%s", f, err, files[f])
		}
		for _, d := range defs {
			if k.defs[d.name] != nil {
				return fmt.Errorf("%s is defined twice (%s and %s)\n%s", d.name, k.defs[d.name].file, f, text)
			}
			d.file = f
			k.defs[d.name] = d
		}
	}
	if len(wantFiles) > 0 {
		return fmt.Errorf("missing files %v", sortedKeys(wantFiles))
	}
	if c.distinctTypes(o) && !(ownAllOf && o.Embed) {
		if k.g, err = checkGo(goFiles); err != nil {
			return err
		}
	}
	if err := c.checkGQLRoots(k); err != nil {
		return fmt.Errorf("%v\n%s", err, text)
	}
	for _, n := range sortedKeys(k.defs) {
		d := k.defs[n]
		if d.kind == "scalar" {
			if n != "Any" || !o.Any || d.file != rootName+".graphqls" || d.hasDesc || len(d.dirs) > 0 {
				return fmt.Errorf("scalar %s", n)
			}
			continue
		}
		if k.used[n] != 1 {
			return fmt.Errorf("the type %s is used for %d objects\n%s", n, k.used[n], text)
		}
	}
	if (k.defs["Any"] != nil) != o.Any {
		return fmt.Errorf("scalar Any: %v, option %v", k.defs["Any"] != nil, o.Any)
	}
	info.LabelIf(o.Iface, "separate files")
	info.LabelIf(o.Ptr, "pointers")
	info.LabelIf(o.Embed, "embed")
	info.Nontrivial = true
	return nil
}

// checkGQLRoots compares the types of the schema files.
func (c GCase) checkGQLRoots(k *gqlCheck) error {
	o := k.o
	root := &c.Units[0]
	name := baseName(root.File)
	top := func(what, file string, n map[string]any, names []string, kind, implements string, own bool) error {
		var d *sdlDef
		for _, x := range names {
			if k.defs[x] != nil {
				d = k.defs[x]
			}
		}
		if d == nil {
			return fmt.Errorf("no type for %s (%v)", what, names)
		}
		k.used[d.name]++
		if d.kind != kind || strings.Join(d.implements, "&") != implements {
			return fmt.Errorf("%s is a %s that implements %v, want a %s that implements %q", d.name, d.kind, d.implements, kind, implements)
		}
		if implements != "" {
			it := k.defs[implements]
			if it == nil || it.kind != "interface" {
				return fmt.Errorf("%s implements %s, which is not defined", d.name, implements)
			}
			for _, f := range it.fields {
				g := d.byName[f.name]
				if g == nil || g.typ.String() != f.typ.String() || len(g.args) != len(f.args) {
					return fmt.Errorf("%s does not repeat the field %s of %s", d.name, f.name, implements)
				}
			}
			k.info.Label("implementation")
		}
		if d.file != file {
			return fmt.Errorf("%s is in %s, want %s", d.name, d.file, file)
		}
		if err := k.model(d, n, own); err != nil {
			return err
		}
		return k.fieldsShared(d, n, implements)
	}
	named := func(file string) string {
		if n, ok := o.Types[baseName(file)]; ok {
			return n
		}
		return o.structName(file)
	}
	main := name + ".graphqls"
	var all []map[string]any
	for _, f := range root.AllOf {
		all = append(all, c.unit(f).Schema)
	}
	if root.Inline != nil {
		all = append(all, root.Inline)
	}
	hasAll := len(all) > 0
	iface := title(name)
	if n, ok := o.Types[name]; ok {
		iface = n
	}
	switch {
	case hasAll && len(root.OneOf) == 0:
		return top("the allOf entries", main, union(all...), []string{title(c.pkgName())}, "type", "", false)
	case hasAll:
		if err := top("the interface", main, union(all...), []string{iface}, "interface", "", false); err != nil {
			return err
		}
	case len(root.OneOf) == 0:
		return top("the schema", main, root.Schema, []string{named(root.File)}, "type", "", true)
	}
	for _, f := range root.OneOf {
		u := c.unit(f)
		var parts []map[string]any
		if hasAll {
			parts = append(parts, all...)
		}
		for _, a := range u.AllOf {
			parts = append(parts, c.unit(a).Schema)
		}
		parts = append(parts, u.Schema)
		file := main
		if b := baseName(f); o.Iface {
			if file = b + ".graphqls"; !strings.HasPrefix(b, name) {
				file = name + "_" + file
			}
		}
		names, impl := []string{named(f)}, ""
		if hasAll {
			impl = iface
			if o.Types[baseName(f)] == "" {
				names = []string{strings.ToLower(baseName(f))}
			}
		}
		if err := top("the oneOf entry "+f, file, union(parts...), names, "type", impl, true); err != nil {
			return err
		}
	}
	return nil
}

// fieldsShared compares a type of a schema file; types below the fields of its interface are shared with it.
func (k *gqlCheck) fieldsShared(d *sdlDef, n map[string]any, implements string) error {
	if implements == "" {
		return k.fields(d, n)
	}
	shared := map[string]bool{}
	for _, f := range k.defs[implements].fields {
		shared[f.typ.base()] = true
	}
	saved := map[string]int{}
	var reach func(t string)
	reach = func(t string) {
		if _, ok := saved[t]; ok || k.defs[t] == nil || k.used[t] == 0 {
			return
		}
		saved[t] = k.used[t]
		for _, f := range k.defs[t].fields {
			reach(f.typ.base())
		}
	}
	for t := range shared {
		reach(t)
	}
	for t := range saved {
		k.used[t] = 0
	}
	if err := k.fields(d, n); err != nil {
		return err
	}
	for t, u := range saved {
		k.used[t] = u
	}
	return nil
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "G08",
		Subs: []*pbt.Sub{
			pbt.NewSub("schema", "schemas with nested objects, lists, nullable and optional properties, hydration fields with arguments, targets, deprecations and descriptions with quotes, backslashes and line breaks, alone or with allOf, oneOf and nested allOf files, with a generated option set; the generated files are parsed by an independent parser and every type and field compared with the schema, every model with the generated Go structs; all non-trivial", 20000, 800000, genGQL, checkGQL),
		},
	})
}
