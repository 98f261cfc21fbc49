package props

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"reflect"
	"strings"

	"verif/harness/pbt"
)

// tableCheck compares generated structs with the schema.
type tableCheck struct {
	g        *goPkg
	o        GOpts
	comments map[string]string
	used     map[string]int  // separate types in use
	clash    map[string]bool // joined type names more than one object has
	info     *pbt.Info
}

func (c *tableCheck) goName(prop string) string {
	if r, ok := c.o.Fields[prop]; ok {
		prop = r
	}
	return title(prop)
}

func isNullable(n map[string]any) bool { return typesOf(n)["null"] }

func mainType(n map[string]any) string {
	for k := range typesOf(n) {
		if k != "null" {
			return k
		}
	}
	return "null"
}

func kindOf(n map[string]any) string {
	ts := typesOf(n)
	for _, k := range []string{"string", "integer", "number", "boolean", "object", "array", "graphql-hydration"} {
		if ts[k] {
			switch {
			case k == "string" && n["format"] == "date-time":
				return "date-time"
			case k == "object":
				if ps, _ := n["properties"].(map[string]any); len(ps) == 0 {
					return "map"
				}
			}
			return k
		}
	}
	return ""
}

// lineWords is a text with the space within its lines, and around it, normalized: gofmt changes comments that way.
// Characters that Go source code cannot hold are left out.
func lineWords(s string) string {
	ls := strings.Split(goText(s), "\n")
	for i, l := range ls {
		ls[i] = strings.Join(strings.Fields(l), " ")
	}
	return strings.Trim(strings.Join(ls, "\n"), "\n")
}

// goText is a text without the characters which no Go source may hold, so that neither may comments made of it.
func goText(s string) string {
	return strings.NewReplacer("\x00", "", "\ufeff", "").Replace(s)
}

// typ checks that t is the type of a property; path is where comments of nested structs are found.
func (c *tableCheck) typ(n map[string]any, t types.Type, required bool, path, sepName string) error {
	kind := kindOf(n)
	if kind == "array" {
		s, ok := t.(*types.Slice)
		if !ok {
			return fmt.Errorf("%s: type %v for an array", path, t)
		}
		items := n["items"].(map[string]any)
		if _, isPtr := s.Elem().(*types.Pointer); isPtr && isNullable(n) && !isNullable(items) {
			items = copyJSON(items).(map[string]any) // items of a nullable list may be pointers, or not
			items["type"] = []any{"null", mainType(items)}
		}
		return c.typ(items, s.Elem(), required, path, sepName)
	}
	ptr := isNullable(n)
	if c.o.Ptr && !required && (kind == "date-time" || kind == "object" && c.o.Flat) {
		ptr = true
	}
	p, isPtr := t.(*types.Pointer)
	if isPtr != ptr {
		return fmt.Errorf("%s: type %v for %s, pointer expected: %v", path, t, mustJSON(n), ptr)
	}
	if isPtr {
		t = p.Elem()
		c.info.Label("pointer")
	}
	want := map[string]string{"string": "string", "integer": "int64", "number": "float64", "boolean": "bool", "map": "map[string]string"}[kind]
	switch {
	case want != "":
		if t.String() != want {
			return fmt.Errorf("%s: type %v for %s, want %s", path, t, mustJSON(n), want)
		}
	case kind == "date-time":
		if !isTime(t) {
			return fmt.Errorf("%s: type %v for a date-time", path, t)
		}
	case kind == "object":
		if c.o.Flat {
			nm, ok := t.(*types.Named)
			if !ok {
				return fmt.Errorf("%s: type %v for an object, want a type of its own", path, t)
			}
			name := nm.Obj().Name()
			if token.IsIdentifier(sepName) && name != sepName && !c.clash[sepName] {
				return fmt.Errorf("%s: type %s, want %s", path, name, sepName)
			}
			c.used[name]++
			if c.used[name] > 1 {
				return fmt.Errorf("%s: type %s is used for two objects", path, name)
			}
			path = name
		} else if _, ok := t.(*types.Struct); !ok {
			return fmt.Errorf("%s: type %v for an object, want a struct", path, t)
		}
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return fmt.Errorf("%s: type %v for an object", path, t)
		}
		return c.fields(n, s, nil, path, sepName)
	}
	return nil
}

// fields checks the fields of a struct.
func (c *tableCheck) fields(n map[string]any, s *types.Struct, embeds []string, path, sepName string) error {
	ps := n["properties"].(map[string]any)
	req := map[string]bool{}
	for _, r := range asList(n["required"]) {
		req[r.(string)] = true
	}
	want := map[string]string{} // Go name -> property
	for k, p := range ps {
		if kindOf(p.(map[string]any)) != "graphql-hydration" {
			want[c.goName(k)] = k
		} else {
			c.info.Label("hydration")
		}
	}
	emb := map[string]bool{}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		fp := path + "." + f.Name()
		if f.Embedded() {
			if s.Tag(i) != "" {
				return fmt.Errorf("%s: embedded with the tag %s", fp, s.Tag(i))
			}
			if _, ok := f.Type().(*types.Named); !ok {
				return fmt.Errorf("%s: embedded as %v", fp, f.Type())
			}
			emb[f.Name()] = true
			continue
		}
		k, ok := want[f.Name()]
		if !ok {
			return fmt.Errorf("%s is a field of no property", fp)
		}
		delete(want, f.Name())
		p := ps[k].(map[string]any)
		if err := c.typ(p, f.Type(), req[k], fp, sepName+title(k)); err != nil {
			return err
		}
		name, opt, _ := strings.Cut(reflect.StructTag(s.Tag(i)).Get("json"), ",")
		if name != k {
			return fmt.Errorf("%s: JSON name %q, want %q (tag %s)", fp, name, k, s.Tag(i))
		}
		if tag := reflect.StructTag(s.Tag(i)).Get("json"); tag == "-" {
			return fmt.Errorf("%s: the tag %s leaves the field out", fp, s.Tag(i))
		} else if tag == "-," {
			opt = ""
		}
		if omit := opt == "omitempty" || opt == "omitzero"; omit == req[k] || !omit && opt != "" {
			return fmt.Errorf("%s: JSON option %q, required is %v", fp, opt, req[k])
		}
		desc, _ := p["description"].(string)
		tag, hasTag := reflect.StructTag(s.Tag(i)).Lookup("description")
		com, hasCom := c.comments[fp]
		first := strings.Split(desc, "\n")[0]
		switch {
		case c.o.DescTag && hasCom:
			return fmt.Errorf("%s has the comment %q", fp, com)
		case c.o.DescTag && tag != first:
			return fmt.Errorf("%s: description tag %q, want %q (tag %s)", fp, tag, first, s.Tag(i))
		case !c.o.DescTag && hasTag:
			return fmt.Errorf("%s has the description tag %q", fp, tag)
		case !c.o.DescTag && lineWords(com) != lineWords(desc):
			return fmt.Errorf("%s: comment %q, want %q", fp, com, desc)
		}
		c.info.LabelIf(desc != "", "description")
	}
	if len(want) > 0 {
		return fmt.Errorf("%s has no field for %v", path, want)
	}
	for _, e := range embeds {
		if !emb[e] {
			return fmt.Errorf("%s does not embed %s", path, e)
		}
		delete(emb, e)
	}
	if len(emb) > 0 {
		return fmt.Errorf("%s embeds %v, which is none of its entries", path, emb)
	}
	return nil
}

// joinedNames finds the joined names that more than one object has.
func joinedNames(prefix string, n map[string]any, seen, clash map[string]bool) {
	ps, _ := n["properties"].(map[string]any)
	for _, k := range sortedKeys(ps) {
		p := ps[k].(map[string]any)
		if it, ok := p["items"].(map[string]any); ok {
			p = it
		}
		if kindOf(p) != "object" {
			continue
		}
		name := prefix + title(k)
		clash[name] = clash[name] || seen[name]
		if !clash[name] {
			delete(clash, name)
		}
		seen[name] = true
		joinedNames(name, p, seen, clash)
	}
}

// structName is the Go type of a unit.
func (o GOpts) structName(file string) string {
	b := baseName(file)
	if r, ok := o.Structs[b]; ok {
		b = r
	}
	return title(b)
}

// own is what the struct of a unit declares itself, and the types it embeds.
func (c GCase) own(u *GUnit, o GOpts) (map[string]any, []string) {
	ps := map[string]any{}
	var req []any
	add := func(s map[string]any) {
		if m, ok := s["properties"].(map[string]any); ok {
			for k, v := range m {
				if _, ok := ps[k]; !ok {
					ps[k] = v
				}
			}
		}
		req = append(req, asList(s["required"])...)
	}
	add(u.Schema)
	emb := map[string]bool{}
	for _, f := range u.AllOf {
		if o.Embed {
			emb[o.structName(f)] = true
		}
		if !o.Embed || !u.hasProps() {
			add(c.unit(f).Schema)
		}
	}
	if u.Inline != nil {
		add(u.Inline)
	}
	root := &c.Units[0]
	for _, f := range root.OneOf {
		if f != u.File {
			continue
		}
		if root.hasProps() {
			emb[o.structName(root.File)] = true
		}
		if !root.hasProps() || o.Embed { // otherwise the root has their fields
			for _, a := range root.AllOf {
				emb[o.structName(a)] = true
			}
		}
	}
	return map[string]any{"properties": ps, "required": req}, sortedKeys(emb)
}

func checkTable(c GCase, info *pbt.Info) error {
	dir, err := scratchDir()
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	o := c.Opts[0]
	files, err := c.generated(dir, o)
	if err != nil {
		return err
	}
	wantFiles := map[string]bool{}
	for _, u := range c.built() {
		wantFiles[baseName(u.File)+".go"] = true
	}
	for f := range files {
		if !wantFiles[f] {
			return fmt.Errorf("unexpected file %s", f)
		}
		delete(wantFiles, f)
	}
	if len(wantFiles) > 0 {
		return fmt.Errorf("missing files %v", wantFiles)
	}
	g, err := checkGo(files)
	if err != nil {
		return err
	}
	t := &tableCheck{g: g, o: o, comments: g.fieldComments(), used: map[string]int{}, info: info}
	for _, u := range c.built() {
		name := o.structName(u.File)
		s, err := g.structOf(name)
		if err != nil {
			return err
		}
		if g.pkg.Name() != c.pkgName() {
			return fmt.Errorf("package name %s", g.pkg.Name())
		}
		t.used[name]++
		own, embeds := c.own(u, o)
		t.clash = map[string]bool{}
		joinedNames(name, own, map[string]bool{}, t.clash)
		info.LabelIf(o.Flat && len(t.clash) > 0, "joined names clash")
		if err := t.fields(own, s, embeds, name, name); err != nil {
			return fmt.Errorf("%v\n%s", err, files[baseName(u.File)+".go"])
		}
		// the type is declared in the file of the unit
		if pos := g.fset.Position(g.pkg.Scope().Lookup(name).Pos()); pos.Filename != baseName(u.File)+".go" {
			return fmt.Errorf("%s is declared in %s", name, pos.Filename)
		}
		info.LabelIf(len(embeds) > 0, "embeds")
	}
	for _, n := range g.pkg.Scope().Names() {
		if t.used[n] != 1 {
			return fmt.Errorf("%s is declared and used for %d objects", n, t.used[n])
		}
	}
	info.LabelIf(o.Flat, "separate types")
	info.LabelIf(o.Ptr, "pointers")
	info.LabelIf(len(c.Files) > len(c.Units), "references")
	info.Nontrivial = true
	return nil
}

func init() {
	cfg := defaultG
	cfg.docs = 0
	pbt.Register(&pbt.Property{
		ID: "G02",
		Subs: []*pbt.Sub{
			pbt.NewSub("table", "schemas with properties of every type (nested objects, arrays, date-times, free-form objects, nullable types, hydration fields, odd names with renames, descriptions with quotes and line breaks), alone or with allOf and oneOf files, and a generated option set; the generated package is type-checked and every field compared with the table the schema gives; all non-trivial", 40000, 1500000, genG(cfg), checkTable),
		},
	})
}
