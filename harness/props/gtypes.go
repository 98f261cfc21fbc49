package props

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"reflect"
	"strings"
	"time"
)

// goPkg is a type-checked generated package.
type goPkg struct {
	fset  *token.FileSet
	files map[string]*ast.File
	pkg   *types.Package
	memo  map[types.Type]reflect.Type
}

type stubImporter struct{ time *types.Package }

func (i stubImporter) Import(p string) (*types.Package, error) {
	if p != "time" {
		return nil, fmt.Errorf("unexpected import %q", p)
	}
	return i.time, nil
}

func stubTime() *types.Package {
	p := types.NewPackage("time", "time")
	n := types.NewTypeName(token.NoPos, p, "Time", nil)
	types.NewNamed(n, types.NewStruct(nil, nil), nil)
	p.Scope().Insert(n)
	p.MarkComplete()
	return p
}

// checkGo parses, compares the formatting of and type-checks the Go files.
func checkGo(files map[string]string) (*goPkg, error) {
	g := &goPkg{fset: token.NewFileSet(), files: map[string]*ast.File{}, memo: map[types.Type]reflect.Type{}}
	var list []*ast.File
	for _, f := range sortedKeys(files) {
		if !strings.HasSuffix(f, ".go") {
			continue
		}
		src := files[f]
		a, err := parser.ParseFile(g.fset, f, src, parser.ParseComments)
		if err != nil {
			return nil, fmt.Errorf("generated file does not parse: %v\n%s", err, src)
		}
		fm, err := format.Source([]byte(src))
		if err != nil {
			return nil, fmt.Errorf("generated file %s cannot be formatted: %v\n%s", f, err, src)
		}
		if string(fm) != src {
			return nil, fmt.Errorf("generated file %s is not formatted:\n%s", f, src)
		}
		g.files[f] = a
		list = append(list, a)
	}
	cfg := types.Config{Importer: stubImporter{stubTime()}}
	pkg, err := cfg.Check("example.com/gen", g.fset, list, nil)
	if err != nil {
		var all strings.Builder
		for _, f := range sortedKeys(files) {
			fmt.Fprintf(&all, "\n// %s\n%s", f, files[f])
		}
		return nil, fmt.Errorf("generated package does not compile: %v%s", err, all.String())
	}
	g.pkg = pkg
	return g, nil
}

func isTime(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

// reflectType builds the type with reflection.
func (g *goPkg) reflectType(t types.Type) (reflect.Type, error) {
	if r, ok := g.memo[t]; ok {
		return r, nil
	}
	r, err := g.reflectType1(t)
	if err == nil {
		g.memo[t] = r
	}
	return r, err
}

func (g *goPkg) reflectType1(t types.Type) (reflect.Type, error) {
	if isTime(t) {
		return reflect.TypeOf(time.Time{}), nil
	}
	switch x := t.(type) {
	case *types.Named:
		return g.reflectType(x.Underlying())
	case *types.Alias:
		return g.reflectType(types.Unalias(x))
	case *types.Basic:
		switch x.Kind() {
		case types.String:
			return reflect.TypeOf(""), nil
		case types.Int64:
			return reflect.TypeOf(int64(0)), nil
		case types.Float64:
			return reflect.TypeOf(float64(0)), nil
		case types.Bool:
			return reflect.TypeOf(false), nil
		}
	case *types.Pointer:
		e, err := g.reflectType(x.Elem())
		if err != nil {
			return nil, err
		}
		return reflect.PointerTo(e), nil
	case *types.Slice:
		e, err := g.reflectType(x.Elem())
		if err != nil {
			return nil, err
		}
		return reflect.SliceOf(e), nil
	case *types.Map:
		k, err := g.reflectType(x.Key())
		if err != nil {
			return nil, err
		}
		e, err := g.reflectType(x.Elem())
		if err != nil {
			return nil, err
		}
		return reflect.MapOf(k, e), nil
	case *types.Struct:
		var fs []reflect.StructField
		for i := 0; i < x.NumFields(); i++ {
			f := x.Field(i)
			if !f.Exported() {
				return nil, fmt.Errorf("field %s is not exported", f.Name())
			}
			ft, err := g.reflectType(f.Type())
			if err != nil {
				return nil, err
			}
			fs = append(fs, reflect.StructField{Name: f.Name(), Type: ft, Tag: reflect.StructTag(x.Tag(i)), Anonymous: f.Embedded()})
		}
		return reflect.StructOf(fs), nil
	}
	return nil, fmt.Errorf("unexpected type %v", t)
}

// structOf is the struct type of that name.
func (g *goPkg) structOf(name string) (*types.Struct, error) {
	o := g.pkg.Scope().Lookup(name)
	if o == nil {
		return nil, fmt.Errorf("there is no type %s", name)
	}
	s, ok := o.Type().Underlying().(*types.Struct)
	if !ok {
		return nil, fmt.Errorf("%s is no struct", name)
	}
	return s, nil
}

// codec decodes and encodes documents with a generated struct.
func (g *goPkg) codec(name string) (func(doc []byte) ([]byte, error), error) {
	s, err := g.structOf(name)
	if err != nil {
		return nil, err
	}
	rt, err := g.reflectType(s)
	if err != nil {
		return nil, err
	}
	return func(doc []byte) ([]byte, error) {
		v := reflect.New(rt)
		if err := json.Unmarshal(doc, v.Interface()); err != nil {
			return nil, err
		}
		return json.Marshal(v.Interface())
	}, nil
}

// fieldComments are the comments of the fields of the struct types of all files, by type name (nested structs: the path
// of field names) and field.
func (g *goPkg) fieldComments() map[string]string {
	out := map[string]string{}
	var visit func(prefix string, e ast.Expr)
	visit = func(prefix string, e ast.Expr) {
		switch x := e.(type) {
		case *ast.StarExpr:
			visit(prefix, x.X)
		case *ast.ArrayType:
			visit(prefix, x.Elt)
		case *ast.StructType:
			for _, f := range x.Fields.List {
				for _, n := range f.Names {
					p := prefix + "." + n.Name
					if f.Doc != nil {
						var ls []string
						for _, c := range f.Doc.List {
							ls = append(ls, strings.TrimPrefix(c.Text, "//"))
						}
						out[p] = strings.Join(ls, "\n")
					}
					if f.Comment != nil {
						out[p] += "\n" + f.Comment.Text()
					}
					visit(p, f.Type)
				}
			}
		}
	}
	for _, f := range g.files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, s := range gd.Specs {
				if ts, ok := s.(*ast.TypeSpec); ok {
					visit(ts.Name.Name, ts.Type)
				}
			}
		}
	}
	return out
}
