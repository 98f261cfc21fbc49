package props

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// splitter moves subschemas of a schema to definitions and other files and leaves references behind.
type splitter struct {
	t     *rapid.T
	p     int // percent of the subschemas that are moved
	n     int
	files map[string]map[string]any
	refs  int
	kinds []string // allowed: local, file, def, dir
	edges map[string]map[string]bool
}

// reaches reports whether file from refers (indirectly) to file to. Files that refer to each other in a circle are not
// supported.
func (s *splitter) reaches(from, to string) bool {
	if from == to {
		return true
	}
	for k := range s.edges[from] {
		if s.reaches(k, to) {
			return true
		}
	}
	return false
}

func (s *splitter) edge(from, to string) {
	if s.edges == nil {
		s.edges = map[string]map[string]bool{}
	}
	if s.edges[from] == nil {
		s.edges[from] = map[string]bool{}
	}
	s.edges[from][to] = true
}

func relRef(from, to string) string {
	r, err := filepath.Rel(filepath.Dir(from), to)
	if err != nil {
		panic(err)
	}
	return r
}

func (s *splitter) def(file, name string, v any) {
	f := s.files[file]
	if f == nil {
		f = map[string]any{"type": "object", "properties": map[string]any{}}
		s.files[file] = f
	}
	d, _ := f["definitions"].(map[string]any)
	if d == nil {
		d = map[string]any{}
		f["definitions"] = d
	}
	d[name] = v
}

// move decides whether the subschema living in file is moved.
func (s *splitter) move(file string, n map[string]any) any {
	if !pct(s.t, s.p, "move") {
		s.children(file, n)
		return n
	}
	s.refs++
	s.n++
	name := fmt.Sprintf("d%d", s.n)
	k := pick(s.t, "moveKind", s.kinds)
	if k == "def" && file != "defs.json" && s.reaches("defs.json", file) {
		k = "local"
	}
	switch k {
	case "local":
		s.children(file, n)
		s.def(file, name, n)
		return map[string]any{"$ref": "#/definitions/" + name}
	case "def":
		if file != "defs.json" {
			s.edge(file, "defs.json")
		}
		s.children("defs.json", n)
		s.def("defs.json", name, n)
		if file == "defs.json" {
			return map[string]any{"$ref": "#/definitions/" + name}
		}
		return map[string]any{"$ref": relRef(file, "defs.json") + "#/definitions/" + name}
	default:
		path := name + ".json"
		if k == "dir" {
			path = pick(s.t, "dir", []string{"sub/", "sub/deep/", "other/"}) + path
		}
		s.files[path] = n
		s.edge(file, path)
		s.children(path, n)
		return map[string]any{"$ref": relRef(file, path)}
	}
}

func (s *splitter) children(file string, n map[string]any) {
	if ps, ok := n["properties"].(map[string]any); ok {
		for _, k := range sortedKeys(ps) {
			if c, ok := ps[k].(map[string]any); ok {
				ps[k] = s.move(file, c)
			}
		}
	}
	if c, ok := n["items"].(map[string]any); ok {
		n["items"] = s.move(file, c)
	}
}

// writeFiles writes the files below dir.
func writeFiles(dir string, files map[string]string) error {
	for p, c := range files {
		f := filepath.Join(dir, p)
		if !strings.HasPrefix(f, dir) {
			return pbt.Harnessf("path %q leaves the directory", p)
		}
		if err := os.MkdirAll(filepath.Dir(f), 0o755); err != nil {
			return pbt.Harness(err)
		}
		if err := os.WriteFile(f, []byte(c), 0o644); err != nil {
			return pbt.Harness(err)
		}
	}
	return nil
}

func filesText(files map[string]map[string]any) map[string]string {
	out := map[string]string{}
	for p, c := range files {
		out[p] = mustJSON(c)
	}
	return out
}
