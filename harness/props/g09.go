package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"pgregory.net/rapid"

	"github.com/GannettDigital/jstransform/generate"

	"verif/harness/pbt"
)

// CLIFlag is one flag as written on the command line.
type CLIFlag struct {
	Name  string `json:"name"`
	Value string `json:"value"`
	Form  int    `json:"form"` // 0: -name=value, 1: --name=value, 2: -name value, 3: --name value; 4, 5: -name and --name (boolean flags)
}

// CLICase is one call of the command.
type CLICase struct {
	Files  map[string]string `json:"files"`
	Root   string            `json:"root"` // the schema argument, "" for none
	Abs    bool              `json:"abs"`  // schema argument as absolute path
	Out    string            `json:"out"`  // the output directory argument relative to the working directory, "" for none
	OutAbs bool              `json:"outAbs"`
	Flags  []CLIFlag         `json:"flags"`
	Dashes bool              `json:"dashes"` // -- before the arguments
	Empty  bool              `json:"empty"`  // schema argument missing but an output directory flag given
}

var boolFlags = []string{"interfaceFiles", "nestedStructs", "pointers", "descriptionAsStructTag", "embedAllOf", "avro", "msgp", "graphql", "scalarAny"}
var flagWords = map[string]bool{"true": true, "false": false, "1": true, "0": false, "t": true, "F": false, "TRUE": true, "False": false}

func isBoolFlag(n string) bool {
	for _, b := range boolFlags {
		if b == n {
			return true
		}
	}
	return false
}

func genCLI(t *rapid.T) CLICase {
	cfg := defaultG
	cfg.docs, cfg.maxProps, cfg.depth = 0, 4, 2
	avro, gql := rare(t, 12, "avro"), pct(t, 35, "graphql")
	if avro {
		cfg.renames, cfg.hydrate, cfg.maps, cfg.nullP, cfg.nullArr = false, false, false, 0, false
	}
	g := genG(cfg)(t)
	if rare(t, 20, "broken") {
		genBroken(t, &g)
	}
	o := g.Opts[0]
	c := CLICase{Files: g.Files, Root: g.Units[0].File, Abs: rapid.Bool().Draw(t, "abs"), Out: pick(t, "out", []string{"", "out", "out", "sub/dir", "../beside", "missing", "."}), OutAbs: rapid.Bool().Draw(t, "outAbs"), Dashes: pct(t, 10, "dashes")}
	if rare(t, 24, "noArgs") {
		c.Root, c.Out = "", ""
	}
	add := func(n, v string) {
		c.Flags = append(c.Flags, CLIFlag{Name: n, Value: v, Form: rapid.IntRange(0, 3).Draw(t, "form")})
	}
	flag := func(n string, v bool) {
		f := CLIFlag{Name: n, Form: rapid.IntRange(0, 1).Draw(t, "form")}
		if v && rapid.Bool().Draw(t, "short") {
			f.Form += 4
			c.Flags = append(c.Flags, f)
			return
		}
		for {
			f.Value = pick(t, "word", sortedKeys(flagWords))
			if flagWords[f.Value] == v {
				break
			}
		}
		c.Flags = append(c.Flags, f)
	}
	maybe := func(n string, v bool) {
		if rare(t, 12, "twice") {
			flag(n, !v)
			flag(n, v)
		} else if rapid.Bool().Draw(t, "given") {
			flag(n, v)
		}
	}
	maybe("nestedStructs", !o.Flat)
	maybe("pointers", o.Ptr)
	maybe("descriptionAsStructTag", o.DescTag)
	maybe("embedAllOf", o.Embed)
	maybe("scalarAny", rapid.Bool().Draw(t, "any"))
	maybe("interfaceFiles", rapid.Bool().Draw(t, "iface"))
	if gql {
		flag("graphql", true)
	}
	if avro {
		flag("avro", true)
	}
	if rare(t, 8, "msgp") {
		flag("msgp", true)
	}
	if (gql || avro) && !rare(t, 20, "noPath") || pct(t, 10, "extraPath") {
		add("importPath", pick(t, "importPath", []string{"example.com/gen", "a/b", "example.com/x_y/z"}))
	}
	if pct(t, 30, "gqlOut") {
		add("outputPathGraphQL", pick(t, "gqlDir", []string{"out", "gql", "../beside", "missing", "."}))
	}
	for _, m := range []struct {
		flag string
		kv   map[string]string
	}{{"rename", o.Structs}, {"renameFields", o.Fields}, {"renameGraphQLType", map[string]string{baseName(g.Units[len(g.Units)-1].File): "GType", "article": "GArticle"}}} {
		var pending []string
		for _, k := range sortedKeys(m.kv) {
			pending = append(pending, k+"="+m.kv[k])
			if rapid.Bool().Draw(t, "flush") {
				add(m.flag, strings.Join(pending, ","))
				pending = nil
			}
		}
		if pending != nil {
			add(m.flag, strings.Join(pending, ","))
		}
	}
	if rare(t, 20, "bad") {
		c.Flags = append(c.Flags, pick(t, "badFlag", []CLIFlag{{Name: "rename", Value: "nopair"}, {Name: "renameFields", Value: "a=b,c"}, {Name: "unknown", Value: "1"}, {Name: "pointers", Value: "maybe"}, {Name: "renameGraphQLType", Value: ""}, {Name: "Pointers", Value: "true"}}))
	}
	c.Flags = rapid.Permutation(c.Flags).Draw(t, "order")
	return c
}

// args gives the arguments of the library for the flags; ok is false if the command has to refuse them.
func (c CLICase) args() (a generate.BuildArgs, ok bool) {
	a = generate.BuildArgs{DescriptionAsStructTag: true, EmbedAllOf: true, StructNameMap: map[string]string{}, FieldNameMap: map[string]string{}, GraphQLTypeNameMap: map[string]string{}}
	for _, f := range c.Flags {
		if isBoolFlag(f.Name) {
			v, known := true, true
			if f.Form < 4 {
				v, known = flagWords[f.Value], false
				if _, k := flagWords[f.Value]; k {
					known = true
				}
			}
			if !known {
				return a, false
			}
			switch f.Name {
			case "interfaceFiles":
				a.InterfaceFiles = v
			case "nestedStructs":
				a.NoNestedStructs = !v
			case "pointers":
				a.Pointers = v
			case "descriptionAsStructTag":
				a.DescriptionAsStructTag = v
			case "embedAllOf":
				a.EmbedAllOf = v
			case "avro":
				a.GenerateAvro = v
			case "msgp":
				a.GenerateMessagePack = v
			case "graphql":
				a.GenerateGraphQL = v
			case "scalarAny":
				a.ScalarAny = v
			}
			continue
		}
		var m map[string]string
		switch f.Name {
		case "importPath":
			a.ImportPath = f.Value
			continue
		case "outputPathGraphQL":
			a.OutputDirGraphQL = f.Value
			continue
		case "rename":
			m = a.StructNameMap
		case "renameFields":
			m = a.FieldNameMap
		case "renameGraphQLType":
			m = a.GraphQLTypeNameMap
		default:
			return a, false
		}
		for _, p := range strings.Split(f.Value, ",") {
			k, v, ok := strings.Cut(p, "=")
			if !ok {
				return a, false
			}
			m[k] = v
		}
	}
	if c.Root == "" || (a.GenerateAvro || a.GenerateGraphQL) && a.ImportPath == "" {
		return a, false
	}
	return a, true
}

func (c CLICase) tree(top string) (work string, err error) {
	work = filepath.Join(top, "work")
	for _, d := range []string{"out", "sub/dir", "gql", "../beside"} {
		if err := os.MkdirAll(filepath.Join(work, d), 0o755); err != nil {
			return "", pbt.Harness(err)
		}
	}
	return work, writeFiles(filepath.Join(top, "schemas"), c.Files)
}

// inDir runs f with a working directory.
func inDir(dir string, f func() error) error {
	wd, err := os.Getwd()
	if err != nil {
		return pbt.Harness(err)
	}
	if err := os.Chdir(dir); err != nil {
		return pbt.Harness(err)
	}
	defer os.Chdir(wd)
	return f()
}

func diffTrees(a, b map[string]string, an, bn string) error {
	for _, f := range sortedKeys(a) {
		s, ok := b[f]
		if !ok {
			return fmt.Errorf("%s is written by %s only", f, an)
		}
		if s != a[f] {
			return fmt.Errorf("%s differs between %s and %s:\n%s\n-----\n%s", f, an, bn, a[f], s)
		}
	}
	for _, f := range sortedKeys(b) {
		if _, ok := a[f]; !ok {
			return fmt.Errorf("%s is written by %s only", f, bn)
		}
	}
	return nil
}

func checkCLI(c CLICase, info *pbt.Info) error {
	top, err := scratchDir()
	if err != nil {
		return err
	}
	defer os.RemoveAll(top)
	cli, lib := filepath.Join(top, "1"), filepath.Join(top, "2")
	work, err := c.tree(cli)
	if err != nil {
		return err
	}
	libWork, err := c.tree(lib)
	if err != nil {
		return err
	}
	before, err := readTree(cli)
	if err != nil {
		return err
	}
	var argv []string
	for _, f := range c.Flags {
		d := "-"
		if f.Form%2 == 1 {
			d = "--"
		}
		switch f.Form / 2 {
		case 0:
			argv = append(argv, d+f.Name+"="+f.Value)
		case 1:
			argv = append(argv, d+f.Name, f.Value)
		default:
			argv = append(argv, d+f.Name)
		}
	}
	if c.Dashes {
		argv = append(argv, "--")
	}
	if c.Root != "" {
		p := filepath.Join("..", "schemas", c.Root)
		if c.Abs {
			p = filepath.Join(cli, "schemas", c.Root)
		}
		argv = append(argv, p)
		if c.Out != "" {
			p := c.Out
			if c.OutAbs {
				p = filepath.Join(work, c.Out)
			}
			argv = append(argv, p)
		}
	}
	a, ok := c.args()
	var want map[string]string
	var libErr error
	if ok {
		a.SchemaPath = filepath.Join(lib, "schemas", c.Root)
		a.OutputDir = filepath.Join(libWork, c.Out)
		if a.OutputDirGraphQL != "" {
			a.OutputDirGraphQL = filepath.Join(libWork, a.OutputDirGraphQL)
		}
		if libErr = inDir(libWork, func() error { return generate.BuildStructsWithArgs(a) }); libErr == nil {
			if want, err = readTree(lib); err != nil {
				return err
			}
		}
		if pbt.IsHarness(libErr) {
			return libErr
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(os.Getenv("VERIF_SCRATCH"), "jstransform"), argv...)
	cmd.Dir = work
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &eb
	err = cmd.Run()
	if ctx.Err() != nil {
		return fmt.Errorf("jstransform %q does not end", argv)
	}
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		return pbt.Harness(err)
	}
	code := cmd.ProcessState.ExitCode()
	text := ob.String() + eb.String()
	if strings.Contains(text, "goroutine ") && strings.Contains(text, "panic: ") || code < 0 {
		return fmt.Errorf("jstransform %q crashes: %s", argv, text)
	}
	got, err := readTree(cli)
	if err != nil {
		return err
	}
	switch {
	case !ok || libErr != nil:
		info.LabelIf(!ok, "refused")
		info.LabelIf(ok, "failed generation")
		info.Nontrivial = true
		if code == 0 {
			return fmt.Errorf("jstransform %q exits zero (the library says: %v)", argv, libErr)
		}
		if strings.TrimSpace(text) == "" {
			return fmt.Errorf("jstransform %q exits with %d and no message", argv, code)
		}
		if !ok {
			return diffTrees(before, got, "nobody", "the command")
		}
		return nil
	case code != 0:
		return fmt.Errorf("jstransform %q exits with %d, the library has no error: %s", argv, code, text)
	}
	info.Label("generated")
	info.LabelIf(a.GenerateAvro, "avro")
	info.LabelIf(a.GenerateMessagePack, "msgp")
	info.LabelIf(a.GenerateGraphQL, "graphql")
	info.LabelIf(c.Out == "", "default output directory")
	info.Nontrivial = len(c.Flags) > 1
	return diffTrees(want, got, "the library", "the command")
}

// EntryCase is a call of one of the convenience functions.
type EntryCase struct {
	Files   map[string]string `json:"files"`
	Root    string            `json:"root"`
	Structs map[string]string `json:"structs,omitempty"`
	Rename  bool              `json:"rename"` // BuildStructsRename
	Msgp    bool              `json:"msgp"`
	Rel     bool              `json:"rel"` // relative paths
	Out     string            `json:"out"`
}

func genEntry(t *rapid.T) EntryCase {
	cfg := defaultG
	cfg.docs, cfg.maxProps, cfg.depth, cfg.renames = 0, 4, 2, false
	g := genG(cfg)(t)
	if rare(t, 20, "broken") {
		genBroken(t, &g)
	}
	c := EntryCase{Files: g.Files, Root: g.Units[0].File, Structs: g.Opts[0].Structs, Rename: rapid.Bool().Draw(t, "rename"), Msgp: rare(t, 6, "msgp"), Rel: rapid.Bool().Draw(t, "rel"),
		Out: pick(t, "out", []string{"", "out", "sub/dir", "../beside", ".", "out/", "./out", "sub/../out", "missing"})}
	if c.Rename && rapid.Bool().Draw(t, "more") {
		c.Structs = map[string]string{baseName(g.Units[len(g.Units)-1].File): "Other"}
	}
	return c
}

func checkEntry(c EntryCase, info *pbt.Info) error {
	top, err := scratchDir()
	if err != nil {
		return err
	}
	defer os.RemoveAll(top)
	run := func(name string, f func(schema, out string) error, rel bool) (map[string]string, error, error) {
		work, err := CLICase{Files: c.Files}.tree(filepath.Join(top, name))
		if err != nil {
			return nil, nil, err
		}
		schema, out := filepath.Join(top, name, "schemas", c.Root), c.Out
		if rel {
			schema = filepath.Join("..", "schemas", c.Root)
		} else if out != "" || name == "2" {
			out = filepath.Join(work, out)
		}
		genErr := inDir(work, func() error { return f(schema, out) })
		if pbt.IsHarness(genErr) {
			return nil, nil, genErr
		}
		files, err := readTree(filepath.Join(top, name))
		return files, genErr, err
	}
	got, gotErr, err := run("1", func(schema, out string) error {
		if c.Rename {
			return generate.BuildStructsRename(schema, out, c.Msgp, c.Structs)
		}
		return generate.BuildStructs(schema, out, c.Msgp)
	}, c.Rel)
	if err != nil {
		return err
	}
	want, wantErr, err := run("2", func(schema, out string) error {
		a := generate.BuildArgs{SchemaPath: schema, OutputDir: out, GenerateMessagePack: c.Msgp, DescriptionAsStructTag: true}
		if c.Rename {
			a.StructNameMap = c.Structs
		}
		return generate.BuildStructsWithArgs(a)
	}, false)
	if err != nil {
		return err
	}
	if (gotErr == nil) != (wantErr == nil) {
		return fmt.Errorf("the convenience function gives the error %v, BuildStructsWithArgs with absolute paths gives %v", gotErr, wantErr)
	}
	if gotErr != nil {
		info.Label("failed generation")
		return nil
	}
	info.Nontrivial = true
	info.LabelIf(c.Rename, "rename")
	info.LabelIf(c.Rel, "relative paths")
	return diffTrees(want, got, "BuildStructsWithArgs", "the convenience function")
}

func init() {
	pbt.Register(&pbt.Property{
		ID:    "G09",
		Tools: map[string]string{"jstransform": "github.com/GannettDigital/jstransform"},
		Subs: []*pbt.Sub{
			pbt.NewSub("command", "a set of schema files (some broken), flags in generated spellings, order and repetition, relative, absolute and missing arguments, run with the command built from the working tree and, in a second copy of the directories, with the library; same files, exit code zero exactly for success, a message for every failure and no files if flags are refused; non-trivial: at least two flags, or a failure", 2500, 60000, genCLI, checkCLI),
			pbt.NewSub("functions", "BuildStructs and BuildStructsRename with absolute, relative and empty paths against BuildStructsWithArgs with absolute ones: same files, same success; non-trivial: the generation succeeds", 2500, 60000, genEntry, checkEntry),
		},
	})
}
