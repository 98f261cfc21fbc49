package props

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"pgregory.net/rapid"

	"github.com/GannettDigital/jstransform/generate"

	"verif/harness/gendrv"
	"verif/harness/pbt"
)

// GPkg is a package to generate, compile and exercise.
type GPkg struct {
	GCase
	Bytes [][]byte       `json:"bytes,omitempty"`
	Flips []gendrv.Flip  `json:"flips,omitempty"`
	Hist  []gendrv.Write `json:"hist,omitempty"`
	Known bool           `json:"known,omitempty"` // a known finding, nothing is left out
}

// hist are the writes of a unit; a nil item makes the bulk writer crash when the Avro record holds another one (a known
// finding).
func (p *GPkg) hist(u *GUnit) []gendrv.Write {
	ps := p.merged(u)["properties"].(map[string]any)
	nils := true
	for _, n := range ps {
		if kindOf(n.(map[string]any)) == "object" {
			nils = false
		}
	}
	if nils || p.Known {
		return p.Hist
	}
	var out []gendrv.Write
	for _, w := range p.Hist {
		docs := w.Docs
		w.Docs = nil
		for _, d := range docs {
			if d >= 0 {
				w.Docs = append(w.Docs, d)
			}
		}
		out = append(out, w)
	}
	return out
}

// GBatch is a number of packages compiled into one program.
type GBatch struct {
	Pkgs []GPkg `json:"pkgs"`
}

type batchRun struct {
	dir     string // of the packages
	results map[string]gendrv.Result
	types   map[string]*GUnit // of package and type
}

func (r *batchRun) close() { os.RemoveAll(r.dir) }

var goErrLine = regexp.MustCompile(`(?m)^(?:vet: )?(?:gen/[^/]+/)?(p\d+)/`)

// missingCode are the errors of the program that uses the packages when they lack types, methods or functions.
var missingCode = regexp.MustCompile(`(?m)undefined: p\d+\.|\bp\d+\.\w+ does not (satisfy|implement)|no Go files in .*/p\d+\b|has no field or method|build constraints exclude all Go files|cannot use p\d+\.`)

// run generates and compiles the packages and runs the requests.
func (b GBatch) run() (*batchRun, error) {
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		return nil, pbt.Harnessf("VERIF_SCRATCH not set")
	}
	name := fmt.Sprintf("b%d_%d", os.Getpid(), fileSeq.Add(1))
	mod := filepath.Join(base, "harness")
	dir := filepath.Join(mod, "gen", name)
	r := &batchRun{dir: dir, results: map[string]gendrv.Result{}, types: map[string]*GUnit{}}
	fail := func(err error) (*batchRun, error) {
		r.close()
		return nil, err
	}
	var main strings.Builder
	main.WriteString("package main\n\nimport (\n\t\"verif/harness/gendrv\"\n")
	var reqs []gendrv.Request
	var table strings.Builder
	for i := range b.Pkgs {
		p := &b.Pkgs[i]
		o := p.Opts[0]
		pkg := fmt.Sprintf("p%d", i)
		out := filepath.Join(dir, pkg)
		if err := os.MkdirAll(out, 0o755); err != nil {
			return fail(pbt.Harness(err))
		}
		schemas := filepath.Join(dir, "schemas", pkg)
		if err := writeFiles(schemas, p.Files); err != nil {
			return fail(err)
		}
		args := o.args(filepath.Join(schemas, p.Units[0].File), out)
		args.ImportPath = "verif/harness/gen/" + name + "/" + pkg
		if err := generate.BuildStructsWithArgs(args); err != nil {
			return fail(fmt.Errorf("package %s: BuildStructsWithArgs: %v", pkg, err))
		}
		fmt.Fprintf(&main, "\t%q\n", args.ImportPath)
		for _, u := range p.built() {
			t := o.structName(u.File)
			q := pkg + "." + t
			fmt.Fprintf(&table, "\t\t%q: {", q)
			if o.Msgp {
				fmt.Fprintf(&table, "gendrv.Msgp[%s](), ", q)
			}
			if o.Avro {
				fmt.Fprintf(&table, "gendrv.Avro[%s](%sBulkAvroWriter), ", q, q)
			}
			table.WriteString("},\n")
			req := gendrv.Request{Type: q, Bytes: p.Bytes, Flips: p.Flips, Hist: p.hist(u)}
			for _, d := range p.Docs[u.File] {
				req.Docs = append(req.Docs, json.RawMessage(mustJSON(d)))
			}
			reqs = append(reqs, req)
			r.types[q] = u
		}
	}
	fmt.Fprintf(&main, ")\n\nfunc main() {\n\tgendrv.Run(map[string][]gendrv.Type{\n%s\t})\n}\n", table.String())
	if err := os.MkdirAll(filepath.Join(dir, "prog"), 0o755); err != nil {
		return fail(pbt.Harness(err))
	}
	if err := os.WriteFile(filepath.Join(dir, "prog", "main.go"), []byte(main.String()), 0o644); err != nil {
		return fail(pbt.Harness(err))
	}
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Minute)
	defer cancel()
	run := func(stdin []byte, arg ...string) (string, string, error) {
		cmd := exec.CommandContext(ctx, arg[0], arg[1:]...)
		cmd.Dir = mod
		cmd.Stdin = bytes.NewReader(stdin)
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		err := cmd.Run()
		if ctx.Err() != nil {
			return "", "", pbt.Harnessf("%v did not end", arg)
		}
		return so.String(), se.String(), err
	}
	prog := filepath.Join(dir, "prog", "prog")
	if _, se, err := run(nil, "go", "build", "-ldflags=-s -w", "-o", prog, "./gen/"+name+"/prog"); err != nil {
		if pbt.IsHarness(err) {
			return fail(err)
		}
		if missingCode.MatchString(se) {
			return fail(fmt.Errorf("the generated packages lack expected code: %s", strings.ReplaceAll(se, name, "b")))
		}
		if !goErrLine.MatchString(se) {
			return fail(pbt.Harnessf("go build: %v\n%s\n%s", err, se, main.String()))
		}
		var src string
		if m := regexp.MustCompile(`(?m)^gen/[^ :]*\.go`).FindString(se); m != "" {
			t, _ := os.ReadFile(filepath.Join(mod, m))
			src = string(t)
			if len(src) > 3500 {
				src = src[:3500]
			}
		}
		return fail(fmt.Errorf("the generated packages do not compile: %s\n%s", strings.ReplaceAll(se, name, "b"), src))
	}
	if b.tests() {
		if _, se, err := run(nil, "go", "vet", "-asmdecl", "./gen/"+name+"/p..."); err != nil {
			if pbt.IsHarness(err) {
				return fail(err)
			}
			if !goErrLine.MatchString(se) {
				return fail(pbt.Harnessf("go vet: %v\n%s", err, se))
			}
			return fail(fmt.Errorf("the generated tests do not compile: %s", strings.ReplaceAll(se, name, "b")))
		}
	}
	in, _ := json.Marshal(reqs)
	so, se, err := run(in, prog)
	if err != nil {
		if pbt.IsHarness(err) {
			return fail(err)
		}
		if strings.Contains(se, "gendrv: ") {
			return fail(pbt.Harnessf("%v: %s", err, se))
		}
		if len(se) > 4000 {
			se = se[:4000]
		}
		return fail(fmt.Errorf("the program using the packages died: %v\n%s", err, se))
	}
	var res []gendrv.Result
	if err := json.Unmarshal([]byte(so), &res); err != nil || len(res) != len(reqs) {
		return fail(pbt.Harnessf("bad answer of the program: %v", err))
	}
	for i, q := range reqs {
		if res[i].Err != "" {
			return fail(fmt.Errorf("%s: %s", q.Type, res[i].Err))
		}
		r.results[q.Type] = res[i]
	}
	return r, nil
}

// tests tells whether the generated tests are compiled, too.
func (b GBatch) tests() bool { return len(b.Pkgs)%2 == 1 }

func genFlips(t *rapid.T) []gendrv.Flip {
	var out []gendrv.Flip
	for k := rapid.IntRange(0, 12).Draw(t, "flips"); k > 0; k-- {
		to := rapid.Byte().Draw(t, "to")
		if rapid.Bool().Draw(t, "header") {
			to = pick(t, "headerByte", []byte{0x80, 0x81, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xc4, 0xc7, 0xca, 0xcb, 0xcc, 0xcf, 0xd0, 0xd3, 0xd4, 0xd7, 0xd8, 0xd9, 0xda, 0xdc, 0xde, 0xff})
		}
		out = append(out, gendrv.Flip{At: rapid.IntRange(0, 999).Draw(t, "at"), To: to})
	}
	return out
}

func genMsgp(n int) func(t *rapid.T) GBatch {
	return func(t *rapid.T) GBatch {
		pkg := rapid.Custom(func(t *rapid.T) GPkg {
			cfg := defaultG
			cfg.docs, cfg.nullMaps = 6, false
			p := GPkg{GCase: genG(cfg)(t)}
			p.Opts[0].Msgp = true
			p.Flips = genFlips(t)
			for k := rapid.IntRange(0, 4).Draw(t, "arbitrary"); k > 0; k-- {
				p.Bytes = append(p.Bytes, rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, "bytes"))
			}
			return p
		})
		return GBatch{Pkgs: rapid.SliceOfN(pkg, 1, n).Draw(t, "pkgs")}
	}
}

func checkMsgp(b GBatch, info *pbt.Info) error {
	r, err := b.run()
	if err != nil {
		return err
	}
	defer r.close()
	for _, res := range r.results {
		if len(res.Counts) > 1 && res.Counts[0] > 0 {
			info.Nontrivial = true
			info.LabelIf(res.Counts[1] > 0, "changed bytes")
			info.LabelIf(res.Counts[2] > 0, "arbitrary bytes")
		}
	}
	for _, p := range b.Pkgs {
		info.LabelIf(p.Opts[0].Flat, "separate types")
		info.LabelIf(p.Opts[0].Ptr, "pointers")
		info.LabelIf(len(p.Units) > 1, "several units")
	}
	return nil
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "G05",
		Subs: []*pbt.Sub{
			limited(8*time.Minute, pbt.NewSub("compiled", "batches of generated packages with MessagePack code, compiled into one program that encodes and decodes up to six documents of every struct by both interfaces, the prefixes of their encodings, encodings with changed bytes and arbitrary bytes; non-trivial: something was encoded", 200, 3000, genMsgp(8), checkMsgp)),
		},
	})
}
