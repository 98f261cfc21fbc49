package props

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/GannettDigital/jstransform/jsonschema"
	"github.com/GannettDigital/jstransform/transform"

	"verif/harness/model"
	"verif/harness/pbt"
)

// schemaValue builds a schema without touching the file system; its validator is absent.
func schemaValue(raw string) (*jsonschema.Schema, error) {
	var s jsonschema.Schema
	if err := json.Unmarshal([]byte(raw), &s.Instance); err != nil {
		return nil, pbt.Harness(err)
	}
	return &s, nil
}

// outcome is the observable result of one transform call.
type outcome struct {
	err error
	out string
}

func (o outcome) String() string {
	if o.err != nil {
		return "error: " + o.err.Error()
	}
	return o.out
}

func runJ(tr *transform.Transformer, in string) outcome {
	raw := []byte(in)
	out, err := tr.TransformNoValidation(raw)
	if string(raw) != in {
		return outcome{err: fmt.Errorf("INPUT BYTES MODIFIED")}
	}
	return outcome{err, string(out)}
}

// expectation of the model.
type expectation struct {
	err  error
	want any
}

func modelJ(c JCase) (expectation, *model.Node, map[string]int, error) {
	n, err := model.ParseSchema([]byte(c.Schema), c.Ident)
	if err != nil {
		return expectation{}, nil, nil, pbt.Harness(err)
	}
	var in any
	if err := json.Unmarshal([]byte(c.Input), &in); err != nil {
		return expectation{}, nil, nil, pbt.Harness(err)
	}
	routes := map[string]int{}
	model.Trace = func(s string) { routes[s]++ }
	defer func() { model.Trace = func(string) {} }()
	v, err := n.EvalJSON(in)
	if d, ok := err.(model.ErrDomain); ok {
		return expectation{}, nil, nil, pbt.Skip(d.Why)
	}
	if err != nil {
		return expectation{err: err}, n, routes, nil
	}
	want, err := model.Canon(v)
	if err != nil {
		return expectation{err: err}, n, routes, nil
	}
	return expectation{want: want}, n, routes, nil
}

// compare judges an outcome against the expectation.
func (e expectation) compare(o outcome) error {
	if e.err != nil {
		if o.err == nil {
			return fmt.Errorf("expected an error (%v), got output %s", e.err, o.out)
		}
		return nil
	}
	if o.err != nil {
		return fmt.Errorf("unexpected error: %v; expected output %s", o.err, mustJSON(e.want))
	}
	got, err := model.DecodeJSON([]byte(o.out))
	if err != nil {
		return fmt.Errorf("output is no JSON: %v: %s", err, o.out)
	}
	if !reflect.DeepEqual(got, e.want) {
		return fmt.Errorf("output differs\n got: %s\nwant: %s", o.out, mustJSON(e.want))
	}
	return nil
}

func mustJSON(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	return string(b)
}

// checkJModel compares jstransform with the reference model on one case.
func checkJModel(c JCase, info *pbt.Info) error {
	exp, _, routes, err := modelJ(c)
	if err != nil {
		return err
	}
	for r := range routes {
		info.Label(r)
	}
	if exp.err != nil {
		w := strings.Fields(exp.err.Error())
		info.Label("error expected: " + strings.TrimSuffix(strings.Join(w[:min(len(w), 2)], " "), ":"))
	}
	info.LabelIf(exp.err == nil && exp.want == nil, "empty-output")
	info.Nontrivial = exp.err == nil && exp.want != nil && len(routes) >= 2
	for i := 0; i < 2; i++ {
		s, err := schemaValue(c.Schema)
		if err != nil {
			return err
		}
		tr, err := transform.NewTransformer(s, c.Ident)
		if err != nil {
			return fmt.Errorf("NewTransformer: %v", err)
		}
		if err := exp.compare(runJ(tr, c.Input)); err != nil {
			return err
		}
	}
	return nil
}
