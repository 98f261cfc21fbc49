package model

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

// ErrDomain marks a case the model does not define (outside the property's stated domain).
type ErrDomain struct{ Why string }

func (e ErrDomain) Error() string { return "outside domain: " + e.Why }

// OpSpec is one operation of an instruction.
type OpSpec struct {
	Type string            `json:"type"`
	Args map[string]string `json:"args,omitempty"`
}

// InstrSpec is one entry of "from".
type InstrSpec struct {
	JSONPath   string   `json:"jsonPath,omitempty"`
	XMLPath    string   `json:"xmlPath,omitempty"`
	Operations []OpSpec `json:"operations,omitempty"`
}

// TransSpec is the instruction set of one identifier.
type TransSpec struct {
	From          []InstrSpec `json:"from"`
	Method        string      `json:"method,omitempty"`
	MethodOptions *struct {
		ConcatenateDelimiter string `json:"concatenateDelimiter"`
	} `json:"methodOptions,omitempty"`
}

// Node is one schema instance.
type Node struct {
	Kind    string // object, free, array, string, number, integer, boolean, date-time
	Default any
	Trans   *TransSpec
	Props   map[string]*Node
	Items   *Node
}

// ParseSchema reads the subset of JSON schema the transform model understands; ident selects the transform section.
func ParseSchema(raw []byte, ident string) (*Node, error) {
	return parseNode(raw, ident, true)
}

func parseNode(raw []byte, ident string, root bool) (*Node, error) {
	var s struct {
		Type       json.RawMessage            `json:"type"`
		Format     string                     `json:"format"`
		Default    json.RawMessage            `json:"default"`
		Properties map[string]json.RawMessage `json:"properties"`
		Items      json.RawMessage            `json:"items"`
		Transform  map[string]json.RawMessage `json:"transform"`
	}
	if err := json.Unmarshal(raw, &s); err != nil {
		return nil, err
	}
	n := &Node{}
	var ts []string
	if len(s.Type) > 0 && s.Type[0] == '[' {
		if err := json.Unmarshal(s.Type, &ts); err != nil {
			return nil, err
		}
	} else {
		var one string
		if err := json.Unmarshal(s.Type, &one); err != nil {
			return nil, err
		}
		ts = []string{one}
	}
	for _, t := range ts {
		if t != "null" {
			n.Kind = t
		}
	}
	if n.Kind == "string" && s.Format == "date-time" {
		n.Kind = "date-time"
	}
	if n.Kind == "object" && len(s.Properties) == 0 && !root {
		n.Kind = "free"
	}
	if !root {
		if len(s.Default) > 0 {
			if err := json.Unmarshal(s.Default, &n.Default); err != nil {
				return nil, err
			}
		}
		if tr, ok := s.Transform[ident]; ok {
			n.Trans = &TransSpec{}
			if err := json.Unmarshal(tr, n.Trans); err != nil {
				return nil, err
			}
		}
	}
	if n.Kind == "object" {
		n.Props = map[string]*Node{}
		for k, v := range s.Properties {
			c, err := parseNode(v, ident, false)
			if err != nil {
				return nil, err
			}
			n.Props[k] = c
		}
	}
	if n.Kind == "array" {
		c, err := parseNode(s.Items, ident, false)
		if err != nil {
			return nil, err
		}
		n.Items = c
	}
	return n, nil
}

// ValidateConfig says whether the instructions of the schema are acceptable at all.
func (n *Node) ValidateConfig() error {
	if n.Trans != nil {
		switch n.Trans.Method {
		case "", "first", "last", "concatenate":
		default:
			return fmt.Errorf("unknown method")
		}
		for _, f := range n.Trans.From {
			for _, o := range f.Operations {
				if err := validateOp(o); err != nil {
					return err
				}
			}
		}
	}
	if n.Kind == "array" && n.Default != nil {
		if _, ok := n.Default.([]any); !ok {
			return errors.New("default is not an array")
		}
	}
	if n.Kind == "object" && n.Default != nil {
		if _, ok := n.Default.(map[string]any); !ok {
			return errors.New("default is not an object")
		}
	}
	for _, c := range n.Props {
		if err := c.ValidateConfig(); err != nil {
			return err
		}
	}
	if n.Items != nil {
		return n.Items.ValidateConfig()
	}
	return nil
}

var opArgs = map[string][]string{
	"duration": nil, "inverse": nil, "removeHTML": nil, "convertToFloat64": nil, "convertToInt64": nil, "convertToBool": nil, "valueExists": nil,
	"changeCase": {"to"}, "max": {"by", "return"}, "replace": {"regex", "new"}, "split": {"on"}, "timeParse": {"format", "layout"},
	"currentTime": {"format"}, "toCamelCase": {"delimiter"},
}

func validateOp(o OpSpec) error {
	req, ok := opArgs[o.Type]
	if !ok {
		return errors.New("unknown operation")
	}
	if req == nil {
		return nil // operations without arguments ignore any given
	}
	if len(o.Args) != len(req) {
		return errors.New("wrong arguments")
	}
	for _, r := range req {
		if _, ok := o.Args[r]; !ok {
			return errors.New("missing argument")
		}
	}
	if o.Type == "changeCase" && o.Args["to"] != "lower" && o.Args["to"] != "upper" {
		return errors.New("bad case")
	}
	if o.Type == "replace" {
		if _, err := regexp.Compile(o.Args["regex"]); err != nil {
			return err
		}
	}
	return nil
}

func keySteps(base []Step, s Step) []Step {
	out := make([]Step, len(base)+1)
	copy(out, base)
	out[len(base)] = s
	return out
}

// Trace is told which route each field took; used for classification only.
var Trace = func(string) {}

// EvalJSON computes the transform of a JSON input.
func (n *Node) EvalJSON(input any) (any, error) {
	return n.evalJSON(input, nil, nil, nil)
}

// evalJSON: root is the input as this node sees it, path is the concrete output location of the node, anchor is what
// `@` stands for in its instructions, encl the concrete locations of the items this node is in, outermost first.
func (n *Node) evalJSON(root any, path, anchor []Step, encl [][]Step) (any, error) {
	switch n.Kind {
	case "object":
		base := map[string]any{}
		v, err := n.instr(root, anchor, encl, "object")
		if err != nil {
			return nil, err
		}
		if v != nil {
			Trace("object-transform")
		} else if n.Default != nil {
			Trace("object-default")
			v = n.Default
		}
		if v != nil {
			m, ok := v.(map[string]any)
			if !ok {
				return nil, errors.New("object transform gives no object")
			}
			for k, x := range m {
				base[k] = x
			}
		}
		for _, k := range sortedProps(n.Props) {
			cv, err := n.Props[k].evalJSON(root, keySteps(path, Step{Kind: StepKey, Key: k}), path, encl)
			if err != nil {
				return nil, err
			}
			if cv != nil {
				base[k] = cv
			}
		}
		if len(base) == 0 {
			return nil, nil
		}
		return base, nil
	case "array":
		v, err := n.instr(root, anchor, encl, "array")
		if err != nil {
			return nil, err
		}
		replaced := v != nil
		if replaced {
			Trace("array-transform")
		}
		if v == nil {
			if x, ok := GetPath(root, path); ok && x != nil {
				v = x
				Trace("array-same-path")
				if _, isArr := v.([]any); !isArr {
					replaced = true
				}
			}
		}
		if v == nil && n.Default != nil {
			v = n.Default
			replaced = true
			Trace("array-default")
		}
		if v == nil {
			return nil, nil
		}
		list, ok := v.([]any)
		if !ok {
			list = []any{v}
		}
		view := root
		if replaced {
			if len(path) > 0 {
				// children look their values up in the input with this list in place, which needs a root of the right kind
				_, isMap := root.(map[string]any)
				_, isArr := root.([]any)
				if (path[0].Kind == StepKey && !isMap) || (path[0].Kind == StepIndex && !isArr) {
					return nil, errors.New("input is no container")
				}
			}
			view = setAt(root, path, list)
		}
		var out []any
		for i := range list {
			ip := keySteps(path, Step{Kind: StepIndex, Index: i})
			a := ip
			if n.Items.Kind == "array" || n.Items.Kind == "object" {
				a = nil // `@` on an array item that is itself an array or object is outside the domain
			}
			cv, err := n.Items.evalJSON(view, ip, a, append(encl[:len(encl):len(encl)], ip))
			if err != nil {
				return nil, err
			}
			if cv != nil {
				out = append(out, cv)
			}
		}
		if len(out) == 0 {
			return nil, nil
		}
		return out, nil
	}
	v, err := n.instr(root, anchor, encl, n.Kind)
	if err != nil {
		return nil, err
	}
	if v != nil {
		Trace("scalar-transform")
		return v, nil
	}
	if x, ok := GetPath(root, path); ok && x != nil {
		c, err := Coerce(x, n.Kind)
		if _, dom := err.(ErrDomain); dom {
			return nil, err
		}
		if err == nil && c != nil {
			Trace("scalar-same-path")
			return c, nil
		}
		Trace("scalar-same-path-unusable")
	}
	if n.Default != nil {
		Trace("scalar-default")
	} else {
		Trace("scalar-omitted")
	}
	return n.Default, nil
}

func sortedProps(m map[string]*Node) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// setAt returns v with the value at path replaced, v itself is left alone.
func setAt(v any, path []Step, val any) any {
	if len(path) == 0 {
		return val
	}
	st := path[0]
	if st.Kind == StepKey {
		m := map[string]any{}
		if o, ok := v.(map[string]any); ok {
			for k, x := range o {
				m[k] = x
			}
		}
		m[st.Key] = setAt(m[st.Key], path[1:], val)
		return m
	}
	var a []any
	if o, ok := v.([]any); ok {
		a = append(a, o...)
	}
	for len(a) <= st.Index {
		a = append(a, nil)
	}
	a[st.Index] = setAt(a[st.Index], path[1:], val)
	return a
}

// ResolvePath turns the text of a jsonPath into steps from the root. An absolute path to the items of an array the
// instruction belongs to stands for the current item.
func ResolvePath(text string, anchor []Step, encl [][]Step) ([]Step, error) {
	if text == "" {
		return nil, ErrDomain{"empty path"}
	}
	st, err := ParsePath(text[1:])
	if err != nil {
		return nil, ErrDomain{err.Error()}
	}
	switch text[0] {
	case '$':
		for _, e := range encl {
			n := len(e)
			if len(st) >= n && st[n-1].Kind == StepStar && !st[n-1].Dot && reflect.DeepEqual(st[:n-1], e[:n-1]) {
				st = append(append([]Step{}, e...), st[n:]...)
				Trace("absolute-current-item")
			}
		}
		return st, nil
	case '@':
		if len(st) == 0 {
			return nil, ErrDomain{"bare @"}
		}
		return append(append([]Step{}, anchor...), st...), nil
	}
	return nil, ErrDomain{"path start"}
}

func (n *Node) instr(root any, anchor []Step, encl [][]Step, kind string) (any, error) {
	if n.Trans == nil {
		return nil, nil
	}
	return Combine(n.Trans, func(f InstrSpec) (any, error) {
		steps, err := ResolvePath(f.JSONPath, anchor, encl)
		if err != nil {
			return nil, err
		}
		raw, ok := GetPath(root, steps)
		if !ok || raw == nil {
			return nil, nil
		}
		v, err := Coerce(raw, kind)
		if _, dom := err.(ErrDomain); dom {
			return nil, err
		}
		if err != nil {
			v = raw
		}
		if v == nil {
			return nil, nil
		}
		return ApplyOps(v, f.Operations)
	})
}

// Combine applies the method of a transform to its sources.
func Combine(t *TransSpec, get func(InstrSpec) (any, error)) (any, error) {
	switch t.Method {
	case "", "first":
		for _, f := range t.From {
			v, err := get(f)
			if err != nil || v != nil {
				return v, err
			}
		}
		return nil, nil
	case "last":
		for i := len(t.From) - 1; i >= 0; i-- {
			v, err := get(t.From[i])
			if err != nil || v != nil {
				return v, err
			}
		}
		return nil, nil
	case "concatenate":
		var vals []any
		allStr := true
		var firstErr error
		for _, f := range t.From {
			v, err := get(f)
			if err != nil {
				return nil, err
			}
			if v != nil {
				if _, ok := v.(string); !ok {
					allStr = false
				}
				vals = append(vals, v)
				if len(vals) > 1 && !allStr && firstErr == nil {
					firstErr = errors.New("only strings concatenate")
				}
				if firstErr != nil {
					return nil, firstErr
				}
			}
		}
		if len(vals) == 0 {
			return nil, nil
		}
		if len(vals) == 1 {
			return vals[0], nil
		}
		delim := ""
		if t.MethodOptions != nil {
			delim = t.MethodOptions.ConcatenateDelimiter
		}
		var parts []string
		for _, v := range vals {
			if s := v.(string); s != "" {
				parts = append(parts, s)
			}
		}
		return strings.Join(parts, delim), nil
	}
	return nil, errors.New("unknown method")
}

// Coerce converts a value to the kind, nil means no value.
func Coerce(raw any, kind string) (any, error) {
	if a, ok := raw.([]any); ok {
		if len(a) == 0 {
			return nil, nil
		}
		if kind == "array" {
			if l, nested := a[0].([]any); len(a) == 1 && !(nested && len(l) > 0) {
				return a[0], nil // callers wrap a single value in a list again
			}
			return raw, nil
		}
		// [[]] and the like are left to the type switch below, which rejects lists
		x := any(a)
		for {
			l, ok := x.([]any)
			if !ok {
				break
			}
			if len(l) == 0 {
				return nil, ErrDomain{"list whose first entry is an empty list"}
			}
			x = l[0]
		}
		raw = x
	}
	if raw == nil {
		return nil, nil
	}
	switch kind {
	case "boolean":
		switch t := raw.(type) {
		case bool:
			return t, nil
		case string:
			switch t {
			case "":
				return false, nil
			case "1", "t", "T", "true", "TRUE", "True":
				return true, nil
			case "0", "f", "F", "false", "FALSE", "False":
				return false, nil
			}
			return nil, errors.New("no boolean")
		case int:
			return t > 0, nil
		case float64:
			return t > 0, nil
		}
		return nil, errors.New("no boolean")
	case "number", "integer":
		switch t := raw.(type) {
		case bool:
			if t {
				return 1, nil
			}
			return 0, nil
		case string:
			if t == "" {
				return nil, nil
			}
			if i, err := strconv.ParseInt(t, 10, 64); err == nil {
				return int(i), nil
			}
			f, err := strconv.ParseFloat(t, 64)
			if err != nil {
				return nil, err
			}
			if f != f || f-f != 0 {
				return nil, errors.New("no JSON number")
			}
			return f, nil
		case int, float64:
			return raw, nil
		}
		return nil, errors.New("no number")
	case "string":
		switch t := raw.(type) {
		case string:
			return t, nil
		case bool:
			if t {
				return "true", nil
			}
			return "false", nil
		case int:
			return strconv.Itoa(t), nil
		case float64:
			return strconv.FormatFloat(t, 'f', -1, 64), nil
		}
		return nil, errors.New("no string")
	case "date-time":
		switch t := raw.(type) {
		case string:
			if t == "" {
				return nil, nil
			}
			p, err := time.Parse(time.RFC3339, t)
			if err != nil {
				return nil, err
			}
			if p.IsZero() {
				return nil, nil
			}
			if _, off := p.Zone(); off <= -24*3600 || off >= 24*3600 {
				return nil, errors.New("zone out of range")
			}
			return p, nil
		case int:
			return unixTime(float64(t))
		case float64:
			return unixTime(t)
		}
		return nil, errors.New("no date")
	}
	return raw, nil
}

// unixTime: dates JSON can express have the years 0 to 9999.
func unixTime(f float64) (any, error) {
	if f > 253402300799 || f < -62167219200 {
		return nil, errors.New("date out of range")
	}
	return time.Unix(int64(f), 0).UTC(), nil
}

// XMLNodes stands for a list of XML elements handed to an operation.
type XMLNodes struct{ N int }

// ApplyOps runs operations left to right.
func ApplyOps(v any, ops []OpSpec) (any, error) {
	var err error
	for _, o := range ops {
		if v, err = applyOp(v, o); err != nil {
			return nil, err
		}
	}
	return v, nil
}

func digits(s string) bool {
	for _, c := range s {
		if c < '0' || c > '9' {
			return false
		}
	}
	return true
}

func applyOp(v any, o OpSpec) (any, error) {
	str, isStr := v.(string)
	switch o.Type {
	case "changeCase", "replace", "split", "timeParse", "toCamelCase", "removeHTML":
		if !isStr {
			return nil, errors.New(o.Type + " needs a string")
		}
	}
	switch o.Type {
	case "duration":
		if a, ok := v.([]any); ok && len(a) == 1 {
			v = a[0]
			str, isStr = v.(string)
		}
		if v == nil {
			return 0, nil
		}
		if !isStr {
			return nil, errors.New("duration needs a string")
		}
		parts := strings.Split(str, ":")
		if len(parts) < 2 || len(parts) > 3 {
			return nil, errors.New("bad duration")
		}
		total := 0
		for _, p := range parts {
			if !digits(p) {
				return nil, errors.New("bad duration")
			}
			n, err := strconv.Atoi(p)
			if err != nil && p != "" {
				return nil, errors.New("duration out of range")
			}
			if n > 1e12 {
				return nil, ErrDomain{"duration with a huge part"}
			}
			total = total*60 + n
		}
		return total, nil
	case "changeCase":
		if o.Args["to"] == "lower" {
			return strings.ToLower(str), nil
		}
		return strings.ToUpper(str), nil
	case "inverse":
		b, ok := v.(bool)
		if !ok {
			return nil, errors.New("inverse needs a boolean")
		}
		return !b, nil
	case "max":
		a, ok := v.([]any)
		if !ok {
			return nil, errors.New("max needs an array")
		}
		by, err := ParsePath(strings.TrimPrefix(o.Args["by"], "@"))
		if err != nil {
			return nil, ErrDomain{err.Error()}
		}
		ret, err := ParsePath(strings.TrimPrefix(o.Args["return"], "@"))
		if err != nil {
			return nil, ErrDomain{err.Error()}
		}
		best := -1
		var bestV float64
		for i, it := range a {
			x, ok := GetPath(it, by)
			if !ok {
				return nil, errors.New("max: by missing")
			}
			f, ok := x.(float64)
			if !ok {
				n, ok := x.(int)
				if !ok {
					return nil, errors.New("max: by is no number")
				}
				f = float64(n)
			}
			if best < 0 || f > bestV {
				best, bestV = i, f
			}
		}
		if best < 0 {
			return nil, ErrDomain{"max of an empty array"}
		}
		x, ok := GetPath(a[best], ret)
		if !ok {
			return nil, errors.New("max: return missing")
		}
		return x, nil
	case "replace":
		re, err := regexp.Compile(o.Args["regex"])
		if err != nil {
			return nil, err
		}
		return re.ReplaceAllString(str, o.Args["new"]), nil
	case "split":
		if str == "" {
			return []any{}, nil
		}
		out := []any{}
		if o.Args["on"] == "" {
			for _, s := range strings.Split(str, "") {
				out = append(out, s)
			}
			return out, nil
		}
		for {
			i := strings.Index(str, o.Args["on"])
			if i < 0 {
				return append(out, str), nil
			}
			out = append(out, str[:i])
			str = str[i+len(o.Args["on"]):]
		}
	case "timeParse":
		t, err := time.Parse(o.Args["format"], str)
		if err != nil {
			return nil, err
		}
		return t.Format(o.Args["layout"]), nil
	case "toCamelCase":
		parts := strings.Split(str, o.Args["delimiter"])
		for i, p := range parts {
			if i == 0 {
				parts[i] = strings.ToLower(p)
			} else {
				parts[i] = strings.Title(p)
			}
		}
		return strings.Join(parts, ""), nil
	case "removeHTML":
		return removeHTML(str)
	case "convertToFloat64":
		switch t := v.(type) {
		case string:
			return parseF(t)
		case int:
			return float64(t), nil
		case float64:
			return t, nil
		}
		return nil, errors.New("convertToFloat64")
	case "convertToInt64":
		switch t := v.(type) {
		case string:
			n, err := strconv.ParseInt(t, 10, 64)
			if err != nil {
				return nil, err
			}
			return n, nil
		case int:
			return int64(t), nil
		case int64:
			return t, nil
		case float64:
			if t > 9e15 || t < -9e15 {
				return nil, ErrDomain{"huge float to int"}
			}
			return int64(t), nil
		}
		return nil, errors.New("convertToInt64")
	case "convertToBool":
		switch t := v.(type) {
		case bool:
			return t, nil
		case string:
			b, err := strconv.ParseBool(t)
			if err != nil {
				return nil, err
			}
			return b, nil
		case []any:
			return len(t) > 0, nil
		case float64:
			return t != 0, nil
		case int:
			return t != 0, nil
		case int64:
			return t != 0, nil
		}
		return nil, errors.New("convertToBool")
	case "valueExists":
		switch t := v.(type) {
		case string:
			return t != "", nil
		case XMLNodes:
			return t.N > 0, nil
		}
		return nil, errors.New("valueExists")
	case "currentTime":
		return nil, ErrDomain{"currentTime"}
	}
	return nil, errors.New("unknown operation")
}

func parseF(s string) (any, error) {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return nil, err
	}
	return f, nil
}

var tagRe = regexp.MustCompile(`^</?[a-z][a-z0-9]*( [a-z]+="[a-zA-Z0-9 :/.]*")*/?>`)

// removeHTML defines the operation on text made of tags, character references and plain text.
func removeHTML(s string) (any, error) {
	var b strings.Builder
	for i := 0; i < len(s); {
		switch s[i] {
		case '<':
			m := tagRe.FindString(s[i:])
			if m == "" || strings.Contains(m, "script") || strings.Contains(m, "style") {
				return nil, ErrDomain{"markup outside the modelled subset"}
			}
			b.WriteByte(' ')
			i += len(m)
		case '>', '\r', 0:
			return nil, ErrDomain{"markup outside the modelled subset"}
		case '&':
			ok := false
			for ent, r := range map[string]string{"&amp;": "\x01", "&lt;": "\x02", "&gt;": "\x03", "&quot;": `"`, "&#39;": "'", "&nbsp;": "\u00a0"} {
				if strings.HasPrefix(s[i:], ent) {
					b.WriteString(r)
					i += len(ent)
					ok = true
					break
				}
			}
			if !ok {
				return nil, ErrDomain{"character reference outside the modelled subset"}
			}
		default:
			b.WriteByte(s[i])
			i++
		}
	}
	out := strings.ReplaceAll(strings.TrimSpace(b.String()), "  ", " ")
	return strings.NewReplacer("\x01", "&", "\x02", "<", "\x03", ">").Replace(out), nil
}

// Canon marshals and decodes a value so that results compare by JSON meaning. A value JSON cannot express gives an
// error.
func Canon(v any) (any, error) {
	b, err := json.Marshal(v)
	if err != nil {
		return nil, err
	}
	return DecodeJSON(b)
}

// DecodeJSON decodes exactly one JSON document.
func DecodeJSON(b []byte) (any, error) {
	dec := json.NewDecoder(bytes.NewReader(b))
	var out any
	if err := dec.Decode(&out); err != nil {
		return nil, err
	}
	if dec.More() {
		return nil, errors.New("trailing data")
	}
	return out, nil
}
