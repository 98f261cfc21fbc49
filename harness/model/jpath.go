// Package model holds the reference models the checks compare jstransform with. They are written from the
// documentation (transform.adoc, transformSchema.json, godoc) and share no code with jstransform.
package model

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// StepKind enumerates the path steps of the supported JSONPath subset.
type StepKind int

// Step kinds.
const (
	StepKey StepKind = iota
	StepIndex
	StepStar
	StepFilter
	StepRange
)

// Step is one step of a path.
type Step struct {
	Kind     StepKind
	Key      string
	Index    int
	End      int    // StepRange
	Sub      []Step // StepFilter: path below @
	Op       string // StepFilter: ==, !=, >, <
	LitStr   string
	LitNum   float64
	LitIsNum bool
	Dot      bool // StepStar written as .*
}

// ParsePath parses what follows the `$` or `@`.
func ParsePath(s string) ([]Step, error) {
	p := &pp{s: s}
	st, err := p.steps("")
	if err != nil {
		return nil, err
	}
	if p.i != len(p.s) {
		return nil, fmt.Errorf("trailing path text %q", p.s[p.i:])
	}
	return st, nil
}

type pp struct {
	s string
	i int
}

func isIdent(s string) bool {
	for i, r := range s {
		if r == '_' || (r >= 'a' && r <= 'z') || (r >= 'A' && r <= 'Z') || r > 127 && unicode.IsLetter(r) || (i > 0 && r >= '0' && r <= '9') {
			continue
		}
		return false
	}
	return s != ""
}

// IsIdent reports whether a key can be written as `.key`.
func IsIdent(s string) bool { return isIdent(s) }

func (p *pp) steps(stop string) ([]Step, error) {
	var out []Step
	for p.i < len(p.s) {
		switch p.s[p.i] {
		case '.':
			p.i++
			if p.i < len(p.s) && p.s[p.i] == '*' {
				p.i++
				out = append(out, Step{Kind: StepStar, Dot: true})
				continue
			}
			j := p.i
			for j < len(p.s) && !strings.ContainsRune(".[ =!<>)", rune(p.s[j])) {
				j++
			}
			k := p.s[p.i:j]
			if !isIdent(k) {
				return nil, fmt.Errorf("bad identifier %q in %q", k, p.s)
			}
			p.i = j
			out = append(out, Step{Kind: StepKey, Key: k})
		case '[':
			st, err := p.bracket()
			if err != nil {
				return nil, err
			}
			out = append(out, st)
		default:
			return out, nil
		}
	}
	return out, nil
}

func (p *pp) quoted() (string, error) {
	j := p.i + 1
	for j < len(p.s) && p.s[j] != '"' {
		if p.s[j] == '\\' {
			j++
		}
		j++
	}
	if j >= len(p.s) {
		return "", fmt.Errorf("unterminated string in %q", p.s)
	}
	str, err := strconv.Unquote(p.s[p.i : j+1])
	p.i = j + 1
	return str, err
}

func (p *pp) bracket() (Step, error) {
	p.i++ // [
	fail := func() (Step, error) { return Step{}, fmt.Errorf("bad bracket at %d in %q", p.i, p.s) }
	if p.i >= len(p.s) {
		return fail()
	}
	switch {
	case p.s[p.i] == '*':
		p.i++
		if !p.eat("]") {
			return fail()
		}
		return Step{Kind: StepStar}, nil
	case p.s[p.i] == '"':
		k, err := p.quoted()
		if err != nil || !p.eat("]") {
			return fail()
		}
		return Step{Kind: StepKey, Key: k}, nil
	case strings.HasPrefix(p.s[p.i:], "?(@"):
		p.i += 3
		sub, err := p.steps("")
		if err != nil {
			return Step{}, err
		}
		st := Step{Kind: StepFilter, Sub: sub}
		for _, op := range []string{"==", "!=", ">", "<"} {
			if p.eat(op) {
				st.Op = op
				break
			}
		}
		if st.Op == "" || p.i >= len(p.s) {
			return fail()
		}
		if p.s[p.i] == '"' {
			if st.LitStr, err = p.quoted(); err != nil {
				return Step{}, err
			}
		} else {
			j := p.i
			for j < len(p.s) && strings.ContainsRune("0123456789.-", rune(p.s[j])) {
				j++
			}
			if st.LitNum, err = strconv.ParseFloat(p.s[p.i:j], 64); err != nil {
				return Step{}, err
			}
			st.LitIsNum = true
			p.i = j
		}
		if !p.eat(")]") {
			return fail()
		}
		return st, nil
	}
	j := p.i
	for j < len(p.s) && p.s[j] >= '0' && p.s[j] <= '9' {
		j++
	}
	n, err := strconv.Atoi(p.s[p.i:j])
	if err != nil {
		return fail()
	}
	p.i = j
	if p.eat(":") {
		j := p.i
		for j < len(p.s) && p.s[j] >= '0' && p.s[j] <= '9' {
			j++
		}
		m, err := strconv.Atoi(p.s[p.i:j])
		if err != nil {
			return fail()
		}
		p.i = j
		if !p.eat("]") {
			return fail()
		}
		return Step{Kind: StepRange, Index: n, End: m}, nil
	}
	if !p.eat("]") {
		return fail()
	}
	return Step{Kind: StepIndex, Index: n}, nil
}

func (p *pp) eat(s string) bool {
	if strings.HasPrefix(p.s[p.i:], s) {
		p.i += len(s)
		return true
	}
	return false
}

// GetPath evaluates steps on v. Paths with a wildcard, filter or range give the list of all matches; other paths give
// the value itself. found is false when a plain path does not exist.
func GetPath(v any, steps []Step) (res any, found bool) {
	multi := false
	cur := []any{v}
	for _, st := range steps {
		if st.Kind == StepStar || st.Kind == StepFilter || st.Kind == StepRange {
			multi = true
		}
		var next []any
		for _, c := range cur {
			next = append(next, apply(c, st)...)
		}
		cur = next
	}
	if multi {
		if cur == nil {
			cur = []any{}
		}
		return cur, true
	}
	if len(cur) == 0 {
		return nil, false
	}
	return cur[0], true
}

func elems(v any) []any {
	switch t := v.(type) {
	case []any:
		return t
	case map[string]any:
		ks := make([]string, 0, len(t))
		for k := range t {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		out := make([]any, 0, len(t))
		for _, k := range ks {
			out = append(out, t[k])
		}
		return out
	}
	return nil
}

func apply(v any, st Step) []any {
	switch st.Kind {
	case StepKey:
		if m, ok := v.(map[string]any); ok {
			if x, ok := m[st.Key]; ok {
				return []any{x}
			}
		}
	case StepIndex:
		if a, ok := v.([]any); ok && st.Index >= 0 && st.Index < len(a) {
			return []any{a[st.Index]}
		}
	case StepStar:
		return elems(v)
	case StepRange:
		if a, ok := v.([]any); ok {
			s, e := st.Index, st.End
			if e > len(a) {
				e = len(a)
			}
			if s < e {
				return a[s:e]
			}
		}
	case StepFilter:
		var out []any
		for _, e := range elems(v) {
			x, ok := GetPath(e, st.Sub)
			if !ok {
				continue
			}
			var lit any = st.LitStr
			if st.LitIsNum {
				lit = st.LitNum
			}
			match := reflect.DeepEqual(x, lit) == (st.Op == "==")
			if match {
				out = append(out, e)
			}
		}
		return out
	}
	return nil
}

// Ambiguous reports whether the path can match several values.
func Ambiguous(steps []Step) bool {
	for _, s := range steps {
		if s.Kind == StepStar || s.Kind == StepFilter || s.Kind == StepRange {
			return true
		}
	}
	return false
}
