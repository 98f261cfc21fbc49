package props

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

// A parser of the part of the GraphQL schema language that the generator writes: scalar, type and interface definitions.

type sdlType struct {
	name    string
	list    *sdlType
	nonNull bool
}

func (t *sdlType) String() string {
	s := t.name
	if t.list != nil {
		s = "[" + t.list.String() + "]"
	}
	if t.nonNull {
		s += "!"
	}
	return s
}

func (t *sdlType) base() string {
	for t.list != nil {
		t = t.list
	}
	return t.name
}

type sdlDirective struct {
	name string
	args map[string]string // values as written, strings decoded with a leading quote
}

type sdlArg struct {
	desc string
	name string
	typ  *sdlType
}

type sdlField struct {
	desc, name string
	hasDesc    bool
	args       []sdlArg
	typ        *sdlType
	dirs       []sdlDirective
}

type sdlDef struct {
	kind, name, desc string
	hasDesc          bool
	implements       []string
	dirs             []sdlDirective
	fields           []*sdlField
	byName           map[string]*sdlField
	file             string
}

type sdlToken struct {
	kind byte // n: name, s: string, p: punctuator, i: number, 0: end
	text string
	line int
}

func sdlLex(s string) ([]sdlToken, error) {
	var out []sdlToken
	line := 1
	isName := func(c byte, first bool) bool {
		return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || !first && c >= '0' && c <= '9'
	}
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == '\r':
			if !strings.HasPrefix(s[i:], "\r\n") {
				line++
			}
			i++
		case c == ' ' || c == '\t' || c == ',':
			i++
		case c == '#':
			for i < len(s) && s[i] != '\n' && s[i] != '\r' {
				i++
			}
		case isName(c, true):
			j := i
			for i < len(s) && isName(s[i], false) {
				i++
			}
			out = append(out, sdlToken{'n', s[j:i], line})
		case strings.HasPrefix(s[i:], `"""`):
			start := line
			var raw strings.Builder
			i += 3
			for {
				if i >= len(s) {
					return nil, fmt.Errorf("line %d: block string does not end", start)
				}
				if strings.HasPrefix(s[i:], `\"""`) {
					raw.WriteString(`"""`)
					i += 4
					continue
				}
				if strings.HasPrefix(s[i:], `"""`) {
					i += 3
					break
				}
				if s[i] == '\n' {
					line++
				}
				raw.WriteByte(s[i])
				i++
			}
			out = append(out, sdlToken{'s', blockStringValue(raw.String()), start})
		case c == '"':
			var v strings.Builder
			i++
			for {
				if i >= len(s) || s[i] == '\n' || s[i] == '\r' {
					return nil, fmt.Errorf("line %d: string does not end", line)
				}
				if s[i] == '"' {
					i++
					break
				}
				if s[i] != '\\' {
					r, n := utf8.DecodeRuneInString(s[i:])
					if r == utf8.RuneError && n == 1 {
						return nil, fmt.Errorf("line %d: bad UTF-8", line)
					}
					if r < 0x20 && r != '\t' {
						return nil, fmt.Errorf("line %d: character %U in a string", line, r)
					}
					v.WriteRune(r)
					i += n
					continue
				}
				if i+1 >= len(s) {
					return nil, fmt.Errorf("line %d: string does not end", line)
				}
				i += 2
				switch s[i-1] {
				case '"', '\\', '/':
					v.WriteByte(s[i-1])
				case 'b':
					v.WriteByte('\b')
				case 'f':
					v.WriteByte('\f')
				case 'n':
					v.WriteByte('\n')
				case 'r':
					v.WriteByte('\r')
				case 't':
					v.WriteByte('\t')
				case 'u':
					var x rune
					if i+4 > len(s) {
						return nil, fmt.Errorf("line %d: bad escape", line)
					}
					if _, err := fmt.Sscanf(s[i:i+4], "%04x", &x); err != nil {
						return nil, fmt.Errorf("line %d: bad escape", line)
					}
					v.WriteRune(x)
					i += 4
				default:
					return nil, fmt.Errorf("line %d: bad escape \\%c", line, s[i-1])
				}
			}
			out = append(out, sdlToken{'s', v.String(), line})
		case strings.IndexByte("!$&()[]{}:=@|", c) >= 0:
			out = append(out, sdlToken{'p', string(c), line})
			i++
		case c == '-' || c >= '0' && c <= '9':
			j := i
			i++
			for i < len(s) && (s[i] >= '0' && s[i] <= '9' || strings.IndexByte("+-.eE", s[i]) >= 0) {
				i++
			}
			if i < len(s) && isName(s[i], true) {
				return nil, fmt.Errorf("line %d: name after a number: %q", line, s[j:i+1])
			}
			out = append(out, sdlToken{'i', s[j:i], line})
		default:
			r, _ := utf8.DecodeRuneInString(s[i:])
			return nil, fmt.Errorf("line %d: unexpected character %q", line, r)
		}
	}
	return append(out, sdlToken{0, "end of file", line}), nil
}

// blockStringValue removes the common indentation and blank lines around a block string (GraphQL specification 2.9.4).
func blockStringValue(raw string) string {
	raw = strings.ReplaceAll(strings.ReplaceAll(raw, "\r\n", "\n"), "\r", "\n")
	lines := strings.Split(raw, "\n")
	common := -1
	for i, l := range lines {
		ind := len(l) - len(strings.TrimLeft(l, " \t"))
		if i > 0 && ind < len(l) && (common < 0 || ind < common) {
			common = ind
		}
	}
	for i := range lines {
		if i > 0 && common > 0 {
			lines[i] = lines[i][min(common, len(lines[i])):]
		}
	}
	for len(lines) > 0 && strings.Trim(lines[0], " \t") == "" {
		lines = lines[1:]
	}
	for len(lines) > 0 && strings.Trim(lines[len(lines)-1], " \t") == "" {
		lines = lines[:len(lines)-1]
	}
	return strings.Join(lines, "\n")
}

type sdlParser struct {
	toks []sdlToken
	pos  int
}

type sdlError struct{ error }

func (p *sdlParser) fail(what string) {
	t := p.toks[p.pos]
	panic(sdlError{fmt.Errorf("line %d: found %q, expected %s", t.line, t.text, what)})
}
func (p *sdlParser) is(kind byte, text string) bool {
	return p.toks[p.pos].kind == kind && (text == "" || p.toks[p.pos].text == text)
}
func (p *sdlParser) eat(kind byte, text string) bool {
	if p.is(kind, text) {
		p.pos++
		return true
	}
	return false
}
func (p *sdlParser) need(kind byte, text, what string) string {
	if !p.is(kind, text) {
		p.fail(what)
	}
	p.pos++
	return p.toks[p.pos-1].text
}
func (p *sdlParser) desc() (string, bool) {
	if p.is('s', "") || p.toks[p.pos].kind == 's' {
		p.pos++
		return p.toks[p.pos-1].text, true
	}
	return "", false
}
func (p *sdlParser) typ() *sdlType {
	var t *sdlType
	if p.eat('p', "[") {
		t = &sdlType{list: p.typ()}
		p.need('p', "]", "]")
	} else {
		t = &sdlType{name: p.need('n', "", "a type")}
	}
	t.nonNull = p.eat('p', "!")
	return t
}
func (p *sdlParser) dirs() []sdlDirective {
	var out []sdlDirective
	seen := map[string]bool{}
	for p.eat('p', "@") {
		d := sdlDirective{name: p.need('n', "", "a directive name"), args: map[string]string{}}
		if seen[d.name] {
			panic(sdlError{fmt.Errorf("directive %s twice", d.name)})
		}
		seen[d.name] = true
		if p.eat('p', "(") {
			for !p.is('p', ")") {
				n := p.need('n', "", "an argument name")
				p.need('p', ":", ":")
				t := p.toks[p.pos]
				switch t.kind {
				case 's':
					d.args[n] = `"` + t.text
				case 'n', 'i':
					d.args[n] = t.text
				default:
					p.fail("a value")
				}
				p.pos++
			}
			p.pos++
			if len(d.args) == 0 {
				p.fail("an argument")
			}
		}
		out = append(out, d)
	}
	return out
}
func (p *sdlParser) field() *sdlField {
	f := &sdlField{}
	f.desc, f.hasDesc = p.desc()
	f.name = p.need('n', "", "a field name")
	if p.eat('p', "(") {
		f.args = p.args()
		p.need('p', ")", ")")
	}
	p.need('p', ":", ":")
	f.typ = p.typ()
	f.dirs = p.dirs()
	return f
}
func (p *sdlParser) args() []sdlArg {
	var out []sdlArg
	seen := map[string]bool{}
	for len(out) == 0 || !p.is('p', ")") && p.toks[p.pos].kind != 0 {
		var a sdlArg
		a.desc, _ = p.desc()
		a.name = p.need('n', "", "an argument name")
		p.need('p', ":", ":")
		a.typ = p.typ()
		if seen[a.name] {
			panic(sdlError{fmt.Errorf("argument %s twice", a.name)})
		}
		seen[a.name] = true
		out = append(out, a)
	}
	return out
}
func (p *sdlParser) doc() []*sdlDef {
	var out []*sdlDef
	for p.toks[p.pos].kind != 0 {
		d := &sdlDef{byName: map[string]*sdlField{}}
		d.desc, d.hasDesc = p.desc()
		d.kind = p.need('n', "", "a definition")
		switch d.kind {
		case "scalar", "type", "interface":
		default:
			p.pos--
			p.fail("scalar, type or interface")
		}
		d.name = p.need('n', "", "a type name")
		if d.kind != "scalar" && p.eat('n', "implements") {
			p.eat('p', "&")
			d.implements = append(d.implements, p.need('n', "", "an interface"))
			for p.eat('p', "&") {
				d.implements = append(d.implements, p.need('n', "", "an interface"))
			}
		}
		d.dirs = p.dirs()
		if d.kind != "scalar" {
			p.need('p', "{", "{")
			for !p.eat('p', "}") {
				f := p.field()
				if d.byName[f.name] != nil {
					panic(sdlError{fmt.Errorf("%s has the field %s twice", d.name, f.name)})
				}
				d.byName[f.name] = f
				d.fields = append(d.fields, f)
			}
			if len(d.fields) == 0 {
				panic(sdlError{fmt.Errorf("%s has no fields", d.name)})
			}
		}
		out = append(out, d)
	}
	return out
}

func sdlRun[T any](s string, f func(p *sdlParser) T) (v T, err error) {
	toks, err := sdlLex(s)
	if err != nil {
		return v, err
	}
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(sdlError)
			if !ok {
				panic(r)
			}
			err = e.error
		}
	}()
	p := &sdlParser{toks: toks}
	v = f(p)
	if p.toks[p.pos].kind != 0 {
		p.fail("the end")
	}
	return v, nil
}

// parseSDL parses a schema file.
func parseSDL(s string) ([]*sdlDef, error) { return sdlRun(s, (*sdlParser).doc) }

// parseSDLType parses a type reference.
func parseSDLType(s string) (*sdlType, error) { return sdlRun(s, (*sdlParser).typ) }

// parseSDLArgs parses argument definitions.
func parseSDLArgs(s string) ([]sdlArg, error) { return sdlRun(s, (*sdlParser).args) }
