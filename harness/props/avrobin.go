package props

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"hash/crc32"
	"math"
	"regexp"
	"unicode/utf8"
)

// An independent reader of Avro schemas, values and object container files, following the Avro specification.

type avroField struct {
	name string
	doc  string
	typ  *avroType
	def  any
	has  bool // has a default
}

type avroType struct {
	kind    string // null, boolean, int, long, float, double, bytes, string, record, array, map, union
	logical string
	name    string // full name of a record
	fields  []avroField
	items   *avroType
	union   []*avroType
}

var avroName = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*$`)
var avroSpace = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*(\.[A-Za-z_][A-Za-z0-9_]*)*$`)

type avroParser struct{ named map[string]*avroType }

// parseAvroSchema reads a schema.
func parseAvroSchema(b []byte) (*avroType, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	var v any
	if err := d.Decode(&v); err != nil {
		return nil, fmt.Errorf("no JSON: %v", err)
	}
	if d.More() {
		return nil, errors.New("more than one JSON value")
	}
	p := &avroParser{named: map[string]*avroType{}}
	return p.parse(v, "")
}

func (p *avroParser) parse(v any, space string) (*avroType, error) {
	switch x := v.(type) {
	case string:
		switch x {
		case "null", "boolean", "int", "long", "float", "double", "bytes", "string":
			return &avroType{kind: x}, nil
		}
		for _, n := range []string{space + "." + x, x} {
			if t := p.named[n]; t != nil {
				return t, nil
			}
		}
		return nil, fmt.Errorf("unknown type %q", x)
	case []any:
		u := &avroType{kind: "union"}
		seen := map[string]bool{}
		for _, e := range x {
			t, err := p.parse(e, space)
			if err != nil {
				return nil, err
			}
			k := t.kind + t.name
			if t.kind == "union" || seen[k] {
				return nil, fmt.Errorf("invalid union %v", v)
			}
			seen[k] = true
			u.union = append(u.union, t)
		}
		return u, nil
	case map[string]any:
		kind, ok := x["type"].(string)
		if !ok {
			return p.parse(x["type"], space) // {"type": {...}}
		}
		logical, _ := x["logicalType"].(string)
		switch kind {
		case "array", "map":
			k := "items"
			if kind == "map" {
				k = "values"
			}
			if x[k] == nil {
				return nil, fmt.Errorf("%s without %s", kind, k)
			}
			t, err := p.parse(x[k], space)
			return &avroType{kind: kind, items: t, logical: logical}, err
		case "record":
		default:
			t, err := p.parse(kind, space)
			if err != nil {
				return nil, err
			}
			t2 := *t
			t2.logical = logical
			return &t2, nil
		}
		name, _ := x["name"].(string)
		if !avroName.MatchString(name) {
			return nil, fmt.Errorf("invalid record name %q", name)
		}
		if n, ok := x["namespace"]; ok {
			s, _ := n.(string)
			if !avroSpace.MatchString(s) {
				return nil, fmt.Errorf("invalid namespace %q", n)
			}
			space = s
		}
		t := &avroType{kind: "record", name: name}
		if space != "" {
			t.name = space + "." + name
		}
		if p.named[t.name] != nil {
			return nil, fmt.Errorf("the record %s is defined twice", t.name)
		}
		p.named[t.name] = t
		fields, ok := x["fields"].([]any)
		if !ok {
			return nil, fmt.Errorf("record %s without fields", name)
		}
		seen := map[string]bool{}
		for _, f := range fields {
			m, ok := f.(map[string]any)
			if !ok {
				return nil, fmt.Errorf("field %v of %s", f, name)
			}
			n, _ := m["name"].(string)
			if !avroName.MatchString(n) {
				return nil, fmt.Errorf("invalid field name %q in %s", n, name)
			}
			if seen[n] {
				return nil, fmt.Errorf("the field %s of %s is there twice", n, name)
			}
			seen[n] = true
			ft, err := p.parse(m["type"], space)
			if err != nil {
				return nil, fmt.Errorf("field %s: %v", n, err)
			}
			if l, ok := m["logicalType"].(string); ok { // as the generated metadata fields write it
				t2 := *ft
				t2.logical = l
				ft = &t2
			}
			a := avroField{name: n, typ: ft}
			a.doc, _ = m["doc"].(string)
			a.def, a.has = m["default"]
			t.fields = append(t.fields, a)
		}
		return t, nil
	}
	return nil, fmt.Errorf("no schema: %v", v)
}

func (t *avroType) String() string {
	s := t.kind
	if t.logical != "" {
		s += "(" + t.logical + ")"
	}
	switch t.kind {
	case "record":
		s += " " + t.name + "{"
		for _, f := range t.fields {
			s += f.name + ":" + f.typ.String() + " "
		}
		return s + "}"
	case "array", "map":
		return s + "<" + t.items.String() + ">"
	case "union":
		s += "["
		for _, u := range t.union {
			s += u.String() + " "
		}
		return s + "]"
	}
	return s
}

type avroReader struct {
	b   []byte
	err error
}

func (r *avroReader) fail(f string, a ...any) {
	if r.err == nil {
		r.err = fmt.Errorf(f, a...)
	}
	r.b = nil
}

func (r *avroReader) take(n int64) []byte {
	if n < 0 || n > int64(len(r.b)) {
		r.fail("%d bytes wanted, %d left", n, len(r.b))
		return nil
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x
}

func (r *avroReader) long() int64 {
	v, n := binary.Uvarint(r.b)
	if n <= 0 {
		r.fail("bad number")
		return 0
	}
	r.b = r.b[n:]
	return int64(v>>1) ^ -int64(v&1)
}

// AvroRecord is a decoded record.
type avroRecord struct {
	names  []string
	values map[string]any
}

// value decodes a value: nil, bool, int64, float64, string, []any, map[string]any, *avroRecord.
func (r *avroReader) value(t *avroType) any {
	if r.err != nil {
		return nil
	}
	switch t.kind {
	case "null":
		return nil
	case "boolean":
		b := r.take(1)
		if len(b) == 1 && b[0] > 1 {
			r.fail("boolean %x", b)
		}
		return len(b) == 1 && b[0] == 1
	case "int", "long":
		return r.long()
	case "float":
		if b := r.take(4); b != nil {
			return float64(math.Float32frombits(binary.LittleEndian.Uint32(b)))
		}
	case "double":
		if b := r.take(8); b != nil {
			return math.Float64frombits(binary.LittleEndian.Uint64(b))
		}
	case "bytes", "string":
		b := r.take(r.long())
		if t.kind == "string" && !utf8.Valid(b) {
			r.fail("string %q", b)
		}
		return string(b)
	case "record":
		rec := &avroRecord{values: map[string]any{}}
		for _, f := range t.fields {
			rec.names = append(rec.names, f.name)
			rec.values[f.name] = r.value(f.typ)
		}
		return rec
	case "array", "map":
		l := []any{}
		m := map[string]any{}
		for r.err == nil {
			n := r.long()
			if n == 0 {
				break
			}
			if n < 0 {
				n = -n
				r.long()
			}
			for ; n > 0 && r.err == nil; n-- {
				if t.kind == "map" {
					k := string(r.take(r.long()))
					m[k] = r.value(t.items)
				} else {
					l = append(l, r.value(t.items))
				}
			}
		}
		if t.kind == "map" {
			return m
		}
		return l
	case "union":
		i := r.long()
		if i < 0 || i >= int64(len(t.union)) {
			r.fail("union branch %d of %d", i, len(t.union))
			return nil
		}
		return r.value(t.union[i])
	}
	r.fail("type %s", t.kind)
	return nil
}

// unsnappy decompresses a snappy block.
func unsnappy(b []byte) ([]byte, error) {
	size, n := binary.Uvarint(b)
	if n <= 0 {
		return nil, errors.New("snappy: no length")
	}
	b = b[n:]
	var out []byte
	for len(b) > 0 {
		tag := b[0]
		b = b[1:]
		var l, off int
		need := 0
		switch tag & 3 {
		case 0:
			l = int(tag>>2) + 1
			if l > 60 {
				need = l - 60
				if len(b) < need {
					return nil, errors.New("snappy: short literal length")
				}
				l = 0
				for i := need - 1; i >= 0; i-- {
					l = l<<8 | int(b[i])
				}
				l++
			}
			b = b[need:]
			if len(b) < l {
				return nil, errors.New("snappy: short literal")
			}
			out = append(out, b[:l]...)
			b = b[l:]
			continue
		case 1:
			need = 1
		case 2:
			need = 2
		case 3:
			need = 4
		}
		if len(b) < need {
			return nil, errors.New("snappy: short copy")
		}
		switch need {
		case 1:
			l, off = int(tag>>2&7)+4, int(tag>>5)<<8|int(b[0])
		case 2:
			l, off = int(tag>>2)+1, int(binary.LittleEndian.Uint16(b))
		default:
			l, off = int(tag>>2)+1, int(binary.LittleEndian.Uint32(b))
		}
		b = b[need:]
		if off <= 0 || off > len(out) {
			return nil, errors.New("snappy: bad offset")
		}
		for ; l > 0; l-- {
			out = append(out, out[len(out)-off])
		}
	}
	if uint64(len(out)) != size {
		return nil, fmt.Errorf("snappy: %d bytes instead of %d", len(out), size)
	}
	return out, nil
}

// readOCF reads an object container file.
func readOCF(b []byte) (schema []byte, records []*avroRecord, err error) {
	r := &avroReader{b: b}
	if string(r.take(4)) != "Obj\x01" {
		return nil, nil, errors.New("no object container file")
	}
	meta, _ := r.value(&avroType{kind: "map", items: &avroType{kind: "bytes"}}).(map[string]any)
	sync := r.take(16)
	if r.err != nil {
		return nil, nil, r.err
	}
	s, _ := meta["avro.schema"].(string)
	codec, _ := meta["avro.codec"].(string)
	t, err := parseAvroSchema([]byte(s))
	if err != nil {
		return nil, nil, fmt.Errorf("schema of the file: %v", err)
	}
	for len(r.b) > 0 {
		n := r.long()
		data := r.take(r.long())
		end := r.take(16)
		if r.err != nil {
			return nil, nil, r.err
		}
		if !bytes.Equal(end, sync) {
			return nil, nil, errors.New("wrong sync marker")
		}
		switch codec {
		case "snappy":
			if len(data) < 4 {
				return nil, nil, errors.New("no checksum")
			}
			sum := binary.BigEndian.Uint32(data[len(data)-4:])
			if data, err = unsnappy(data[:len(data)-4]); err != nil {
				return nil, nil, err
			}
			if crc32.ChecksumIEEE(data) != sum {
				return nil, nil, errors.New("wrong checksum")
			}
		case "", "null":
		default:
			return nil, nil, fmt.Errorf("codec %q", codec)
		}
		block := &avroReader{b: data}
		for ; n > 0; n-- {
			rec, _ := block.value(t).(*avroRecord)
			if block.err != nil {
				return nil, nil, block.err
			}
			records = append(records, rec)
		}
		if len(block.b) > 0 {
			return nil, nil, fmt.Errorf("%d bytes left in a block", len(block.b))
		}
	}
	return []byte(s), records, nil
}
