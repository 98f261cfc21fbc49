// Package gendrv is linked into the programs that exercise generated packages: each program reads one request for every
// type from standard input, runs it against the compiled code and reports what it saw.
package gendrv

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"runtime/debug"
	"testing/iotest"
	"time"

	"github.com/GannettDigital/msgp/msgp"
)

// Request asks for one type to be exercised.
type Request struct {
	Type  string            `json:"type"`
	Docs  []json.RawMessage `json:"docs"`
	Bytes [][]byte          `json:"bytes,omitempty"` // inputs for the decoders
	Flips []Flip            `json:"flips,omitempty"`
	Hist  []Write           `json:"hist,omitempty"`
}

// Flip replaces one byte of an encoding; the position counts in thousandths of its length.
type Flip struct {
	At int  `json:"at"`
	To byte `json:"to"`
}

// Write is one use of the Avro writers.
type Write struct {
	Kind  string `json:"kind"`            // one, deleted, bulk, nilOne, nilDeleted
	Docs  []int  `json:"docs"`            // indexes of documents, -1 for nil (bulk)
	Time  int64  `json:"time"`            // the write time in milliseconds
	Nanos int64  `json:"nanos"`           // below them
	Zone  int    `json:"zone"`            // seconds east of UTC
	Now   bool   `json:"now"`             // no time given
	Fail  int    `json:"fail,omitempty"`  // the writer fails at this byte (plus 1)
	Chunk bool   `json:"chunk,omitempty"` // the items come slowly
}

// Result of one request.
type Result struct {
	Err    string   `json:"err,omitempty"`
	Counts []int    `json:"counts,omitempty"`
	Writes []Output `json:"writes,omitempty"`
}

// Output of one Write.
type Output struct {
	Hex    string   `json:"hex"`
	Errs   []string `json:"errs,omitempty"`
	Before int64    `json:"before"` // milliseconds
	After  int64    `json:"after"`
	Sent   int      `json:"sent"` // items taken by the bulk writer
	Hung   bool     `json:"hung"`
	Failed bool     `json:"failed"` // the destination failed
	Same   bool     `json:"same"`   // the value was left as it was
}

// Type is what a program knows about a generated type.
type Type struct {
	msgp func(r Request) Result
	avro func(r Request) Result
}

// MsgpType is the interface of the generated MessagePack code.
type MsgpType[T any] interface {
	*T
	msgp.Encodable
	msgp.Decodable
	msgp.Marshaler
	msgp.Unmarshaler
	msgp.Sizer
}

// AvroType is the interface of the generated Avro helpers.
type AvroType[T any] interface {
	*T
	WriteAvroCF(io.Writer, time.Time) error
	WriteAvroDeletedCF(io.Writer, time.Time) error
}

var errStop = errors.New("stop")

// same compares two values; empty and missing lists and maps are alike, times are instants.
func same(a, b reflect.Value, path string) error {
	if a.IsValid() != b.IsValid() {
		return fmt.Errorf("%s: missing on one side", path)
	}
	if !a.IsValid() {
		return nil
	}
	if a.Type() != b.Type() {
		return fmt.Errorf("%s: %v became %v", path, a.Type(), b.Type())
	}
	if x, ok := a.Interface().(time.Time); ok {
		if y := b.Interface().(time.Time); !x.Equal(y) {
			return fmt.Errorf("%s: %v became %v", path, x, y)
		}
		return nil
	}
	switch a.Kind() {
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() != b.IsNil() {
			return fmt.Errorf("%s: nil on one side (%v, %v)", path, a.IsNil(), b.IsNil())
		}
		if a.IsNil() {
			return nil
		}
		return same(a.Elem(), b.Elem(), path)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if err := same(a.Field(i), b.Field(i), path+"."+a.Type().Field(i).Name); err != nil {
				return err
			}
		}
		return nil
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Errorf("%s: %d items became %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if err := same(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); err != nil {
				return err
			}
		}
		return nil
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Errorf("%s: %d members became %d", path, a.Len(), b.Len())
		}
		for _, k := range a.MapKeys() {
			if err := same(a.MapIndex(k), b.MapIndex(k), fmt.Sprintf("%s[%v]", path, k)); err != nil {
				return err
			}
		}
		return nil
	}
	if x, y := a.Interface(), b.Interface(); x != y {
		return fmt.Errorf("%s: %#v became %#v", path, x, y)
	}
	return nil
}

// huge tells whether some position of the input could be read as a header announcing very many items.
func huge(b []byte) bool {
	for i, c := range b {
		switch c {
		case 0xdd, 0xdf, 0xdb, 0xc6, 0xc9:
			if i+4 < len(b) && (b[i+1] != 0 || b[i+2] > 1) {
				return true
			}
		}
	}
	return false
}

func guard(what string, err *error) {
	if r := recover(); r != nil {
		*err = fmt.Errorf("%s: panic: %v\n%s", what, r, debug.Stack())
	}
}

// Msgp exercises the MessagePack code of a type.
func Msgp[T any, P MsgpType[T]]() Type {
	unmarshal := func(what string, z P, b []byte) (rest []byte, err error) {
		defer guard(what, &err)
		return z.UnmarshalMsg(b)
	}
	decode := func(what string, z P, r io.Reader) (err error) {
		defer guard(what, &err)
		return msgp.Decode(r, z)
	}
	panicked := func(err error) bool { return err != nil && bytes.Contains([]byte(err.Error()), []byte(": panic: ")) }
	one := func(r Request, doc json.RawMessage, dirty P, counts []int) (err error) {
		defer guard("MessagePack of "+string(doc), &err)
		v := P(new(T))
		if err := json.Unmarshal(doc, v); err != nil {
			return fmt.Errorf("decoding %s: %v", doc, err)
		}
		eq := func(w P, what string) error {
			if err := same(reflect.ValueOf(v).Elem(), reflect.ValueOf(w).Elem(), "z"); err != nil {
				return fmt.Errorf("%s of %s: %v", what, doc, err)
			}
			return nil
		}
		b, err := v.MarshalMsg(nil)
		if err != nil {
			return fmt.Errorf("MarshalMsg of %s: %v", doc, err)
		}
		if n := v.Msgsize(); n < len(b) {
			return fmt.Errorf("Msgsize of %s is %d, the encoding has %d bytes", doc, n, len(b))
		}
		if got, err := v.MarshalMsg([]byte("before")); err != nil || len(got) != 6+len(b) || string(got[:6]) != "before" {
			return fmt.Errorf("MarshalMsg behind other bytes of %s: %x, %v", doc, got, err)
		}
		w := P(new(T))
		rest, err := unmarshal("UnmarshalMsg", w, append(append([]byte{}, b...), "after"...))
		if err != nil || string(rest) != "after" {
			return fmt.Errorf("UnmarshalMsg of %s: rest %x, %v", doc, rest, err)
		}
		if err := eq(w, "MarshalMsg, UnmarshalMsg"); err != nil {
			return err
		}
		var buf bytes.Buffer
		if err := msgp.Encode(&buf, v); err != nil {
			return fmt.Errorf("EncodeMsg of %s: %v", doc, err)
		}
		e := buf.Bytes()
		if len(e) > v.Msgsize() {
			return fmt.Errorf("Msgsize of %s is %d, EncodeMsg wrote %d bytes", doc, v.Msgsize(), len(e))
		}
		w = P(new(T))
		if rest, err := unmarshal("UnmarshalMsg", w, e); err != nil || len(rest) > 0 {
			return fmt.Errorf("EncodeMsg, UnmarshalMsg of %s: rest %x, %v", doc, rest, err)
		}
		if err := eq(w, "EncodeMsg, UnmarshalMsg"); err != nil {
			return err
		}
		for _, x := range [][]byte{b, e} {
			w = P(new(T))
			if err := decode("DecodeMsg", w, iotest.OneByteReader(bytes.NewReader(x))); err != nil {
				return fmt.Errorf("DecodeMsg of %s: %v", doc, err)
			}
			if err := eq(w, "DecodeMsg"); err != nil {
				return err
			}
		}
		// over the value before
		if _, err := unmarshal("UnmarshalMsg", dirty, b); err != nil {
			return fmt.Errorf("UnmarshalMsg over another value of %s: %v", doc, err)
		}
		if err := eq(dirty, "UnmarshalMsg over another value"); err != nil {
			return err
		}
		if err := eq(v, "the value after encoding"); err != nil {
			return err
		}
		// truncated
		step := 1 + len(b)/200
		for n := 0; n < len(b); n += step {
			counts[0]++
			if rest, err := unmarshal("UnmarshalMsg of a part", P(new(T)), b[:n:n]); err == nil || panicked(err) {
				return fmt.Errorf("UnmarshalMsg of the first %d of %d bytes %x of %s: rest %x, %v", n, len(b), b[:n], doc, rest, err)
			}
			if err := decode("DecodeMsg of a part", P(new(T)), bytes.NewReader(b[:n])); err == nil || panicked(err) {
				return fmt.Errorf("DecodeMsg of the first %d of %d bytes %x of %s: %v", n, len(b), b[:n], doc, err)
			}
		}
		// changed bytes
		for _, f := range r.Flips {
			x := append([]byte{}, b...)
			x[f.At*len(b)/1000] = f.To
			if huge(x) {
				continue
			}
			counts[1]++
			if _, err := unmarshal("UnmarshalMsg of changed bytes", P(new(T)), x); panicked(err) {
				return fmt.Errorf("UnmarshalMsg of %x: %v", x, err)
			}
			if err := decode("DecodeMsg of changed bytes", P(new(T)), bytes.NewReader(x)); panicked(err) {
				return fmt.Errorf("DecodeMsg of %x: %v", x, err)
			}
		}
		return nil
	}
	return Type{msgp: func(r Request) Result {
		res := Result{Counts: make([]int, 3)}
		dirty := P(new(T))
		for _, doc := range r.Docs {
			if err := one(r, doc, dirty, res.Counts); err != nil {
				res.Err = err.Error()
				return res
			}
		}
		for _, x := range r.Bytes {
			if huge(x) {
				continue
			}
			res.Counts[2]++
			if _, err := unmarshal("UnmarshalMsg of arbitrary bytes", P(new(T)), x); panicked(err) {
				res.Err = fmt.Sprintf("UnmarshalMsg of %x: %v", x, err)
				return res
			}
			if err := decode("DecodeMsg of arbitrary bytes", P(new(T)), bytes.NewReader(x)); panicked(err) {
				res.Err = fmt.Sprintf("DecodeMsg of %x: %v", x, err)
				return res
			}
		}
		return res
	}}
}

type failing struct {
	buf  bytes.Buffer
	left int // bytes until the failure; negative: never
	done bool
}

func (f *failing) Write(p []byte) (int, error) {
	if f.left < 0 || len(p) <= f.left {
		if f.left >= 0 {
			f.left -= len(p)
		}
		return f.buf.Write(p)
	}
	n, _ := f.buf.Write(p[:f.left])
	f.left, f.done = 0, true
	return n, errStop
}

// Avro exercises the Avro code of a type.
func Avro[T any, P AvroType[T]](bulk func(io.Writer, time.Time, <-chan *T) <-chan error) Type {
	value := func(doc json.RawMessage) (P, error) {
		v := P(new(T))
		err := json.Unmarshal(doc, v)
		return v, err
	}
	one := func(r Request, w Write) (out Output, err error) {
		defer guard(fmt.Sprintf("%+v with %s", w, r.Docs), &err)
		var at time.Time
		if !w.Now {
			at = time.UnixMilli(w.Time).Add(time.Duration(w.Nanos)).In(time.FixedZone("", w.Zone))
		}
		f := &failing{left: w.Fail - 1}
		fail := func(err error) {
			if err != nil {
				out.Errs = append(out.Errs, err.Error())
			}
		}
		out.Before = time.Now().UnixMilli()
		switch w.Kind {
		case "nilOne":
			fail(P(nil).WriteAvroCF(f, at))
		case "nilDeleted":
			fail(P(nil).WriteAvroDeletedCF(f, at))
		case "one", "deleted":
			v, err := value(r.Docs[w.Docs[0]])
			if err != nil {
				return out, err
			}
			if w.Kind == "one" {
				fail(v.WriteAvroCF(f, at))
			} else {
				fail(v.WriteAvroDeletedCF(f, at))
			}
			again, _ := value(r.Docs[w.Docs[0]])
			out.Same = same(reflect.ValueOf(again).Elem(), reflect.ValueOf(v).Elem(), "z") == nil
		case "bulk":
			ch := make(chan *T)
			errs := bulk(f, at, ch)
			timeout := time.After(20 * time.Second)
			out.Same = true
		items:
			for _, i := range w.Docs {
				var v P
				if i >= 0 {
					if v, err = value(r.Docs[i]); err != nil {
						return out, err
					}
				}
				if w.Chunk {
					time.Sleep(time.Millisecond)
				}
				select {
				case ch <- v:
					out.Sent++
				case err, ok := <-errs:
					if !ok {
						errs = nil
						fail(errors.New("the error channel was closed without an error while items were sent"))
					} else if err != nil {
						fail(err)
					}
					break items
				case <-timeout:
					out.Hung = true
					break items
				}
			}
			close(ch)
			for errs != nil {
				select {
				case err, ok := <-errs:
					if !ok {
						errs = nil
					} else {
						fail(err)
					}
				case <-timeout:
					out.Hung = true
					errs = nil
				}
			}
		default:
			return out, fmt.Errorf("unknown use %q", w.Kind)
		}
		out.After = time.Now().UnixMilli()
		out.Failed = f.done
		out.Hex = hex.EncodeToString(f.buf.Bytes())
		return out, nil
	}
	return Type{avro: func(r Request) Result {
		var res Result
		for _, w := range r.Hist {
			o, err := one(r, w)
			if err != nil {
				res.Err = err.Error()
				return res
			}
			res.Writes = append(res.Writes, o)
		}
		return res
	}}
}

// Run answers the requests on standard input.
func Run(types map[string][]Type) {
	var reqs []Request
	if err := json.NewDecoder(os.Stdin).Decode(&reqs); err != nil {
		fmt.Fprintln(os.Stderr, "gendrv:", err)
		os.Exit(3)
	}
	var out []Result
	for _, r := range reqs {
		var res Result
		for _, t := range types[r.Type] {
			if t.msgp != nil {
				x := t.msgp(r)
				res.Err, res.Counts = res.Err+x.Err, x.Counts
			}
			if t.avro != nil {
				x := t.avro(r)
				res.Err, res.Writes = res.Err+x.Err, x.Writes
			}
		}
		out = append(out, res)
	}
	json.NewEncoder(os.Stdout).Encode(out)
}
