package ref

import (
	"bytes"
	"encoding/gob"
	"errors"
	"fmt"
)

// Event is the wire envelope; gob matches it by field names.
type Event struct {
	EventType int
	Params    map[string]interface{}
	SrcAddr   string
}

func init() {
	gob.Register(map[string]interface{}{})
}

// Dec decodes one message; it never panics.
func Dec(b []byte) (ev *Event, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	ev = &Event{}
	if err = gob.NewDecoder(bytes.NewReader(b)).Decode(ev); err != nil {
		return nil, err
	}
	return ev, nil
}

func Enc(ev *Event) []byte {
	var buf bytes.Buffer
	if err := gob.NewEncoder(&buf).Encode(ev); err != nil {
		panic(err)
	}
	return buf.Bytes()
}

func GobEnc(v interface{}) []byte {
	var buf bytes.Buffer
	if err := gob.NewEncoder(&buf).Encode(v); err != nil {
		panic(err)
	}
	return buf.Bytes()
}

func GobDec(b []byte, v interface{}) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	return gob.NewDecoder(bytes.NewReader(b)).Decode(v)
}

func (e *Event) B(k string) []byte {
	if e == nil || e.Params == nil {
		return nil
	}
	b, _ := e.Params[k].([]byte)
	return b
}

func (e *Event) S(k string) string {
	s, _ := e.Params[k].(string)
	return s
}

func (e *Event) N(k string) (int, bool) {
	n, ok := e.Params[k].(int)
	return n, ok
}

// Int is a big-endian number field.
func (e *Event) Int(k string) *Int { return new(Int).SetBytes(e.B(k)) }

func (e *Event) Has(k string) bool { _, ok := e.Params[k]; return ok }

// Clone makes a copy whose parameters may be replaced.
func (e *Event) Clone() *Event {
	n := &Event{EventType: e.EventType, SrcAddr: e.SrcAddr, Params: map[string]interface{}{}}
	for k, v := range e.Params {
		if b, ok := v.([]byte); ok {
			v = append([]byte(nil), b...)
		}
		n.Params[k] = v
	}
	return n
}

// ---- protobuf: repeated bytes field 1 ----

func uvarint(b []byte) (uint64, int) {
	var x uint64
	for i := 0; i < len(b) && i < 10; i++ {
		x |= uint64(b[i]&0x7f) << (7 * uint(i))
		if b[i] < 0x80 {
			return x, i + 1
		}
	}
	return 0, 0
}

func putUvarint(x uint64) []byte {
	var b []byte
	for x >= 0x80 {
		b = append(b, byte(x)|0x80)
		x >>= 7
	}
	return append(b, byte(x))
}

type Field struct {
	Num int
	B   []byte
	V   uint64
}

// Fields splits a protobuf message.
func Fields(b []byte) ([]Field, error) {
	var out []Field
	for len(b) > 0 {
		k, n := uvarint(b)
		if n == 0 {
			return nil, errors.New("bad key")
		}
		b = b[n:]
		f := Field{Num: int(k >> 3)}
		switch k & 7 {
		case 0:
			v, n := uvarint(b)
			if n == 0 {
				return nil, errors.New("bad varint")
			}
			f.V = v
			b = b[n:]
		case 2:
			l, n := uvarint(b)
			if n == 0 || uint64(len(b)-n) < l {
				return nil, errors.New("bad length")
			}
			f.B = b[n : n+int(l)]
			b = b[n+int(l):]
		default:
			return nil, errors.New("bad wire type")
		}
		out = append(out, f)
	}
	return out, nil
}

// List decodes a point or secret list.
func List(b []byte) ([]*Int, error) {
	fs, err := Fields(b)
	if err != nil {
		return nil, err
	}
	var out []*Int
	for _, f := range fs {
		if f.Num != 1 {
			return nil, errors.New("unexpected field")
		}
		out = append(out, new(Int).SetBytes(f.B))
	}
	return out, nil
}

func EncList(l []*Int) []byte {
	var b []byte
	for _, x := range l {
		e := Bytes(x)
		b = append(b, 0x0a)
		b = append(b, putUvarint(uint64(len(e)))...)
		b = append(b, e...)
	}
	return b
}

// Bools decodes a BoolList.
func Bools(b []byte) ([]bool, error) {
	fs, err := Fields(b)
	if err != nil {
		return nil, err
	}
	var out []bool
	for _, f := range fs {
		if f.B != nil { // packed
			for _, c := range f.B {
				out = append(out, c != 0)
			}
		} else {
			out = append(out, f.V != 0)
		}
	}
	return out, nil
}

func EncBools(l []bool) []byte {
	// packed, as the library encodes it
	b := []byte{0x0a}
	b = append(b, putUvarint(uint64(len(l)))...)
	for _, x := range l {
		if x {
			b = append(b, 1)
		} else {
			b = append(b, 0)
		}
	}
	return b
}

type Assignment struct {
	NymR, Nym *Int
	Addr      string
	Raw       []byte
}

func DecAssignment(b []byte) (a Assignment, err error) {
	fs, err := Fields(b)
	if err != nil {
		return a, err
	}
	a.Raw = b
	n := 0
	for _, f := range fs {
		switch f.Num {
		case 1:
			a.NymR = new(Int).SetBytes(f.B)
			n |= 1
		case 2:
			a.Addr = string(f.B)
			n |= 2
		case 3:
			a.Nym = new(Int).SetBytes(f.B)
			n |= 4
		}
	}
	if n != 7 {
		return a, errors.New("incomplete assignment")
	}
	return a, nil
}

func EncAssignment(nymR *Int, addr string, nym *Int) []byte {
	var b []byte
	put := func(num int, v []byte) {
		b = append(b, byte(num<<3|2))
		b = append(b, putUvarint(uint64(len(v)))...)
		b = append(b, v...)
	}
	put(1, Bytes(nymR))
	put(2, []byte(addr))
	put(3, Bytes(nym))
	return b
}

func DecAssignments(b []byte) ([]Assignment, error) {
	var raw [][]byte
	if err := GobDec(b, &raw); err != nil {
		return nil, err
	}
	var out []Assignment
	for _, r := range raw {
		a, err := DecAssignment(r)
		if err != nil {
			return nil, err
		}
		out = append(out, a)
	}
	return out, nil
}

// ---- signed messages ----

func MsgPost(e *Event) []byte {
	return append(append(U32(len(e.S("bridge_addr"))), e.S("bridge_addr")...), e.B("nym")...)
}

func MsgRequest(e *Event) []byte {
	ind, _ := e.N("ind")
	m := U32(ind)
	for _, k := range []string{"nym", "FOCommd", "PCommd", "PCommind", "rind", "arg_nonneg", "arg_equal"} {
		m = append(m, e.B(k)...)
	}
	return m
}

func MsgGot(e *Event) []byte {
	return append(append([]byte(nil), e.B("assignment")...), e.B("signatures")...)
}
