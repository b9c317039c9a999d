// Package ref is an independent, plain statement of what the library should do: the EOSIO wire format,
// base58check, RIPEMD-160 and the text rules. It shares no code with the library.
package ref

import (
	"errors"
	"fmt"
	"strings"
)

// Kind of a type.
type Kind int

const (
	Bool Kind = iota
	U8
	U16
	U32
	U64
	I8
	I16
	I32
	I64
	F32
	F64
	VarU // varuint32
	VarI // varint32
	Str
	Raw    // []byte
	Bytes  // chain.Bytes
	Blob   // chain.Blob
	CU64   // chain.Uint64
	BlkNum // chain.BlockNum
	Name
	Sym
	SymCode
	Asset
	ExtAsset
	TP
	TPS
	BTS
	U128
	I128
	F128
	C160
	C256
	C512
	PubKey
	Sig
	NU64 // user-defined named integers
	NU32
	NI64
	NI32
	NStr // not supported by the typed codec; ABI only
	LeafEnd
	Slice
	Array
	Map
	Struct
	Ptr
	Variant // inside struct fields or top level, typed decode and ABI only
	Opt     // optional, in struct fields and (through an alias) in ABI types
	Cust    // Elem in a form of the user's own, in style N
	Unknown // a name that an ABI definition does not define: any use of it is an error
)

var kindNames = map[Kind]string{Bool: "bool", U8: "uint8", U16: "uint16", U32: "uint32", U64: "uint64", I8: "int8", I16: "int16", I32: "int32", I64: "int64", F32: "float32", F64: "float64",
	VarU: "varuint32", VarI: "varint32", Str: "string", Raw: "bytes", Bytes: "bytes", Blob: "bytes", CU64: "uint64", BlkNum: "uint32", Name: "name", Sym: "symbol", SymCode: "symbol_code", Asset: "asset",
	ExtAsset: "extended_asset", TP: "time_point", TPS: "time_point_sec", BTS: "block_timestamp_type", U128: "uint128", I128: "int128", F128: "float128", C160: "checksum160", C256: "checksum256",
	C512: "checksum512", PubKey: "public_key", Sig: "signature", NU64: "uint64", NU32: "uint32", NI64: "int64", NI32: "int32"}

// ABIName is the name an ABI definition uses for a leaf kind.
func (k Kind) ABIName() string { return kindNames[k] }

// Mode of a struct field.
type Mode int

const (
	Plain Mode = iota
	Optional
	Extension
	VariantField
)

type Field struct {
	Name string
	T    *Ty
	Mode Mode
	Val  bool // Optional or Extension held by value instead of by pointer in the typed codec
}

type Ty struct {
	K    Kind
	Elem *Ty
	Key  *Ty
	N    int
	F    []Field     // struct fields, variant alternatives
	ID   string      // fixed Go type (props)
	Take func() bool // Cust: whether this occurrence has the form, or that of Else
	Else *Ty
}

func (t *Ty) String() string {
	if t.ID != "" {
		return t.ID
	}
	switch t.K {
	case Slice:
		return "[]" + t.Elem.String()
	case Array:
		return fmt.Sprintf("[%d]%s", t.N, t.Elem)
	case Map:
		return "map[" + t.Key.String() + "]" + t.Elem.String()
	case Ptr:
		return "*" + t.Elem.String()
	case Opt:
		return "?" + t.Elem.String()
	case Cust:
		return fmt.Sprintf("<%d:%s>", t.N, t.Elem)
	case Unknown:
		return "unknown"
	case Struct, Variant:
		if t.ID != "" {
			return t.ID
		}
		var b strings.Builder
		b.WriteString(map[Kind]string{Struct: "struct{", Variant: "variant{"}[t.K])
		for i, f := range t.F {
			if i > 0 {
				b.WriteString("; ")
			}
			b.WriteString(f.T.String())
			switch f.Mode {
			case Optional:
				b.WriteString("?")
			case Extension:
				b.WriteString("$")
			}
			if f.Val {
				b.WriteString("v")
			}
		}
		return b.String() + "}"
	}
	return [...]string{"bool", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64", "varuint", "varint", "string", "[]byte", "Bytes", "Blob", "Uint64", "BlockNum", "Name", "Symbol", "SymbolCode", "Asset", "ExtendedAsset", "TimePoint", "TimePointSec", "BlockTimestamp", "Uint128", "Int128", "Float128", "Checksum160", "Checksum256", "Checksum512", "PublicKey", "Signature", "NU64", "NU32", "NI64", "NI32", "NStr"}[t.K]
}

// Val is an abstract value.
type Val struct {
	U, Hi, X uint64 // integers (two's complement); asset: amount, symbol; extended asset: and contract; key type
	B        []byte // strings, byte strings, checksums, key data
	L        []*Val // elements, fields, alternating keys and values; the alternative of a variant; an optional's content
	Nil      bool   // absent optional
	Gone     bool   // absent extension
	Tag      int    // variant alternative
}

// Size of a leaf with fixed size, 0 otherwise.
func Fixed(k Kind) int {
	switch k {
	case Bool, U8, I8:
		return 1
	case U16, I16:
		return 2
	case U32, I32, F32, BlkNum, TPS, BTS, NU32, NI32:
		return 4
	case U64, I64, F64, CU64, Name, Sym, SymCode, TP, NU64, NI64:
		return 8
	case U128, I128, F128, Asset:
		return 16
	case ExtAsset:
		return 24
	case C160:
		return 20
	case C256:
		return 32
	case C512:
		return 64
	}
	return 0
}

// Mark is a point of interest in an encoding.
type Mark struct {
	Off  int
	Kind string // "ext": an extension field starts here; "len": a length; "tag": a variant index; "flag": an optional's flag
}

// Encoder state of the reference encoder.
type Enc struct {
	B     []byte
	Marks []Mark
}

func (e *Enc) le(v uint64, n int) {
	for i := 0; i < n; i++ {
		e.B = append(e.B, byte(v>>(8*i)))
	}
}

// PutVarU appends a varuint32.
func PutVarU(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func (e *Enc) mark(k string) { e.Marks = append(e.Marks, Mark{len(e.B), k}) }

// Encode gives the wire form of v.
func Encode(t *Ty, v *Val) *Enc {
	e := &Enc{}
	e.enc(t, v)
	return e
}

func (e *Enc) enc(t *Ty, v *Val) {
	switch t.K {
	case VarU:
		e.B = PutVarU(e.B, v.U)
	case VarI:
		x := int64(v.U)
		e.B = PutVarU(e.B, uint64(uint32(int32(x)<<1^int32(x)>>31)))
	case Str, NStr, Raw, Bytes, Blob:
		e.mark("len")
		e.B = PutVarU(e.B, uint64(len(v.B)))
		e.B = append(e.B, v.B...)
	case Asset:
		e.le(v.U, 8)
		e.le(v.Hi, 8)
	case ExtAsset:
		e.le(v.U, 8)
		e.le(v.Hi, 8)
		e.le(v.X, 8)
	case U128, I128:
		e.le(v.U, 8)
		e.le(v.Hi, 8)
	case F128, C160, C256, C512:
		e.B = append(e.B, v.B...)
	case PubKey, Sig:
		e.mark("tag")
		e.B = append(e.B, byte(v.U))
		e.B = append(e.B, v.B...)
	case Slice:
		e.mark("len")
		e.B = PutVarU(e.B, uint64(len(v.L)))
		for _, x := range v.L {
			e.enc(t.Elem, x)
		}
	case Array:
		for _, x := range v.L {
			e.enc(t.Elem, x)
		}
	case Map:
		e.mark("len")
		e.B = PutVarU(e.B, uint64(len(v.L)/2))
		for i, x := range v.L {
			if i%2 == 0 {
				e.enc(t.Key, x)
			} else {
				e.enc(t.Elem, x)
			}
		}
	case Struct:
		for i, f := range t.F {
			x := v.L[i]
			switch f.Mode {
			case Optional:
				e.mark("flag")
				if x.Nil {
					e.B = append(e.B, 0)
					continue
				}
				e.B = append(e.B, 1)
			case Extension:
				if x.Gone {
					continue
				}
				e.mark("ext")
			}
			e.enc(f.T, x)
		}
	case Ptr:
		e.enc(t.Elem, v.L[0])
	case Opt:
		e.mark("flag")
		if v.Nil {
			e.B = append(e.B, 0)
			return
		}
		e.B = append(e.B, 1)
		e.enc(t.Elem, v.L[0])
	case Cust:
		if t.Take != nil && !t.Take() {
			e.enc(t.Else, v)
			return
		}
		switch t.N {
		case 1, 2:
			b := Mangle(t.N, Encode(t.Elem, v).B)
			if t.N == 1 {
				e.mark("len")
				e.B = PutVarU(e.B, uint64(len(b)))
			}
			e.B = append(e.B, b...)
		default:
			e.B = append(e.B, CustTag)
			e.enc(t.Elem, v)
		}
	case Variant:
		e.mark("tag")
		e.B = PutVarU(e.B, uint64(v.Tag))
		e.enc(t.F[v.Tag].T, v.L[0])
	default:
		n := Fixed(t.K)
		if n == 0 {
			panic("ref: kind")
		}
		e.le(v.U, n)
	}
}

// CustTag precedes a user's form of style 3.
const CustTag = 0xe3

// Mangle turns the wire form into a user's own, and back.
func Mangle(style int, b []byte) []byte {
	m := byte(0x55)
	if style == 2 {
		m = 0xff
	}
	out := make([]byte, len(b))
	for i := range b {
		out[i] = b[i] ^ m
	}
	return out
}

// ErrEnd: the bytes end inside a value. ErrBad: they are no encoding of any value.
var (
	ErrEnd = errors.New("ref: end")
	ErrBad = errors.New("ref: bad")
	// ErrWork: too much work for the reference decoder; nothing is known.
	ErrWork = errors.New("ref: work")
)

// Dec is the reference decoder.
type Dec struct {
	B   []byte
	Pos int
	// Loose is set when the format leaves the result open (a flag byte other than 0 and 1, a
	// number in more bytes than needed, a repeated map key): an error is as good as the value.
	Loose bool
	Work  int
	Depth int
	Pairs bool // maps are lists of pairs (ABI definitions)
}

// MaxWork bounds the reference decoder (elements of no size).
const MaxWork = 1 << 18

func (d *Dec) take(n int) ([]byte, error) {
	if n < 0 || n > len(d.B)-d.Pos {
		d.Pos = len(d.B)
		return nil, ErrEnd
	}
	b := d.B[d.Pos : d.Pos+n]
	d.Pos += n
	return b, nil
}

func (d *Dec) le(n int) (uint64, error) {
	b, err := d.take(n)
	var v uint64
	for i := range b {
		v |= uint64(b[i]) << (8 * i)
	}
	return v, err
}

// VarU reads a varuint32: at most five bytes and 32 bits.
func (d *Dec) VarU() (uint64, error) {
	var v uint64
	for i := 0; ; i++ {
		b, err := d.take(1)
		if err != nil {
			return 0, err
		}
		if i == 4 && b[0] > 0x0f {
			return 0, ErrBad
		}
		v |= uint64(b[0]&0x7f) << (7 * i)
		if b[0] < 0x80 {
			if b[0] == 0 && i > 0 {
				d.Loose = true
			}
			return v, nil
		}
	}
}

func (d *Dec) flag() (bool, error) {
	b, err := d.take(1)
	if err != nil {
		return false, err
	}
	if b[0] > 1 {
		d.Loose = true
	}
	return b[0] != 0, nil
}

func (d *Dec) blob(out []byte) ([]byte, error) {
	n, err := d.VarU()
	if err != nil {
		return nil, err
	}
	b, err := d.take(int(n))
	if err != nil {
		return nil, err
	}
	if out != nil {
		out = PutVarU(out, n)
	}
	return append(out, b...), nil
}

// Decode gives the value of the bytes at d.Pos.
func (d *Dec) Decode(t *Ty) (*Val, error) {
	d.Work++
	if d.Work > MaxWork || d.Depth > 2000 {
		return nil, ErrWork
	}
	d.Depth++
	defer func() { d.Depth-- }()
	v := &Val{}
	var err error
	switch t.K {
	case Bool:
		var f bool
		f, err = d.flag()
		if f {
			v.U = 1
		}
	case VarU:
		v.U, err = d.VarU()
	case VarI:
		var x uint64
		x, err = d.VarU()
		v.U = uint64(int64(int32(uint32(x)>>1) ^ -int32(x&1)))
	case Str, NStr, Raw, Bytes, Blob:
		v.B, err = d.blob(nil)
	case Asset, U128, I128:
		if v.U, err = d.le(8); err == nil {
			v.Hi, err = d.le(8)
		}
	case ExtAsset:
		if v.U, err = d.le(8); err == nil {
			if v.Hi, err = d.le(8); err == nil {
				v.X, err = d.le(8)
			}
		}
	case F128, C160, C256, C512:
		var b []byte
		b, err = d.take(Fixed(t.K))
		v.B = append([]byte(nil), b...)
	case PubKey, Sig:
		if v.U, err = d.le(1); err != nil {
			break
		}
		n, wa := 33, 34
		if t.K == Sig {
			n, wa = 65, 65
		}
		var b []byte
		switch v.U {
		case 0, 1:
			b, err = d.take(n)
			v.B = append([]byte{}, b...)
		case 2:
			if b, err = d.take(wa); err != nil {
				break
			}
			v.B = append([]byte{}, b...)
			if v.B, err = d.blob(v.B); err == nil && t.K == Sig {
				v.B, err = d.blob(v.B)
			}
		default:
			err = ErrBad
		}
	case Slice:
		var n uint64
		if n, err = d.VarU(); err != nil {
			break
		}
		for i := uint64(0); i < n && err == nil; i++ {
			var x *Val
			from := d.Pos
			x, err = d.Decode(t.Elem)
			v.L = append(v.L, x)
			if d.Pos == from && n > 32 {
				d.Loose = true // elements of no size
			}
		}
	case Array:
		for i := 0; i < t.N && err == nil; i++ {
			var x *Val
			x, err = d.Decode(t.Elem)
			v.L = append(v.L, x)
		}
	case Map:
		var n uint64
		if n, err = d.VarU(); err != nil {
			break
		}
		seen := map[string]int{}
		for i := uint64(0); i < n; i++ {
			var k, x *Val
			if k, err = d.Decode(t.Key); err != nil {
				break
			}
			if x, err = d.Decode(t.Elem); err != nil {
				break
			}
			id := string(Encode(t.Key, k).B)
			if j, ok := seen[id]; ok && !d.Pairs {
				d.Loose = true
				v.L[j+1] = x
			} else {
				seen[id] = len(v.L)
				v.L = append(v.L, k, x)
			}
		}
	case Struct:
		for _, f := range t.F {
			var x *Val
			switch f.Mode {
			case Optional:
				var ok bool
				if ok, err = d.flag(); err != nil {
					return nil, err
				}
				if !ok {
					v.L = append(v.L, &Val{Nil: true})
					continue
				}
			case Extension:
				if d.Pos == len(d.B) {
					v.L = append(v.L, &Val{Gone: true})
					continue
				}
			}
			if x, err = d.Decode(f.T); err != nil {
				return nil, err
			}
			v.L = append(v.L, x)
		}
	case Ptr:
		var x *Val
		x, err = d.Decode(t.Elem)
		v.L = []*Val{x}
	case Opt:
		var ok bool
		if ok, err = d.flag(); err != nil {
			break
		}
		if !ok {
			v.Nil = true
			break
		}
		var x *Val
		x, err = d.Decode(t.Elem)
		v.L = []*Val{x}
	case Variant:
		var n uint64
		if n, err = d.VarU(); err != nil {
			break
		}
		if n >= uint64(len(t.F)) {
			err = ErrBad
			break
		}
		v.Tag = int(n)
		var x *Val
		x, err = d.Decode(t.F[n].T)
		v.L = []*Val{x}
	case Unknown:
		err = ErrBad
	default:
		v.U, err = d.le(Fixed(t.K))
		switch t.K {
		case I8:
			v.U = uint64(int64(int8(v.U)))
		case I16:
			v.U = uint64(int64(int16(v.U)))
		case I32, NI32:
			v.U = uint64(int64(int32(v.U)))
		}
	}
	if err != nil {
		return nil, err
	}
	return v, nil
}
