package props

import (
	"fmt"
	"io"
	"math"
	"reflect"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/chain"

	"verifsim/core"
	"verifsim/ref"
)

// The ways a program uses the codec.
const (
	PTyped  = iota // chain.NewDecoder/NewEncoder
	PABI           // Abi.Decode/Encode
	PCustom        // chain.NewCustomDecoder/Encoder with a function that declines everything
	PBare          // abi.NewDecoder/Encoder with a function that declines everything
	PAction        // Abi.DecodeAction/EncodeAction
	PPrim          // the Read/Write methods
	PSelf          // the value's own MarshalABI/UnmarshalABI
	PIface         // as PTyped, the destination in an interface
	PValue         // DecodeValue/EncodeValue
	pathCount
)

var pathNames = [...]string{"typed", "abi", "custom", "bare", "action", "primitive", "self", "interface", "value"}

// Msg is a typed value with its wire form.
type Msg struct {
	T    *ref.Ty
	V    *ref.Val
	W    *ref.Enc
	B    *ABIBuild
	Name string
	Act  chain.Name
}

func NewMsg(g *G, t *ref.Ty, absentExt bool) *Msg {
	v := g.Val(t, absentExt)
	return &Msg{T: t, V: v, W: ref.Encode(t, v)}
}

// ABI gives the message an ABI definition.
func (m *Msg) ABI(c core.Chooser) *Msg {
	if m.B == nil {
		m.B = NewABIBuild(c, "")
		m.Name = m.B.Name(m.T)
		m.Act = chain.N("act")
		m.B.Def.Actions = []chain.AbiAction{{Name: chain.N("other"), Type: "uint8"}, {Name: m.Act, Type: m.Name}}
	}
	return m
}

// side is one party's view of a set of types: its own ABI definition.
type side struct {
	b    *ABIBuild
	name map[*ref.Ty]string
	act  map[*ref.Ty]chain.Name
}

func newSide(r *core.R, pre string, ts []*ref.Ty) *side {
	s := &side{b: NewABIBuild(r, pre), name: map[*ref.Ty]string{}, act: map[*ref.Ty]chain.Name{}}
	for i, t := range ts {
		if s.name[t] != "" {
			continue
		}
		s.name[t] = s.b.Name(t)
		s.act[t] = chain.N("act" + string(rune('a'+i)))
		s.b.Def.Actions = append(s.b.Def.Actions, chain.AbiAction{Name: s.act[t], Type: s.name[t]})
	}
	shuffleDef(r, &s.b.Def)
	return s
}

// shuffleDef: the order of a definition's parts is of no consequence.
func shuffleDef(r core.Chooser, d *chain.Abi) {
	mix := func(n int, swap func(i, j int)) {
		for i := n - 1; i > 0 && i < 40; i-- {
			swap(i, i-r.N(i+1))
		}
	}
	mix(len(d.Structs), func(i, j int) { d.Structs[i], d.Structs[j] = d.Structs[j], d.Structs[i] })
	mix(len(d.Actions), func(i, j int) { d.Actions[i], d.Actions[j] = d.Actions[j], d.Actions[i] })
	mix(len(d.Types), func(i, j int) { d.Types[i], d.Types[j] = d.Types[j], d.Types[i] })
	mix(len(d.Variants), func(i, j int) { d.Variants[i], d.Variants[j] = d.Variants[j], d.Variants[i] })
}

func (s *side) msg(m *Msg) *Msg {
	return &Msg{T: m.T, V: m.V, W: m.W, B: s.b, Name: s.name[m.T], Act: s.act[m.T]}
}

func declineD(*abi.Decoder, interface{}) (bool, error) { return false, nil }
func declineE(*abi.Encoder, interface{}) (bool, error) { return false, nil }

func NewDec(path int, r io.Reader) *abi.Decoder {
	switch path {
	case PCustom:
		return chain.NewCustomDecoder(r, declineD)
	case PBare:
		return abi.NewDecoder(r, declineD)
	}
	return chain.NewDecoder(r)
}

func NewEnc(path int, w io.Writer) *abi.Encoder {
	switch path {
	case PCustom:
		return chain.NewCustomEncoder(w, declineE)
	case PBare:
		return abi.NewEncoder(w, declineE)
	}
	return chain.NewEncoder(w)
}

var unmarshaler = reflect.TypeOf((*abi.Unmarshaler)(nil)).Elem()
var marshaler = reflect.TypeOf((*abi.Marshaler)(nil)).Elem()

// DecPath chooses a way to decode the type.
func DecPath(c core.Chooser, t *ref.Ty) int {
	p := c.N(10)
	if hasOpt(t, map[*ref.Ty]bool{}) {
		if p%2 == 0 {
			return PABI
		}
		return PAction
	}
	switch p {
	case 7:
		if p = PTyped; t.K == ref.Struct {
			p = PIface
		}
	case 8:
		if p = PTyped; t.K == ref.Struct || t.K == ref.Slice || t.K == ref.Array || t.K == ref.Map {
			p = PValue
		}
	case 9:
		p = PABI
	}
	if only != nil && (p == PABI || p == PAction || p == PPrim) {
		p = PTyped
	}
	if p == PPrim && !isPrim(t.K) {
		p = PTyped
	}
	if p == PSelf && !reflect.PtrTo(GoType(t)).Implements(unmarshaler) {
		p = PTyped
	}
	return p
}

// EncPath chooses a way to encode the type.
func EncPath(c core.Chooser, t *ref.Ty) int {
	p := DecPath(c, t)
	if hasVariant(t, map[*ref.Ty]bool{}) && p != PABI {
		p = PAction
	}
	return p
}

func isPrim(k ref.Kind) bool { return k <= ref.Raw }

func readPrim(dec *abi.Decoder, t *ref.Ty) (x interface{}, err error) {
	switch t.K {
	case ref.Bool:
		x, err = dec.ReadBool()
	case ref.U8:
		x, err = dec.ReadUint8()
	case ref.U16:
		x, err = dec.ReadUint16()
	case ref.U32:
		x, err = dec.ReadUint32()
	case ref.U64:
		x, err = dec.ReadUint64()
	case ref.I8:
		x, err = dec.ReadInt8()
	case ref.I16:
		x, err = dec.ReadInt16()
	case ref.I32:
		x, err = dec.ReadInt32()
	case ref.I64:
		x, err = dec.ReadInt64()
	case ref.F32:
		x, err = dec.ReadFloat32()
	case ref.F64:
		x, err = dec.ReadFloat64()
	case ref.VarU:
		x, err = dec.ReadVaruint()
	case ref.VarI:
		x, err = dec.ReadVarint()
	case ref.Str:
		x, err = dec.ReadString()
	case ref.Raw:
		var n uint
		if n, err = dec.ReadVaruint(); err == nil {
			var an int
			var b []byte
			an, b, err = dec.ReadBytes(int(n))
			if err == nil && (an != len(b) || len(b) != int(n)) {
				err = fmt.Errorf("simulator: ReadBytes(%d) returned count %d and %d bytes without an error", n, an, len(b))
			}
			x = b
		}
	}
	return
}

func writePrim(e *abi.Encoder, t *ref.Ty, v *ref.Val) error {
	switch t.K {
	case ref.Bool:
		return e.WriteBool(v.U != 0)
	case ref.U8:
		return e.WriteUint8(uint8(v.U))
	case ref.U16:
		return e.WriteUint16(uint16(v.U))
	case ref.U32:
		return e.WriteUint32(uint32(v.U))
	case ref.U64:
		return e.WriteUint64(v.U)
	case ref.I8:
		return e.WriteInt8(int8(v.U))
	case ref.I16:
		return e.WriteInt16(int16(v.U))
	case ref.I32:
		return e.WriteInt32(int32(v.U))
	case ref.I64:
		return e.WriteInt64(int64(v.U))
	case ref.F32:
		return e.WriteFloat32(math.Float32frombits(uint32(v.U)))
	case ref.F64:
		return e.WriteFloat64(math.Float64frombits(v.U))
	case ref.VarU:
		return e.WriteVaruint(uint(v.U))
	case ref.VarI:
		return e.WriteVarint(int(v.U))
	case ref.Str:
		return e.WriteString(string(v.B))
	}
	if err := e.WriteVaruint(uint(len(v.B))); err != nil {
		return err
	}
	return e.WriteBytes(v.B)
}

// Decode decodes one value from dec (typed ways) or r (ABI ways).
func (m *Msg) Decode(path int, r io.Reader, dec *abi.Decoder) (interface{}, error) {
	switch path {
	case PABI:
		return m.B.Def.Decode(r, m.Name)
	case PAction:
		return m.B.Def.DecodeAction(r, m.Act)
	case PPrim:
		return readPrim(dec, m.T)
	case PSelf:
		d := reflect.New(GoType(m.T))
		err := d.Interface().(abi.Unmarshaler).UnmarshalABI(dec)
		return d.Elem().Interface(), err
	}
	d := reflect.New(GoType(m.T))
	if path == PIface {
		x := d.Interface()
		err := dec.Decode(&x)
		return d.Elem().Interface(), err
	}
	if path == PValue {
		err := dec.DecodeValue(d.Elem())
		return d.Elem().Interface(), err
	}
	err := decodeInto(m.T, dec, d)
	return d.Elem().Interface(), err
}

func decodeInto(t *ref.Ty, dec *abi.Decoder, d reflect.Value) error {
	if t.K == ref.Variant {
		return dec.DecodeVariant(d.Interface())
	}
	return dec.Decode(d.Interface())
}

// Want is the dump of the value that path should decode.
func (m *Msg) Want(path int) string { return m.WantVal(path, m.V) }

func (m *Msg) WantVal(path int, v *ref.Val) string {
	if path == PABI || path == PAction {
		return DumpI(m.B.Tree(m.T, v, true))
	}
	return DumpI(ToGo(m.T, v).Interface())
}

// DumpI dumps a value with its dynamic type.
func DumpI(x interface{}) string {
	if x == nil {
		return "nil"
	}
	return fmt.Sprintf("%T:", x) + Dump(x)
}

// Encode encodes the message.
func (m *Msg) Encode(path int, w io.Writer, enc *abi.Encoder, ptr bool) error {
	switch path {
	case PABI:
		return m.B.Def.Encode(w, m.Name, m.B.Tree(m.T, m.V, false))
	case PAction:
		return m.B.Def.EncodeAction(w, m.Act, m.B.Tree(m.T, m.V, false))
	case PPrim:
		return writePrim(enc, m.T, m.V)
	}
	x := ToGo(m.T, m.V)
	if path == PSelf {
		if p := x.Addr(); p.Type().Implements(marshaler) {
			return p.Interface().(abi.Marshaler).MarshalABI(enc)
		}
	}
	if path == PValue {
		if ptr {
			return enc.EncodeValue(x.Addr())
		}
		return enc.EncodeValue(x)
	}
	if ptr {
		return enc.Encode(x.Addr().Interface())
	}
	return enc.Encode(x.Interface())
}
