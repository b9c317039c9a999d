package props

import (
	"fmt"
	"math"
	"reflect"
	"sort"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/chain"

	"verifsim/ref"
)

// Types of a user's program with their own binary form.
type (
	URaw struct {
		A uint16
		B []byte
	}
	UNum  uint64
	UStr  string
	UArr  [3]uint8
	UList []uint16
	UMap  map[uint8]string
	UNest struct {
		A uint32
		B []chain.Name
		C *Transfer
		D UNum
	}
	UPtr  struct{ A uint32 } // marshal method on the pointer: used by pointer only
	UHalf struct{ A int64 }  // unmarshal method only
	UEmit struct{ A int64 }  // marshal method only
)

type userTy struct {
	ty    *ref.Ty
	style int
	inner *ref.Ty // style 3: what is encoded by the encoder, instead of the fields one by one
}

var userTys = map[reflect.Type]*userTy{}
var userList []*ref.Ty // leaves
var userKeys []*ref.Ty

// ust watches the methods of the user's types; one run at a time uses it.
var ust userState

type userState struct {
	calls  []string
	failAt int
	late   bool // the failing call does its work first
	err    error
}

func (u *userState) reset() { *u = userState{failAt: -1} }

func (u *userState) enter(t reflect.Type) (error, bool) {
	u.calls = append(u.calls, t.Name())
	if len(u.calls)-1 == u.failAt {
		return u.err, u.late
	}
	return nil, false
}

func init() {
	reg := func(x interface{}, k *ref.Ty, style int, inner *ref.Ty) *ref.Ty {
		t := reflect.TypeOf(x)
		k.ID = t.String()
		goMemo[k.ID] = t
		tyMemo[t] = k
		userTys[t] = &userTy{k, style, inner}
		return k
	}
	f := func(ts ...*ref.Ty) (fs []ref.Field) {
		for i, t := range ts {
			fs = append(fs, ref.Field{Name: fname(i), T: t})
		}
		return
	}
	l := func(k ref.Kind) *ref.Ty { return &ref.Ty{K: k} }
	raw := reg(URaw{}, &ref.Ty{K: ref.Struct, F: f(l(ref.U16), l(ref.Raw))}, 1, nil)
	num := reg(UNum(0), l(ref.U64), 2, nil)
	str := reg(UStr(""), l(ref.Str), 1, nil)
	arr := reg(UArr{}, &ref.Ty{K: ref.Array, N: 3, Elem: l(ref.U8)}, 2, nil)
	list := reg(UList{}, &ref.Ty{K: ref.Slice, Elem: l(ref.U16)}, 3, &ref.Ty{K: ref.Slice, Elem: l(ref.U16)})
	mp := reg(UMap{}, &ref.Ty{K: ref.Map, Key: l(ref.U8), Elem: l(ref.Str)}, 3, &ref.Ty{K: ref.Map, Key: l(ref.U8), Elem: l(ref.Str)})
	nest := reg(UNest{}, &ref.Ty{K: ref.Struct, F: f(l(ref.U32), &ref.Ty{K: ref.Slice, Elem: l(ref.Name)}, &ref.Ty{K: ref.Ptr, Elem: TyOf(reflect.TypeOf(Transfer{}))}, num)}, 3, nil)
	ptr := reg(UPtr{}, &ref.Ty{K: ref.Struct, F: f(l(ref.U32))}, 2, nil)
	half := reg(UHalf{}, &ref.Ty{K: ref.Struct, F: f(l(ref.I64))}, 2, nil)
	emit := reg(UEmit{}, &ref.Ty{K: ref.Struct, F: f(l(ref.I64))}, 2, nil)
	userList = []*ref.Ty{raw, num, str, arr, list, mp, nest, {K: ref.Ptr, Elem: ptr}, half, emit, {K: ref.Ptr, Elem: nest}, {K: ref.Ptr, Elem: num}}
	userKeys = []*ref.Ty{num, str, arr}
}

func uEnc(e *abi.Encoder, x reflect.Value) error {
	err, late := ust.enter(x.Type())
	if err != nil && !late {
		return err
	}
	u := userTys[x.Type()]
	if werr := writeOwn(e, u.style, ref.Encode(u.ty, FromGo(u.ty, x)).B); werr != nil {
		return werr
	}
	return err
}

func writeOwn(e *abi.Encoder, style int, plain []byte) error {
	b := ref.Mangle(style, plain)
	if style == 1 {
		if err := e.WriteVaruint(uint(len(b))); err != nil {
			return err
		}
	}
	return e.WriteBytes(b)
}

// uNest encodes in style 3.
func uNest(e *abi.Encoder, t reflect.Type, parts ...interface{}) error {
	err, late := ust.enter(t)
	if err != nil && !late {
		return err
	}
	if werr := e.WriteByte(ref.CustTag); werr != nil {
		return werr
	}
	for _, p := range parts {
		if werr := e.Encode(p); werr != nil {
			return werr
		}
	}
	return err
}

func uDec(d *abi.Decoder, p reflect.Value) error {
	err, late := ust.enter(p.Type().Elem())
	if err != nil && !late {
		return err
	}
	u := userTys[p.Type().Elem()]
	if rerr := readOwn(d, u.style, u.ty, p.Elem()); rerr != nil {
		return rerr
	}
	return err
}

func readOwn(d *abi.Decoder, style int, t *ref.Ty, x reflect.Value) error {
	n := uint(0)
	if style == 1 {
		var err error
		if n, err = d.ReadVaruint(); err != nil {
			return err
		}
	} else {
		n = uint(MinSize2(t))
	}
	_, b, err := d.ReadBytes(int(n))
	if err != nil {
		return err
	}
	rd := &ref.Dec{B: ref.Mangle(style, b)}
	v, err := rd.Decode(t)
	if err != nil || rd.Pos != len(b) {
		return fmt.Errorf("user's form: %v, %d of %d bytes", err, rd.Pos, len(b))
	}
	y := reflect.New(x.Type()).Elem()
	setGo(t, v, y)
	x.Set(y)
	return nil
}

func uUnnest(d *abi.Decoder, t reflect.Type, parts ...interface{}) error {
	err, late := ust.enter(t)
	if err != nil && !late {
		return err
	}
	b, rerr := d.ReadByte()
	if rerr != nil {
		return rerr
	}
	if b != ref.CustTag {
		return fmt.Errorf("user's form: tag %x", b)
	}
	for _, p := range parts {
		if rerr := d.Decode(p); rerr != nil {
			return rerr
		}
	}
	return err
}

func (u URaw) MarshalABI(e *abi.Encoder) error  { return uEnc(e, reflect.ValueOf(u)) }
func (u UNum) MarshalABI(e *abi.Encoder) error  { return uEnc(e, reflect.ValueOf(u)) }
func (u UStr) MarshalABI(e *abi.Encoder) error  { return uEnc(e, reflect.ValueOf(u)) }
func (u UArr) MarshalABI(e *abi.Encoder) error  { return uEnc(e, reflect.ValueOf(u)) }
func (u *UPtr) MarshalABI(e *abi.Encoder) error { return uEnc(e, reflect.ValueOf(*u)) }
func (u UEmit) MarshalABI(e *abi.Encoder) error { return uEnc(e, reflect.ValueOf(u)) }
func (u UList) MarshalABI(e *abi.Encoder) error { return uNest(e, reflect.TypeOf(u), []uint16(u)) }
func (u UMap) MarshalABI(e *abi.Encoder) error {
	return uNest(e, reflect.TypeOf(u), map[uint8]string(u))
}
func (u UNest) MarshalABI(e *abi.Encoder) error {
	return uNest(e, reflect.TypeOf(u), u.A, u.B, u.C, u.D)
}
func (u *URaw) UnmarshalABI(d *abi.Decoder) error { return uDec(d, reflect.ValueOf(u)) }
func (u *UNum) UnmarshalABI(d *abi.Decoder) error { return uDec(d, reflect.ValueOf(u)) }
func (u *UStr) UnmarshalABI(d *abi.Decoder) error { return uDec(d, reflect.ValueOf(u)) }
func (u *UArr) UnmarshalABI(d *abi.Decoder) error { return uDec(d, reflect.ValueOf(u)) }
func (u *UPtr) UnmarshalABI(d *abi.Decoder) error { return uDec(d, reflect.ValueOf(u)) }
func (u *UHalf) UnmarshalABI(d *abi.Decoder) error {
	return uDec(d, reflect.ValueOf(u))
}
func (u *UList) UnmarshalABI(d *abi.Decoder) error {
	return uUnnest(d, reflect.TypeOf(*u), (*[]uint16)(u))
}
func (u *UMap) UnmarshalABI(d *abi.Decoder) error {
	return uUnnest(d, reflect.TypeOf(*u), (*map[uint8]string)(u))
}
func (u *UNest) UnmarshalABI(d *abi.Decoder) error {
	if u.C == nil {
		u.C = &Transfer{}
	}
	return uUnnest(d, reflect.TypeOf(*u), &u.A, &u.B, u.C, &u.D)
}

// MinSize2 is the size of a type of fixed size.
func MinSize2(t *ref.Ty) int {
	switch t.K {
	case ref.Struct:
		n := 0
		for _, f := range t.F {
			n += MinSize2(f.T)
		}
		return n
	case ref.Array:
		return t.N * MinSize2(t.Elem)
	}
	return ref.Fixed(t.K)
}

// FromGo is the abstract value of a Go value.
func FromGo(t *ref.Ty, x reflect.Value) *ref.Val {
	v := &ref.Val{}
	switch t.K {
	case ref.Bool:
		if x.Bool() {
			v.U = 1
		}
	case ref.F32:
		v.U = uint64(math.Float32bits(x.Interface().(float32)))
	case ref.F64:
		v.U = math.Float64bits(x.Float())
	case ref.Str:
		v.B = []byte(x.String())
	case ref.Raw, ref.Bytes, ref.Blob:
		v.B = append([]byte{}, x.Bytes()...)
	case ref.Asset:
		a := x.Interface().(chain.Asset)
		v.U, v.Hi = uint64(a.Value), uint64(a.Symbol)
	case ref.ExtAsset:
		a := x.Interface().(chain.ExtendedAsset)
		v.U, v.Hi, v.X = uint64(a.Quantity.Value), uint64(a.Quantity.Symbol), uint64(a.Contract)
	case ref.U128:
		a := x.Interface().(chain.Uint128)
		v.U, v.Hi = a.Lo, a.Hi
	case ref.I128:
		a := x.Interface().(chain.Int128)
		v.U, v.Hi = a.Lo, a.Hi
	case ref.F128:
		a := x.Interface().(chain.Float128)
		v.B = append([]byte{}, a.Data[:]...)
	case ref.C160, ref.C256, ref.C512:
		v.B = make([]byte, x.Len())
		reflect.Copy(reflect.ValueOf(v.B), x)
	case ref.PubKey:
		a := x.Interface().(chain.PublicKey)
		v.U, v.B = uint64(a.Type), append([]byte{}, a.Data...)
	case ref.Sig:
		a := x.Interface().(chain.Signature)
		v.U, v.B = uint64(a.Type), append([]byte{}, a.Data...)
	case ref.Slice, ref.Array:
		for i := 0; i < x.Len(); i++ {
			v.L = append(v.L, FromGo(t.Elem, x.Index(i)))
		}
	case ref.Map:
		type ent struct{ k, v *ref.Val }
		var es []ent
		for it := x.MapRange(); it.Next(); {
			es = append(es, ent{FromGo(t.Key, it.Key()), FromGo(t.Elem, it.Value())})
		}
		sort.Slice(es, func(i, j int) bool { return KeyLess(t.Key.K, es[i].k, es[j].k) })
		for _, e := range es {
			v.L = append(v.L, e.k, e.v)
		}
	case ref.Ptr:
		v.L = []*ref.Val{FromGo(t.Elem, x.Elem())}
	case ref.Variant:
		for i := range t.F {
			if !x.Field(i).IsNil() {
				v.Tag = i
				v.L = []*ref.Val{FromGo(t.F[i].T, x.Field(i).Elem())}
			}
		}
	case ref.Struct:
		for i, f := range t.F {
			y := x.Field(i)
			if f.Mode == ref.Optional && y.IsZero() {
				v.L = append(v.L, &ref.Val{Nil: true})
				continue
			}
			if f.Mode == ref.Extension && !f.Val && y.IsZero() {
				v.L = append(v.L, &ref.Val{Gone: true})
				continue
			}
			if f.Mode != ref.Plain && !f.Val {
				y = y.Elem()
			}
			v.L = append(v.L, FromGo(f.T, y))
		}
	default:
		switch x.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			v.U = uint64(x.Int())
		default:
			v.U = x.Uint()
		}
	}
	return v
}
