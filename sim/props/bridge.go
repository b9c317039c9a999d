package props

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/greymass/go-eosio/pkg/chain"

	"verifsim/ref"
)

var leafGo = map[ref.Kind]reflect.Type{
	ref.Bool: reflect.TypeOf(false), ref.U8: reflect.TypeOf(uint8(0)), ref.U16: reflect.TypeOf(uint16(0)), ref.U32: reflect.TypeOf(uint32(0)), ref.U64: reflect.TypeOf(uint64(0)),
	ref.I8: reflect.TypeOf(int8(0)), ref.I16: reflect.TypeOf(int16(0)), ref.I32: reflect.TypeOf(int32(0)), ref.I64: reflect.TypeOf(int64(0)),
	ref.F32: reflect.TypeOf(float32(0)), ref.F64: reflect.TypeOf(float64(0)), ref.VarU: reflect.TypeOf(uint(0)), ref.VarI: reflect.TypeOf(int(0)), ref.Str: reflect.TypeOf(""), ref.Raw: reflect.TypeOf([]byte{}),
	ref.Bytes: reflect.TypeOf(chain.Bytes{}), ref.Blob: reflect.TypeOf(chain.Blob{}), ref.CU64: reflect.TypeOf(chain.Uint64(0)), ref.BlkNum: reflect.TypeOf(chain.BlockNum(0)),
	ref.Name: reflect.TypeOf(chain.Name(0)), ref.Sym: reflect.TypeOf(chain.Symbol(0)), ref.SymCode: reflect.TypeOf(chain.SymbolCode(0)), ref.Asset: reflect.TypeOf(chain.Asset{}), ref.ExtAsset: reflect.TypeOf(chain.ExtendedAsset{}),
	ref.TP: reflect.TypeOf(chain.TimePoint(0)), ref.TPS: reflect.TypeOf(chain.TimePointSec(0)), ref.BTS: reflect.TypeOf(chain.BlockTimestamp(0)),
	ref.U128: reflect.TypeOf(chain.Uint128{}), ref.I128: reflect.TypeOf(chain.Int128{}), ref.F128: reflect.TypeOf(chain.Float128{}),
	ref.C160: reflect.TypeOf(chain.Checksum160{}), ref.C256: reflect.TypeOf(chain.Checksum256{}), ref.C512: reflect.TypeOf(chain.Checksum512{}),
	ref.PubKey: reflect.TypeOf(chain.PublicKey{}), ref.Sig: reflect.TypeOf(chain.Signature{}),
	ref.NU64: reflect.TypeOf(NU64(0)), ref.NU32: reflect.TypeOf(NU32(0)), ref.NI64: reflect.TypeOf(NI64(0)), ref.NI32: reflect.TypeOf(NI32(0)),
}

var goLeaf = func() map[reflect.Type]ref.Kind {
	m := map[reflect.Type]ref.Kind{}
	for k, t := range leafGo {
		m[t] = k
	}
	return m
}()

var (
	tyMemo = map[reflect.Type]*ref.Ty{}
	goMemo = map[string]reflect.Type{} // by Ty.ID
)

func init() {
	for _, t := range staticTypes {
		TyOf(t)
	}
}

// TyOf describes a Go type.
func TyOf(t reflect.Type) *ref.Ty {
	if k, ok := goLeaf[t]; ok {
		return &ref.Ty{K: k}
	}
	if m, ok := tyMemo[t]; ok {
		return m
	}
	y := &ref.Ty{}
	if t.Name() != "" {
		tyMemo[t] = y
		y.ID = t.String()
		goMemo[y.ID] = t
	}
	switch t.Kind() {
	case reflect.Slice:
		y.K, y.Elem = ref.Slice, TyOf(t.Elem())
	case reflect.Array:
		y.K, y.N, y.Elem = ref.Array, t.Len(), TyOf(t.Elem())
	case reflect.Map:
		y.K, y.Key, y.Elem = ref.Map, TyOf(t.Key()), TyOf(t.Elem())
	case reflect.Ptr:
		y.K, y.Elem = ref.Ptr, TyOf(t.Elem())
	case reflect.Struct:
		y.K = ref.Struct
		for i := 0; i < t.NumField(); i++ {
			g := t.Field(i)
			f := ref.Field{Name: g.Name}
			ft := g.Type
			switch g.Tag.Get("eosio") {
			case "optional", "extension":
				f.Mode = ref.Optional
				if g.Tag.Get("eosio") == "extension" {
					f.Mode = ref.Extension
				}
				if ft.Kind() == reflect.Ptr {
					ft = ft.Elem()
				} else {
					f.Val = true
				}
				f.T = TyOf(ft)
			case "variant":
				f.Mode = ref.VariantField
				if ft.Kind() == reflect.Ptr {
					ft = ft.Elem()
				} else {
					f.Val = true
				}
				v := TyOf(ft)
				x := &ref.Ty{K: ref.Variant, ID: v.ID}
				for _, a := range v.F {
					x.F = append(x.F, ref.Field{Name: a.Name, T: a.T.Elem})
				}
				f.T = x
			default:
				f.T = TyOf(ft)
			}
			y.F = append(y.F, f)
		}
	default:
		panic("props: no description of " + t.String())
	}
	return y
}

// GoType is the Go type for a described type.
func GoType(t *ref.Ty) reflect.Type {
	if t.ID != "" {
		if g, ok := goMemo[t.ID]; ok {
			return g
		}
	}
	if g, ok := leafGo[t.K]; ok {
		return g
	}
	switch t.K {
	case ref.Slice:
		return reflect.SliceOf(GoType(t.Elem))
	case ref.Array:
		return reflect.ArrayOf(t.N, GoType(t.Elem))
	case ref.Map:
		return reflect.MapOf(GoType(t.Key), GoType(t.Elem))
	case ref.Ptr:
		return reflect.PtrTo(GoType(t.Elem))
	case ref.Variant:
		var fs []reflect.StructField
		for i, f := range t.F {
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("V%d", i), Type: reflect.PtrTo(GoType(f.T))})
		}
		return reflect.StructOf(fs)
	case ref.Struct:
		var fs []reflect.StructField
		for i, f := range t.F {
			sf := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: GoType(f.T)}
			switch f.Mode {
			case ref.Optional:
				sf.Tag = `eosio:"optional"`
			case ref.Extension:
				sf.Tag = `eosio:"extension"`
			case ref.VariantField:
				sf.Tag = `eosio:"variant"`
			}
			if f.Mode != ref.Plain && !f.Val {
				sf.Type = reflect.PtrTo(sf.Type)
			}
			fs = append(fs, sf)
		}
		return reflect.StructOf(fs)
	}
	panic("props: no Go type for " + t.String())
}

// ToGo builds the Go value.
func ToGo(t *ref.Ty, v *ref.Val) reflect.Value {
	x := reflect.New(GoType(t)).Elem()
	setGo(t, v, x)
	return x
}

func setGo(t *ref.Ty, v *ref.Val, x reflect.Value) {
	switch t.K {
	case ref.Bool:
		x.SetBool(v.U != 0)
	case ref.F32:
		x.Set(reflect.ValueOf(math.Float32frombits(uint32(v.U))))
	case ref.F64:
		x.SetFloat(math.Float64frombits(v.U))
	case ref.Str:
		x.SetString(string(v.B))
	case ref.Raw, ref.Bytes, ref.Blob:
		x.SetBytes(append([]byte{}, v.B...))
	case ref.Asset:
		x.Set(reflect.ValueOf(chain.Asset{Value: int64(v.U), Symbol: chain.Symbol(v.Hi)}))
	case ref.ExtAsset:
		x.Set(reflect.ValueOf(chain.ExtendedAsset{Quantity: chain.Asset{Value: int64(v.U), Symbol: chain.Symbol(v.Hi)}, Contract: chain.Name(v.X)}))
	case ref.U128:
		x.Set(reflect.ValueOf(chain.Uint128{Lo: v.U, Hi: v.Hi}))
	case ref.I128:
		x.Set(reflect.ValueOf(chain.Int128{Lo: v.U, Hi: v.Hi}))
	case ref.F128:
		var f chain.Float128
		copy(f.Data[:], v.B)
		x.Set(reflect.ValueOf(f))
	case ref.C160, ref.C256, ref.C512:
		reflect.Copy(x, reflect.ValueOf(v.B))
	case ref.PubKey:
		x.Set(reflect.ValueOf(chain.PublicKey{Type: chain.KeyType(v.U), Data: append([]byte{}, v.B...)}))
	case ref.Sig:
		x.Set(reflect.ValueOf(chain.Signature{Type: chain.KeyType(v.U), Data: append([]byte{}, v.B...)}))
	case ref.Slice:
		s := reflect.MakeSlice(x.Type(), len(v.L), len(v.L))
		for i, e := range v.L {
			setGo(t.Elem, e, s.Index(i))
		}
		x.Set(s)
	case ref.Array:
		for i, e := range v.L {
			setGo(t.Elem, e, x.Index(i))
		}
	case ref.Map:
		m := reflect.MakeMap(x.Type())
		for i := 0; i+1 < len(v.L); i += 2 {
			m.SetMapIndex(ToGo(t.Key, v.L[i]), ToGo(t.Elem, v.L[i+1]))
		}
		x.Set(m)
	case ref.Ptr:
		p := reflect.New(x.Type().Elem())
		setGo(t.Elem, v.L[0], p.Elem())
		x.Set(p)
	case ref.Variant:
		f := x.Field(v.Tag)
		p := reflect.New(f.Type().Elem())
		setGo(t.F[v.Tag].T, v.L[0], p.Elem())
		f.Set(p)
	case ref.Struct:
		for i, f := range t.F {
			y := x.Field(i)
			if v.L[i].Gone || v.L[i].Nil && f.Mode == ref.Optional {
				continue
			}
			if f.Mode != ref.Plain && !f.Val {
				y.Set(reflect.New(y.Type().Elem()))
				y = y.Elem()
			}
			setGo(f.T, v.L[i], y)
		}
	default:
		switch x.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			x.SetInt(int64(v.U))
		default:
			x.SetUint(v.U)
		}
	}
}

// Dump writes a value so that two values are the same exactly if their dumps are. Nil and empty
// collections are the same; absent entries of string-keyed trees are dropped.
func Dump(x interface{}) string {
	var b strings.Builder
	dump(&b, reflect.ValueOf(x))
	return b.String()
}

func dump(b *strings.Builder, v reflect.Value) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		e := v.Elem()
		b.WriteString(e.Type().String())
		b.WriteByte(':')
		dump(b, e)
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteByte('&')
		dump(b, v.Elem())
	case reflect.Bool:
		b.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		b.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32:
		b.WriteString("f" + strconv.FormatUint(uint64(math.Float32bits(v.Interface().(float32))), 16))
	case reflect.Float64:
		b.WriteString("d" + strconv.FormatUint(math.Float64bits(v.Float()), 16))
	case reflect.String:
		b.WriteString(strconv.Quote(v.String()))
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b.WriteString("x")
			const hexd = "0123456789abcdef"
			for i := 0; i < v.Len(); i++ {
				c := v.Index(i).Uint()
				b.WriteByte(hexd[c>>4])
				b.WriteByte(hexd[c&15])
			}
			return
		}
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteByte(' ')
			}
			dump(b, v.Index(i))
		}
		b.WriteByte(']')
	case reflect.Map:
		var ents []string
		it := v.MapRange()
		for it.Next() {
			if it.Value().Kind() == reflect.Interface && it.Value().IsNil() {
				continue
			}
			var e strings.Builder
			dump(&e, it.Key())
			e.WriteByte('=')
			dump(&e, it.Value())
			ents = append(ents, e.String())
		}
		sort.Strings(ents)
		b.WriteString("{" + strings.Join(ents, " ") + "}")
	case reflect.Struct:
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				b.WriteByte(' ')
			}
			dump(b, v.Field(i))
		}
		b.WriteByte('}')
	default:
		b.WriteString("?" + v.Kind().String())
	}
}

// Clip shortens a dump for reports.
func Clip(s string) string {
	if len(s) > 400 {
		return s[:200] + " ... " + s[len(s)-180:]
	}
	return s
}

// Diff shows where two dumps part.
func Diff(got, want string) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	from := i - 60
	if from < 0 {
		from = 0
	}
	cut := func(s string) string {
		if from >= len(s) {
			return ""
		}
		s = s[from:]
		if len(s) > 160 {
			s = s[:160] + "..."
		}
		return s
	}
	return fmt.Sprintf("got ..%s want ..%s (at %d)", cut(got), cut(want), i)
}
