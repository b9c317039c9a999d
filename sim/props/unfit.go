package props

import (
	"fmt"
	"reflect"

	"github.com/greymass/go-eosio/pkg/chain"

	"verifsim/core"
	"verifsim/ref"
)

// spot is a place in a tree.
type spot struct {
	t    *ref.Ty
	opt  bool // may be nil
	now  interface{}
	set  func(x interface{})
	path string
}

// spots are the places of a tree of the type.
func (b *ABIBuild) spots(t *ref.Ty, x interface{}, opt bool, path string, set func(interface{}), out *[]spot) {
	if len(*out) > 300 {
		return
	}
	for t.K == ref.Ptr {
		t = t.Elem
	}
	if t.K == ref.Opt {
		if x != nil {
			b.spots(t.Elem, x, true, path, set, out)
		}
		return
	}
	*out = append(*out, spot{t, opt, x, set, path})
	at := func(m map[string]interface{}, k string) func(interface{}) {
		return func(y interface{}) { m[k] = y }
	}
	switch t.K {
	case ref.Slice:
		l := x.([]interface{})
		for i := range l {
			i := i
			b.spots(t.Elem, l[i], false, fmt.Sprintf("%s[%d]", path, i), func(y interface{}) { l[i] = y }, out)
		}
	case ref.Array:
		m := x.(map[string]interface{})
		for i := 0; i < len(m); i++ {
			k := fmt.Sprintf("e%d", i)
			b.spots(t.Elem, m[k], false, path+"."+k, at(m, k), out)
		}
	case ref.Map:
		for i, e := range x.([]interface{}) {
			m := e.(map[string]interface{})
			b.spots(t.Key, m["key"], false, fmt.Sprintf("%s[%d].key", path, i), at(m, "key"), out)
			b.spots(t.Elem, m["value"], false, fmt.Sprintf("%s[%d].value", path, i), at(m, "value"), out)
		}
	case ref.Struct:
		m := x.(map[string]interface{})
		for _, f := range t.F {
			if m[f.Name] != nil {
				b.spots(f.T, m[f.Name], f.Mode == ref.Optional || f.Mode == ref.Extension, path+"."+f.Name, at(m, f.Name), out)
			}
		}
	case ref.Variant:
		l := x.([]interface{})
		for i, n := range b.alts[t] {
			if n == l[0] {
				b.spots(t.F[i].T, l[1], false, path+"."+n, func(y interface{}) { l[1] = y }, out)
				break
			}
		}
	}
}

type unsupported struct {
	A uint8
	C complex128
}

// What no encoding is defined for.
var strange = []interface{}{complex64(1), make(chan int), func() {}, unsupported{1, 2}, []complex128{1}, [1]chan int{}, map[string]complex64{"a": 1}, map[complex64]string{1: "a"}, []interface{}{complex64(1)}, &unsupported{3, 4}}

// unfit: a value that has no encoding is refused.
func (m *Msg) unfit(r *core.R) {
	w := core.NewWriter(r)
	var err error
	what := ""
	switch r.N(5) {
	case 4: // a number that does not fit 32 bits
		if only != nil {
			return
		}
		u, i := uint(1)<<32+uint(r.U64()>>uint(r.Range(1, 31))), 1<<31+int(r.U64()>>uint(r.Range(2, 31)))
		if r.N(3) == 2 {
			u, i = 1<<32, 1<<31
		}
		if r.N(2) == 1 {
			i = -1 - i
		}
		y := []interface{}{u, i, []uint{1, u}, map[uint]uint8{u: 1}, struct {
			A uint8
			B int
		}{1, i}, chain.TransactionHeader{MaxNetUsageWords: u}, chain.Transaction{TransactionHeader: chain.TransactionHeader{DelaySec: u}}}[r.N(7)]
		what = fmt.Sprintf("encode of %s", DumpI(y))
		r.Fault("number-too-large")
		switch k := r.N(5); {
		case k == 0:
			what += " by a definition"
			d := chain.Abi{Structs: []chain.AbiStruct{{Name: "s", Fields: []chain.AbiField{{Name: "a", Type: "varuint32"}, {Name: "b", Type: "varint32"}}}}}
			t := map[string]interface{}{"a": uint(1), "b": i}
			if r.N(2) == 1 {
				t = map[string]interface{}{"a": u, "b": 1}
			}
			r.Call(what, func() { err = d.Encode(w, "s", t) })
		case k == 1:
			what = fmt.Sprintf("write of %d or %d", u, i)
			r.Call(what, func() {
				if e := NewEnc(PBare, w); r.N(2) == 1 {
					err = e.WriteVaruint(u)
				} else {
					err = e.WriteVarint(i)
				}
			})
		default:
			r.Call(what, func() { err = NewEnc([]int{PTyped, PCustom, PBare}[r.N(3)], w).Encode(y) })
		}
	case 0: // a nil pointer
		if hasVariant(m.T, map[*ref.Ty]bool{}) || hasOpt(m.T, map[*ref.Ty]bool{}) {
			return
		}
		x := ToGo(m.T, m.V)
		var ptrs []reflect.Value
		nilable(m.T, x, &ptrs)
		if len(ptrs) == 0 {
			return
		}
		p := ptrs[r.N(len(ptrs))]
		p.Set(reflect.Zero(p.Type()))
		what = fmt.Sprintf("encode of %s with a nil pointer that is not optional", m.T)
		r.Fault("nil-pointer")
		r.Call(what, func() { err = NewEnc([]int{PTyped, PCustom, PBare}[r.N(3)], w).Encode(x.Addr().Interface()) })
	case 1: // a type that is not supported
		x := strange[r.N(len(strange))]
		if r.N(3) == 2 {
			x = []interface{}{uint8(1), x}
		}
		what = fmt.Sprintf("encode of %T", x)
		r.Fault("unsupported-type")
		r.Call(what, func() { err = NewEnc([]int{PTyped, PCustom, PBare}[r.N(3)], w).Encode(x) })
	default: // a tree that does not fit the definition
		tree := m.B.Tree(m.T, m.V, true)
		var ss []spot
		m.B.spots(m.T, tree, false, "", func(y interface{}) { tree = y }, &ss)
		if len(ss) == 0 {
			return
		}
		s := ss[r.N(len(ss))]
		for i, k, n := r.N(len(ss)), 0, len(ss)*r.N(2); k < n; k++ {
			// variants first
			if x := ss[(i+k)%len(ss)]; x.t.K == ref.Variant {
				s = x
				break
			}
		}
		var y interface{} = strange[r.N(len(strange))]
		var l []interface{}
		if s.t.K == ref.Variant {
			l = s.now.([]interface{})
		}
		switch {
		case l != nil && r.N(2) == 1:
			y = [][]interface{}{{"no such type", l[1]}, {l[0]}, {l[0], l[1], l[1]}, {1, l[1]}, {}, {nil, l[1]}}[r.N(6)]
		case r.N(4) == 3 && !s.opt:
			y = nil
		case r.N(3) == 2 && s.t.K != ref.Slice && s.t.K != ref.Map && s.t.K != ref.Variant:
			y = []interface{}{}
		case r.N(2) == 1 && s.t.K != ref.Struct && s.t.K != ref.Array:
			y = map[string]interface{}{}
		}
		s.set(y)
		what = fmt.Sprintf("encode by a definition of %s with %T at %q", m.T, y, s.path)
		r.Fault("value-of-another-type")
		r.Call(what, func() {
			if r.N(2) == 1 {
				err = m.B.Def.EncodeAction(w, m.Act, tree)
			} else {
				err = m.B.Def.Encode(w, m.Name, tree)
			}
		})
	}
	r.Evals++
	r.Ev("%s -> %v", what, err)
	if err == nil {
		r.Fail("no-encoding", "%s: there is no encoding of it, but %x was written and no error returned", what, clipB(w.Acc))
	}
}

// nilable collects pointers that are not optional, to types without methods of their own.
func nilable(t *ref.Ty, x reflect.Value, out *[]reflect.Value) {
	if len(*out) > 300 {
		return
	}
	if x.Type().Kind() == reflect.Struct && (x.Type().Implements(marshaler) || reflect.PtrTo(x.Type()).Implements(marshaler)) {
		return
	}
	switch t.K {
	case ref.Ptr:
		if !x.Type().Implements(marshaler) && x.CanSet() {
			*out = append(*out, x)
		}
		nilable(t.Elem, x.Elem(), out)
	case ref.Slice, ref.Array:
		for i := 0; i < x.Len(); i++ {
			nilable(t.Elem, x.Index(i), out)
		}
	case ref.Struct:
		if x.Kind() != reflect.Struct || x.NumField() != len(t.F) {
			return
		}
		for i, f := range t.F {
			if f.Mode == ref.Plain {
				nilable(f.T, x.Field(i), out)
			}
		}
	}
}

// Destinations that nothing can be decoded into.
func strangeDest(r *core.R) interface{} {
	return []interface{}{new(complex64), new(chan int), new(func()), new(unsupported), new([]complex128), new([1]chan int), new(map[string]complex64), uint8(1), "text", unsupported{}, []uint8{1}, chain.Name(5)}[r.N(12)]
}
