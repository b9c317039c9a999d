package props

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"reflect"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/chain"

	"verifsim/core"
	"verifsim/hook"
	"verifsim/ref"
)

// rebuild is a deep copy in which maps were filled in another order, in another way.
func rebuild(r *core.R, v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		p := reflect.New(v.Type().Elem())
		p.Elem().Set(rebuild(r, v.Elem()))
		return p
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		s := reflect.MakeSlice(v.Type(), v.Len(), v.Len()+r.N(3))
		if v.Type().Elem().Kind() == reflect.Uint8 {
			reflect.Copy(s, v)
			return s
		}
		for i := 0; i < v.Len(); i++ {
			s.Index(i).Set(rebuild(r, v.Index(i)))
		}
		return s
	case reflect.Array:
		a := reflect.New(v.Type()).Elem()
		for i := 0; i < v.Len(); i++ {
			a.Index(i).Set(rebuild(r, v.Index(i)))
		}
		return a
	case reflect.Struct:
		s := reflect.New(v.Type()).Elem()
		for i := 0; i < v.NumField(); i++ {
			s.Field(i).Set(rebuild(r, v.Field(i)))
		}
		return s
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		r.Probe("map-refilled")
		hook.SeedMaps(uint64(r.N(1 << 30)))
		var ks []reflect.Value
		for it := v.MapRange(); it.Next(); {
			ks = append(ks, it.Key())
		}
		m := reflect.MakeMapWithSize(v.Type(), r.N(40))
		if r.N(3) == 2 {
			// entries that come and go
			for i := r.N(20); i > 0 && len(ks) > 0; i-- {
				k := ks[r.N(len(ks))]
				m.SetMapIndex(k, v.MapIndex(k))
				if r.N(2) == 1 {
					m.SetMapIndex(k, reflect.Value{})
				}
			}
		}
		for i := len(ks) - 1; i > 0; i-- {
			j := r.N(i + 1)
			ks[i], ks[j] = ks[j], ks[i]
		}
		for _, k := range ks {
			m.SetMapIndex(k, rebuild(r, v.MapIndex(k)))
		}
		hook.SeedMaps(uint64(r.N(1 << 30)))
		return m
	}
	return v
}

// hasOddMap: maps whose keys are neither integers nor strings; their order is not prescribed.
func hasOddMap(t *ref.Ty, seen map[*ref.Ty]bool) bool {
	if t == nil || seen[t] {
		return false
	}
	seen[t] = true
	if t.K == ref.Map {
		ok := false
		for _, k := range keyLeaves {
			ok = ok || t.Key.K == k
		}
		if !ok {
			return true
		}
	}
	if hasOddMap(t.Elem, seen) || hasOddMap(t.Key, seen) {
		return true
	}
	for _, f := range t.F {
		if hasOddMap(f.T, seen) {
			return true
		}
	}
	return false
}

func (g *G) oddKey() *ref.Ty {
	switch g.N(6) {
	case 0:
		return &ref.Ty{K: ref.Bool}
	case 1:
		return &ref.Ty{K: ref.C256}
	case 2:
		return TyOf(reflect.TypeOf(chain.PermissionLevel{}))
	case 3:
		return &ref.Ty{K: ref.Array, N: 2, Elem: &ref.Ty{K: ref.U16}}
	case 4:
		return &ref.Ty{K: ref.Array, N: 2, Elem: &ref.Ty{K: ref.Str}}
	default:
		return &ref.Ty{K: ref.Struct, F: []ref.Field{{Name: "fa0", T: &ref.Ty{K: ref.I32}}, {Name: "fb0", T: &ref.Ty{K: ref.Str}}}}
	}
}

func runC10(r *core.R) {
	g := NewG(r).Big()
	g.budget /= 2
	o := TyOpt{NoVariant: true}
	var t *ref.Ty
	switch r.N(5) {
	case 0, 1:
		t = g.Top(g.Range(0, 3), o)
	case 2:
		e := g.Top(g.Range(0, 2), o)
		t = &ref.Ty{K: ref.Map, Key: &ref.Ty{K: keyLeaves[g.N(len(keyLeaves))]}, Elem: e}
	case 3:
		t = &ref.Ty{K: ref.Map, Key: g.oddKey(), Elem: g.Top(g.Range(0, 1), o)}
	case 4:
		t = TyOf(reflect.TypeOf(chain.Action{}))
	}
	if r.N(4) == 3 {
		t = &ref.Ty{K: ref.Struct, F: []ref.Field{{Name: "fa0", T: g.Leaf()}, {Name: "fb0", T: t}, {Name: "fc0", T: t}}}
	}
	odd := hasOddMap(t, map[*ref.Ty]bool{})
	m := NewMsg(g, t, false)
	want := m.W.B
	x := ToGo(t, m.V)
	r.Ev("type %s odd keys %v %d bytes %x", t, odd, len(want), clipB(want))
	var first []byte
	judge := func(what string, got []byte, err error) {
		r.Evals++
		if err != nil {
			r.Fail("encode-error", "%s: %s: %v", t, what, err)
		}
		if first == nil {
			first = got
			if !odd && !bytes.Equal(got, want) {
				r.Fail("not-prescribed", "%s: %s: got %x, prescribed %x", t, what, clipB(got), clipB(want))
			}
			if len(got) != len(want) {
				r.Fail("not-prescribed", "%s: %s: %d bytes, should be %d", t, what, len(got), len(want))
			}
			return
		}
		if !bytes.Equal(got, first) {
			k := 0
			for k < len(got) && k < len(first) && got[k] == first[k] {
				k++
			}
			r.Fail("bytes-differ", "%s: %s: the same value encodes differently from byte %d on: ..%x, before ..%x", t, what, k, clipB(got[k:]), clipB(first[k:]))
		}
	}
	path := func() int { return []int{PTyped, PTyped, PCustom, PBare}[r.N(4)] }
	for i := r.Range(2, 7); i > 0; i-- {
		v := x
		how := "same value"
		if r.N(4) > 0 {
			v = reflect.New(x.Type()).Elem()
			v.Set(rebuild(r, x))
			how = "equal value"
			r.Fault("map-order")
		} else {
			hook.SeedMaps(uint64(r.N(1 << 30)))
		}
		p := path()
		arg := func() interface{} {
			if r.N(2) == 1 {
				return v.Addr().Interface()
			}
			return v.Interface()
		}
		w := core.NewWriter(r)
		enc := NewEnc(p, w)
		what := fmt.Sprintf("%s (%s)", how, pathNames[p])
		switch r.N(4) {
		case 1:
			// a used encoder
			what += ", used encoder"
			om := m
			if r.N(2) == 1 {
				om = NewMsg(g, g.Top(g.Range(0, 2), o), false)
			}
			if r.N(2) == 1 && len(om.W.B) > 0 {
				w.FailAt, w.Err = r.N(len(om.W.B)), core.PickErr(r)
				what += " after a failure"
			}
			y := ToGo(om.T, om.V)
			r.Call("encode of "+om.T.String(), func() { enc.Encode(y.Interface()) })
			w.FailAt = -1
			w.Acc = nil
		case 2:
			if r.N(2) == 1 {
				sibling(r, g, t, m, enc, w, p, odd)
				what += ", after a sibling"
				break
			}
			// time passes, others use the library
			for j := r.N(3); j > 0; j-- {
				om := NewMsg(g, g.Top(g.Range(0, 2), o), false)
				r.Call("encode of "+om.T.String(), func() { NewEnc(path(), core.NewWriter(r)).Encode(ToGo(om.T, om.V).Interface()) })
			}
		case 3:
			// from tasks that preempt each other
			what += ", from a task among others"
			s := core.NewSched(r)
			s.Preempt(func() int64 { return int64(1 + r.N(60)) })
			n := r.Range(2, 3)
			type res struct {
				w   *core.Writer
				err error
			}
			out := make([]res, n)
			for k := 0; k < n; k++ {
				k := k
				y := v
				if r.N(2) == 1 {
					y = reflect.New(x.Type()).Elem()
					y.Set(rebuild(r, x))
				}
				p := path()
				s.Go(fmt.Sprintf("task%d", k), func(*core.Task) {
					out[k].w = core.NewWriter(r)
					r.Call("encode of "+t.String(), func() { out[k].err = NewEnc(p, out[k].w).Encode(y.Interface()) })
				})
			}
			if st := s.Run(); len(st) > 0 {
				r.Fail("stalled", "tasks wait for ever: %v", st)
			}
			for k := range out {
				judge(what, out[k].w.Acc, out[k].err)
			}
			r.Ev("%s", what)
			continue
		}
		var err error
		a := arg()
		r.Call("encode of "+t.String(), func() { err = enc.Encode(a) })
		r.Ev("%s: %d bytes %v", what, len(w.Acc), err)
		judge(what, w.Acc, err)
		if r.N(3) == 2 {
			digests(r, t, v, want)
		}
	}
	if odd && first != nil {
		// whatever the order, it is the value
		d := reflect.New(x.Type())
		var err error
		r.Call("decode of "+t.String(), func() { err = chain.NewDecoder(bytes.NewReader(first)).Decode(d.Interface()) })
		if err != nil || Dump(d.Elem().Interface()) != Dump(x.Interface()) {
			r.Fail("not-the-value", "%s: %x decodes with %v to another value: %s", t, clipB(first), err, Diff(Dump(d.Elem().Interface()), Dump(x.Interface())))
		}
	}
	r.Sample("%s, %d bytes %x", t, len(want), clipB(want))
}

// sibling encodes values that differ in one leaf: in the same memory, on the same encoder.
func sibling(r *core.R, g *G, t *ref.Ty, m *Msg, enc *abi.Encoder, w *core.Writer, p int, odd bool) {
	x := ToGo(t, m.V)
	var prev *ref.Val = m.V
	for i := r.Range(1, 3); i > 0; i-- {
		v := g.Tweak(t, prev)
		if r.N(3) == 2 {
			v = m.V
		}
		prev = v
		want := ref.Encode(t, v).B
		inPlace := r.N(2) == 1
		if inPlace {
			assign(x, ToGo(t, v))
			r.Fault("changed-in-place")
		} else {
			x = ToGo(t, v)
		}
		if r.N(4) == 3 {
			enc = NewEnc(p, w)
		}
		w.Acc = nil
		a := x.Interface()
		if r.N(3) > 0 {
			a = x.Addr().Interface()
		}
		var err error
		r.Call("encode of "+t.String(), func() { err = enc.Encode(a) })
		r.Evals++
		if err != nil {
			r.Fail("encode-error", "%s: a value changed in one place: %v", t, err)
		}
		if odd && len(w.Acc) != len(want) || !odd && !bytes.Equal(w.Acc, want) {
			r.Fail("stale", "%s: a value changed in one place (in the same memory: %v): got %x, prescribed %x", t, inPlace, clipB(w.Acc), clipB(want))
		}
		r.Ev("sibling in place %v %x", inPlace, clipB(want))
		if r.N(2) == 1 {
			digests(r, t, x, want)
		}
	}
	w.Acc = nil
}

// digests of actions: of the value itself, or of one that carries it.
func digests(r *core.R, t *ref.Ty, v reflect.Value, enc []byte) {
	if a, ok := v.Interface().(chain.Action); ok {
		var d chain.Checksum256
		r.Call("Digest", func() { d = a.Digest() })
		r.Evals++
		if want := sha256.Sum256(enc); d != chain.Checksum256(want) {
			r.Fail("digest", "digest of an action is %x, should be %x", d, want)
		}
		r.Probe("action-digest")
		return
	}
	if hasOddMap(t, map[*ref.Ty]bool{}) {
		return
	}
	var buf bytes.Buffer
	var d chain.Checksum256
	var err error
	r.Call("encode and Digest", func() {
		var e *abi.Encoder = chain.NewEncoder(&buf)
		if err = e.Encode(v.Interface()); err == nil {
			d = chain.NewAction(1, 2, []chain.PermissionLevel{{Actor: 3, Permission: 4}}, buf.Bytes()).Digest()
		}
	})
	if err != nil {
		r.Fail("encode-error", "%s: %v", t, err)
	}
	w := []byte{1, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 1, 3, 0, 0, 0, 0, 0, 0, 0, 4, 0, 0, 0, 0, 0, 0, 0}
	w = append(ref.PutVarU(w, uint64(len(enc))), enc...)
	r.Evals++
	if want := sha256.Sum256(w); d != chain.Checksum256(want) {
		r.Fail("digest", "%s: digest of an action carrying the value is %x, should be %x", t, d, want)
	}
}
