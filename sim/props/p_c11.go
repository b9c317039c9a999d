package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/chain"

	"verifsim/core"
	"verifsim/ref"
)

// custom is the user's own codec: a fast-path function that takes over some types, and watches all.
type custom struct {
	styles map[reflect.Type]int // types taken over
	tys    map[reflect.Type]*ref.Ty
	pat    map[reflect.Type]int // which values of the type it takes over, by turns; 0 is all
	cnt    map[reflect.Type]int
	ptrs   bool // on encode, also takes over pointers to these types
	failAt int
	done   bool // what it reports along with its error
	err    error
	n      int
	seen   map[reflect.Type]int
}

func (c *custom) reset() {
	c.n, c.failAt, c.err, c.seen = 0, -1, nil, map[reflect.Type]int{}
	c.cnt = map[reflect.Type]int{}
}

// take decides about the next value of the type.
func (c *custom) take(t reflect.Type) bool {
	if _, ok := c.styles[t]; !ok {
		return false
	}
	i := c.cnt[t]
	c.cnt[t]++
	return c.pat[t] == 0 || c.pat[t]>>(i%4)&1 == 1
}

func (c *custom) note(t reflect.Type) bool {
	c.seen[t]++
	c.n++
	return c.n-1 == c.failAt
}

func (c *custom) enc(e *abi.Encoder, v interface{}) (bool, error) {
	x := reflect.ValueOf(v)
	if !x.IsValid() {
		return false, nil
	}
	if c.note(x.Type()) {
		return c.done, c.err
	}
	// a pointer to a type with a marshal method has that method too, and is not asked about in two steps
	if x.Kind() == reflect.Ptr && !x.IsNil() && (c.ptrs || x.Type().Implements(marshaler)) {
		if _, ok := c.styles[x.Type().Elem()]; ok {
			x = x.Elem()
		}
	}
	if c.take(x.Type()) {
		st, t := c.styles[x.Type()], c.tys[x.Type()]
		return true, writeOwn(e, st, ref.Encode(t, FromGo(t, x)).B)
	}
	return false, nil
}

func (c *custom) dec(d *abi.Decoder, v interface{}) (bool, error) {
	x := reflect.ValueOf(v)
	if !x.IsValid() {
		return false, nil
	}
	if c.note(x.Type()) {
		return c.done, c.err
	}
	if x.Kind() == reflect.Ptr && !x.IsNil() {
		if c.take(x.Type().Elem()) {
			return true, readOwn(d, c.styles[x.Type().Elem()], c.tys[x.Type().Elem()], x.Elem())
		}
	}
	return false, nil
}

// shape derives, for a way of coding, what the message looks like on the wire and which values the
// function must be asked about.
type shape struct {
	c    *custom
	dec  bool
	memo map[*ref.Ty]*ref.Ty
}

func (s *shape) user(t *ref.Ty) *userTy {
	if t.ID == "" {
		return nil
	}
	gt := GoType(t)
	u := userTys[gt]
	switch gt {
	case reflect.TypeOf(UHalf{}):
		if !s.dec {
			return nil
		}
	case reflect.TypeOf(UEmit{}):
		if s.dec {
			return nil
		}
	}
	return u
}

// opaque: a type of the library with its own methods, which do not consult anybody.
func opaque(t *ref.Ty) bool {
	if t.K < ref.LeafEnd || t.K == ref.Variant {
		return false
	}
	gt := GoType(t)
	return userTys[gt] == nil && gt.Name() != "" && reflect.PtrTo(gt).Implements(unmarshaler)
}

func (s *shape) wire(t *ref.Ty) *ref.Ty {
	if w, ok := s.memo[t]; ok {
		return w
	}
	w := &ref.Ty{}
	s.memo[t] = w
	if st, ok := s.c.styles[GoType(t)]; ok && t.K != ref.Variant {
		*w = ref.Ty{K: ref.Cust, N: st, Elem: t}
		if gt := GoType(t); s.c.pat[gt] != 0 {
			w.Take = func() bool { return s.c.take(gt) }
			w.Else = &ref.Ty{}
			*w.Else = *s.declined(t)
		}
		return w
	}
	*w = *s.declined(t)
	return w
}

func (s *shape) encode(t *ref.Ty, v *ref.Val) *ref.Enc {
	s.c.cnt = map[reflect.Type]int{}
	return ref.Encode(s.wire(t), v)
}

// declined is the form of a value that the function does not take over.
func (s *shape) declined(t *ref.Ty) *ref.Ty {
	if u := s.user(t); u != nil {
		w := &ref.Ty{K: ref.Cust, N: u.style, Elem: t}
		if u.style == 3 {
			w.Elem = s.parts(t)
			if u.inner != nil {
				w.Elem = s.wire(u.inner)
			}
		}
		return w
	}
	if opaque(t) {
		return t
	}
	return s.parts(t)
}

// parts replaces what t is made of.
func (s *shape) parts(t *ref.Ty) *ref.Ty {
	w := *t
	w.ID = ""
	if t.Elem != nil {
		w.Elem = s.wire(t.Elem)
	}
	if t.Key != nil {
		w.Key = s.wire(t.Key)
	}
	w.F = append([]ref.Field(nil), t.F...)
	for i := range w.F {
		w.F[i].T = s.wire(w.F[i].T)
	}
	return &w
}

// asked counts the values the function must be asked about, by Go type.
func (s *shape) asked(t *ref.Ty, v *ref.Val, out map[reflect.Type]int) {
	gt := GoType(t)
	if t.K != ref.Ptr && t.K != ref.Variant {
		k := gt
		if s.dec {
			k = reflect.PtrTo(gt)
		}
		out[k]++
	}
	if t.K != ref.Variant && s.c.take(gt) {
		return
	}
	if u := s.user(t); u != nil {
		if u.style != 3 {
			return
		}
		if u.inner != nil {
			s.asked(u.inner, v, out)
			return
		}
	} else if opaque(t) {
		return
	}
	switch t.K {
	case ref.Slice, ref.Array:
		for _, e := range v.L {
			s.asked(t.Elem, e, out)
		}
	case ref.Map:
		for i, e := range v.L {
			if i%2 == 0 {
				s.asked(t.Key, e, out)
			} else {
				s.asked(t.Elem, e, out)
			}
		}
	case ref.Ptr:
		s.asked(t.Elem, v.L[0], out)
	case ref.Variant:
		s.asked(t.F[v.Tag].T, v.L[0], out)
	case ref.Struct:
		for i, f := range t.F {
			if !v.L[i].Nil && !v.L[i].Gone {
				s.asked(f.T, v.L[i], out)
			}
		}
	}
}

// inject puts the user's types in place of some leaves.
func inject(g *G, t *ref.Ty, inVariant bool) *ref.Ty {
	if t.ID != "" {
		return t
	}
	if t.K < ref.LeafEnd {
		if g.N(3) > 0 {
			return t
		}
		u := userList[g.N(len(userList))]
		for inVariant && u.K == ref.Ptr {
			u = userList[0]
		}
		return u
	}
	w := *t
	if t.Elem != nil {
		w.Elem = inject(g, t.Elem, t.K == ref.Ptr)
		if t.K == ref.Slice && MinSize(w.Elem) == 0 {
			w.Elem = g.Leaf8()
		}
	}
	if t.Key != nil && g.N(3) == 2 {
		w.Key = userKeys[g.N(len(userKeys))]
	}
	w.F = append([]ref.Field(nil), t.F...)
	for i, f := range w.F {
		if !f.Val || f.Mode == ref.VariantField {
			w.F[i].T = inject(g, f.T, f.Mode != ref.Plain || t.K == ref.Variant)
		}
	}
	return &w
}

// kindsIn lists the types a message is made of, outside library types with methods of their own.
func kindsIn(t *ref.Ty, seen map[*ref.Ty]bool, kinds map[ref.Kind]bool, list *[]*ref.Ty) {
	if t == nil || seen[t] {
		return
	}
	seen[t] = true
	if t.K < ref.LeafEnd {
		kinds[t.K] = true
	}
	if t.K != ref.Ptr && t.K != ref.Variant {
		*list = append(*list, t)
	}
	if opaque(t) {
		return
	}
	kindsIn(t.Elem, seen, kinds, list)
	kindsIn(t.Key, seen, kinds, list)
	for _, f := range t.F {
		kindsIn(f.T, seen, kinds, list)
	}
}

type userErr struct{ what string }

func (e *userErr) Error() string { return e.what }

func runC11(r *core.R) {
	g := NewG(r)
	g.budget /= 4
	depth := g.Range(0, 3)
	var t *ref.Ty
	if depth == 0 {
		t = userList[g.N(7)]
		if g.N(3) == 2 {
			t = g.Leaf()
		}
	} else {
		t = inject(g, g.Top(depth, TyOpt{Ext: g.N(3) == 2, NoVariant: g.N(3) > 0}), false)
	}
	variant := hasVariant(t, map[*ref.Ty]bool{})
	bare := r.N(2) == 1
	c := &custom{styles: map[reflect.Type]int{}, tys: map[reflect.Type]*ref.Ty{}, pat: map[reflect.Type]int{}, ptrs: r.N(2) == 1}
	kinds := map[ref.Kind]bool{}
	var cand []*ref.Ty
	kindsIn(t, map[*ref.Ty]bool{}, kinds, &cand)
	// values whose marshal method is on the pointer are written field by field when they are not pointed to
	barred := map[ref.Kind]bool{}
	if kinds[ref.ExtAsset] {
		barred[ref.Asset], barred[ref.Name] = true, true
	}
	if bare {
		if kinds[ref.Asset] || kinds[ref.ExtAsset] {
			barred[ref.I64], barred[ref.Sym] = true, true
		}
		if kinds[ref.C160] || kinds[ref.C256] || kinds[ref.C512] {
			barred[ref.U8] = true
		}
	}
	for i := r.Range(0, 3); i > 0 && len(cand) > 0; i-- {
		k := cand[r.N(len(cand))]
		gt := GoType(k)
		if k.ID == "" && barred[k.K] || gt == reflect.TypeOf(UPtr{}) {
			continue
		}
		style := 1
		if k.K < ref.LeafEnd && ref.Fixed(k.K) > 0 && r.N(2) == 1 {
			style = 2
		}
		c.styles[gt], c.tys[gt] = style, k
		if !c.ptrs && k.ID != "props.UArr" { // as a key it may be asked about more than once
			c.pat[gt] = r.N(16)
		}
	}
	v := g.Val(t, false)
	x := ToGo(t, v)
	es := &shape{c: c, memo: map[*ref.Ty]*ref.Ty{}}
	ds := &shape{c: c, dec: true, memo: map[*ref.Ty]*ref.Ty{}}
	var subs []string
	for _, k := range cand {
		if st, ok := c.styles[GoType(k)]; ok {
			subs = append(subs, fmt.Sprintf("%s/%d", k, st))
		}
	}
	r.Ev("type %s taken over %v bare %v", t, subs, bare)
	newEnc := func(w io.Writer) *abi.Encoder {
		if bare {
			return abi.NewEncoder(w, c.enc)
		}
		return chain.NewCustomEncoder(w, c.enc)
	}
	newDec := func(rd io.Reader) *abi.Decoder {
		if bare {
			return abi.NewDecoder(rd, c.dec)
		}
		return chain.NewCustomDecoder(rd, c.dec)
	}
	check := func(what string, s *shape) {
		want := map[reflect.Type]int{}
		c.cnt = map[reflect.Type]int{}
		s.asked(t, v, want)
		r.Evals++
		for k, n := range want {
			got := c.seen[k]
			if _, sub := c.styles[k]; !s.dec && (c.ptrs && sub || reflect.PtrTo(k).Implements(marshaler)) {
				got += c.seen[reflect.PtrTo(k)]
			}
			if got < n {
				r.Fail("not-consulted", "%s: %s: the function was asked %d times about a %s, the message has %d", t, what, got, k, n)
			}
		}
		for k := range c.styles {
			if c.pat[k] != 0 {
				continue
			}
			for _, u := range ust.calls {
				if userTys[k] != nil && k.Name() == u {
					r.Fail("function-not-first", "%s: %s: the method of %s was called although the function takes that type over", t, what, u)
				}
			}
		}
	}
	if !variant {
		want := es.encode(t, v).B
		a := x.Interface()
		if r.N(2) == 1 || t.ID == "props.UPtr" {
			a = x.Addr().Interface()
		}
		encode := func(enc *abi.Encoder) (err error) {
			r.Call("encode of "+t.String(), func() { err = enc.Encode(a) })
			return
		}
		c.reset()
		ust.reset()
		w := core.NewWriter(r)
		enc := newEnc(w)
		err := encode(enc)
		r.Ev("encode %d bytes %x: %v", len(w.Acc), clipB(w.Acc), err)
		r.Evals++
		if err != nil {
			r.Fail("encode-error", "%s (taken over: %v): %v", t, subs, err)
		}
		if !bytes.Equal(w.Acc, want) {
			r.Fail("not-replaced", "%s (taken over: %v): got %x, should be %x", t, subs, clipB(w.Acc), clipB(want))
		}
		check("encode", es)
		consults, calls := c.n, len(ust.calls)
		for i := r.Range(1, 3); i > 0; i-- {
			c.reset()
			ust.reset()
			w.Acc, w.FailAt, w.Fired, w.After = nil, -1, 0, 0
			if r.N(2) == 1 {
				enc = newEnc(w)
			}
			fault, cause := "", error(nil)
			switch k := r.N(3); {
			case k == 0 && consults > 0:
				fault = "function fails"
				cause = failure(r, true)
				c.failAt, c.err, c.done = r.N(consults), cause, r.N(2) == 1
				r.Fault("function-error")
			case k == 1 && calls > 0:
				fault = "method fails"
				cause = failure(r, true)
				ust.failAt, ust.err, ust.late = r.N(calls), cause, r.N(2) == 1
				r.Fault("method-error")
			case len(want) > 0:
				fault = "writer fails"
				cause = core.PickErr(r)
				w.FailAt, w.Err, w.Mode, w.Sticky = r.N(len(want)), cause, r.N(3), r.N(2) == 1
			default:
				continue
			}
			err := encode(enc)
			r.Ev("%s: %v, %d bytes", fault, err, len(w.Acc))
			r.Evals++
			if err == nil {
				r.Fail("failure-hidden", "%s (taken over: %v): %s at %d/%d/%d and the encode succeeds", t, subs, fault, c.failAt, ust.failAt, w.FailAt)
			}
			if !core.Same(err, cause) {
				r.Fail("failure-replaced", "%s: %s with %q and the encode returns %q", t, fault, cause, err)
			}
			if !bytes.HasPrefix(want, w.Acc) {
				r.Fail("not-a-prefix", "%s: %s: written %x, should be the beginning of %x", t, fault, clipB(w.Acc), clipB(want))
			}
			if w.Fired > 0 && w.After > 0 {
				r.Fail("not-aborted", "%s: %s: %d more bytes are written after the failure", t, fault, w.After)
			}
			aborted(r, c, "encode of "+t.String()+": "+fault)
		}
		// and then everything works again
		c.reset()
		ust.reset()
		w.Acc, w.FailAt, w.Fired = nil, -1, 0
		if err := encode(enc); err != nil || !bytes.Equal(w.Acc, want) {
			r.Fail("after-failure", "%s (taken over: %v): after a failure: %v, got %x, should be %x", t, subs, err, clipB(w.Acc), clipB(want))
		}
	}
	want := ds.encode(t, v)
	data := want.B
	expect := Dump(x.Interface())
	decode := func(dec *abi.Decoder, d reflect.Value) (err error) {
		r.Call("decode of "+t.String(), func() { err = decodeInto(t, dec, d) })
		return
	}
	c.reset()
	ust.reset()
	rd := core.NewReader(r, data)
	rd.Frag = r.N(core.FragCount)
	d := reflect.New(x.Type())
	dec := newDec(rd)
	err := decode(dec, d)
	r.Ev("decode: %v", err)
	r.Evals++
	if err != nil {
		r.Fail("decode-error", "%s (taken over: %v) from %x: %v", t, subs, clipB(data), err)
	}
	if got := Dump(d.Elem().Interface()); got != expect {
		r.Fail("wrong-value", "%s (taken over: %v) from %x: %s", t, subs, clipB(data), Diff(got, expect))
	}
	if rd.Pos != len(data) {
		r.Fail("not-all-read", "%s (taken over: %v): %d of %d bytes taken", t, subs, rd.Pos, len(data))
	}
	check("decode", ds)
	consults, calls := c.n, len(ust.calls)
	ext := hasExt(t)
	for i := r.Range(1, 3); i > 0; i-- {
		c.reset()
		ust.reset()
		rd.Pos, rd.FailAt, rd.Fired, rd.Err, rd.Data = 0, -1, 0, nil, data
		rd.Frag = r.N(core.FragCount)
		if r.N(2) == 1 {
			dec = newDec(rd)
		}
		fault, cause := "", error(nil)
		switch k := r.N(4); {
		case k == 0 && consults > 0:
			fault = "function fails"
			cause = failure(r, !ext)
			c.failAt, c.err, c.done = r.N(consults), cause, r.N(2) == 1
			r.Fault("function-error")
		case k == 1 && calls > 0:
			fault = "method fails"
			cause = failure(r, !ext)
			ust.failAt, ust.err, ust.late = r.N(calls), cause, r.N(2) == 1
			r.Fault("method-error")
		case k == 2 && len(data) > 0 && !ext:
			fault = "stream ends"
			rd.Data = data[:offset(r, want, len(data))]
			r.Fault("stream-cut")
		case len(data) > 0:
			fault = "reader fails"
			cause = &core.IOErr{What: "connection reset"}
			rd.FailAt, rd.Err, rd.Sticky = offset(r, want, len(data)), cause, r.N(2) == 1
		default:
			continue
		}
		err := decode(dec, reflect.New(x.Type()))
		r.Ev("%s: %v", fault, err)
		r.Evals++
		if err == nil {
			r.Fail("failure-hidden", "%s (taken over: %v): %s at %d/%d/%d and the decode succeeds", t, subs, fault, c.failAt, ust.failAt, len(rd.Data))
		}
		if cause != nil && !core.Same(err, cause) {
			r.Fail("failure-replaced", "%s: %s with %q and the decode returns %q", t, fault, cause, err)
		}
		aborted(r, c, "decode of "+t.String()+": "+fault)
	}
	c.reset()
	ust.reset()
	rd.Pos, rd.FailAt, rd.Err, rd.Data = 0, -1, nil, data
	d = reflect.New(x.Type())
	if err := decode(dec, d); err != nil || Dump(d.Elem().Interface()) != expect {
		r.Fail("after-failure", "%s (taken over: %v): after a failure: %v, %s", t, subs, err, Diff(Dump(d.Elem().Interface()), expect))
	}
	r.Sample("%s, taken over: %v, wire form %x", t, subs, clipB(data))
}

// failure is an error of the user's code; eof: also a plain end of the stream.
func failure(r *core.R, eof bool) error {
	switch n := r.N(6); n {
	case 4, 5:
		if eof && n == 4 {
			return io.EOF
		}
		return io.ErrUnexpectedEOF
	case 0:
		return &userErr{"rejected by the user's code"}
	case 1:
		return fmt.Errorf("user: %w", io.ErrUnexpectedEOF)
	case 2:
		return fmt.Errorf("user: %w", io.EOF)
	default:
		return errors.New("abi: unsupported type")
	}
}

// aborted: after the failure nobody is asked again.
func aborted(r *core.R, c *custom, what string) {
	if c.failAt >= 0 && c.n != c.failAt+1 {
		r.Fail("not-aborted", "%s: the function is asked again %d times after its failure", what, c.n-c.failAt-1)
	}
	if ust.failAt >= 0 && !ust.late && len(ust.calls) != ust.failAt+1 {
		r.Fail("not-aborted", "%s: methods are called %d times after the failure of one", what, len(ust.calls)-ust.failAt-1)
	}
}
