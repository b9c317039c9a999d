package props

import (
	"errors"
	"io"
	"reflect"

	"github.com/greymass/go-eosio/pkg/chain"

	"verifsim/core"
	"verifsim/ref"
)

// offset picks a byte offset in [0,n), biased to the marked places.
func offset(r *core.R, e *ref.Enc, n int) int {
	if n <= 0 {
		return 0
	}
	switch r.Pick(3, 3, 3) {
	case 0:
		return r.N(n)
	case 1:
		if len(e.Marks) > 0 {
			o := e.Marks[r.N(len(e.Marks))].Off + r.N(4)
			if o < n {
				return o
			}
		}
		return r.N(n)
	default:
		return n - 1 - r.N(min(n, 9))
	}
}

// nested is a value of Tree or List of the given depth.
func nested(t *ref.Ty, depth int) *ref.Val {
	tree := t.F[1].Mode == ref.Plain
	v := &ref.Val{L: []*ref.Val{{U: 7}, {Nil: !tree}}}
	for ; depth > 0; depth-- {
		x := v
		if tree {
			x = &ref.Val{L: []*ref.Val{v}}
		}
		v = &ref.Val{L: []*ref.Val{{U: uint64(depth & 255)}, x}}
	}
	return v
}

func extAt(e *ref.Enc, off int) bool {
	for _, m := range e.Marks {
		if m.Kind == "ext" && m.Off == off {
			return true
		}
	}
	return false
}

func runC02(r *core.R) {
	g := NewG(r).Big()
	t := g.Top(g.Range(0, 3), TyOpt{Ext: true, ABI: g.N(6) == 5})
	var m *Msg
	deep := only == nil && r.N(400) == 399
	if deep {
		// failures far inside a value
		t = TyOf(reflect.TypeOf([]interface{}{Tree{}, List{}}[r.N(2)]))
		v := nested(t, []int{50, 500, 1500}[r.N(3)])
		m = &Msg{T: t, V: v, W: ref.Encode(t, v)}
		r.Probe("deep-value")
	} else {
		m = NewMsg(g, t, false)
	}
	n := len(m.W.B)
	path := DecPath(r, t)
	if deep {
		path = []int{PTyped, PCustom, PBare}[r.N(3)]
	}
	m.ABI(r)
	r.Ev("type %s path %s bytes %d %x", t, pathNames[path], n, clipB(m.W.B))
	if n == 0 {
		r.Probe("empty-message")
		return
	}
	g2 := NewG(r)
	m2 := NewMsg(g2, t, false)
	m2.B, m2.Name, m2.Act = m.B, m.Name, m.Act
	for i := r.Range(1, 12); i > 0; i-- {
		off := offset(r, m.W, n)
		rd := core.NewReader(r, m.W.B)
		rd.Frag = r.N(core.FragCount)
		kind := r.Pick(3, 2, 2, 1)
		switch kind {
		case 0:
			rd.Data = m.W.B[:off]
			rd.DataEOF = r.N(2) == 1
			r.Fault("stream-cut")
		case 1, 2:
			rd.FailAt, rd.Err, rd.Sticky = off, core.PickErr(r), kind == 1
			rd.WithData = r.N(2) == 1
		case 3:
			rd.FailAt, rd.Err = off, io.EOF
			r.Fault("eof-then-more")
		}
		src := rd.As([]int{core.ReaderSim, core.ReaderSimByte, core.ReaderSimLen}[r.N(3)])
		dec := NewDec(path, src)
		var got interface{}
		var err error
		r.Call("decode of "+t.String()+" ("+pathNames[path]+")", func() { got, err = m.Decode(path, src, dec) })
		r.Ev("fault %d at %d of %d frag %d sticky %v err %v -> %v", kind, off, n, rd.Frag, rd.Sticky, rd.Err, err)
		r.Evals++
		ext := extAt(m.W, off)
		if ext {
			r.Probe("cut-at-extension")
		}
		if kind == 0 && !ext && !deep && r.N(3) == 2 {
			// the same as the data of an action
			a := chain.Action{Account: 1, Name: m.Act, Data: chain.Bytes(m.W.B[:off])}
			var v interface{}
			var err error
			r.Call("decode of an action of "+t.String(), func() {
				if r.N(2) == 1 && t.K != ref.Variant && !hasOpt(t, map[*ref.Ty]bool{}) {
					d := reflect.New(GoType(t))
					err = a.DecodeInto(d.Interface())
					v = d.Elem().Interface()
				} else {
					v, err = a.Decode(&m.B.Def)
				}
			})
			if err == nil {
				r.Fail("silent-success", "action of %s: its data was cut at %d of %d but the decode returned %s and no error", t, off, n, Clip(DumpI(v)))
			}
		}
		eof := kind == 0 || kind == 3
		switch {
		case ext && kind == 3:
			// a stream that ends and then goes on: what the fields after this one see is open
		case ext && eof:
			d := ref.Dec{B: m.W.B[:off], Pairs: true}
			v, derr := d.Decode(t)
			if derr != nil {
				panic(derr)
			}
			if err != nil {
				r.Fail("absent-extension-error", "%s (%s) cut at %d of %d, where an extension starts: %v instead of an absent field", t, pathNames[path], off, n, err)
			}
			if w := m.WantVal(path, v); DumpI(got) != w {
				r.Fail("absent-extension-value", "%s (%s) cut at %d of %d: %s", t, pathNames[path], off, n, Diff(DumpI(got), w))
			}
		case ext && errors.Is(rd.Err, io.EOF):
			// whether this is an end of the stream is open
		case err == nil:
			r.Fail("silent-success", "%s (%s): reader failed at %d of %d (%v) but decode returned %s and no error", t, pathNames[path], off, n, rd.Err, Clip(DumpI(got)))
		case !eof && !core.Same(err, rd.Err):
			r.Fail("wrong-error", "%s (%s): reader failed with %q at %d of %d but decode returned %q", t, pathNames[path], rd.Err, off, n, err)
		}
		if err != nil && path != PABI && path != PAction {
			// more failures on the same decoder
			again := r.N(3)
			if n > 20000 {
				again = 0
			}
			if deep {
				again = 4
			}
			for ; again > 0; again-- {
				cut := n - 1 - r.N(min(n, 9))
				if extAt(m.W, cut) {
					break
				}
				rd.Data, rd.Pos, rd.FailAt, rd.DataEOF = m.W.B[:cut], 0, -1, r.N(2) == 1
				var err error
				r.Call("decode failing again", func() { _, err = m.Decode(path, src, dec) })
				r.Fault("stream-cut")
				if err == nil {
					r.Fail("silent-success", "%s (%s): after a failed decode, one cut at %d of %d returned no error", t, pathNames[path], cut, n)
				}
			}
			// the same decoder on a following intact value
			rd.Data, rd.Pos, rd.FailAt, rd.DataEOF = m2.W.B, 0, -1, false
			var got interface{}
			var err error
			r.Call("decode after failure", func() { got, err = m2.Decode(path, src, dec) })
			if err != nil {
				r.Fail("decoder-stuck", "%s (%s): after a failed decode the next one fails: %v", t, pathNames[path], err)
			}
			if w := m2.Want(path); DumpI(got) != w {
				r.Fail("decoder-tainted", "%s (%s): after a failed decode: %s", t, pathNames[path], Diff(DumpI(got), w))
			}
		}
	}
	r.Sample("%s via %s, %d bytes %x", t, pathNames[path], n, clipB(m.W.B))
}

func clipB(b []byte) []byte {
	if len(b) > 48 {
		return b[:48]
	}
	return b
}

func runC03(r *core.R) {
	g := NewG(r).Big()
	t := g.Top(g.Range(0, 3), TyOpt{Ext: true, ABI: g.N(6) == 5})
	m := NewMsg(g, t, false)
	n := len(m.W.B)
	path := EncPath(r, t)
	m.ABI(r)
	ptr := r.N(2) == 1
	r.Ev("type %s path %s bytes %d %x", t, pathNames[path], n, clipB(m.W.B))
	g2 := NewG(r)
	m2 := NewMsg(g2, t, false)
	m2.B, m2.Name, m2.Act = m.B, m.Name, m.Act
	for i := r.Range(1, 12); i > 0; i-- {
		w := core.NewWriter(r)
		if n > 0 && i > 1 {
			w.FailAt = offset(r, m.W, n)
			w.Err, w.Sticky, w.Mode = core.PickErr(r), r.N(2) == 0, r.N(3)
			w.Silent = w.Mode < 2 && r.N(4) == 3
		}
		dst := w.As(r.N(2))
		enc := NewEnc(path, dst)
		var err error
		r.Call("encode of "+t.String()+" ("+pathNames[path]+")", func() { err = m.Encode(path, dst, enc, ptr) })
		r.Ev("fail at %d of %d mode %d sticky %v err %v -> %v accepted %d", w.FailAt, n, w.Mode, w.Sticky, w.Err, err, len(w.Acc))
		r.Evals++
		if w.FailAt < 0 {
			if err != nil {
				r.Fail("error-without-fault", "%s (%s): encode failed on a working writer: %v", t, pathNames[path], err)
			}
			if string(w.Acc) != string(m.W.B) {
				r.Fail("incomplete", "%s (%s): wrote %x want %x", t, pathNames[path], clipB(w.Acc), clipB(m.W.B))
			}
			continue
		}
		if err == nil {
			r.Fail("silent-success", "%s (%s): writer failed at %d of %d (%v) but encode returned no error", t, pathNames[path], w.FailAt, n, w.Err)
		}
		if w.Fired == 0 {
			r.Fail("error-without-fault", "%s (%s): encode failed before the writer did: %v", t, pathNames[path], err)
		}
		if !w.Silent && !core.Same(err, w.Err) {
			r.Fail("wrong-error", "%s (%s): writer failed with %q but encode returned %q", t, pathNames[path], w.Err, err)
		}
		if len(w.Acc) > n || string(w.Acc) != string(m.W.B[:len(w.Acc)]) {
			r.Fail("not-a-prefix", "%s (%s): failed at %d; accepted %x which is no beginning of %x", t, pathNames[path], w.FailAt, clipB(w.Acc), clipB(m.W.B))
		}
		if w.After > 0 {
			r.Fail("written-after-failure", "%s (%s): %d bytes offered to the writer after it failed at %d", t, pathNames[path], w.After, w.FailAt)
		}
		if path != PABI && path != PAction {
			w.FailAt, w.Acc = -1, nil
			r.Call("encode after failure", func() { err = m2.Encode(path, dst, enc, ptr) })
			if err != nil {
				r.Fail("encoder-stuck", "%s (%s): after a failed encode the next one fails: %v", t, pathNames[path], err)
			}
			if string(w.Acc) != string(m2.W.B) {
				r.Fail("encoder-tainted", "%s (%s): after a failed encode: wrote %x want %x", t, pathNames[path], clipB(w.Acc), clipB(m2.W.B))
			}
		}
	}
	if r.N(4) == 3 {
		m.unfit(r)
	}
	r.Sample("%s via %s, %d bytes %x", t, pathNames[path], n, clipB(m.W.B))
}
