package props

import (
	"bytes"
	"io"
	"reflect"

	"verifsim/core"
	"verifsim/ref"
)

// slab delivers data in pieces of a few sizes, and may fail.
type slab struct {
	b    []byte
	pos  int
	size []int
	n    int
	end  int // where it fails, -1: does not
	err  error
}

func (s *slab) Read(p []byte) (int, error) {
	lim := len(s.b)
	if s.end >= 0 {
		lim = s.end
	}
	if s.pos >= lim {
		if s.end >= 0 {
			return 0, s.err
		}
		return 0, io.EOF
	}
	n := min(len(p), s.size[s.n%len(s.size)], lim-s.pos)
	s.n++
	copy(p, s.b[s.pos:s.pos+n])
	s.pos += n
	return n, nil
}

var hugeLens = []int{1<<18 - 1, 1 << 18, 1 << 19, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1000000, 1<<21 - 1, 1 << 21, 1<<21 + 1, 1 << 22, 1<<22 + 1, 5_000_001}

// runHuge: one value of a megabyte or more travels; the link may break on the way.
func runHuge(r *core.R) {
	g := NewG(r)
	if r.N(4) > 0 {
		t, v, n := deepVal(r, g)
		travel(r, (&Msg{T: t, V: v, W: ref.Encode(t, v)}).ABI(r), n, "levels")
		return
	}
	n := hugeLens[r.N(len(hugeLens))]
	switch r.N(6) {
	case 4:
		n = 1<<18 + r.N(1<<21)
	case 5:
		n = 1<<24 + r.N(5) - 2
	default:
		if r.N(3) == 2 && len(r.Dict.Ints) > 0 {
			if k := r.Dict.Ints[r.N(len(r.Dict.Ints))] + uint64(r.N(3)) - 1; k > 1<<17 && k < 1<<24 {
				n = int(k)
			}
		}
	}
	seed := r.Bytes(251)
	fill := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = seed[i%251] ^ byte(i>>8)
		}
		return b
	}
	t := &ref.Ty{K: []ref.Kind{ref.Str, ref.Raw, ref.Bytes, ref.Blob}[r.N(4)]}
	v := &ref.Val{B: fill(n)}
	switch r.N(5) {
	case 3: // within a struct
		t = &ref.Ty{K: ref.Struct, F: []ref.Field{{Name: "f0", T: &ref.Ty{K: ref.U32}}, {Name: "f1", T: t}, {Name: "f2", T: &ref.Ty{K: ref.U64}}}}
		v = &ref.Val{L: []*ref.Val{{U: g.U(32)}, v, {U: g.U(64)}}}
	case 4: // a list of so many elements
		n = min(n, 1<<18+1)
		t = &ref.Ty{K: ref.Slice, Elem: &ref.Ty{K: []ref.Kind{ref.U16, ref.U8, ref.Bool, ref.VarU}[r.N(4)]}}
		v = &ref.Val{L: make([]*ref.Val, n)}
		two := []*ref.Val{{U: 0}, {U: 1}}
		for i := range v.L {
			v.L[i] = two[seed[i%251]&1^byte(i>>8)&1]
		}
	}
	travel(r, (&Msg{T: t, V: v, W: ref.Encode(t, v)}).ABI(r), n, "elements")
}

// deepVal is a value of many levels.
func deepVal(r *core.R, g *G) (*ref.Ty, *ref.Val, int) {
	n := []int{17, 33, 51, 65, 101, 129, 151, 17 + r.N(130)}[r.N(8)]
	t := TyOf([]reflect.Type{reflect.TypeOf(Tree{}), reflect.TypeOf(List{})}[r.N(2)])
	list := t.F[1].Mode == ref.Optional
	var v *ref.Val
	for i := 0; i < n; i++ {
		in := &ref.Val{}
		switch {
		case v != nil && list:
			in = v
		case v != nil:
			leaf := &ref.Val{L: []*ref.Val{{U: g.U(8)}, {}}}
			in.L = [][]*ref.Val{{v}, {leaf, v}, {v, leaf}}[r.N(3)]
		default:
			in.Nil = list
		}
		v = &ref.Val{L: []*ref.Val{{U: g.U(8)}, in}}
	}
	return t, v, n
}

// travel: the value is written, and read again from a link that may break.
func travel(r *core.R, m *Msg, n int, of string) {
	t := m.T
	r.Ev("a value of %s with %d %s", t, n, of)
	if of == "levels" {
		r.Fault("deep-value")
	} else {
		r.Fault("huge-value")
	}
	// out
	var out bytes.Buffer
	path := EncPath(r, t)
	var err error
	r.Call("encode", func() { err = m.Encode(path, &out, NewEnc(path, &out), r.N(2) == 1) })
	r.Evals++
	if err != nil || !bytes.Equal(out.Bytes(), m.W.B) {
		r.Fail("wrong-bytes", "%s of %d "+of+" (%s): %d bytes are written, %v; should be %d", t, n, pathNames[path], out.Len(), err, len(m.W.B))
	}
	// in
	for _, cut := range []bool{r.N(2) == 1, false} {
		s := &slab{b: m.W.B, end: -1}
		for i := r.Range(1, 3); i > 0; i-- {
			s.size = append(s.size, []int{1 << 30, 4096, 1 << 16, 1460, 8191, 1 << 20}[r.N(6)])
		}
		if cut {
			s.end, s.err = r.N(len(m.W.B)), io.EOF
			if r.N(2) == 1 {
				s.err = &core.IOErr{What: "connection reset"}
			}
		}
		path := DecPath(r, t)
		var x interface{}
		r.Call("decode", func() { x, err = m.Decode(path, s, NewDec(path, s)) })
		r.Evals++
		r.Ev("%s: %v", pathNames[path], err)
		if cut {
			if err == nil {
				r.Fail("accepted-cut", "%s of %d "+of+" (%s), cut at %d of %d, is accepted", t, n, pathNames[path], s.end, len(m.W.B))
			}
			continue
		}
		if err != nil {
			r.Fail("rejected", "%s of %d "+of+" (%s): %v", t, n, pathNames[path], err)
		}
		if got, want := DumpI(x), m.Want(path); got != want {
			r.Fail("wrong-value", "%s of %d "+of+" (%s) arrives changed", t, n, pathNames[path])
		}
		if s.pos != len(m.W.B) {
			r.Fail("wrong-length", "%s of %d "+of+" (%s): took %d bytes of %d", t, n, pathNames[path], s.pos, len(m.W.B))
		}
	}
	r.Sample("one value of %s with %d "+of, t, n)
}
