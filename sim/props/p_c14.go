package props

import (
	"bytes"
	"encoding/json"
	"fmt"

	"reflect"
	"sort"
	"strings"
	"syscall"

	"github.com/greymass/go-eosio/pkg/chain"

	"verifsim/core"
	"verifsim/ref"
)

var jKeys = []ref.Kind{ref.Str, ref.Name, ref.U32, ref.I64, ref.CU64, ref.BlkNum, ref.Sym, ref.SymCode, ref.Asset, ref.C160, ref.C256, ref.C512, ref.U128, ref.I128, ref.F128, ref.TPS, ref.BTS, ref.NU64, ref.U8, ref.VarI}

// jType gives the maps in a type keys of every kind that JSON knows.
func jType(g *G, t *ref.Ty) *ref.Ty {
	if t.ID != "" || t.K < ref.LeafEnd {
		return t
	}
	c := *t
	if t.Elem != nil {
		c.Elem = jType(g, t.Elem)
	}
	if t.K == ref.Map {
		c.Key = &ref.Ty{K: jKeys[g.N(len(jKeys))]}
	}
	c.F = append([]ref.Field(nil), t.F...)
	for i := range c.F {
		c.F[i].T = jType(g, c.F[i].T)
	}
	return &c
}

const minYear1, maxYear9999 = -62135596800_000_000, 253402300799_999_999

// jVal makes a value one that JSON can hold: valid strings, finite floats, four-digit years, symbols with
// names, keys of moderate length. fl floors times to what their text holds.
func jVal(t *ref.Ty, v *ref.Val, fl bool) *ref.Val {
	c := *v
	if v.Gone || v.Nil {
		return &c
	}
	switch t.K {
	case ref.Str:
		c.B = []byte(strings.ToValidUTF8(string(v.B), "?"))
	case ref.F32:
		if v.U&0x7f800000 == 0x7f800000 {
			c.U = v.U & 0x3fffffff
		}
	case ref.F64:
		if v.U&0x7ff0000000000000 == 0x7ff0000000000000 {
			c.U = v.U & 0x3fffffffffffffff
		}
	case ref.TP:
		u := int64(v.U)
		if u < minYear1 || u > maxYear9999 {
			u = minYear1 + int64(v.U%(maxYear9999-minYear1+1))
		}
		if fl {
			u -= ((u % 1000) + 1000) % 1000
		}
		c.U = uint64(u)
	case ref.Sym:
		c.U = jSym(v.U)
	case ref.SymCode:
		c.U = jSym(v.U<<8) >> 8
	case ref.Asset, ref.ExtAsset:
		c.Hi = jSym(v.Hi)
	case ref.PubKey, ref.Sig:
		if len(v.B) > 300 {
			c.U = 0
			if c.B = v.B[:65]; t.K == ref.PubKey {
				c.B = v.B[:33]
			}
		}
	case ref.Map:
		c.L = nil
		seen := map[string]bool{}
		type ent struct {
			k, v *ref.Val
			id   string
		}
		var es []ent
		for i := 0; i+1 < len(v.L); i += 2 {
			k := jVal(t.Key, v.L[i], fl)
			id := fmt.Sprint(jForm(ToGo(t.Key, k)).(*jLeaf).main)
			if !seen[id] {
				seen[id] = true
				es = append(es, ent{k, jVal(t.Elem, v.L[i+1], fl), id})
			}
		}
		if t.Key.K == ref.Str || t.Key.K == ref.SymCode || t.Key.K == ref.Sym {
			sort.SliceStable(es, func(i, j int) bool { return KeyLess(t.Key.K, es[i].k, es[j].k) })
		}
		for _, e := range es {
			c.L = append(c.L, e.k, e.v)
		}
	case ref.Struct:
		c.L = nil
		for i, f := range t.F {
			c.L = append(c.L, jVal(f.T, v.L[i], fl))
		}
	case ref.Variant:
		c.L = []*ref.Val{jVal(t.F[v.Tag].T, v.L[0], fl)}
	case ref.Slice, ref.Array, ref.Ptr, ref.Opt:
		c.L = nil
		for _, e := range v.L {
			c.L = append(c.L, jVal(t.Elem, e, fl))
		}
	}
	return &c
}

// jSym makes a symbol well-formed.
func jSym(s uint64) uint64 {
	if ref.IsSymbol(s) {
		return s
	}
	o := s & 255 % 19
	for i := 1; i <= 1+int(s>>8&255%7); i++ {
		o |= uint64('A'+(s>>(8*i)&255)%26) << (8 * i)
	}
	return o
}

// Where a document comes from.
const (
	jOwn  = iota // a value of the program
	jNode        // written by a node
	jTree        // ABI-driven decode of binary data
	jWire        // typed decode of binary data
)

var jSrc = [...]string{"own value", "node", "ABI-decoded", "decoded"}

type jMsg struct {
	*Msg
	src  int
	want string // dump of what is to arrive
	form interface{}
}

func newJMsg(g *G, t *ref.Ty) *jMsg {
	v := jVal(t, g.Val(t, false), false)
	m := &jMsg{Msg: &Msg{T: t, V: v}, src: g.Pick(4, 3, 2, 1)}
	if hasKeyKinds(t, map[*ref.Ty]bool{}) && m.src > jNode {
		m.src = jOwn
	}
	if m.src >= jTree {
		m.W = ref.Encode(t, v)
	}
	if m.src == jTree {
		m.ABI(g.R)
		m.form = jForm(reflect.ValueOf(m.B.Tree(t, v, true)))
	} else {
		m.form = jForm(ToGo(t, v))
		m.want = DumpI(ToGo(t, jVal(t, v, true)).Interface())
	}
	return m
}

// hasKeyKinds: the type has maps that only JSON is asked to handle.
func hasKeyKinds(t *ref.Ty, seen map[*ref.Ty]bool) bool {
	if t == nil || seen[t] {
		return false
	}
	seen[t] = true
	if t.K == ref.Map {
		ok := false
		for _, k := range keyLeaves {
			ok = ok || k == t.Key.K
		}
		if !ok {
			return true
		}
	}
	if hasKeyKinds(t.Elem, seen) {
		return true
	}
	for _, f := range t.F {
		if hasKeyKinds(f.T, seen) {
			return true
		}
	}
	return false
}

// doc is the message's document.
func (m *jMsg) doc(r *core.R) []byte {
	if m.src == jNode {
		var b strings.Builder
		jPrint(r, &b, m.form, false)
		return []byte(b.String())
	}
	var x interface{}
	var err error
	switch m.src {
	case jOwn:
		x = ToGo(m.T, m.V).Interface()
	case jTree:
		r.Call("ABI decode of "+m.T.String(), func() { x, err = m.Decode(PABI, bytes.NewReader(m.W.B), nil) })
	case jWire:
		rd := bytes.NewReader(m.W.B)
		r.Call("decode of "+m.T.String(), func() { x, err = m.Decode(PTyped, rd, NewDec(PTyped, rd)) })
	}
	if err != nil {
		r.Fail("decode", "%s (%s): %v", m.T, jSrc[m.src], err)
	}
	before := Dump(x)
	var b []byte
	how := r.N(5)
	r.Call("JSON form of "+m.T.String(), func() {
		y := x
		switch how {
		case 1, 2: // by pointer
			p := reflect.New(reflect.TypeOf(x))
			p.Elem().Set(reflect.ValueOf(x))
			y = p.Interface()
		case 3: // within something
			y = map[string]interface{}{"v": x}
		}
		switch how {
		case 2:
			b, err = json.MarshalIndent(y, "", "  ")
		case 4:
			var w bytes.Buffer
			e := json.NewEncoder(&w)
			e.SetEscapeHTML(false)
			err = e.Encode(y)
			b = bytes.TrimRight(w.Bytes(), "\n")
		default:
			b, err = json.Marshal(y)
		}
	})
	r.Evals++
	if err != nil {
		r.Fail("write-error", "%s (%s): no JSON form: %v", m.T, jSrc[m.src], err)
	}
	if d := Dump(x); d != before {
		r.Fail("altered", "%s: writing JSON altered the value: %s", m.T, Diff(d, before))
	}
	got, err := generic(b)
	if err != nil {
		r.Fail("write-error", "%s (%s): the JSON form is not JSON: %v", m.T, jSrc[m.src], err)
	}
	if how == 3 {
		got = got.(map[string]interface{})["v"]
		b, _ = json.Marshal(got)
	}
	if s := jMatch(m.form, got, "value"); s != "" {
		r.Fail("form", "%s (%s): %s", m.T, jSrc[m.src], s)
	}
	return b
}

func generic(b []byte) (x interface{}, err error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	err = d.Decode(&x)
	return
}

func runC14(r *core.R) {
	defer moveZone(r)()
	g := NewG(r)
	g.budget = []int{400, 1500, 5000}[g.Pick(4, 4, 1)]
	var ts []*ref.Ty
	for i := r.Range(1, 3); i > 0; i-- {
		t := jType(g, g.Top(g.Range(0, 3), TyOpt{ValScalar: true}))
		if t.K < ref.LeafEnd || t.K == ref.Map || t.K == ref.Variant {
			t = &ref.Ty{K: ref.Struct, F: []ref.Field{{Name: "fa0", T: t}}}
			if t.F[0].T.K == ref.Variant {
				t.F[0].Mode = ref.VariantField
			}
		}
		ts = append(ts, t)
	}
	s := core.NewSched(r)
	s.MaxSteps = 3_000_000
	var all []func()
	for c := r.Range(1, 2); c > 0; c-- {
		all = append(all, jConn(r, g, s, ts, c))
	}
	if stuck := s.Run(); len(stuck) > 0 {
		r.Fail("stalled", "the network works but these wait for ever: %v", stuck)
	}
	for _, f := range all {
		f()
	}
	r.Sample("types %v", ts)
}

func jConn(r *core.R, g *G, s *core.Sched, ts []*ref.Ty, c int) func() {
	var say []*jMsg
	for i := r.Range(1, 4); i > 0; i-- {
		m := newJMsg(g, ts[r.N(len(ts))])
		r.Ev("message %d: %s, %s", len(say), m.T, jSrc[m.src])
		say = append(say, m)
	}
	l := newLink(r, s)
	if l.window < 64 {
		l.window = 64
	}
	cut := r.N(3) == 2
	cutFrac := r.N(1001)
	var docs [][]byte
	var ends []int
	var got []recvd
	n := 0
	s.Go(fmt.Sprintf("writer%d", c), func(t *core.Task) {
		defer l.close()
		for i, m := range say {
			b := m.doc(r)
			b = append(b, [][]byte{{'\n'}, {}, {' '}}[r.N(3)]...)
			docs = append(docs, b)
			n += len(b)
			ends = append(ends, n-len(b)+len(bytes.TrimRight(b, " \t\r\n")))
			if cut && i == len(say)-1 {
				// the connection breaks while the last documents are on the way
				l.cutAt = max(len(l.sent), n*cutFrac/1000)
				if l.cutAt == len(l.sent) {
					r.Fault("cut")
					return
				}
				if r.N(2) == 1 {
					l.endErr = syscall.ECONNRESET
				}
			}
			if _, err := (linkW{l, t}).Write(b); err != nil {
				if l.cutAt < 0 && !l.closed {
					r.Fail("simulator", "write: %v", err)
				}
				return
			}
			if r.N(4) == 3 {
				t.Sleep(int64(r.N(2000)))
			}
		}
	})
	s.Go(fmt.Sprintf("reader%d", c), func(t *core.Task) {
		d := json.NewDecoder(linkR{l, t})
		d.UseNumber()
		for i, m := range say {
			p := reflect.New(reflect.TypeOf((*interface{})(nil)).Elem())
			if m.src != jTree {
				p = reflect.New(GoType(m.T))
			}
			var err error
			r.Call("reading the JSON form of "+m.T.String(), func() { err = d.Decode(p.Interface()) })
			r.Evals++
			whole := i < len(ends) && (l.cutAt < 0 || ends[i] <= l.cutAt)
			r.Ev("message %d (%s, %s) read: %v", i, m.T, jSrc[m.src], err)
			if err != nil {
				if whole && ends[i] <= len(l.sent) {
					r.Fail("read-error", "%s (%s): document %d arrived whole but reading it fails: %v: %s", m.T, jSrc[m.src], i, err, Clip(string(docs[i])))
				}
				l.closed = true
				return
			}
			if !whole {
				r.Fail("made-up", "%s (%s): document %d was cut but was read as %s", m.T, jSrc[m.src], i, Clip(DumpI(p.Elem().Interface())))
			}
			x := p.Elem().Interface()
			dump := DumpI(x)
			switch m.src {
			case jTree:
				if e := jMatch(m.form, x, "value"); e != "" {
					r.Fail("not-equal", "%s (%s): document %d: %s", m.T, jSrc[m.src], i, e)
				}
			case jWire:
				// nil lists behind pointers look different afterwards
			default:
				if dump != m.want {
					r.Fail("not-equal", "%s (%s): document %d: %s: %s", m.T, jSrc[m.src], i, Diff(dump, m.want), Clip(string(docs[i])))
				}
			}
			got = append(got, recvd{x: x, dump: dump})
		}
	})
	return func() {
		if l.cutAt < 0 && !l.closed && len(got) != len(say) {
			r.Fail("lost", "%d of %d documents were read", len(got), len(say))
		}
		for i, y := range got {
			if d := DumpI(y.x); d != y.dump {
				r.Fail("altered", "document %d was altered after it was read: %s", i, Diff(d, y.dump))
			}
		}
		for k := r.N(4); k > 0 && len(docs) > 0; k-- {
			i := r.N(len(docs))
			if say[i].src == jTree {
				continue
			}
			jDamaged(r, say[i], docs[i])
		}
	}
}

// jDamaged reads a damaged document.
func jDamaged(r *core.R, m *jMsg, doc []byte) {
	b := damageText(r, doc)
	g := GoType(m.T)
	read := func(b []byte) (x interface{}, err error) {
		p := reflect.New(g)
		r.Call("reading damaged JSON of "+m.T.String(), func() { err = json.Unmarshal(b, p.Interface()) })
		return p.Elem().Interface(), err
	}
	x, err := read(b)
	r.Evals++
	r.Ev("damaged %s: %v", m.T, err)
	if err != nil {
		return
	}
	if jOdd(reflect.ValueOf(x)) {
		return // left at zero: no text stands for that
	}
	write := func(x interface{}) []byte {
		var b []byte
		r.Call("JSON form of "+m.T.String(), func() { b, err = json.Marshal(x) })
		if err != nil {
			r.Fail("damage", "%s: a damaged document %s was read as a value without a JSON form: %v", m.T, Clip(string(b)), err)
		}
		return b
	}
	b1 := write(x)
	x2, err := read(b1)
	if err != nil {
		r.Fail("damage", "%s: a damaged document %s was read as a value whose JSON form %s cannot be read: %v", m.T, Clip(string(b)), Clip(string(b1)), err)
	}
	if b2 := write(x2); !bytes.Equal(b1, b2) {
		r.Fail("damage", "%s: a damaged document %s was read as a value with the JSON form %s that reads back as %s", m.T, Clip(string(b)), Clip(string(b1)), Clip(string(b2)))
	}
}

// jOdd: the value has symbols without a name, for which there is no text.
func jOdd(v reflect.Value) bool {
	if !v.IsValid() {
		return false
	}
	switch x := v.Interface().(type) {
	case chain.Symbol:
		return !ref.IsSymbol(uint64(x))
	case chain.SymbolCode:
		return !ref.IsCode(uint64(x))
	case chain.Asset:
		return !ref.IsSymbol(uint64(x.Symbol))
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		return !v.IsNil() && jOdd(v.Elem())
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return false
		}
		for i := 0; i < v.Len(); i++ {
			if jOdd(v.Index(i)) {
				return true
			}
		}
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			if jOdd(it.Key()) || jOdd(it.Value()) {
				return true
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if jOdd(v.Field(i)) {
				return true
			}
		}
	}
	return false
}
