package props

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"reflect"
	"time"

	"github.com/greymass/go-eosio/pkg/base58"
	"github.com/greymass/go-eosio/pkg/chain"
	"github.com/greymass/go-eosio/pkg/codegen"
	"github.com/greymass/go-eosio/pkg/ripemd160"

	"verifsim/core"
	"verifsim/hook"
	"verifsim/ref"
)

// op is a call of a program: it can be made at any time and any number of times.
type op struct {
	name string
	f    func() interface{}
	want string // dump of the result, if known
}

// opres is what a call returned.
type opres struct {
	Val interface{}
	Err string
	N   int // bytes left, or a second number
}

func res(v interface{}, err error, n int) interface{} {
	o := opres{Val: v, N: n}
	if err != nil {
		o.Err = err.Error()
	}
	return o
}

// world is what the callers share.
type world struct {
	r      *core.R
	g      *G
	side   *side
	ms     []*Msg
	xs     []reflect.Value // the value of each message, addressable
	trees  []interface{}
	wires  [][]byte // with spare capacity
	acts   []chain.Action
	bytess [][]byte
	texts  [][]byte
	tkind  []int
	tinto  []reflect.Type
	jsons  [][]byte
	hist   []int
	bigs   []*big.Int
	auths  []chain.PermissionLevel // with spare capacity
}

// spare is a copy with room behind it that must stay as it is.
func spare(b []byte) []byte {
	s := make([]byte, len(b)+24)
	copy(s, b)
	for i := len(b); i < len(s); i++ {
		s[i] = 0xa5
	}
	return s[:len(b)]
}

func sharedTypes(g *G) []*ref.Ty {
	var ts []*ref.Ty
	for i := g.Range(1, 3); i > 0; i-- {
		ts = append(ts, g.Top(g.Range(0, 3), TyOpt{NoVariant: g.N(3) > 0, Ext: true}))
	}
	return ts
}

func newWorld(r *core.R) *world {
	g := NewG(r)
	g.budget = 1200
	w := &world{r: r, g: g}
	ts := sharedTypes(g)
	w.side = newSide(r, "", ts)
	for i := r.Range(1, 4); i > 0; i-- {
		t := ts[r.N(len(ts))]
		m := w.side.msg(NewMsg(g, t, false))
		w.ms = append(w.ms, m)
		x := ToGo(t, m.V)
		addRoom(x, 0)
		w.xs = append(w.xs, x)
		w.trees = append(w.trees, m.B.Tree(t, m.V, false))
		w.wires = append(w.wires, spare(m.W.B))
		w.acts = append(w.acts, chain.Action{Account: chain.Name(g.U(64)), Name: m.Act, Authorization: []chain.PermissionLevel{{Actor: 1, Permission: 2}}, Data: chain.Bytes(spare(m.W.B))})
	}
	for i := r.Range(1, 3); i > 0; i-- {
		w.bytess = append(w.bytess, spare(r.Bytes(r.N(200))))
	}
	for i := r.Range(1, 3); i > 0; i-- {
		k := g.N(txKinds)
		s := goodText(g, k)
		if r.N(4) == 3 {
			s = string(damageText(r, []byte(s)))
		}
		w.texts = append(w.texts, spare([]byte(s)))
		w.tkind = append(w.tkind, k)
		w.tinto = append(w.tinto, textTargets[r.N(len(textTargets))])
	}
	for i := 0; i < 2; i++ {
		x := new(big.Int).SetUint64(g.U(64))
		x.Lsh(x, uint(r.N(64))).Add(x, new(big.Int).SetUint64(g.U(32)))
		if r.N(2) == 1 {
			x.Neg(x)
		}
		w.bigs = append(w.bigs, x)
	}
	w.auths = make([]chain.PermissionLevel, 2, 4)
	w.auths[0].Actor, w.auths[1].Permission = chain.Name(g.U(64)), chain.Name(g.U(64))
	// an ABI definition and a value as JSON
	if j, err := json.Marshal(w.side.b.Def); err == nil {
		w.jsons = append(w.jsons, spare(j))
	}
	return w
}

var textTargets = func() (ts []reflect.Type) {
	for _, k := range chainLeaves {
		t := leafGo[k]
		if _, ok := reflect.New(t).Interface().(interface{ UnmarshalText([]byte) error }); ok {
			ts = append(ts, t)
		}
	}
	return
}()

var genStructs = []interface{}{Transfer{}, chain.PermissionLevel{}, Mixed0{}, Tree{}}

// Mixed0 is for the code generator.
type Mixed0 struct {
	A []string
	B [3]uint16
	C *uint32 `eosio:"optional"`
	D chain.Asset
}

// inputs is everything the callers share, with the spare room of slices.
func (w *world) inputs() []string {
	var out []string
	full := func(b []byte) string { return fmt.Sprintf("%d:%x", len(b), b[:cap(b)]) }
	for i := range w.ms {
		out = append(out, DumpI(w.xs[i].Interface()), DumpI(w.trees[i]), full(w.wires[i]), DumpI(w.acts[i]), full(w.acts[i].Data))
		var b bytes.Buffer
		roomDump(&b, w.xs[i], 0)
		out = append(out, b.String())
	}
	for _, b := range append(append(append([][]byte{}, w.bytess...), w.texts...), w.jsons...) {
		out = append(out, full(b))
	}
	for _, x := range w.bigs {
		out = append(out, fmt.Sprintf("%d %v", x, x.Bits()[:cap(x.Bits())]))
	}
	return append(out, DumpI(w.auths[:4]), DumpI(w.side.b.Def))
}

// addRoom gives the slices in v room behind their end.
func addRoom(v reflect.Value, d int) {
	if d > 8 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			addRoom(v.Elem(), d+1)
		}
	case reflect.Slice:
		if !v.CanSet() || v.IsNil() {
			return
		}
		n := v.Len()
		s := reflect.MakeSlice(v.Type(), n+2, n+2)
		reflect.Copy(s, v)
		if v.Type().Elem().Kind() == reflect.Uint8 {
			s.Index(n).SetUint(0xa5)
			s.Index(n + 1).SetUint(0x5a)
		}
		v.Set(s.Slice(0, n))
		for i := 0; i < n; i++ {
			addRoom(v.Index(i), d+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			addRoom(v.Field(i), d+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			addRoom(v.Index(i), d+1)
		}
	}
}

// roomDump lists the spare room of all byte slices in v.
func roomDump(b *bytes.Buffer, v reflect.Value, d int) {
	if d > 8 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			roomDump(b, v.Elem(), d+1)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			x := v.Bytes()
			fmt.Fprintf(b, "%x.", x[len(x):cap(x)])
			return
		}
		for i := 0; i < v.Len(); i++ {
			roomDump(b, v.Index(i), d+1)
		}
		if c := v.Cap(); c > v.Len() {
			fmt.Fprintf(b, "%s.", Dump(v.Slice(v.Len(), c).Interface()))
		}
	case reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			roomDump(b, v.Index(i), d+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			roomDump(b, v.Field(i), d+1)
		}
	}
}

// op plans a call.
func (w *world) op() op {
	r, g := w.r, w.g
	i := r.N(len(w.ms))
	m, x := w.ms[i], w.xs[i]
	seed := uint64(r.N(1 << 20))
	switch r.Pick(8, 8, 6, 6, 3, 6, 4, 4, 3, 1, 2, 4) {
	case 0: // decode
		path := DecPath(r, m.T)
		data := w.wires[i]
		want := ""
		if r.N(5) == 4 && len(data) > 0 {
			data = data[:r.N(len(data))]
		} else {
			want = m.WantVal(path, m.V)
		}
		kind, frag := r.N(7), r.N(core.FragCount)
		return op{fmt.Sprintf("decode %s (%s) of %d bytes, reader %d/%d", m.T, pathNames[path], len(data), kind, frag), func() interface{} {
			var rd io.Reader
			var left func() int
			if kind < 4 {
				rd, left = stdShared(kind, data)
			} else {
				s := &core.Reader{C: core.NewRng(seed), Data: data, Frag: frag, FailAt: -1, Mark: -1}
				rd, left = s, func() int { return len(s.Data) - s.Pos }
			}
			v, err := m.Decode(path, rd, NewDec(path, rd))
			if err != nil {
				v = nil
			}
			return res(v, err, left())
		}, wantRes(want)}
	case 1: // encode
		path := EncPath(r, m.T)
		if path == PABI || path == PAction {
			tree := w.trees[i]
			return op{fmt.Sprintf("encode %s (%s)", m.T, pathNames[path]), func() interface{} {
				var b bytes.Buffer
				var err error
				if path == PABI {
					err = m.B.Def.Encode(&b, m.Name, tree)
				} else {
					err = m.B.Def.EncodeAction(&b, m.Act, tree)
				}
				return res(b.Bytes(), err, 0)
			}, DumpI(res(m.W.B, nil, 0))}
		}
		ptr := r.N(2) == 1
		var arg interface{} = x.Interface()
		if ptr {
			arg = x.Addr().Interface()
		}
		fail := -1
		if r.N(5) == 4 && len(m.W.B) > 0 {
			fail = r.N(len(m.W.B))
		}
		want := ""
		if fail < 0 {
			want = DumpI(res(m.W.B, nil, 0))
		}
		return op{fmt.Sprintf("encode %s (%s) pointer %v, writer fails at %d", m.T, pathNames[path], ptr, fail), func() interface{} {
			s := &core.Writer{C: core.NewRng(seed), FailAt: fail, Err: io.ErrClosedPipe}
			var err error
			if path == PPrim {
				err = writePrim(NewEnc(path, s), m.T, m.V)
			} else {
				err = NewEnc(path, s).Encode(arg)
			}
			return res(s.Acc, err, 0)
		}, want}
	case 2: // action
		a := &w.acts[i]
		switch r.N(3) {
		case 0:
			return op{"digest of an action with " + m.T.String(), func() interface{} { return a.Digest() }, ""}
		case 1:
			return op{"decode of an action with " + m.T.String(), func() interface{} {
				v, err := a.Decode(&w.side.b.Def)
				return res(v, err, 0)
			}, ""}
		default:
			if hasOpt(m.T, map[*ref.Ty]bool{}) || m.T.K == ref.Variant {
				return op{"digest of an action with " + m.T.String(), func() interface{} { return a.Digest() }, ""}
			}
			gt := GoType(m.T)
			return op{"decode of an action into " + m.T.String(), func() interface{} {
				d := reflect.New(gt)
				err := a.DecodeInto(d.Interface())
				return res(d.Elem().Interface(), err, 0)
			}, wantRes(DumpI(ToGo(m.T, m.V).Interface()))}
		}
	case 3: // text to value
		k := r.N(len(w.texts))
		if r.N(2) == 0 {
			kind, how, s := w.tkind[k], r.N(3), string(w.texts[k])
			return op{fmt.Sprintf("parse of %s %q", textKindNames[kind], s), func() interface{} {
				v, err := parseText(kind, how, s)
				return res(v, err, 0)
			}, ""}
		}
		t, b := w.tinto[k], w.texts[k]
		return op{fmt.Sprintf("parse of %q into %s", b, t), func() interface{} {
			p := reflect.New(t)
			err, _ := parse(p.Interface(), b)
			return res(p.Elem().Interface(), err, 0)
		}, ""}
	case 4: // unknown names
		return op{"decode of an unknown type", func() interface{} {
			v, err := w.side.b.Def.Decode(bytes.NewReader(w.wires[i]), "nosuchtype")
			return res(v, err, 0)
		}, ""}
	case 5: // value to text
		as := r.N(2) == 0
		return op{fmt.Sprintf("text of %s", m.T), func() interface{} {
			if as {
				b, err := json.Marshal(x.Interface())
				return res(b, err, 0)
			}
			b, err, ok := textOf(x.Addr().Interface())
			if !ok {
				b, err = json.Marshal(x.Addr().Interface())
			}
			return res(b, err, 0)
		}, ""}
	case 6: // base58 and checksums
		b := w.bytess[r.N(len(w.bytess))]
		switch r.N(3) {
		case 0:
			return op{fmt.Sprintf("base58 of %d bytes", len(b)), func() interface{} {
				s := base58.Encode(b)
				return res([]interface{}{s, base58.Decode(s), base58.CheckEncode(b)}, nil, 0)
			}, DumpI(res([]interface{}{ref.B58(b), append([]byte{}, b...), ref.B58Check(b)}, nil, 0))}
		case 1:
			return op{fmt.Sprintf("base58check of %d bytes", len(b)), func() interface{} {
				s := base58.CheckEncodeEosio(b, "K1")
				d, err := base58.CheckDecodeEosio(s, "K1")
				return res([]interface{}{s, d}, err, 0)
			}, DumpI(res([]interface{}{ref.B58Rmd(b, "K1"), append([]byte{}, b...)}, nil, 0))}
		default:
			return op{fmt.Sprintf("checksums of %d bytes", len(b)), func() interface{} {
				return []interface{}{chain.Checksum160Digest(b), chain.Checksum256Digest(b), chain.Checksum512Digest(b)}
			}, ""}
		}
	case 7: // own hasher
		b := w.bytess[r.N(len(w.bytess))]
		k := 1 + r.N(70)
		return op{fmt.Sprintf("ripemd160 of %d bytes in pieces of %d", len(b), k), func() interface{} {
			h := ripemd160.New()
			for p := b; ; p = p[k:] {
				if len(p) <= k {
					h.Write(p)
					break
				}
				h.Write(p[:k])
			}
			return h.Sum(nil)
		}, DumpI(ref.Rmd160(b))}
	case 8: // lookups and JSON
		if r.N(2) == 0 {
			n := m.Name
			return op{"lookups", func() interface{} {
				d := &w.side.b.Def
				return []interface{}{d.GetAction(m.Act), d.GetStruct(n), d.GetType(n), d.GetVariant(n), d.GetTable(m.Act)}
			}, ""}
		}
		j := w.jsons[r.N(len(w.jsons))]
		return op{"definition from JSON", func() interface{} {
			var a chain.Abi
			err := json.Unmarshal(j, &a)
			return res(a, err, 0)
		}, ""}
	case 9:
		s := genStructs[r.N(len(genStructs))]
		return op{fmt.Sprintf("code for %T", s), func() interface{} { return codegen.GenUnmarshalFn(s) }, ""}
	case 11: // values made from other values
		b := w.bytess[r.N(len(w.bytess))]
		x := w.bigs[r.N(len(w.bigs))]
		a := &chain.Asset{Value: int64(g.U(64)), Symbol: chain.Symbol(g.symbol())}
		switch r.N(6) {
		case 4:
			u := chain.Uint128{Lo: g.U(64), Hi: g.U(64)}
			i := chain.Int128(u)
			return op{"128-bit numbers to bytes", func() interface{} {
				return []interface{}{u.BigInt().String(), i.BigInt().String(), u.Bytes(binary.BigEndian), i.Bytes(binary.LittleEndian), chain.BlockNum(u.Lo).String()}
			}, ""}
		case 5:
			at := time.Unix(int64(g.U(32)), int64(g.U(30))%1000000000)
			k := chain.NewPublicKey(chain.K1, b)
			return op{"times and a legacy key", func() interface{} {
				tp, tps, bts := chain.NewTimePoint(at), chain.NewTimePointSec(at), chain.NewBlockTimestamp(at)
				return []interface{}{tp, tps, bts, tp.String(), tps.String(), bts.String(), tp.Time().UnixNano(), tps.Time().UnixNano(), bts.Time().UnixNano(), k.LegacyString("EOS")}
			}, ""}
		case 0:
			y := new(big.Int).Abs(x)
			return op{fmt.Sprintf("128-bit %d", x), func() interface{} {
				return []interface{}{chain.NewInt128(x), chain.NewUint128(y)}
			}, DumpI([]interface{}{int128(x), chain.Uint128(int128(y))})}
		case 1:
			kt := chain.KeyType(r.N(2))
			return op{fmt.Sprintf("key and signature of %x", clipB(b)), func() interface{} {
				k, s := chain.NewPublicKey(kt, b), chain.NewSignature(kt, b)
				return []interface{}{k.String(), s.String(), k, s, chain.Bytes(b).Hex(), chain.Blob(b).Base64()}
			}, ""}
		case 2:
			n := chain.Name(g.U(64))
			return op{"a new action's digest", func() interface{} {
				return chain.NewAction(n, m.Act, w.auths, b).Digest()
			}, ""}
		default:
			return op{"parts of an asset", func() interface{} {
				y := a.Symbol
				return []interface{}{a.String(), a.FloatValue(), y.Name(), y.Code(), y.Precision(), y.Decimals()}
			}, ""}
		}
	default: // the definition itself over the wire
		return op{"definition in binary", func() interface{} {
			var b bytes.Buffer
			if err := chain.NewEncoder(&b).Encode(w.side.b.Def); err != nil {
				return res(nil, err, 0)
			}
			raw := append([]byte{}, b.Bytes()...)
			var a chain.Abi
			err := chain.NewDecoder(&b).Decode(&a)
			return res([]interface{}{raw, a}, err, b.Len())
		}, ""}
	}
}

// int128 is a number in two's complement.
func int128(x *big.Int) chain.Int128 {
	y := new(big.Int).And(x, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 128), big.NewInt(1)))
	return chain.Int128{Lo: new(big.Int).And(y, new(big.Int).SetUint64(1<<64-1)).Uint64(), Hi: new(big.Int).Rsh(y, 64).Uint64()}
}

func wantRes(dump string) string {
	if dump == "" {
		return ""
	}
	return "VAL " + dump
}

func stdShared(kind int, data []byte) (io.Reader, func() int) {
	if kind == 1 {
		b := bytes.NewBuffer(data) // reading leaves the slice alone
		return b, b.Len
	}
	return core.StdReader(kind, data)
}

// show dumps a result.
func show(x interface{}) string {
	if o, ok := x.(opres); ok {
		return fmt.Sprintf("%s err=%q n=%d", DumpI(o.Val), o.Err, o.N)
	}
	return DumpI(x)
}

func matches(x interface{}, want string) bool {
	if want == "" {
		return true
	}
	if len(want) > 4 && want[:4] == "VAL " {
		o := x.(opres)
		return o.Err == "" && o.N == 0 && DumpI(o.Val) == want[4:]
	}
	return DumpI(x) == want
}

// done is a call that was made.
type done struct {
	op   *op
	got  interface{}
	dump string
	bad  *core.Caught
}

func runC07(r *core.R) {
	w := newWorld(r)
	nt := r.Range(2, 4)
	plan := make([][]*done, nt)
	var kinds []op
	for k := range plan {
		for i := r.Range(1, 3); i > 0; i-- {
			var o op
			if len(kinds) > 0 && r.N(3) == 2 {
				o = kinds[r.N(len(kinds))] // the same call from another goroutine
			} else {
				o = w.op()
				kinds = append(kinds, o)
			}
			plan[k] = append(plan[k], &done{op: &o})
			r.Ev("task%d: %s", k, o.name)
		}
	}
	before := w.inputs()
	races := hook.RaceErrors()
	s := core.NewSched(r)
	style := r.N(4)
	s.Preempt(func() int64 {
		switch style {
		case 0:
			return int64(1 + r.N(400))
		case 1:
			return int64(1 + r.N(40))
		case 2:
			return int64(1 + r.N(4))
		default:
			return int64(1 + r.N(4000))
		}
	})
	for k := range plan {
		ds := plan[k]
		s.Go(fmt.Sprintf("task%d", k), func(*core.Task) {
			for _, d := range ds {
				d.call()
			}
		})
	}
	stuck := s.Run()
	if r.Switches > 1 {
		r.Fault("preemption")
	}
	if n := hook.RaceErrors() - races; n > 0 {
		r.Fail("race", "%d data race(s) reported by the race detector (see the standard error output above); calls: %s", n, calls(plan))
	}
	if len(stuck) > 0 {
		r.Fail("stalled", "tasks wait for ever: %v; calls: %s", stuck, calls(plan))
	}
	for i, x := range w.inputs() {
		r.Evals++
		if x != before[i] {
			r.Fail("input-changed", "what the callers only gave to be read has changed: %s; calls: %s", Diff(x, before[i]), calls(plan))
		}
	}
	for k := range plan {
		for _, d := range plan[k] {
			r.Evals++
			if d.bad != nil {
				r.Fail("panic", "task%d, %s: %s", k, d.op.name, d.bad)
			}
			if now := show(d.got); now != d.dump {
				r.Fail("result-changed", "the result of a call changed after it returned: task%d, %s: %s", k, d.op.name, Diff(now, d.dump))
			}
			if !matches(d.got, d.op.want) {
				r.Fail("wrong-result", "task%d, %s: result %s, should be %s", k, d.op.name, Clip(d.dump), Clip(d.op.want))
			}
		}
	}
	// the same calls alone
	for k := range plan {
		for _, d := range plan[k] {
			alone := &done{op: d.op}
			alone.call()
			r.Evals++
			if alone.bad != nil {
				r.Fail("panic", "%s alone: %s", d.op.name, alone.bad)
			}
			if alone.dump != d.dump {
				r.Fail("differs", "task%d, %s: result among others differs from the result alone: %s; calls: %s", k, d.op.name, Diff(d.dump, alone.dump), calls(plan))
			}
			r.Ev("%s -> %x", d.op.name, core.Mix(uint64(len(d.dump))))
		}
	}
	for i, x := range w.inputs() {
		if x != before[i] {
			r.Fail("input-changed", "what the caller only gave to be read has changed: %s; calls: %s", Diff(x, before[i]), calls(plan))
		}
	}
	r.Sample("%d tasks: %s", nt, calls(plan))
}

func (d *done) call() {
	d.bad = core.Try(func() {
		d.got = d.op.f()
	})
	if d.bad == nil {
		d.dump = show(d.got)
	}
}

func calls(plan [][]*done) string {
	s := ""
	for k, ds := range plan {
		for _, d := range ds {
			n := d.op.name
			if len(n) > 100 {
				n = n[:100] + ".."
			}
			s += fmt.Sprintf("[task%d] %s; ", k, n)
		}
	}
	return s
}
