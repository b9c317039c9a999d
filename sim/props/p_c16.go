package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"hash"
	"io"
	"reflect"
	"runtime"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/base58"
	"github.com/greymass/go-eosio/pkg/chain"
	"github.com/greymass/go-eosio/pkg/codegen"
	"github.com/greymass/go-eosio/pkg/ripemd160"

	"verifsim/core"
	"verifsim/hook"
	"verifsim/ref"
)

// feed is an endless stream: what is put into it can be read.
type feed struct {
	data []byte
	fail int // reads until the next failure, 0: none
	err  error
}

func (f *feed) Read(p []byte) (int, error) {
	if f.fail > 0 {
		if f.fail--; f.fail == 0 {
			return 0, f.err
		}
	}
	if len(f.data) == 0 {
		return 0, io.EOF
	}
	n := copy(p, f.data)
	f.data = f.data[n:]
	return n, nil
}

// drain is an endless sink.
type drain struct {
	fail int
	err  error
	n    int
}

func (d *drain) Write(p []byte) (int, error) {
	if d.fail > 0 {
		if d.fail--; d.fail == 0 {
			return 0, d.err
		}
	}
	d.n += len(p)
	return len(p), nil
}

var errHist = errors.New("simulator: broken pipe")

// history is the state of a long history of calls.
type history struct {
	r   *core.R // decisions that are not recorded
	g   *G
	in  feed
	out drain
	dec *abi.Decoder
	enc *abi.Encoder
	h   hash.Hash
	def *chain.Abi
	sd  *side
	ts  []*ref.Ty
	dst map[reflect.Type]reflect.Value
	bad int // how many of 8 calls fail

	only []reflect.Type // the types of the messages
	kind int            // the kind of the texts, -1: any
	size int            // how large messages are
}

// fails: this call is to fail.
func (h *history) fails() bool { return h.r.N(8) < h.bad }

var histTypes = func() (ts []reflect.Type) {
	ts = append(ts, staticTypes...)
	for _, k := range append(append([]ref.Kind{}, simpleLeaves...), chainLeaves...) {
		ts = append(ts, leafGo[k])
	}
	return append(ts, reflect.TypeOf([]chain.Action{}), reflect.TypeOf([]string{}), reflect.TypeOf(map[string]uint32{}), reflect.TypeOf([]Transfer{}), reflect.TypeOf([3]chain.Asset{}),
		reflect.TypeOf(map[chain.Checksum160]uint8{}), reflect.TypeOf(map[[2]uint8]string{}), reflect.TypeOf(map[float64]chain.Name{}), reflect.TypeOf(map[bool][]uint16{}), reflect.TypeOf(map[chain.Uint128]chain.Symbol{}), reflect.TypeOf(map[chain.PermissionLevel]string{}))
}()

// msg is a message of a type that the program always had.
func (h *history) msg() *Msg {
	h.g.budget, h.g.noWild = h.size, true
	return NewMsg(h.g, TyOf(h.only[h.r.N(len(h.only))]), h.r.N(8) == 7)
}

// The kinds of calls a history consists of.
var acts = []struct {
	name string
	f    func(h *history)
}{
	{"values to a new encoder", func(h *history) {
		m := h.msg()
		if hasVariant(m.T, map[*ref.Ty]bool{}) {
			return
		}
		w := drain{err: errHist}
		if h.fails() {
			w.fail = 1 + h.r.N(4)
		}
		NewEnc([]int{PTyped, PCustom, PBare}[h.r.N(3)], &w).Encode(ToGo(m.T, m.V).Interface())
	}},
	{"values from a new decoder", func(h *history) {
		m := h.msg()
		f := feed{data: m.W.B, err: errHist}
		if h.fails() {
			switch h.r.N(3) {
			case 0:
				f.fail = 1 + h.r.N(4)
			case 1:
				f.data = damage(h.r, m.W.B, m.W)
			default:
				f.data = cut(h.r, m.W.B)
			}
		}
		d := reflect.New(GoType(m.T))
		decodeInto(m.T, NewDec([]int{PTyped, PCustom, PBare}[h.r.N(3)], &f), d)
	}},
	{"values on one encoder", func(h *history) {
		m := h.msg()
		if hasVariant(m.T, map[*ref.Ty]bool{}) {
			return
		}
		if h.fails() {
			h.out.fail, h.out.err = 1+h.r.N(4), errHist
		}
		x := ToGo(m.T, m.V)
		if h.r.N(2) == 1 {
			h.enc.Encode(x.Addr().Interface())
		} else {
			h.enc.Encode(x.Interface())
		}
		h.out.fail = 0
	}},
	{"values on one decoder", func(h *history) {
		m := h.msg()
		h.in.data = m.W.B
		if h.fails() {
			switch h.r.N(3) {
			case 0:
				h.in.fail, h.in.err = 1+h.r.N(4), errHist
			case 1:
				h.in.data = damage(h.r, m.W.B, m.W)
			default:
				h.in.data = cut(h.r, m.W.B)
			}
		}
		d := reflect.New(GoType(m.T))
		decodeInto(m.T, h.dec, d)
		h.in.data, h.in.fail = nil, 0
	}},
	{"values on one decoder into one destination", func(h *history) {
		m := h.msg()
		t := GoType(m.T)
		d, ok := h.dst[t]
		if !ok {
			d = reflect.New(t)
			h.dst[t] = d
		}
		h.in.data = m.W.B
		if h.fails() {
			h.in.data = cut(h.r, m.W.B)
		}
		decodeInto(m.T, h.dec, d)
		h.in.data = nil
	}},
	{"messages of one definition", func(h *history) {
		h.g.budget, h.g.noWild = h.size, true
		m := h.sd.msg(NewMsg(h.g, h.ts[h.r.N(len(h.ts))], false))
		k := h.r.N(4)
		if h.fails() {
			k = 4 + h.r.N(3)
		}
		switch k {
		case 0:
			m.B.Def.Decode(bytes.NewReader(m.W.B), m.Name)
		case 1:
			m.B.Def.DecodeAction(bytes.NewReader(m.W.B), m.Act)
		case 2:
			m.B.Def.Encode(&drain{}, m.Name, m.B.Tree(m.T, m.V, true))
		case 3:
			m.B.Def.EncodeAction(&drain{}, m.Act, m.B.Tree(m.T, m.V, true))
		case 4:
			m.B.Def.Decode(bytes.NewReader(damage(h.r, m.W.B, m.W)), m.Name)
		case 5:
			m.B.Def.DecodeAction(bytes.NewReader(cut(h.r, m.W.B)), m.Act)
		default:
			m.B.Def.Encode(&drain{fail: 1 + h.r.N(4), err: errHist}, m.Name, m.B.Tree(m.T, m.V, true))
		}
	}},
	{"types and actions that one definition does not have", func(h *history) {
		n := chain.Name(h.r.U64())
		s := fmt.Sprintf("t%x", h.r.U64())
		h.def.DecodeAction(bytes.NewReader(nil), n)
		h.def.EncodeAction(&drain{}, n, nil)
		h.def.Decode(bytes.NewReader(nil), s)
		h.def.Encode(&drain{}, s, uint8(1))
		h.def.GetStruct(s)
		h.def.GetAction(n)
		h.def.GetTable(n)
		h.def.GetType(s)
		h.def.GetVariant(s)
	}},
	{"ever new definitions", func(h *history) {
		h.g.budget, h.g.noWild = h.size, true
		ts := []*ref.Ty{h.g.Top(1+h.r.N(2), TyOpt{Ext: true, ABI: true})}
		sd := newSide(h.r, fmt.Sprintf("n%x", h.r.U64()), ts)
		m := sd.msg(NewMsg(h.g, ts[0], false))
		m.B.Def.Decode(bytes.NewReader(m.W.B), m.Name)
		m.B.Def.EncodeAction(&drain{}, m.Act, m.B.Tree(m.T, m.V, true))
		var b bytes.Buffer
		chain.NewEncoder(&b).Encode(m.B.Def)
		var back chain.Abi
		chain.NewDecoder(&b).Decode(&back)
		back.Decode(bytes.NewReader(m.W.B), m.Name)
	}},
	{"definitions with names never seen before", func(h *history) {
		n := func() string { return fmt.Sprintf("n%x", h.r.U64()) }
		act := chain.Name(h.r.U64())
		st, al, va := n(), n(), n()
		def := chain.Abi{
			Version:  "eosio::abi/1.1",
			Types:    []chain.AbiType{{NewTypeName: al, Type: "uint16"}},
			Structs:  []chain.AbiStruct{{Name: st, Fields: []chain.AbiField{{Name: n(), Type: "uint8"}, {Name: n(), Type: al}, {Name: n(), Type: va + "[]"}, {Name: n(), Type: "string?"}}}},
			Variants: []chain.AbiVariant{{Name: va, Types: []string{"uint8", al}}},
			Actions:  []chain.AbiAction{{Name: act, Type: st}},
		}
		data := []byte{1, 2, 3, 1, 1, 5, 6, 1, 2, 'o', 'k'}
		if h.fails() {
			data = cut(h.r, data)
		}
		switch h.r.N(3) {
		case 0: // received in binary form
			var b bytes.Buffer
			chain.NewEncoder(&b).Encode(def)
			def = chain.Abi{}
			chain.NewDecoder(&b).Decode(&def)
		case 1:
			b, _ := json.Marshal(def)
			def = chain.Abi{}
			json.Unmarshal(b, &def)
		}
		v, err := def.DecodeAction(bytes.NewReader(data), act)
		if err == nil {
			def.EncodeAction(&drain{}, act, v)
			def.Encode(&drain{}, st, v)
		}
		def.Decode(bytes.NewReader(data), st)
	}},
	{"texts", func(h *history) {
		k := h.kind
		if k < 0 {
			k = h.r.N(txKinds)
		}
		h.g.budget = 200
		s := goodText(h.g, k)
		if h.fails() {
			s = string(damageText(h.r, []byte(s)))
		}
		parseText(k, h.r.N(3), s)
	}},
	{"names", func(h *history) {
		n := chain.Name(h.r.U64())
		s := n.String()
		chain.N(s)
		var m chain.Name
		m.UnmarshalText([]byte(s))
	}},
	{"texts and JSON of values", func(h *history) {
		m := h.msg()
		x := ToGo(m.T, m.V)
		b, err := json.Marshal(x.Interface())
		if err == nil {
			if h.fails() {
				b = damageText(h.r, b)
			}
			json.Unmarshal(b, reflect.New(x.Type()).Interface())
		}
		textOf(x.Addr().Interface())
		if s, ok := x.Interface().(fmt.Stringer); ok {
			_ = s.String()
		}
	}},
	{"base58", func(h *history) {
		b := h.r.Bytes(h.r.N(50))
		s := base58.Encode(b)
		base58.Decode(s)
		c := base58.CheckEncodeEosio(b, fmt.Sprint(h.r.N(1<<30)))
		base58.CheckDecodeEosio(c, "K1")
		base58.CheckDecode(base58.CheckEncode(b))
		base58.CheckDecode(c)
	}},
	{"digests", func(h *history) {
		b := h.r.Bytes(h.r.N(200))
		chain.Checksum160Digest(b)
		chain.Checksum256Digest(b)
		chain.Checksum512Digest(b)
		a := chain.NewAction(chain.Name(h.r.U64()), chain.Name(h.r.U64()), []chain.PermissionLevel{{Actor: chain.Name(h.r.U64())}}, b)
		a.Digest()
		h2 := ripemd160.New()
		h2.Write(b)
		h2.Sum(nil)
	}},
	{"one hasher", func(h *history) {
		h.h.Write(h.r.Bytes(h.r.N(150)))
		h.h.Sum(nil)
	}},
	{"actions", func(h *history) {
		h.g.budget, h.g.noWild = h.size, true
		m := h.sd.msg(NewMsg(h.g, h.ts[h.r.N(len(h.ts))], false))
		a := chain.Action{Account: chain.Name(h.r.U64()), Name: m.Act, Data: m.W.B}
		if h.fails() {
			a.Data = damage(h.r, m.W.B, m.W)
		}
		a.Decode(h.def)
		var t Transfer
		a.DecodeInto(&t)
		a.Digest()
	}},
	{"types of the caller's own, some calls failing", func(h *history) {
		x := Helds{N: chain.Name(h.r.U64()), Xs: []Held{{1, fmt.Sprintf("%x", h.r.U64())}}, P: &Held{2, "x"}}
		fail := h.r.N(6)
		heldHooks = map[*core.Task]func(){nil: func() {
			if fail--; fail == 0 {
				panic(errPeer)
			}
		}}
		core.Try(func() {
			var b bytes.Buffer
			h.enc.Encode(x)
			chain.NewEncoder(&b).Encode(x)
			h.in.data = b.Bytes()
			h.dec.Decode(&x)
			fn := func(d *abi.Decoder, v interface{}) (bool, error) {
				if fail--; fail == 0 {
					return false, errHist
				}
				return false, nil
			}
			var y Transfer
			chain.NewCustomDecoder(bytes.NewReader(b.Bytes()), fn).Decode(&y)
		})
		heldHooks = nil
		h.in.data = nil
	}},
	{"generated code", func(h *history) {
		if h.r.N(16) == 0 {
			codegen.GenUnmarshalFn(genStructs[h.r.N(len(genStructs))])
		}
	}},
	{"numbers and times", func(h *history) {
		u := chain.Uint128{Lo: h.r.U64(), Hi: h.r.U64()}
		_ = u.String()
		chain.NewUint128(u.BigInt())
		a := chain.Asset{Value: int64(h.r.U64() >> 8), Symbol: chain.Symbol(h.g.symbol())}
		_ = a.String()
		a.FloatValue()
		_ = chain.TimePoint(h.r.U64() >> 12).String()
		_ = chain.TimePointSec(h.r.U64() >> 32).String()
		_ = chain.BlockTimestamp(h.r.U64() >> 32).String()
		k := chain.NewPublicKey(chain.K1, h.r.Bytes(33))
		_ = k.LegacyString("EOS")
		var k2 chain.PublicKey
		k2.UnmarshalText([]byte(k.String()))
	}},
}

// cut is a message that was not sent to its end.
func cut(r *core.R, b []byte) []byte {
	if len(b) == 0 {
		return b
	}
	return b[:r.N(len(b))]
}

// live is how much memory is in use.
func live() uint64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

func runC16(r *core.R) {
	heldSched = core.NewSched(r)
	var kinds []int
	for i := []int{1, 1, 1, 2, 3}[r.N(5)]; i > 0; i-- {
		kinds = append(kinds, r.N(len(acts)))
	}
	bad := []int{1, 8, 0, 4}[r.N(4)]
	only := histTypes
	what := "any types"
	if r.N(3) > 0 {
		only, what = nil, ""
		for i := r.Range(1, 2); i > 0; i-- {
			t := histTypes[r.N(len(histTypes))]
			only = append(only, t)
			what += t.String() + " "
		}
	}
	kind := r.N(txKinds+txKinds/2) - txKinds/2
	if kind < 0 {
		kind = -1
	}
	size := []int{400, 400, 400, 400, 400, 400, 40, 40, 6000, 6000, 6000, 100000}[r.N(12)]
	seed := uint64(r.N(1<<30)) + 1
	sub := r.Sub(seed)
	sub.Faults, sub.Probes = map[string]int{}, map[string]int{}
	h := &history{r: sub, g: NewG(sub), h: ripemd160.New(), dst: map[reflect.Type]reflect.Value{}, bad: bad, only: only, kind: kind, size: size}
	h.dec, h.enc = chain.NewDecoder(&h.in), chain.NewEncoder(&h.out)
	h.g.budget = 300
	for i := 0; i < 3; i++ {
		h.ts = append(h.ts, h.g.Top(1+i%2, TyOpt{Ext: true, ABI: true}))
	}
	h.sd = newSide(sub, "", h.ts)
	h.def = &h.sd.b.Def
	names := ""
	for _, k := range kinds {
		names += acts[k].name + "; "
	}
	names += fmt.Sprintf("%d of 8 fail; %s, texts %d, size %d", bad, what, kind, size)
	r.Ev("%s seed %d", names, seed)
	call := func(n int) {
		for i := 0; i < n; i++ {
			a := acts[kinds[i%len(kinds)]]
			if c := core.Try(func() { a.f(h) }); c != nil {
				r.Fail("panic", "in a long history of %s: %s", a.name, c)
			}
		}
	}
	// the same few calls, to see what they cost now
	probe := func() uint64 {
		sub.Reseed(42)
		s := hook.Steps()
		call(3 * len(kinds))
		return hook.Steps() - s
	}
	call(64)
	probe()
	mem0, cost0, gor0 := live(), probe(), runtime.NumGoroutine()
	memA := mem0
	total := 64
	grown := "" // what each window has shown
	worstM, worstC, worstG := true, true, true
	last := 5
	if size >= 6000 {
		last = 4
	}
	var sumM, sumC float64 // what the windows before have cost per call
	for win, n := 0, 192; ; win, n = win+1, n*4 {
		if win == 5 {
			n = 3 * 49152
		}
		sub.Reseed(core.Mix(seed, uint64(win)))
		call(n)
		total += n
		cost := probe()
		mem, gor := live(), runtime.NumGoroutine()
		r.Evals += 3
		worstM = worstM && int64(mem-mem0) >= int64(2*n)
		worstC = worstC && int64(cost-cost0) >= int64(n/8)
		worstG = worstG && gor-gor0 >= n/64
		rateM, rateC := float64(int64(mem-mem0))/float64(n), float64(int64(cost-cost0))/float64(n)
		if win == last {
			// what has a bound, however large, grows less and less
			worstM = worstM && rateM >= sumM/float64(win)/3 && int64(mem-memA) >= 1<<20
			worstC = worstC && rateC >= sumC/float64(win)/3
		}
		sumM, sumC = sumM+rateM, sumC+rateC
		grown += fmt.Sprintf("%d calls: %+d bytes, %+d statements, %+d goroutines; ", n, int64(mem-mem0), int64(cost-cost0), gor-gor0)
		mem0, cost0, gor0 = mem, cost, gor
		if !worstM && !worstC && !worstG {
			break
		}
		if win > 0 {
			r.Probe(fmt.Sprintf("continued-%d", win))
		}
		if win == last {
			what := "memory"
			if worstG {
				what = "goroutines"
			} else if worstC && !worstM {
				what = "cost"
			}
			r.Fail(what, "%s used by the library grows with the number of calls (%s): %s", what, names, grown)
		}
	}
	runtime.KeepAlive(h)
	for k, n := range sub.Faults {
		r.Faults[k] += n
	}
	r.Fault("long-history")
	r.Sample("%d calls: %s", total, names)
}
