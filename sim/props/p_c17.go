package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/chain"
	"github.com/greymass/go-eosio/pkg/ripemd160"

	"verifsim/core"
	"verifsim/hook"
	"verifsim/ref"
)

// Held is a type of the caller's whose methods may take their time.
type Held struct {
	A uint8
	B string
}

// heldHooks is what happens in the methods of Held, per task; one run at a time uses it.
var (
	heldHooks map[*core.Task]func()
	heldSched *core.Sched
)

func heldHook() {
	if f := heldHooks[heldSched.Cur()]; f != nil {
		f()
	}
}

func (h Held) MarshalABI(e *abi.Encoder) error {
	if err := e.WriteUint8(h.A); err != nil {
		return err
	}
	heldHook()
	return e.WriteString(h.B)
}

func (h *Held) UnmarshalABI(d *abi.Decoder) (err error) {
	if h.A, err = d.ReadUint8(); err != nil {
		return err
	}
	heldHook()
	h.B, err = d.ReadString()
	return err
}

// HeldKey is a key of the caller's own.
type HeldKey struct{ A uint8 }

func (h HeldKey) MarshalABI(e *abi.Encoder) error {
	heldHook()
	return e.WriteUint8(h.A)
}

func (h *HeldKey) UnmarshalABI(d *abi.Decoder) (err error) {
	heldHook()
	h.A, err = d.ReadUint8()
	return err
}

// Helds is a message with types of the caller's own.
type Helds struct {
	N  chain.Name
	Xs []Held
	M  map[uint8]Held
	K  map[HeldKey]uint16
	P  *Held
}

// slow is a stream of the caller's that calls hold once, before the byte at.
type slow struct {
	hold func()
	at   int
	data []byte // to be read
	pos  int
	acc  []byte // written
	step int    // bytes per read
}

func (s *slow) Read(p []byte) (int, error) {
	if s.pos >= s.at && s.hold != nil {
		h := s.hold
		s.hold = nil
		h()
	}
	n := len(s.data) - s.pos
	if n > len(p) {
		n = len(p)
	}
	if s.step > 0 && n > s.step {
		n = s.step
	}
	if s.pos < s.at && s.pos+n > s.at && s.hold != nil {
		n = s.at - s.pos
	}
	if n == 0 && len(p) > 0 {
		return 0, io.EOF
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	return n, nil
}

func (s *slow) Write(p []byte) (int, error) {
	if len(s.acc)+len(p) > s.at && s.hold != nil {
		h := s.hold
		s.hold = nil
		h()
	}
	s.acc = append(s.acc, p...)
	return len(p), nil
}

type slowByte struct{ *slow }

func (s slowByte) ReadByte() (byte, error) {
	var p [1]byte
	_, err := io.ReadFull(s.slow, p[:])
	return p[0], err
}
func (s slowByte) WriteByte(c byte) error {
	_, err := s.Write([]byte{c})
	return err
}

// held plans a call that holds on in the middle; hold is what happens then.
func (w *world) held(hold func()) op {
	r, g := w.r, w.g
	i := r.N(len(w.ms))
	m, x := w.ms[i], w.xs[i]
	at := 0
	if n := len(m.W.B); n > 0 {
		at = r.N(n)
	}
	asByte, step := r.N(2) == 1, r.N(4)
	once := func() func() {
		n := 0
		return func() {
			if n++; n == 1 {
				hold()
			}
		}
	}
	switch r.Pick(6, 5, 2, 2, 3, 2, 2) {
	case 0:
		path := DecPath(r, m.T)
		return op{fmt.Sprintf("decode %s (%s), the peer stalls at byte %d of %d", m.T, pathNames[path], at, len(m.W.B)), func() interface{} {
			s := &slow{hold: once(), at: at, data: w.wires[i], step: step}
			var rd io.Reader = s
			if asByte {
				rd = slowByte{s}
			}
			v, err := m.Decode(path, rd, NewDec(path, rd))
			if err != nil {
				v = nil
			}
			return res(v, err, len(s.data)-s.pos)
		}, wantRes(m.WantVal(path, m.V))}
	case 1:
		path := EncPath(r, m.T)
		tree := w.trees[i]
		return op{fmt.Sprintf("encode %s (%s), the peer stalls at byte %d of %d", m.T, pathNames[path], at, len(m.W.B)), func() interface{} {
			s := &slow{hold: once(), at: at}
			var wr io.Writer = s
			if asByte {
				wr = slowByte{s}
			}
			var err error
			switch path {
			case PABI:
				err = m.B.Def.Encode(wr, m.Name, tree)
			case PAction:
				err = m.B.Def.EncodeAction(wr, m.Act, tree)
			case PPrim:
				err = writePrim(NewEnc(path, wr), m.T, m.V)
			default:
				err = NewEnc(path, wr).Encode(x.Interface())
			}
			return res(s.acc, err, 0)
		}, DumpI(res(m.W.B, nil, 0))}
	case 2, 3: // a function of the caller's
		dec := r.N(2) == 1
		nth := r.N(4)
		bare := r.N(2) == 1
		if hasVariant(m.T, map[*ref.Ty]bool{}) || hasOpt(m.T, map[*ref.Ty]bool{}) {
			return w.held(hold)
		}
		return op{fmt.Sprintf("custom coding of %s, call %d of the function stalls, decode %v", m.T, nth, dec), func() interface{} {
			n, h := 0, once()
			f := func() {
				if n == nth {
					h()
				}
				n++
			}
			if dec {
				rd := bytes.NewReader(w.wires[i])
				fd := func(*abi.Decoder, interface{}) (bool, error) { f(); return false, nil }
				d := chain.NewCustomDecoder(rd, fd)
				if bare {
					d = abi.NewDecoder(rd, fd)
				}
				v, err := m.Decode(PTyped, rd, d)
				if err != nil {
					v = nil
				}
				return res(v, err, rd.Len())
			}
			var b bytes.Buffer
			fe := func(*abi.Encoder, interface{}) (bool, error) { f(); return false, nil }
			e := chain.NewCustomEncoder(&b, fe)
			if bare {
				e = abi.NewEncoder(&b, fe)
			}
			err := e.Encode(x.Interface())
			return res(b.Bytes(), err, 0)
		}, ""}
	case 4: // methods of the caller's
		h := Helds{N: chain.Name(g.U(64)), M: map[uint8]Held{}}
		for k := r.N(3); k > 0; k-- {
			h.Xs = append(h.Xs, Held{uint8(g.U(8)), string(g.text())})
		}
		for k := r.N(2); k > 0; k-- {
			h.M[uint8(k)] = Held{uint8(g.U(8)), "m"}
		}
		if r.N(2) == 1 {
			h.K = map[HeldKey]uint16{}
			for k := r.Range(1, 3); k > 0; k-- {
				h.K[HeldKey{uint8(g.U(8))}] = uint16(k)
			}
		}
		h.P = &Held{uint8(g.U(8)), string(g.text())}
		nth := r.N(8)
		return op{fmt.Sprintf("types of the caller's own, call %d of their methods stalls", nth), func() interface{} {
			n, o := 0, once()
			f := func() {
				if n == nth {
					o()
				}
				n++
			}
			heldHooks[heldSched.Cur()] = f
			defer func() { heldHooks[heldSched.Cur()] = nil }()
			var b bytes.Buffer
			err := chain.NewEncoder(&b).Encode(h)
			if err != nil {
				return res(nil, err, 0)
			}
			raw := append([]byte{}, b.Bytes()...)
			var back Helds
			err = chain.NewDecoder(&b).Decode(&back)
			return res([]interface{}{raw, back}, err, b.Len())
		}, ""}
	case 5: // hashing what a peer sends
		b := w.bytess[r.N(len(w.bytess))]
		k := 0
		if len(b) > 0 {
			k = r.N(len(b))
		}
		return op{fmt.Sprintf("ripemd160 of %d bytes from a peer that stalls at byte %d", len(b), k), func() interface{} {
			h := ripemd160.New()
			_, err := io.Copy(h, &slow{hold: once(), at: k, data: b, step: 7})
			return res(h.Sum(nil), err, 0)
		}, DumpI(res(ref.Rmd160(b), nil, 0))}
	default: // a definition from a slow peer
		var b bytes.Buffer
		if chain.NewEncoder(&b).Encode(w.side.b.Def) != nil {
			return w.held(hold)
		}
		raw := b.Bytes()
		k := r.N(len(raw))
		return op{fmt.Sprintf("decode of a definition, the peer stalls at byte %d of %d", k, len(raw)), func() interface{} {
			s := &slow{hold: once(), at: k, data: raw, step: step}
			var a chain.Abi
			err := chain.NewDecoder(s).Decode(&a)
			return res(a, err, len(raw)-s.pos)
		}, ""}
	}
}

var errPeer = errors.New("simulator: the peer's code panics")

func runC17(r *core.R) {
	heldHooks = map[*core.Task]func(){}
	w := newWorld(r)
	nt := r.Range(1, 3) // tasks that go on
	ns := r.Range(1, 2) // tasks that hold on
	crowd := 0          // many more that hold on as the first does
	if r.N(8) == 7 {
		crowd = []int{3, 4, 7, 8, 16, 33, 70, 3, 4, 7, 8, 16, 33, 70, 3, 4, 7, 8, 16, 33, 70, 3, 4, 7, 8, 16, 33, 140, 300}[r.N(29)]
		ns += crowd
		r.Probe("crowd")
	}
	if r.N(60) == 59 {
		// many calls are abandoned before
		o := w.held(func() { panic(errPeer) })
		n := []int{20, 70, 140, 300, 600, 1100}[r.N(6)]
		heldSched = core.NewSched(r)
		for i := 0; i < n; i++ {
			if c := core.Try(func() { o.f() }); c != nil && c.Val == errPeer {
				r.Fault("panic-in-the-callers-code")
			}
			heldHooks = map[*core.Task]func(){}
		}
		r.Ev("%d calls abandoned: %s", n, o.name)
	}
	left := nt
	free := 0 // how many of the stalled tasks may go on, in the order of turn
	s := core.NewSched(r)
	heldSched = s
	style := r.N(4)
	s.Preempt(func() int64 { return int64(1 + r.N([]int{400, 40, 4, 4000}[style])) })
	plan := make([][]*done, nt+ns)
	var acts []func(t *core.Task)
	holding := 0
	var kinds []op
	other := func() op {
		if len(kinds) > 0 && r.N(3) == 2 {
			return kinds[r.N(len(kinds))]
		}
		o := w.op()
		kinds = append(kinds, o)
		return o
	}
	// tasks that hold on in the middle of a call
	live := true // false: the same calls are made again without holding on
	crash := make([]bool, ns)
	came := make([]bool, ns)
	holds := make([]func(), ns)
	who := map[*core.Task]int{}
	var o op
	arrived := 0 // how many have come to the middle of their call, or to its end
	together := r.N(2) == 1
	for k := 0; k < ns; k++ {
		k := k
		var t *core.Task
		what := 0
		if k < ns-crowd {
			what = r.Pick(4, 2, 1)
		}
		var nested []*done
		hold := func() {
			came[k] = true
			arrived++
			switch what {
			case 1: // calls within the call
				r.Fault("call-within-a-call")
				for _, d := range nested {
					d.call()
				}
			case 2:
				r.Fault("panic-in-the-callers-code")
				crash[k] = true
				panic(errPeer)
			default:
				r.Fault("stall")
				holding++
				if holding == crowd+1 && crowd > 0 {
					r.Probe("whole-crowd-holds-on")
				}
				t.Wait(func() bool { return left == 0 && free >= min(k, 2) })
				holding--
			}
		}
		holds[k] = hold
		if k <= ns-crowd {
			o = w.held(func() {
				if me := s.Cur(); live && me != nil {
					holds[who[me]]()
				}
			})
		}
		o := o
		for i := r.N(2); i > 0 && k < 2; i-- { // something before
			p := other()
			plan[nt+k] = append(plan[nt+k], &done{op: &p})
		}
		main := &done{op: &o}
		plan[nt+k] = append(plan[nt+k], main)
		if what == 1 {
			for i := r.Range(1, 2); i > 0; i-- {
				p := other()
				nested = append(nested, &done{op: &p})
			}
		}
		for i := r.N(2); i > 0 && k < 2; i-- { // something after
			p := other()
			plan[nt+k] = append(plan[nt+k], &done{op: &p})
		}
		ds := plan[nt+k]
		acts = append(acts, func(me *core.Task) {
			t = me
			who[me] = k
			for _, d := range ds {
				d.call()
			}
			if !came[k] { // it was not held
				arrived++
			}
			free++
		})
		plan[nt+k] = append(append([]*done{}, ds...), nested...)
		r.Ev("task%d holds on (%d): %s", nt+k, what, o.name)
	}
	for k := 0; k < nt; k++ {
		for i := r.Range(1, 3); i > 0; i-- {
			o := other()
			plan[k] = append(plan[k], &done{op: &o})
			r.Ev("task%d: %s", k, o.name)
		}
	}
	for k := 0; k < nt; k++ {
		ds := plan[k]
		s.Go(fmt.Sprintf("task%d", k), func(t *core.Task) {
			if together {
				t.Wait(func() bool { return arrived >= ns })
			}
			for _, d := range ds {
				if holding > 0 {
					r.Probe("call-while-another-holds-on")
				}
				d.call()
			}
			left--
		})
	}
	for k, f := range acts {
		s.Go(fmt.Sprintf("task%d", nt+k), f)
	}
	stuck := s.Run()
	live = false
	r.Evals++
	if len(stuck) > 0 {
		r.Fail("held-up", "calls that have nothing to do with the stalled one never return (%d left): %v; calls: %s", left, stuck, calls(plan))
	}
	for k := range plan {
		for _, d := range plan[k] {
			if d.got == nil && d.bad == nil { // never made
				continue
			}
			r.Evals++
			if d.bad != nil && d.bad.Val == errPeer && k >= nt && crash[k-nt] {
				continue
			}
			if d.bad != nil {
				r.Fail("panic", "task%d, %s: %s; calls: %s", k, d.op.name, d.bad, calls(plan))
			}
			if !matches(d.got, d.op.want) {
				r.Fail("wrong-result", "task%d, %s: result %s, should be %s; calls: %s", k, d.op.name, Clip(d.dump), Clip(d.op.want), calls(plan))
			}
			alone := &done{op: d.op}
			hook.Disarm()
			alone.call()
			if alone.bad != nil {
				r.Fail("panic", "%s alone: %s", d.op.name, alone.bad)
			}
			if alone.dump != d.dump {
				r.Fail("differs", "task%d, %s: the result among stalled calls differs from the result alone: %s; calls: %s", k, d.op.name, Diff(d.dump, alone.dump), calls(plan))
			}
			r.Ev("%s -> %x", d.op.name, core.Mix(uint64(len(d.dump))))
		}
	}
	r.Sample("%d tasks, %d holding on: %s", nt, ns, calls(plan))
}
