package props

import (
	"bytes"
	"fmt"
	"io"
	"math/big"
	"reflect"
	"syscall"

	"github.com/greymass/go-eosio/pkg/abi"

	"verifsim/core"
	"verifsim/ref"
)

// link is one direction of a simulated connection: ordered bytes that are fragmented, delayed, held up
// while the network is down, limited by a window, and possibly cut for good.
type link struct {
	r      *core.R
	s      *core.Sched
	t      *core.Task // the task using it at the moment
	sent   []byte     // accepted from the writer
	buf    []byte     // arrived, not read
	flight int        // on the way
	window int
	lastAt int64
	down   int64 // no arrivals before
	maxLat int
	cutAt  int // bytes beyond this offset never arrive, -1: no cut
	got    int // arrived so far
	closed bool
	endErr error
	frag   int
}

func newLink(r *core.R, s *core.Sched) *link {
	l := &link{r: r, s: s, cutAt: -1, maxLat: []int{0, 5, 100, 5000}[r.N(4)], window: []int{1 << 20, 4096, 64, 7, 1}[r.Pick(6, 3, 3, 1, 1)], frag: r.N(core.FragCount), endErr: io.EOF}
	return l
}

type linkW struct {
	*link
	t *core.Task
}
type linkR struct {
	*link
	t *core.Task
}

func (l linkW) Write(p []byte) (int, error) {
	n := 0
	for n < len(p) {
		if l.cutAt >= 0 && len(l.sent) >= l.cutAt {
			return n, syscall.EPIPE
		}
		if l.flight+len(l.buf) >= l.window {
			l.r.Fault("backpressure")
			l.t.Wait(func() bool { return l.flight+len(l.buf) < l.window || l.closed })
			if l.closed {
				return n, syscall.EPIPE
			}
		}
		k := min(len(p)-n, l.window-l.flight-len(l.buf))
		if l.cutAt >= 0 {
			k = min(k, l.cutAt-len(l.sent))
		}
		if l.frag != core.FragWhole && k > 1 && l.r.N(2) == 1 {
			k = 1 + l.r.N(k)
			l.r.Fault("split-segment")
		}
		seg := append([]byte(nil), p[n:n+k]...)
		l.sent = append(l.sent, seg...)
		n += k
		l.flight += k
		at := l.s.Now()
		if l.maxLat > 0 {
			at += int64(l.r.N(l.maxLat + 1))
			l.r.Fault("delay")
		}
		at = max(at, l.lastAt, l.down)
		l.lastAt = at
		l.s.At(at-l.s.Now(), func() {
			l.flight -= len(seg)
			l.got += len(seg)
			l.buf = append(l.buf, seg...)
			if l.cutAt >= 0 && l.got >= l.cutAt {
				l.closed = true
				l.r.Fault("cut")
			}
		})
	}
	return n, nil
}

func (l *link) close() {
	l.s.At(max(l.lastAt, l.down)-min(l.s.Now(), max(l.lastAt, l.down)), func() { l.closed = true })
}

func (l linkR) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	l.t.Wait(func() bool { return len(l.buf) > 0 || l.closed })
	if len(l.buf) == 0 {
		return 0, l.endErr
	}
	n := min(len(p), len(l.buf))
	switch l.frag {
	case core.FragOne:
		n = 1
		l.r.Fault("short-read")
	case core.FragRand, core.FragEmpty:
		if l.frag == core.FragEmpty && l.r.N(6) == 5 {
			l.r.Fault("empty-read")
			return 0, nil
		}
		if k := 1 + l.r.N(n); k < n {
			n = k
			l.r.Fault("short-read")
		}
	}
	copy(p, l.buf[:n])
	l.buf = l.buf[n:]
	return n, nil
}

// recv remembers what was received and how it looked at that time.
type recvd struct {
	m    *Msg
	path int
	x    interface{}
	dump string
}

func runC05(r *core.R) {
	if r.N(250) == 249 {
		runHuge(r)
		return
	}
	g := NewG(r).Big()
	g.budget /= 2
	var ts []*ref.Ty
	for i := r.Range(1, 4); i > 0; i-- {
		t := g.Top(g.Range(0, 3), TyOpt{Ext: true, ABI: g.N(8) == 7})
		if MinSize(t) == 0 {
			t = g.Leaf8()
		}
		ts = append(ts, t)
	}
	sides := []*side{newSide(r, "", ts), newSide(r, "x", ts)}
	s := core.NewSched(r)
	s.MaxSteps = 3_000_000
	conns := r.Range(1, 2)
	var all []func()
	for c := 0; c < conns; c++ {
		all = append(all, conn(r, g, s, ts, sides, c))
	}
	stuck := s.Run()
	if len(stuck) > 0 {
		r.Fail("stalled", "the network works but these wait for ever: %v", stuck)
	}
	for _, f := range all {
		f()
	}
	r.Sample("%d connections, types %v", conns, ts)
}

// spoil overwrites what a value refers to, and the room behind its lists.
func spoil(v reflect.Value, d int) {
	if d > 8 || !v.IsValid() || !v.CanInterface() {
		return
	}
	if b, ok := v.Interface().(*big.Int); ok && b != nil {
		w := b.Bits()
		w = w[:cap(w)]
		for i := range w {
			w[i] ^= 0x5a5a
		}
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			spoil(v.Elem(), d+1)
			if v.Kind() == reflect.Ptr && v.Elem().CanSet() {
				v.Elem().Set(reflect.Zero(v.Elem().Type()))
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := v.Bytes()
			b = b[:cap(b)]
			for i := range b {
				b[i] ^= 0x5a
			}
			return
		}
		for i := 0; i < v.Len() && i < 200; i++ {
			spoil(v.Index(i), d+1)
		}
		v = v.Slice(0, v.Cap())
		for i := 0; i < v.Len(); i++ {
			v.Index(i).Set(reflect.Zero(v.Type().Elem()))
		}
	case reflect.Array:
		for i := 0; i < v.Len() && i < 200; i++ {
			spoil(v.Index(i), d+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			spoil(v.Field(i), d+1)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			spoil(v.MapIndex(k), d+1)
			v.SetMapIndex(k, reflect.Value{})
		}
	}
}

func sayLen(say [2][]*Msg) (n int) {
	for _, ms := range say {
		for _, m := range ms {
			n += len(m.W.B)
		}
	}
	return
}

func conn(r *core.R, g *G, s *core.Sched, ts []*ref.Ty, sides []*side, c int) func() {
	n := r.Range(1, 5)
	pingpong := r.N(2) == 1
	ab, ba := newLink(r, s), newLink(r, s)
	cut := r.N(3) == 2
	// what each party says
	say := [2][]*Msg{}
	for i := 0; i < n; i++ {
		for k := range say {
			switch {
			case k == 1 && !pingpong:
			case i > 0 && r.N(3) == 2:
				say[k] = append(say[k], g.Next(say[k][r.N(i)], false))
			default:
				say[k] = append(say[k], NewMsg(g, ts[r.N(len(ts))], false))
			}
		}
	}
	if cut {
		total := 0
		for _, m := range say[0] {
			total += len(m.W.B)
		}
		ab.cutAt = r.N(total + 1)
		if ab.cutAt == 0 {
			ab.closed = true
		}
		if r.N(2) == 1 {
			ab.endErr = syscall.ECONNRESET
		}
	}
	for i := r.N(3); i > 0; i-- {
		// the network is down for a while
		at, d := int64(r.N(2000)), int64(r.N(100000))
		s.At(at, func() {
			r.Fault("partition")
			ab.down = max(ab.down, s.Now()+d)
			ba.down = max(ba.down, s.Now()+d)
		})
	}
	for _, l := range []*link{ab, ba} {
		if l.window < 64 && (len(say[0])+len(say[1])) > 0 && sayLen(say) > 600 {
			l.window = 64
		}
	}
	links := [2]*link{ab, ba} // links[i]: what party i says
	var got [2][]recvd        // got[i]: what party i received
	send := func(t *core.Task, i int, encs map[int]*abi.Encoder, m *Msg) error {
		m = sides[i].msg(m)
		path := EncPath(r, m.T)
		w := linkW{links[i], t}
		enc := encs[path]
		if enc == nil || r.N(2) == 1 {
			enc = NewEnc(path, w)
			encs[path] = enc
		}
		ptr := r.N(2) == 1
		var err error
		r.Call("encode of "+m.T.String()+" ("+pathNames[path]+")", func() { err = m.Encode(path, w, enc, ptr) })
		r.Ev("%s sends %s (%s) %d bytes at %d: %v", t.Name, m.T, pathNames[path], len(m.W.B), s.Now(), err)
		r.Evals++
		if err == nil {
			return nil
		}
		if !cut || !core.Same(err, syscall.EPIPE) {
			r.Fail("send-error", "%s (%s): encode on a working connection: %v", m.T, pathNames[path], err)
		}
		return err
	}
	framed := r.N(4) == 3 // parties collect a message before they decode it, in a buffer that is used again
	if framed {
		r.Probe("message-buffer-used-again")
	}
	var frame [2][]byte
	var frameBuf [2]bytes.Buffer
	recv := func(t *core.Task, i int, decs map[int]*abi.Decoder, m *Msg) bool {
		m = sides[i].msg(m)
		path := DecPath(r, m.T)
		l := links[1-i]
		var rd io.Reader = linkR{l, t}
		dec := decs[path]
		if framed {
			n := len(m.W.B)
			if cap(frame[i]) < n {
				frame[i] = make([]byte, n+r.N(20))
			}
			k, _ := io.ReadFull(rd, frame[i][:n])
			switch r.N(3) {
			case 0:
				rd = bytes.NewBuffer(frame[i][:k])
			case 1:
				rd = bytes.NewReader(frame[i][:k])
			default:
				frameBuf[i].Reset()
				frameBuf[i].Write(frame[i][:k])
				rd = &frameBuf[i]
			}
			dec = NewDec(path, rd)
		} else if dec == nil || r.N(2) == 1 {
			dec = NewDec(path, rd)
			decs[path] = dec
		}
		var x interface{}
		var err error
		r.Call("decode of "+m.T.String()+" ("+pathNames[path]+")", func() { x, err = m.Decode(path, rd, dec) })
		r.Evals++
		end := len(m.W.B)
		for _, y := range got[i] {
			end += len(y.m.W.B)
		}
		r.Ev("%s receives %s (%s) at %d: %v", t.Name, m.T, pathNames[path], s.Now(), err)
		if err != nil {
			if !cut || end <= len(l.sent) {
				r.Fail("receive-error", "%s (%s): message %d arrived whole but the decode fails: %v", m.T, pathNames[path], len(got[i]), err)
			}
			return false
		}
		if end > len(l.sent) && !extAt(m.W, len(l.sent)-(end-len(m.W.B))) {
			r.Fail("made-up", "%s (%s): message %d was cut but the decode returned %s", m.T, pathNames[path], len(got[i]), Clip(DumpI(x)))
		}
		d := DumpI(x)
		if w := m.Want(path); d != w && end <= len(l.sent) {
			r.Fail("not-equal", "%s (%s): message %d: %s", m.T, pathNames[path], len(got[i]), Diff(d, w))
		}
		got[i] = append(got[i], recvd{m, path, x, d})
		return true
	}
	sayAll := func(i int) func(t *core.Task) {
		return func(t *core.Task) {
			encs := map[int]*abi.Encoder{}
			for _, m := range say[i] {
				if r.N(3) == 2 {
					t.Sleep(int64(r.N(3000)))
				}
				if send(t, i, encs, m) != nil {
					break
				}
			}
			links[i].close()
		}
	}
	hearAll := func(i int) func(t *core.Task) {
		return func(t *core.Task) {
			decs := map[int]*abi.Decoder{}
			for _, m := range say[1-i] {
				if !recv(t, i, decs, m) {
					links[1-i].closed = true
					break
				}
			}
		}
	}
	if !pingpong {
		s.Go(fmt.Sprintf("sender%d", c), sayAll(0))
		s.Go(fmt.Sprintf("receiver%d", c), hearAll(1))
	} else {
		// strict alternation: each side answers only after the other's message
		s.Go(fmt.Sprintf("client%d", c), func(t *core.Task) {
			encs, decs := map[int]*abi.Encoder{}, map[int]*abi.Decoder{}
			for i := range say[0] {
				if send(t, 0, encs, say[0][i]) != nil || !recv(t, 0, decs, say[1][i]) {
					ba.closed = true
					break
				}
			}
			ab.close()
		})
		s.Go(fmt.Sprintf("server%d", c), func(t *core.Task) {
			encs, decs := map[int]*abi.Encoder{}, map[int]*abi.Decoder{}
			for i := range say[0] {
				if !recv(t, 1, decs, say[0][i]) || send(t, 1, encs, say[1][i]) != nil {
					ab.closed = true
					break
				}
			}
			ba.close()
		})
	}
	return func() {
		for i := 0; i < 2; i++ {
			var w []byte
			for _, m := range say[i] {
				w = append(w, m.W.B...)
			}
			if !bytes.HasPrefix(w, links[i].sent) || !cut && len(links[i].sent) != len(w) {
				k := 0
				for k < len(w) && k < len(links[i].sent) && w[k] == links[i].sent[k] {
					k++
				}
				m, off := say[i][0], k
				for _, x := range say[i] {
					if m = x; off < len(x.W.B) {
						break
					}
					off -= len(x.W.B)
				}
				r.Fail("wire", "party %d: what was sent differs from the wire format at byte %d (byte %d of %s): got ..%x want ..%x", i, k, off, m.T, clipB(links[i].sent[k:]), clipB(w[k:]))
			}
			for j, x := range got[i] {
				if d := DumpI(x.x); d != x.dump {
					r.Fail("altered", "message %d (%s, %s) was altered after it was received: %s", j, x.m.T, pathNames[x.path], Diff(d, x.dump))
				}
			}
			if n := len(got[i]); n > 1 {
				// what the receiver does to one message is of no consequence for the others
				k := r.N(n)
				spoil(reflect.ValueOf(got[i][k].x), 0)
				got[i][k].x, got[i][k].dump = nil, DumpI(nil)
				for j, x := range got[i] {
					if d := DumpI(x.x); d != x.dump {
						r.Fail("shared", "message %d (%s, %s) changed when the receiver wrote to message %d (%s): %s", j, x.m.T, pathNames[x.path], k, got[i][k].m.T, Diff(d, x.dump))
					}
				}
			}
			if !cut && len(got[1-i]) != len(say[i]) {
				r.Fail("lost", "party %d received %d of %d messages", 1-i, len(got[1-i]), len(say[i]))
			}
		}
	}
}
