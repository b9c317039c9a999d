package props

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"strings"

	"github.com/greymass/go-eosio/pkg/abi"

	"verifsim/core"
	"verifsim/ref"
)

// delivery is one way to hand the same bytes to a decoder.
type delivery struct {
	name string
	r    io.Reader
	sim  *core.Reader // nil: not the simulated stream itself
	left func() int   // bytes not taken yet, nil: unknown
}

const deliveries = 14

func deliver(r *core.R, k int, data []byte) *delivery {
	sim := func(frag int) *core.Reader {
		rd := core.NewReader(r, data)
		rd.Frag = frag
		return rd
	}
	left := func(rd *core.Reader) func() int { return func() int { return len(rd.Data) - rd.Pos } }
	switch k {
	case 13:
		rd := sim(r.N(core.FragCount))
		return &delivery{fmt.Sprintf("sim with Len frag=%d", rd.Frag), rd.As(core.ReaderSimLen), rd, left(rd)}
	case 0, 1, 2, 3:
		rd := sim(k)
		rd.DataEOF = r.N(2) == 1
		return &delivery{fmt.Sprintf("sim frag=%d dataeof=%v", k, rd.DataEOF), rd, rd, left(rd)}
	case 4, 5:
		rd := sim([]int{core.FragRand, core.FragEmpty}[k-4])
		rd.DataEOF = r.N(2) == 1
		return &delivery{fmt.Sprintf("sim with ReadByte frag=%d dataeof=%v", rd.Frag, rd.DataEOF), rd.As(core.ReaderSimByte), rd, left(rd)}
	case 6:
		rd := sim(r.N(core.FragCount))
		rd.Steady = true
		b := bufio.NewReaderSize(rd, 16)
		return &delivery{"bufio over sim", b, nil, func() int { return len(rd.Data) - rd.Pos + b.Buffered() }}
	case 7:
		rd := sim(core.FragRand)
		return &delivery{"limited", &io.LimitedReader{R: rd, N: int64(len(data))}, rd, left(rd)}
	case 8:
		// pieces
		var rs []io.Reader
		n := len(data)
		from := 0
		for from < n && len(rs) < 12 {
			k := 1 + r.N(min(n-from, 40))
			if len(rs) == 11 {
				k = n - from
			}
			switch r.N(3) {
			case 0:
				rs = append(rs, bytes.NewReader(data[from:from+k]))
			case 1:
				rs = append(rs, strings.NewReader(string(data[from:from+k])))
			default:
				x := core.NewReader(r, data[from:from+k])
				x.DataEOF = true
				rs = append(rs, x)
			}
			from += k
		}
		r.Fault("pieced-stream")
		return &delivery{"multi", io.MultiReader(rs...), nil, nil}
	default:
		x, left := core.StdReader(k-9, data)
		return &delivery{fmt.Sprintf("%T", x), x, nil, left}
	}
}

func runC01(r *core.R) {
	g := NewG(r).Big()
	g.budget /= 2
	n := r.Range(1, 4)
	damaged := r.N(4) == 3
	absent := !damaged && r.N(5) == 4
	if damaged || absent {
		n = 1
	}
	var msgs []*Msg
	var paths []int
	var data []byte
	var ends []int
	for i := 0; i < n; i++ {
		var t *ref.Ty
		if i > 0 && r.N(2) == 1 {
			t = msgs[i-1].T
		} else {
			t = g.Top(g.Range(0, 3), TyOpt{Ext: true, ABI: g.N(6) == 5})
		}
		m := NewMsg(g, t, absent).ABI(r)
		msgs = append(msgs, m)
		paths = append(paths, DecPath(r, t))
		data = append(data, m.W.B...)
		ends = append(ends, len(data))
	}
	what := fmt.Sprintf("%s (%s)", msgs[0].T, pathNames[paths[0]])
	if damaged {
		data = damage(r, data, msgs[0].W)
	}
	tail := !damaged && !absent && r.N(3) == 2
	if tail {
		data = append(data, g.Bytes(r.Range(1, 9))...)
	}
	r.Ev("%d messages, first %s, %d bytes %x damaged %v absent %v", n, what, len(data), clipB(data), damaged, absent)
	type result struct {
		dump []string
		err  string
		ok   int
		used int
	}
	run := func(d *delivery) result {
		var res result
		res.used = -1
		decs := map[int]*abi.Decoder{}
		fresh := r.N(2) == 1
		for i, m := range msgs {
			if d.sim != nil && !damaged && !absent {
				d.sim.Mark, d.sim.Asked = ends[i], 0
			}
			dec := decs[paths[i]]
			if dec == nil || fresh {
				dec = NewDec(paths[i], d.r)
				decs[paths[i]] = dec
			}
			var got interface{}
			var err error
			r.Call("decode of "+m.T.String()+" ("+pathNames[paths[i]]+") from "+d.name, func() { got, err = m.Decode(paths[i], d.r, dec) })
			r.Evals++
			if err != nil {
				res.err = err.Error()
				return res
			}
			if !damaged {
				if w := m.Want(paths[i]); DumpI(got) != w {
					r.Fail("value-differs", "value %d: %s (%s) from %s: %s", i, m.T, pathNames[paths[i]], d.name, Diff(DumpI(got), w))
				}
			}
			if d.left != nil {
				used := len(data) - d.left()
				if !damaged && !absent && used != ends[i] {
					r.Fail("position", "value %d: %s (%s) from %s: the decode took the stream to %d, the value ends at %d", i, m.T, pathNames[paths[i]], d.name, used, ends[i])
				}
				res.used = used
			}
			if d.sim != nil && d.sim.Asked > 0 {
				r.Fail("asked-beyond", "value %d: %s (%s) from %s: the decode read again after the last byte of the value at %d", i, m.T, pathNames[paths[i]], d.name, ends[i])
			}
			res.ok++
			res.dump = append(res.dump, DumpI(got))
		}
		return res
	}
	base := run(deliver(r, 0, data))
	if !damaged && base.ok != n {
		r.Fail("value-lost", "%s: decode of an intact stream fails at value %d: %s", what, base.ok, base.err)
	}
	for i := r.Range(1, 8); i > 0; i-- {
		d := deliver(r, r.N(deliveries), data)
		res := run(d)
		r.Ev("%s ok %d err %q used %d", d.name, res.ok, res.err, res.used)
		if res.ok != base.ok || res.err != base.err {
			r.Fail("outcome-differs", "%s: from %s %d values then %q, from a whole stream %d then %q (bytes %x)", what, d.name, res.ok, res.err, base.ok, base.err, clipB(data))
		}
		for i := range res.dump {
			if res.dump[i] != base.dump[i] {
				r.Fail("value-differs", "%s: from %s: %s", what, d.name, Diff(res.dump[i], base.dump[i]))
			}
		}
		if res.used >= 0 && base.used >= 0 && res.used != base.used {
			r.Fail("position", "%s: from %s the decode took %d bytes, from a whole stream %d", what, d.name, res.used, base.used)
		}
	}
	r.Sample("%d values, first %s, %d bytes %x, damaged=%v", n, what, len(data), clipB(data), damaged)
}
