package props

import (
	"bytes"
	"crypto"
	"encoding/hex"
	"fmt"
	"hash"
	"io"

	"github.com/greymass/go-eosio/pkg/chain"
	"github.com/greymass/go-eosio/pkg/ripemd160"

	"verifsim/core"
	"verifsim/ref"
)

type hasher struct {
	h    hash.Hash
	data []byte // written since creation or reset
	n    int
}

var hashLens = []int{0, 1, 2, 3, 8, 31, 32, 54, 55, 56, 57, 62, 63, 64, 65, 66, 100, 118, 119, 120, 121, 126, 127, 128, 129, 130, 191, 192, 193, 255, 256, 257, 448, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097}

func newHash(r *core.R) hash.Hash {
	if r.N(4) == 3 {
		return crypto.RIPEMD160.New()
	}
	return ripemd160.New()
}

// runC08 is a history of operations on several hashers; the data comes over simulated streams that may fail.
func runC08(r *core.R) {
	if k := r.N(1 << 20); k >= 1<<20-2 {
		hashLong(r, k == 1<<20-1)
		return
	}
	hs := []*hasher{{h: newHash(r)}}
	ops := r.Range(1, 24)
	tasks := r.N(4) == 3
	op := func(h *hasher, id int) {
		sum := func(what string, in []byte) {
			keep := append([]byte(nil), in...)
			rest := in[len(in):cap(in)]
			for i := range rest {
				rest[i] = 0x5a
			}
			var got []byte
			r.Call("Sum", func() { got = h.h.Sum(in) })
			r.Evals++
			want := ref.Rmd160(h.data)
			if len(got) != len(keep)+20 || !bytes.Equal(got[:len(keep)], keep) || !bytes.Equal(in, keep) {
				r.Fail("not-appended", "hasher %d: Sum(%x) after %d bytes returned %x", id, clipB(keep), len(h.data), clipB(got))
			}
			for i := 20; i < len(rest); i++ {
				if rest[i] != 0x5a {
					r.Fail("not-appended", "hasher %d: Sum of a slice of %d, capacity %d, wrote behind what it returned (at %d)", id, len(keep), cap(in), len(keep)+i)
				}
			}
			if !bytes.Equal(got[len(keep):], want) {
				r.Fail("digest", "hasher %d (%s): after %d writes of together %d bytes (%x) the sum is %x, the digest is %x", id, what, h.n, len(h.data), clipB(h.data), got[len(keep):], want)
			}
			r.Ev("hasher %d: sum of %d bytes %x", id, len(h.data), want[:4])
		}
		if h.n == 0 && len(h.data) == 0 && r.N(3) == 2 {
			sum("fresh or reset", nil)
		}
		switch r.Pick(8, 4, 2, 2, 1) {
		case 0:
			n := 0
			switch r.N(4) {
			case 0:
				n = hashLens[r.N(len(hashLens))]
			case 1:
				n = r.N(130)
			case 2:
				// up to, or around, the next boundary
				n = 64 - len(h.data)%64 + r.N(5) - 2
				if r.N(2) == 1 {
					n += 64 * r.N(5)
				}
				n = max(n, 0)
			default:
				n = r.N(3000)
				if r.N(120) == 119 {
					n = []int{16384, 65535, 65536, 70000, 131072, 300000}[r.N(6)] + r.N(3)
					r.Probe("large-write")
				}
			}
			b := r.Bytes(n)
			arg := append(make([]byte, 0, n+16), b...)
			var k int
			var err error
			r.Call("Write", func() { k, err = h.h.Write(arg) })
			r.Evals++
			if k != n || err != nil {
				r.Fail("write-result", "hasher %d: Write of %d bytes returned %d, %v", id, n, k, err)
			}
			if !bytes.Equal(arg, b) {
				r.Fail("input-changed", "hasher %d: Write changed the bytes it was given", id)
			}
			for i := range arg[:cap(arg)] {
				arg[:cap(arg)][i] = 0xa5 // the caller reuses its buffer
			}
			h.data = append(h.data, b...)
			h.n++
			r.Ev("hasher %d: write %d", id, n)
		case 1:
			in := r.Bytes(r.N(3) * 7)
			if r.N(2) == 1 {
				in = append(make([]byte, 0, len(in)+r.N(60)*(1+r.N(3))), in...)
			}
			sum("sum", in)
		case 2:
			r.Call("Reset", func() { h.h.Reset() })
			h.data, h.n = nil, 0
			r.Ev("hasher %d: reset", id)
			r.Fault("reset")
		case 3:
			// a stream that may fail; the copy is resumed, or abandoned
			b := r.Bytes(r.N(600))
			rd := core.NewReader(r, b)
			rd.Frag = r.N(core.FragCount)
			if len(b) > 0 && r.N(2) == 1 {
				rd.FailAt, rd.Err = r.N(len(b)), core.PickErr(r)
				if rd.Err == io.EOF {
					rd.Err = io.ErrUnexpectedEOF
				}
				rd.WithData = r.N(2) == 1
			}
			buf := make([]byte, []int{1, 7, 64, 100, 512}[r.N(5)])
			copyOn := func() (err error) {
				r.Call("Write", func() {
					_, err = io.CopyBuffer(struct{ io.Writer }{h.h}, struct{ io.Reader }{rd}, buf)
				})
				return
			}
			if copyOn() != nil && r.N(2) == 1 {
				copyOn()
			}
			h.data = append(h.data, b[:rd.Pos]...)
			h.n++
			r.Ev("hasher %d: copied %d of %d", id, rd.Pos, len(b))
		case 4:
			b := r.Bytes(hashLens[r.N(len(hashLens))])
			keep := append([]byte(nil), b...)
			var c chain.Checksum160
			r.Call("Checksum160Digest", func() { c = chain.Checksum160Digest(b) })
			r.Evals++
			if !bytes.Equal(c[:], ref.Rmd160(keep)) || !bytes.Equal(b, keep) {
				r.Fail("digest", "Checksum160Digest of %d bytes %x is %x, the digest is %x", len(b), clipB(keep), c[:], ref.Rmd160(keep))
			}
		}
	}
	if !tasks {
		for ; ops > 0; ops-- {
			k := r.N(len(hs) + 1)
			if k == len(hs) && len(hs) < 5 {
				hs = append(hs, &hasher{h: newHash(r)})
				r.Probe("several-hashers")
			}
			if k >= len(hs) {
				k = 0
			}
			op(hs[k], k)
		}
		// every hasher still has its own message
		for i, h := range hs {
			var got []byte
			r.Call("Sum", func() { got = h.h.Sum(nil) })
			r.Evals++
			if want := ref.Rmd160(h.data); !bytes.Equal(got, want) {
				r.Fail("digest", "hasher %d at the end: %d bytes (%x) sum to %x, the digest is %x", i, len(h.data), clipB(h.data), got, want)
			}
		}
	} else {
		// the hashers belong to tasks that are preempted anywhere inside the library
		s := core.NewSched(r)
		s.Preempt(func() int64 { return int64(1 + r.N(40)) })
		for i := 0; i < r.Range(2, 4); i++ {
			i := i
			h := &hasher{h: newHash(r)}
			n := r.Range(1, 6)
			s.Go(fmt.Sprintf("task%d", i), func(t *core.Task) {
				for ; n > 0; n-- {
					op(h, i)
				}
			})
		}
		if st := s.Run(); len(st) > 0 {
			r.Fail("stalled", "tasks wait for ever: %v", st)
		}
	}
	r.Sample("%d operations on %d hashers, tasks %v", ops, len(hs), tasks)
}

// hashLong hashes a message longer than 2^29 or 2^32 bytes, in writes of chosen sizes.
func hashLong(r *core.R, huge bool) {
	blk := make([]byte, 65521)
	core.NewRng(20).Fill(blk)
	const many = 16
	buf := bytes.Repeat(blk, many+1)
	g := core.NewRng(uint64(r.N(1 << 30)))
	h := ripemd160.New()
	if r.N(2) == 1 {
		h.Write(blk[:100])
		h.Reset()
	}
	pos := uint64(0)
	for _, e := range rmdLong {
		if !huge && e.n > 1<<29+200 {
			break
		}
		for pos < e.n {
			n := uint64(65521 * many)
			if g.N(8) == 7 {
				n = uint64(1 + g.N(100000))
			}
			n = min(n, e.n-pos)
			o := pos % 65521
			k, err := h.Write(buf[o : o+n])
			if k != int(n) || err != nil {
				r.Fail("write-result", "Write of %d bytes at %d returned %d, %v", n, pos, k, err)
			}
			pos += n
		}
		r.Evals++
		if got := hex.EncodeToString(h.Sum(nil)); got != e.sum {
			r.Fail("digest-long", "message of %d bytes: sum %s, the digest is %s", e.n, got, e.sum)
		}
		r.Ev("sum of %d bytes", e.n)
	}
	r.Fault("long-message")
	if huge {
		r.Probe("message-longer-than-2^32")
	} else {
		r.Probe("message-longer-than-2^29")
	}
}
