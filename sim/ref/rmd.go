package ref

// RIPEMD-160, written from the specification (Dobbertin, Bosselaers, Preneel, 1996) in its plainest form.

var (
	rmdR = [80]int{
		0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15,
		7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8,
		3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12,
		1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2,
		4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13}
	rmdRR = [80]int{
		5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12,
		6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2,
		15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13,
		8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14,
		12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11}
	rmdS = [80]uint{
		11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8,
		7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12,
		11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5,
		11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12,
		9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6}
	rmdSS = [80]uint{
		8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6,
		9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11,
		9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5,
		15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8,
		8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11}
	rmdK  = [5]uint32{0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e}
	rmdKK = [5]uint32{0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0}
)

func rmdF(j int, x, y, z uint32) uint32 {
	switch j {
	case 0:
		return x ^ y ^ z
	case 1:
		return x&y | ^x&z
	case 2:
		return (x | ^y) ^ z
	case 3:
		return x&z | y&^z
	}
	return x ^ (y | ^z)
}

func rol(x uint32, s uint) uint32 { return x<<s | x>>(32-s) }

// Rmd is a running digest: the chaining value, the bytes not hashed yet, the length.
type Rmd struct {
	h   [5]uint32
	buf []byte
	n   uint64
}

func NewRmd() *Rmd {
	return &Rmd{h: [5]uint32{0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}}
}

func (d *Rmd) block(p []byte) {
	var x [16]uint32
	for i := range x {
		x[i] = uint32(p[4*i]) | uint32(p[4*i+1])<<8 | uint32(p[4*i+2])<<16 | uint32(p[4*i+3])<<24
	}
	a, b, c, e, f := d.h[0], d.h[1], d.h[2], d.h[3], d.h[4]
	aa, bb, cc, ee, ff := a, b, c, e, f
	for j := 0; j < 80; j++ {
		t := rol(a+rmdF(j/16, b, c, e)+x[rmdR[j]]+rmdK[j/16], rmdS[j]) + f
		a, f, e, c, b = f, e, rol(c, 10), b, t
		t = rol(aa+rmdF(4-j/16, bb, cc, ee)+x[rmdRR[j]]+rmdKK[j/16], rmdSS[j]) + ff
		aa, ff, ee, cc, bb = ff, ee, rol(cc, 10), bb, t
	}
	t := d.h[1] + c + ee
	d.h[1] = d.h[2] + e + ff
	d.h[2] = d.h[3] + f + aa
	d.h[3] = d.h[4] + a + bb
	d.h[4] = d.h[0] + b + cc
	d.h[0] = t
}

func (d *Rmd) Add(p []byte) {
	d.n += uint64(len(p))
	if len(d.buf) > 0 {
		k := min(64-len(d.buf), len(p))
		d.buf = append(d.buf, p[:k]...)
		p = p[k:]
		if len(d.buf) < 64 {
			return
		}
		d.block(d.buf)
		d.buf = d.buf[:0]
	}
	for len(p) >= 64 {
		d.block(p[:64])
		p = p[64:]
	}
	d.buf = append(d.buf, p...)
}

func (d *Rmd) Digest() []byte {
	e := Rmd{h: d.h, buf: append([]byte{}, d.buf...)}
	pad := append([]byte{0x80}, make([]byte, (119-len(d.buf))%64)...)
	bits := d.n * 8
	for i := 0; i < 8; i++ {
		pad = append(pad, byte(bits>>(8*i)))
	}
	e.Add(pad)
	var out []byte
	for _, v := range e.h {
		out = append(out, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
	}
	return out
}

// Rmd160 is the digest of b.
func Rmd160(b []byte) []byte {
	d := NewRmd()
	d.Add(b)
	return d.Digest()
}
