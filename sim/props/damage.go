package props

import (
	"verifsim/core"
	"verifsim/ref"
)

var extremes = [][]byte{
	{0xff, 0xff, 0xff, 0xff, 0x0f}, {0xff, 0xff, 0xff, 0xff, 0x07}, {0x80, 0x80, 0x80, 0x80, 0x08}, {0x80, 0x80, 0x80, 0x80, 0x10}, {0xff, 0xff, 0xff, 0xff, 0x7f},
	{0xff, 0xff, 0xff, 0x7f}, {0x80, 0x80, 0x80, 0x01}, {0xff, 0xff, 0x7f}, {0xff, 0x7f}, {0x80, 0x01}, {0x7f}, {0x80, 0x00}, {0x80, 0x80, 0x80, 0x80, 0x00},
	{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01}, {0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x01}, {0x80, 0x80, 0x80, 0x80, 0x80, 0x01},
	{0}, {1}, {2}, {3}, {0xff}, {0x80}, {0xfe},
}

// damage corrupts stored or transmitted bytes.
func damage(r *core.R, in []byte, w *ref.Enc) []byte {
	b := append([]byte(nil), in...)
	for i := r.Range(1, 4); i > 0; i-- {
		n := len(b)
		off := 0
		if n > 0 {
			off = r.N(n)
			if w != nil && len(w.Marks) > 0 && r.N(3) > 0 {
				if o := w.Marks[r.N(len(w.Marks))].Off; o < n {
					off = o
				}
			}
		}
		switch k := r.N(8); {
		case k == 0 && n > 0:
			r.Fault("bit-flip")
			b[off] ^= 1 << r.N(8)
		case k == 1:
			r.Fault("insert")
			b = append(b[:off:off], append(r.Bytes(r.Range(1, 9)), b[off:]...)...)
		case k == 2 && n > 0:
			r.Fault("delete")
			e := off + 1 + r.N(min(n-off, 8))
			b = append(b[:off:off], b[e:]...)
		case k == 3 && n > 0:
			r.Fault("duplicate")
			e := off + 1 + r.N(min(n-off, 16))
			b = append(b[:e:e], b[off:]...)
		case k == 4 || k == 5:
			// an extreme length, in place of one byte or of as many
			r.Fault("extreme-length")
			x := extremes[r.N(len(extremes))]
			e := off
			if k == 4 && n > 0 {
				e = off + 1
			} else if e = off + len(x); e > n {
				e = n
			}
			b = append(b[:off:off], append(append([]byte{}, x...), b[e:]...)...)
		case k == 6:
			r.Fault("truncate")
			b = b[:off]
		default:
			if n == 0 {
				continue
			}
			r.Fault("overwrite")
			for j := off; j < n && j < off+1+r.N(8); j++ {
				b[j] = byte(r.N(256))
			}
		}
	}
	return b
}

var oddBits = []string{"\x00", "é", "\xff", "🙂", " ", "\n", "0", "O", "I", "l", "=", "-", "+", ".", ",", "_", "1", "Z", "\"", "/", "\u0130", "x"}

// damageText corrupts text.
func damageText(r *core.R, in []byte) []byte {
	b := append([]byte(nil), in...)
	for i := r.Range(1, 3); i > 0; i-- {
		n := len(b)
		off := 0
		if n > 0 {
			off = r.N(n)
		}
		switch k := r.N(9); {
		case k == 0 && n > 0:
			r.Fault("text-bit-flip")
			b[off] ^= 1 << r.N(8)
		case k == 1 && n > 0:
			// another character of the same alphabet
			r.Fault("text-typo")
			b[off] = b[r.N(n)]
		case k == 2 && n > 0:
			r.Fault("text-delete")
			e := off + 1 + r.N(min(n-off, 4))
			b = append(b[:off:off], b[e:]...)
		case k == 3 && n > 0:
			r.Fault("text-duplicate")
			e := off + 1 + r.N(min(n-off, 4))
			b = append(b[:e:e], b[off:]...)
		case k == 4:
			r.Fault("text-truncate")
			b = b[:off]
		case k == 5 && n > 1:
			r.Fault("text-transpose")
			if off == n-1 {
				off--
			}
			b[off], b[off+1] = b[off+1], b[off]
		case k == 6 && n > 0:
			r.Fault("text-case")
			b[off] ^= 0x20
		case k == 7 && n > 0:
			r.Fault("text-replace")
			b = append(b[:off:off], append([]byte(oddBits[r.N(len(oddBits))]), b[off+1:]...)...)
		default:
			r.Fault("text-insert")
			b = append(b[:off:off], append([]byte(oddBits[r.N(len(oddBits))]), b[off:]...)...)
		}
	}
	return b
}
