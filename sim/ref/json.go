package ref

import (
	"math/big"
	"strconv"
	"strings"
)

const nameDigits = ".12345abcdefghijklmnopqrstuvwxyz"

// NameText is the text of a name: twelve digits of five bits and one of four, from the top.
func NameText(n uint64) string {
	var b [13]byte
	for i := 0; i < 12; i++ {
		b[i] = nameDigits[n>>(59-5*i)&31]
	}
	b[12] = nameDigits[n&15]
	return strings.TrimRight(string(b[:]), ".")
}

// HexText is lower case hexadecimal.
func HexText(b []byte) string {
	const d = "0123456789abcdef"
	var s strings.Builder
	for _, c := range b {
		s.WriteByte(d[c>>4])
		s.WriteByte(d[c&15])
	}
	return s.String()
}

// B64Text is padded base64.
func B64Text(b []byte) string {
	var s strings.Builder
	for len(b) > 0 {
		var x [3]byte
		n := copy(x[:], b)
		b = b[n:]
		v := uint(x[0])<<16 | uint(x[1])<<8 | uint(x[2])
		for i := 0; i < 4; i++ {
			if i <= n {
				s.WriteByte(b64Digits[v>>(18-6*i)&63])
			} else {
				s.WriteByte('=')
			}
		}
	}
	return s.String()
}

// CodeForm is the text of a symbol code.
func CodeForm(c uint64) string {
	s := ""
	for ; c > 0; c >>= 8 {
		s += string(rune(c & 255))
	}
	return s
}

// SymbolForm is the text of a symbol.
func SymbolForm(s uint64) string { return strconv.Itoa(int(s&255)) + "," + CodeForm(s>>8) }

// AssetForm is the text of an amount of a symbol.
func AssetForm(units int64, symbol uint64) string {
	n := int(symbol & 255)
	i := big.NewInt(units)
	sign := ""
	if i.Sign() < 0 {
		sign = "-"
		i.Neg(i)
	}
	d := i.String()
	if n > 0 {
		for len(d) <= n {
			d = "0" + d
		}
		d = d[:len(d)-n] + "." + d[len(d)-n:]
	}
	return sign + d + " " + CodeForm(symbol>>8)
}

// IsSymbol: at most 18 decimals and one to seven capital letters.
func IsSymbol(s uint64) bool {
	if s&255 > 18 {
		return false
	}
	return IsCode(s >> 8)
}

func IsCode(c uint64) bool {
	if c == 0 || c>>56 != 0 {
		return false
	}
	for ; c > 0; c >>= 8 {
		if c&255 < 'A' || c&255 > 'Z' {
			return false
		}
	}
	return true
}

// Big128 is the number made of two halves.
func Big128(lo, hi uint64, signed bool) *big.Int {
	i := new(big.Int).SetUint64(hi)
	i.Lsh(i, 64)
	i.Or(i, new(big.Int).SetUint64(lo))
	if signed && hi>>63 == 1 {
		i.Sub(i, new(big.Int).Lsh(big.NewInt(1), 128))
	}
	return i
}
