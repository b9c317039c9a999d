package ref

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"regexp"
	"strconv"
	"strings"
)

const b58Digits = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// B58 is the base58 text of b, by long division digit by digit.
func B58(b []byte) string {
	z := 0
	for z < len(b) && b[z] == 0 {
		z++
	}
	var d []int // base 58, least significant first
	for _, c := range b[z:] {
		carry := int(c)
		for i := range d {
			carry += d[i] << 8
			d[i] = carry % 58
			carry /= 58
		}
		for carry > 0 {
			d = append(d, carry%58)
			carry /= 58
		}
	}
	s := strings.Repeat("1", z)
	for i := len(d) - 1; i >= 0; i-- {
		s += b58Digits[d[i] : d[i]+1]
	}
	return s
}

// B58Check is the text of b followed by the first four bytes of sha256(sha256(b)).
func B58Check(b []byte) string {
	h := sha256.Sum256(b)
	h = sha256.Sum256(h[:])
	return B58(append(append([]byte{}, b...), h[:4]...))
}

// B58Rmd is the text of b followed by the first four bytes of ripemd160(b, suffix).
func B58Rmd(b []byte, suffix string) string {
	h := Rmd160(append(append([]byte{}, b...), suffix...))
	return B58(append(append([]byte{}, b...), h[:4]...))
}

// What a parser has to do with a text.
type Verdict int

const (
	Reject Verdict = iota
	May            // accept as the value given, or reject
	Must           // accept as the value given
)

// Hex of exactly n bytes, or of any number (n < 0).
func Hex(s string, n int) ([]byte, Verdict) {
	if len(s)%2 != 0 || n >= 0 && len(s) != 2*n {
		return nil, Reject
	}
	var b []byte
	for i := 0; i < len(s); i += 2 {
		x, y := strings.IndexByte("0123456789abcdef", lower(s[i])), strings.IndexByte("0123456789abcdef", lower(s[i+1]))
		if x < 0 || y < 0 {
			return nil, Reject
		}
		b = append(b, byte(x<<4|y))
	}
	return b, Must
}

func lower(c byte) byte {
	if c >= 'A' && c <= 'Z' {
		c += 32
	}
	return c
}

const b64Digits = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

// B64 of any bytes: line breaks, missing padding and stray low bits may be accepted.
func B64(s string) ([]byte, Verdict) {
	v := Must
	if strings.ContainsAny(s, "\r\n") {
		s = strings.NewReplacer("\r", "", "\n", "").Replace(s)
		v = May
	}
	body := strings.TrimRight(s, "=")
	pad := len(s) - len(body)
	if len(body)%4 == 1 || pad > (4-len(body)%4)%4 {
		return nil, Reject
	}
	var b []byte
	acc, n := 0, 0
	for i := 0; i < len(body); i++ {
		x := strings.IndexByte(b64Digits, body[i])
		if x < 0 {
			return nil, Reject
		}
		acc = acc<<6 | x
		if n += 6; n >= 8 {
			n -= 8
			b = append(b, byte(acc>>n))
			acc &= 1<<n - 1
		}
	}
	if acc != 0 || len(s)%4 != 0 {
		v = min(v, May)
	}
	return b, v
}

var digits = regexp.MustCompile(`^[0-9]+$`)
var plainNum = regexp.MustCompile(`^-?[0-9]+$`)

// Number is a decimal integer in [lo,hi].
func Number(s string, lo, hi *big.Int) (*big.Int, Verdict) {
	v := Must
	if !plainNum.MatchString(s) {
		v = May
		s = strings.NewReplacer(" ", "", "\t", "", "\n", "", "\r", "", "_", "", "\"", "").Replace(s)
		s = strings.TrimPrefix(s, "+")
		if !plainNum.MatchString(s) {
			return nil, Reject
		}
	}
	i, ok := new(big.Int).SetString(s, 10)
	if !ok || i.Cmp(lo) < 0 || i.Cmp(hi) > 0 {
		return nil, Reject
	}
	if v == Must && strings.HasPrefix(strings.TrimPrefix(s, "-"), "0") && s != "0" {
		v = May // leading zeros, minus zero
	}
	return i, v
}

var (
	assetRE  = regexp.MustCompile(`^([+-]?)([0-9]*)(?:(\.)([0-9]*))? ([A-Z]{0,7})$`)
	symbolRE = regexp.MustCompile(`^([+-]?[0-9]+),([A-Z]{0,7})$`)
	codeRE   = regexp.MustCompile(`^[A-Z]{0,7}$`)
	timeRE   = regexp.MustCompile(`^([0-9]{4})-([0-9]{2})-([0-9]{2})T([0-9]{1,2}):([0-9]{2}):([0-9]{2})(?:([.,])([+-]?[0-9]+))?(Z?)$`)
)

// AssetText is an amount and a symbol.
func AssetText(s string) (units int64, symbol uint64, v Verdict) {
	m := assetRE.FindStringSubmatch(s)
	if m == nil || m[2]+m[4] == "" || len(m[4]) > 18 {
		return 0, 0, Reject
	}
	i, ok := new(big.Int).SetString(strings.TrimPrefix(m[1], "+")+m[2]+m[4], 10)
	if !ok || !i.IsInt64() {
		return 0, 0, Reject
	}
	symbol = uint64(len(m[4])) | code(m[5])<<8
	v = Must
	if m[1] == "+" || m[2] == "" || m[3] != "" && m[4] == "" || m[5] == "" {
		v = May
	}
	return i.Int64(), symbol, v
}

func code(s string) uint64 {
	var c uint64
	for i := 0; i < len(s); i++ {
		c |= uint64(s[i]) << (8 * i)
	}
	return c
}

// SymbolText is a number of decimals and a name.
func SymbolText(s string) (uint64, Verdict) {
	m := symbolRE.FindStringSubmatch(s)
	if m == nil {
		return 0, Reject
	}
	n, err := strconv.Atoi(m[1])
	if err != nil || n < 0 || n > 18 {
		return 0, Reject
	}
	v := Must
	if m[2] == "" || m[1] != strconv.Itoa(n) {
		v = May
	}
	return uint64(n) | code(m[2])<<8, v
}

func CodeText(s string) (uint64, Verdict) {
	if !codeRE.MatchString(s) {
		return 0, Reject
	}
	if s == "" {
		return 0, May
	}
	return code(s), Must
}

// TimeText is microseconds since 1970 for a date and time of day in UTC.
func TimeText(s string, frac bool) (int64, Verdict) {
	m := timeRE.FindStringSubmatch(s)
	if m == nil {
		return 0, Reject
	}
	n := func(i int) int64 { v, _ := strconv.Atoi(m[i]); return int64(v) }
	y, mo, d, h, mi, sec := n(1), n(2), n(3), n(4), n(5), n(6)
	leap := y%4 == 0 && y%100 != 0 || y%400 == 0
	days := []int64{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
	if leap {
		days[1] = 29
	}
	if mo < 1 || mo > 12 || d < 1 || d > days[mo-1] || h > 23 || mi > 59 || sec > 59 {
		return 0, Reject
	}
	// days since 1970-01-01
	t := int64(0)
	for k := int64(1970); k < y; k++ {
		t += 365 + leapDay(k)
	}
	for k := y; k < 1970; k++ {
		t -= 365 + leapDay(k)
	}
	for k := int64(1); k < mo; k++ {
		t += days[k-1]
	}
	t = ((t+d-1)*24+h)*3600 + mi*60 + sec
	v := Must
	us := int64(0)
	if m[8] != "" && (m[8][0] == '+' || m[8][0] == '-') {
		m[8] = "0" + m[8][1:] // time.Parse takes a sign for a digit
		v = May
	}
	if m[7] != "" {
		us, _ = strconv.ParseInt((m[8] + "000000")[:6], 10, 64)
	}
	if len(m[4]) != 2 || m[7] == "," || frac && len(m[8]) != 3 || !frac && m[7] != "" || y == 0 {
		v = May
	}
	return t*1_000_000 + us, v
}

func leapDay(y int64) int64 {
	if y%4 == 0 && y%100 != 0 || y%400 == 0 {
		return 1
	}
	return 0
}

// TimeForm writes a time as text.
func TimeForm(us int64, frac bool) string {
	days, rest := us/86_400_000_000, us%86_400_000_000
	if rest < 0 {
		days, rest = days-1, rest+86_400_000_000
	}
	y := int64(1970)
	for days < 0 {
		y--
		days += 365 + leapDay(y)
	}
	for days >= 365+leapDay(y) {
		days -= 365 + leapDay(y)
		y++
	}
	ml := []int64{31, 28 + leapDay(y), 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
	mo := 0
	for days >= ml[mo] {
		days -= ml[mo]
		mo++
	}
	s := rest / 1_000_000
	t := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d", y, mo+1, days+1, s/3600, s/60%60, s%60)
	if frac {
		t += fmt.Sprintf(".%03d", rest%1_000_000/1000)
	}
	return t
}
