package props

import (
	"bytes"
	"encoding"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"strconv"
	"strings"

	"github.com/greymass/go-eosio/pkg/base58"
	"github.com/greymass/go-eosio/pkg/chain"

	"verifsim/core"
	"verifsim/ref"
)

var keyTypes = []string{"K1", "R1", "WA"}

// Texts a program stores: one kind per parser.
const (
	txKey = iota
	txSig
	txLegacy
	txCheck
	txCheckEos
	txC160
	txC256
	txC512
	txBytes
	txBlob
	txF128
	txU64
	txBlkNum
	txU128
	txI128
	txAsset
	txSym
	txCode
	txTP
	txTPS
	txBTS
	txName
	txKinds
)

var textKindNames = [...]string{"public key", "signature", "legacy public key", "base58check", "base58check/ripemd", "checksum160", "checksum256", "checksum512", "bytes", "blob", "float128", "uint64", "block number", "uint128", "int128", "asset", "symbol", "symbol code", "time point", "time point sec", "block timestamp", "name"}

// goodText is a well-formed text of the kind, made by the reference.
func goodText(g *G, kind int) string {
	key := func(sig bool) (string, []byte) {
		t := g.N(3)
		k := ref.PubKey
		if sig {
			k = ref.Sig
		}
		v := g.Val(&ref.Ty{K: k}, false)
		if len(v.B) > 300 {
			v.B = v.B[:300]
		}
		t = int(v.U)
		return keyTypes[t], v.B
	}
	switch kind {
	case txKey:
		t, b := key(false)
		return "PUB_" + t + "_" + ref.B58Rmd(b, t)
	case txSig:
		t, b := key(true)
		return "SIG_" + t + "_" + ref.B58Rmd(b, t)
	case txLegacy:
		b := append([]byte{byte(2 + g.N(2))}, g.R.Bytes(32)...)
		return []string{"EOS", "FIO", "WAX", ""}[g.N(4)] + ref.B58Rmd(b, "")
	case txCheck:
		return ref.B58Check(g.R.Bytes(g.N(60)))
	case txCheckEos:
		return ref.B58Rmd(g.R.Bytes(g.N(60)), "suffix")
	case txC160:
		return g.hex(20)
	case txC256:
		return g.hex(32)
	case txC512:
		return g.hex(64)
	case txF128:
		return g.hex(16)
	case txBytes:
		return g.hex(g.N(40))
	case txBlob:
		s := base64.StdEncoding.EncodeToString(g.R.Bytes(g.N(40)))
		if g.N(3) == 2 {
			s = strings.TrimRight(s, "=")
		}
		return s
	case txU64:
		s := fmt.Sprint(g.U(64))
		if g.N(2) == 1 {
			s = `"` + s + `"`
		}
		return s
	case txBlkNum:
		return fmt.Sprint(g.U(32))
	case txU128, txI128:
		i := new(big.Int).SetUint64(g.U(64))
		i.Lsh(i, 64).Add(i, new(big.Int).SetUint64(g.U(64)))
		if kind == txI128 {
			i.Sub(i, new(big.Int).Lsh(big.NewInt(1), 127))
		}
		return i.String()
	case txAsset:
		s := fmt.Sprint(int64(g.U(64)))
		neg := strings.HasPrefix(s, "-")
		s = strings.TrimPrefix(s, "-")
		if d := g.N(19); d > 0 {
			if len(s) <= d {
				s = strings.Repeat("0", d-len(s)+1) + s
			}
			s = s[:len(s)-d] + "." + s[len(s)-d:]
		}
		if neg {
			s = "-" + s
		}
		return s + " " + g.code()
	case txSym:
		return fmt.Sprint(g.N(19)) + "," + g.code()
	case txCode:
		return g.code()
	case txTP:
		return ref.TimeForm(int64(g.U64()%253402300800000000)/1000*1000-g.R64(62135596800000000), true) + g.zed()
	case txTPS:
		return ref.TimeForm(int64(g.U(32))*1_000_000, false) + g.zed()
	case txBTS:
		return ref.TimeForm(int64(g.U(32))*500_000+946684800_000_000, true) + g.zed()
	default:
		n := g.N(14)
		b := make([]byte, n)
		for i := range b {
			b[i] = ".12345abcdefghijklmnopqrstuvwxyz"[g.N(32)]
			if i == 12 {
				b[i] = ".12345abcdefghij"[g.N(16)]
			}
		}
		return string(b)
	}
}

func (g *G) R64(n int64) int64 {
	if g.N(3) < 2 {
		return 0
	}
	return int64(g.U64()%uint64(n)) / 1000 * 1000
}
func (g *G) zed() string { return []string{"", "", "Z"}[g.N(3)] }
func (g *G) hex(n int) string {
	s := hex.EncodeToString(g.R.Bytes(n))
	if g.N(3) == 2 {
		s = strings.ToUpper(s)
	}
	return s
}
func (g *G) code() string {
	b := make([]byte, g.Range(1, 7))
	for i := range b {
		b[i] = byte('A' + g.N(26))
	}
	return string(b)
}

var (
	bigZero = big.NewInt(0)
	two     = func(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
	less1   = func(i *big.Int) *big.Int { return new(big.Int).Sub(i, big.NewInt(1)) }
	maxU32  = less1(two(32))
	maxU64  = less1(two(64))
	maxU128 = less1(two(128))
	maxI128 = less1(two(127))
	minI128 = new(big.Int).Neg(two(127))
)

// forge makes texts whose checksum is right for something else.
func forge(g *G, kind int) (string, string) {
	r := g.R
	r.Fault("text-forged")
	pre := "PUB_"
	n := 33
	if kind == txSig {
		pre, n = "SIG_", 65
	}
	b := g.R.Bytes(n)
	t := keyTypes[g.N(3)]
	switch g.N(9) {
	case 8:
		u := []string{"wa", "k1", "r1", "K2", "XX", "R2", "WB", "EM", "__", "K_", "\x00\x00"}[g.N(11)]
		return pre + u + "_" + ref.B58Rmd(b, u), "unknown type with its checksum"
	case 0:
		u := keyTypes[g.N(3)]
		return pre + t + "_" + ref.B58Rmd(b, u), "checksum of type " + u
	case 1:
		return pre + t + "_" + ref.B58Rmd(b, ""), "checksum without type"
	case 2:
		return pre + t + "_" + ref.B58Check(b), "sha256 checksum"
	case 3:
		return pre + t + "_" + ref.B58(b), "no checksum"
	case 4:
		return pre + []string{"P1", "XX", "k1", "K2", "EM", "__"}[g.N(6)] + "_" + ref.B58Rmd(b, t), "unknown type"
	case 5:
		return []string{"PUB_", "SIG_", "PVT_", "PUB-", "pub_"}[g.N(5)] + t + "_" + ref.B58Rmd(b, t), "another prefix"
	case 6:
		b[0] = 2
		return "EOS" + ref.B58Rmd(b[:33], []string{"K1", "EOS"}[g.N(2)]), "legacy with a suffix"
	default:
		b[0] = 3
		return "EOS" + ref.B58Check(b[:33]), "legacy with a sha256 checksum"
	}
}

// fresh parses the text and reports the value as a dump, and a function giving the value's own text.
func parseText(kind int, how int, s string) (val interface{}, err error) {
	into := func(p interface{}) {
		arg := append(make([]byte, 0, len(s)+9), s...)
		switch how % 3 {
		case 1:
			// as a JSON string, if the parser is a text parser and JSON can hold the text
			if u, ok := p.(encoding.TextUnmarshaler); ok {
				if q, e := json.Marshal(s); e == nil {
					var back string
					if json.Unmarshal(q, &back) == nil && back == s {
						err = json.Unmarshal(q, u)
						val = reflect.ValueOf(p).Elem().Interface()
						return
					}
				}
			}
			fallthrough
		default:
			var ok bool
			if err, ok = parse(p, arg); !ok {
				panic("props: no parser")
			}
			if string(arg) != s {
				err = nil
				val = "simulator: the parser changed the text it was given"
				return
			}
		}
		val = reflect.ValueOf(p).Elem().Interface()
	}
	deref := func(p interface{}) interface{} {
		v := reflect.ValueOf(p)
		if v.Kind() == reflect.Ptr && v.IsNil() {
			return nil
		}
		return v.Elem().Interface()
	}
	own := how%3 == 2
	switch kind {
	case txKey, txLegacy:
		if own {
			var k *chain.PublicKey
			k, err = chain.NewPublicKeyFromString(s)
			return deref(k), err
		}
		into(new(chain.PublicKey))
	case txSig:
		if own {
			var k *chain.Signature
			k, err = chain.NewSignatureString(s)
			return deref(k), err
		}
		into(new(chain.Signature))
	case txCheck:
		return base58.CheckDecode(s)
	case txCheckEos:
		return base58.CheckDecodeEosio(s, "suffix")
	case txC160:
		into(new(chain.Checksum160))
	case txC256:
		into(new(chain.Checksum256))
	case txC512:
		into(new(chain.Checksum512))
	case txF128:
		into(new(chain.Float128))
	case txBytes:
		into(new(chain.Bytes))
	case txBlob:
		into(new(chain.Blob))
	case txU64:
		into(new(chain.Uint64))
	case txBlkNum:
		into(new(chain.BlockNum))
	case txU128:
		if own {
			return chain.NewUint128FromString(s)
		}
		into(new(chain.Uint128))
	case txI128:
		if own {
			return chain.NewInt128FromString(s)
		}
		into(new(chain.Int128))
	case txAsset:
		if own {
			var a *chain.Asset
			a, err = chain.NewAssetFromString(s)
			return deref(a), err
		}
		into(new(chain.Asset))
	case txSym:
		if own {
			return chain.NewSymbolFromString(s)
		}
		into(new(chain.Symbol))
	case txCode:
		into(new(chain.SymbolCode))
	case txTP:
		if own {
			return chain.NewTimePointFromString(s)
		}
		into(new(chain.TimePoint))
	case txTPS:
		if own {
			return chain.NewTimePointSecFromString(s)
		}
		into(new(chain.TimePointSec))
	case txBTS:
		if own {
			return chain.NewBlockTimestampFromString(s)
		}
		into(new(chain.BlockTimestamp))
	default:
		if own {
			return chain.NewName(s), nil
		}
		into(new(chain.Name))
	}
	return
}

// judge says what the text stands for. The returned function checks an accepted value.
func judge(kind int, s string) (ref.Verdict, func(val interface{}) string) {
	num := func(i *big.Int, v ref.Verdict) (ref.Verdict, func(interface{}) string) {
		return v, func(x interface{}) string {
			if got := fmt.Sprint(x); v != ref.Reject && got != i.String() {
				return "the text is " + i.String()
			}
			return ""
		}
	}
	raw := func(b []byte, v ref.Verdict) (ref.Verdict, func(interface{}) string) {
		return v, func(x interface{}) string {
			if Dump(x) != Dump(b) {
				return "the text stands for " + Dump(b)
			}
			return ""
		}
	}
	switch kind {
	case txKey, txSig, txLegacy:
		// accepted only as a payload whose text, with the checksum for its type, is this one
		return ref.May, func(x interface{}) string {
			var t chain.KeyType
			var b []byte
			pre := "SIG_"
			switch k := x.(type) {
			case chain.PublicKey:
				t, b, pre = k.Type, k.Data, "PUB_"
			case chain.Signature:
				t, b = k.Type, k.Data
			}
			if len(s) >= 7 && s[:4] == pre {
				if int(t) < len(keyTypes) && s[4:6] == keyTypes[t] && s[7:] == ref.B58Rmd(b, keyTypes[t]) {
					return ""
				}
				if t == chain.P1 && s[4:6] == "P1" && s[7:] == ref.B58Rmd(b, "P1") {
					return "" // what earlier versions wrote
				}
				return "the checksum or the type does not match"
			}
			if pre == "PUB_" && t == chain.K1 && strings.HasSuffix(s, ref.B58Rmd(b, "")) {
				return ""
			}
			return "the checksum or the type does not match"
		}
	case txCheck, txCheckEos:
		return ref.May, func(x interface{}) string {
			b := x.([]byte)
			if kind == txCheck && s == ref.B58Check(b) || kind == txCheckEos && s == ref.B58Rmd(b, "suffix") {
				return ""
			}
			return "the checksum does not match"
		}
	case txC160, txC256, txC512, txF128:
		n := map[int]int{txC160: 20, txC256: 32, txC512: 64, txF128: 16}[kind]
		b, v := ref.Hex(s, n)
		return v, func(x interface{}) string {
			d := Dump(x)
			if kind == txF128 {
				d = strings.Trim(d, "{}")
			}
			if d != Dump(b) {
				return "the text stands for " + Dump(b)
			}
			return ""
		}
	case txBytes:
		return raw(ref.Hex(s, -1))
	case txBlob:
		return raw(ref.B64(s))
	case txU64, txBlkNum:
		t, hi := s, maxU64
		if kind == txBlkNum {
			hi = maxU32
		}
		if len(t) > 1 && t[0] == '"' && t[len(t)-1] == '"' {
			t = t[1 : len(t)-1]
		}
		i, v := ref.Number(t, bigZero, hi)
		return v, func(x interface{}) string {
			if fmt.Sprint(reflect.ValueOf(x).Uint()) != i.String() {
				return "the text is " + i.String()
			}
			return ""
		}
	case txU128:
		return num(ref.Number(s, bigZero, maxU128))
	case txI128:
		return num(ref.Number(s, minI128, maxI128))
	case txAsset:
		u, sym, v := ref.AssetText(s)
		return v, func(x interface{}) string {
			if a := x.(chain.Asset); a.Value != u || uint64(a.Symbol) != sym {
				return fmt.Sprintf("the text stands for %d units of %x", u, sym)
			}
			return ""
		}
	case txSym, txCode:
		u, v := ref.SymbolText(s)
		if kind == txCode {
			u, v = ref.CodeText(s)
		}
		return v, func(x interface{}) string {
			if reflect.ValueOf(x).Uint() != u {
				return fmt.Sprintf("the text stands for %x", u)
			}
			return ""
		}
	case txTP, txTPS, txBTS:
		us, v := ref.TimeText(s, kind != txTPS)
		lo, hi, unit, epoch := int64(-1<<62), int64(1<<62), int64(1), int64(0)
		switch kind {
		case txTPS:
			lo, hi, unit = 0, 4294967296_000_000-1, 1_000_000
		case txBTS:
			epoch = 946684800_000_000
			lo, hi, unit = epoch, epoch+4294967295*500_000, 500_000
		}
		if v != ref.Reject && (us < lo || us > hi) {
			v = ref.Reject
			if us > lo-unit && us < hi+unit {
				v = ref.May // rounds into the range
			}
		}
		return v, func(x interface{}) string {
			rv := reflect.ValueOf(x)
			got := int64(0)
			if kind == txTP {
				got = rv.Int()
			} else {
				got = int64(rv.Uint())
			}
			got = got*unit + epoch
			if d := got - us; d <= -unit || d >= unit {
				return fmt.Sprintf("the text is %d microseconds after 1970, the value %d", us, got)
			}
			return ""
		}
	}
	return ref.May, func(interface{}) string { return "" }
}

func runC09(r *core.R) {
	defer moveZone(r)()
	g := NewG(r)
	kind := g.N(txKinds)
	other := ""
	r.Ev("texts of %s", textKindNames[kind])
	for i := r.Range(1, 6); i > 0; i-- {
		s := goodText(g, kind)
		what := "intact"
		good := true
		switch r.Pick(2, 6, 2, 2, 1, 1, 1, 1) {
		case 1:
			s = string(damageText(r, []byte(s)))
			what = "damaged"
			good = false
		case 2:
			if other != "" {
				// a torn write over an older text
				r.Fault("torn-write")
				k := r.N(len(s) + 1)
				if k < len(other) {
					s = s[:k] + other[k:]
				} else {
					s = s[:k]
				}
				what = "torn"
				good = false
			}
		case 3:
			switch kind {
			case txKey, txSig, txLegacy:
				s, what = forge(g, kind)
				good = false
			case txCheck:
				s, what, good = ref.B58Rmd(g.R.Bytes(g.N(40)), ""), "ripemd checksum", false
				r.Fault("text-forged")
			case txCheckEos:
				s, what, good = ref.B58Rmd(g.R.Bytes(g.N(40)), []string{"", "suffiy", "K1"}[g.N(3)]), "another suffix", false
				r.Fault("text-forged")
			default:
				s, what, good = overrange(g, kind, s)
			}
		case 4:
			// the text of something else
			k := g.N(txKinds)
			s, what, good = goodText(g, k), "text of "+textKindNames[k], false
			r.Fault("text-misplaced")
		case 5:
			s, what, good = string(r.Bytes(r.N(80))), "noise", false
			r.Fault("text-noise")
		case 6:
			// the characters of the kind in no order
			s, what, good = jumble(g, kind), "jumbled", false
			r.Fault("text-jumbled")
		case 7:
			// a key that got stuck
			k := r.N(len(s) + 1)
			c := "0"
			if k < len(s) && r.N(2) == 1 {
				c = s[k : k+1]
			}
			n := []int{r.Range(1, 20), r.Range(20, 300), 256, 256 - r.N(20), 256 + r.N(20), r.Range(500, 600), 65536}[r.N(7)]
			switch kind {
			case txKey, txSig, txLegacy, txCheck, txCheckEos:
				n = min(n, 300)
			}
			s, what, good = s[:k]+strings.Repeat(c, n)+s[k:], "with a character over and over", false
			r.Fault("text-stutter")
		}
		other = s
		how := r.N(3)
		var val interface{}
		var err error
		r.Call(fmt.Sprintf("parse of %s %q", textKindNames[kind], s), func() { val, err = parseText(kind, how, s) })
		r.Evals++
		r.Ev("%s %q -> %v", what, s, err)
		v, check := judge(kind, s)
		if good && v < ref.Must {
			switch kind {
			case txKey, txSig, txLegacy, txCheck, txCheckEos, txName:
				v = ref.Must
			}
		}
		if t, ok := val.(string); ok {
			r.Fail("input-changed", "%s %q: %s", textKindNames[kind], s, t)
		}
		if err != nil {
			if v == ref.Must {
				r.Fail("rejected", "%s %q (%s) is well-formed but rejected: %v", textKindNames[kind], s, what, err)
			}
			continue
		}
		if v == ref.Reject {
			r.Fail("accepted", "%s %q (%s) is malformed but accepted as %s", textKindNames[kind], s, what, Clip(DumpI(val)))
		}
		if bad := check(val); bad != "" {
			r.Fail("another-value", "%s %q (%s) is accepted as %s: %s", textKindNames[kind], s, what, Clip(DumpI(val)), bad)
		}
		if what != "intact" {
			r.Probe("damaged-text-still-valid")
		}
		again(r, kind, val)
	}
	if r.N(3) == 2 {
		makings(g)
	}
	if r.N(3) == 2 {
		// making of texts
		b := g.R.Bytes(g.N(80))
		keep := append([]byte{}, b...)
		var x, y, z string
		r.Call("base58", func() { x, y, z = base58.Encode(b), base58.CheckEncode(b), base58.CheckEncodeEosio(b, "K1") })
		r.Evals++
		if x != ref.B58(keep) || y != ref.B58Check(keep) || z != ref.B58Rmd(keep, "K1") || !bytes.Equal(b, keep) {
			r.Fail("text-made", "texts of %x: %s %s %s, should be %s %s %s", keep, x, y, z, ref.B58(keep), ref.B58Check(keep), ref.B58Rmd(keep, "K1"))
		}
	}
	r.Sample("texts of %s, last %q", textKindNames[kind], other)
}

// makings: values made of numbers and names are the ones asked for, or refused.
func makings(g *G) {
	r := g.R
	r.Evals++
	switch g.N(3) {
	case 0: // numbers of 128 bits; a number that does not fit is refused by a panic
		i := new(big.Int).SetUint64(g.U(64))
		i.Lsh(i, 64).Add(i, new(big.Int).SetUint64(g.U(64)))
		if g.N(3) == 2 {
			i.Set([]*big.Int{two(127), two(128), two(64), bigZero, two(129), two(200)}[g.N(6)])
			i.Add(i, big.NewInt(int64(g.N(5)-2)))
		}
		if g.N(2) == 1 {
			i.Neg(i)
		}
		keep := i.String()
		var u chain.Uint128
		var n chain.Int128
		cu := core.Try(func() { u = chain.NewUint128(i) })
		ci := core.Try(func() { n = chain.NewInt128(i) })
		fits := i.Sign() >= 0 && i.Cmp(maxU128) <= 0
		if fits && (cu != nil || u.BigInt().String() != keep || fmt.Sprint(u) != keep) {
			r.Fail("another-value", "NewUint128(%s) gives %v, %v", keep, u, cu)
		}
		if !fits && i.Sign() >= 0 && cu == nil {
			r.Fail("accepted", "NewUint128(%s) gives %v", keep, u)
		}
		if fits = i.Cmp(minI128) >= 0 && i.Cmp(maxI128) <= 0; fits && (ci != nil || n.BigInt().String() != keep || fmt.Sprint(n) != keep) {
			r.Fail("another-value", "NewInt128(%s) gives %v, %v", keep, n, ci)
		}
		if !fits && ci == nil {
			r.Fail("accepted", "NewInt128(%s) gives %v", keep, n)
		}
		if i.String() != keep {
			r.Fail("input-changed", "the number %s is %s after it was used", keep, i)
		}
		r.Ev("numbers of %s", keep)
	case 1:
		p := uint8(g.N(24))
		if g.N(4) == 3 {
			p = uint8(g.N(256))
		}
		name := g.code()
		if g.N(3) == 2 {
			name = jumble(g, txCode)
		}
		want, v := ref.SymbolText(fmt.Sprintf("%d,%s", p, name))
		var s chain.Symbol
		var err error
		r.Call("NewSymbol", func() { s, err = chain.NewSymbol(p, name) })
		r.Ev("symbol of %d and %q: %v", p, name, err)
		switch {
		case err != nil && v == ref.Must:
			r.Fail("rejected", "NewSymbol(%d, %q): %v", p, name, err)
		case err == nil && (v == ref.Reject || uint64(s) != want):
			r.Fail("accepted", "NewSymbol(%d, %q) gives %x", p, name, uint64(s))
		case err == nil:
			var d int
			var n string
			var c chain.SymbolCode
			var ten int
			r.Call("parts of a symbol", func() { d, n, c, ten = int(s.Decimals()), s.Name(), s.Code(), s.Precision() })
			if d != int(p) || n != name || uint64(c) != want>>8 || fmt.Sprint(ten) != "1"+strings.Repeat("0", d) {
				r.Fail("another-value", "the symbol of %d and %q has %d decimals, the precision %d, the name %q and the code %x", p, name, d, ten, n, uint64(c))
			}
		}
	default:
		v := int64(g.U(64))
		n := g.N(19)
		code := g.code()
		var s, want string
		var f float64
		r.Call("asset", func() {
			sym, _ := chain.NewSymbol(uint8(n), code)
			s = chain.NewAsset(v, sym).String()
			f = chain.NewAsset(v, sym).FloatValue()
		})
		want = new(big.Int).Abs(big.NewInt(v)).String()
		if len(want) <= n {
			want = strings.Repeat("0", n-len(want)+1) + want
		}
		if n > 0 {
			want = want[:len(want)-n] + "." + want[len(want)-n:]
		}
		if v < 0 {
			want = "-" + want
		}
		if x, _ := strconv.ParseFloat(want, 64); x != f {
			r.Fail("another-value", "the value of %s %s is %v", want, code, f)
		}
		want += " " + code
		r.Ev("asset %s", s)
		if s != want {
			r.Fail("text-made", "%d units of %d,%s have the text %q, should be %q", v, n, code, s, want)
		}
	}
}

// jumble makes a text of the characters that texts of the kind consist of.
func jumble(g *G, kind int) string {
	of := func(alphabet string, lo, hi int) string {
		b := make([]byte, g.Range(lo, hi))
		for i := range b {
			b[i] = alphabet[g.N(len(alphabet))]
		}
		return string(b)
	}
	const b58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
	switch kind {
	case txKey:
		return of("PUB_K1R1WA", 0, 9) + of(b58, 0, 60)
	case txSig:
		return of("SIG_K1R1WA", 0, 9) + of(b58, 0, 100)
	case txLegacy, txCheck, txCheckEos:
		return of(b58, 0, 60)
	case txC160, txC256, txC512, txF128, txBytes:
		n := map[int]int{txC160: 40, txC256: 64, txC512: 128, txF128: 32, txBytes: 8}[kind]
		return of("0123456789abcdefABCDEFxg", n-1, n+2)
	case txBlob:
		return of("ABab01+/-_=", 0, 12)
	case txU64, txBlkNum, txU128, txI128:
		return of("0123456789+-_.e\"x ", 0, 8)
	case txAsset:
		return of("0123456789+-.", 0, 7) + of("  ,", 0, 2) + of("ABCZ", 0, 8)
	case txSym:
		return of("0123456789+-", 0, 4) + of(", ", 0, 2) + of("ABCZ", 0, 8)
	case txCode:
		return of("AZMaz0[@ ", 0, 9)
	case txTP, txTPS, txBTS:
		return of("0123456789", 3, 6) + "-" + of("01", 1, 3) + "-" + of("0123", 1, 3) + of("T ", 1, 2) + of("0126", 1, 3) + ":" + of("0156", 1, 3) + ":" + of("0156", 1, 3) + of(".,Z+-0123", 0, 6)
	}
	return of("12345abcdefghijklmnopqrstuvwxyz.6A", 0, 15)
}

// overrange makes texts just outside, or just inside, what the kind can hold.
func overrange(g *G, kind int, s string) (string, string, bool) {
	g.Fault("text-out-of-range")
	off := big.NewInt(int64(g.N(5) - 2))
	about := func(i *big.Int) string { return new(big.Int).Add(i, off).String() }
	switch kind {
	case txU64:
		s = about(two(64))
	case txBlkNum:
		s = about(two(32))
	case txU128:
		s = about([]*big.Int{two(128), two(64), bigZero}[g.N(3)])
	case txI128:
		s = about([]*big.Int{two(127), minI128, two(64), two(128)}[g.N(4)])
	case txAsset:
		x := about([]*big.Int{two(63), new(big.Int).Neg(two(63)), two(64)}[g.N(3)])
		neg := strings.HasPrefix(x, "-")
		x = strings.TrimPrefix(x, "-")
		if d := g.N(22); d > 0 {
			if len(x) <= d {
				x = strings.Repeat("0", d-len(x)+1) + x
			}
			x = x[:len(x)-d] + "." + x[len(x)-d:]
		}
		if neg {
			x = "-" + x
		}
		n := g.code()
		if g.N(3) == 2 {
			n += "ABCDEFG"[:g.N(8)]
		}
		s = x + " " + n
	case txSym:
		s = fmt.Sprint(16+g.N(8)) + "," + g.code() + "ABCDEFG"[:g.N(8)]
		if g.N(4) == 3 {
			s = fmt.Sprint([]int{250 + g.N(10), 260 + g.N(20), -256 + g.N(20), 1<<16 + g.N(20), 1<<32 + g.N(20), -1 << 32, -1 - g.N(20)}[g.N(7)]) + ",EOS"
		}
	case txCode:
		s = g.code() + "ABCDEFG"[:g.N(8)]
	case txTPS:
		s = ref.TimeForm([]int64{0, 4294967296_000_000, -86400_000_000, 8000000000_000_000}[g.N(4)]+int64(g.N(5)-2)*1_000_000, false)
	case txBTS:
		e := int64(946684800_000_000)
		s = ref.TimeForm([]int64{e, e + 4294967296*500_000, 0, 8000000000_000_000}[g.N(4)]+int64(g.N(9)-4)*250_000, true)
	default:
		if len(s) > 0 {
			s = s[:len(s)-1]
		}
	}
	return s, "around the limits", false
}

// again: the value's own text gives the value.
func again(r *core.R, kind int, val interface{}) {
	p := reflect.New(reflect.TypeOf(val))
	p.Elem().Set(reflect.ValueOf(val))
	if kind == txCheck || kind == txCheckEos {
		b := val.([]byte)
		var s string
		var back interface{}
		var err error
		r.Call("text form", func() {
			if kind == txCheck {
				s = base58.CheckEncode(b)
			} else {
				s = base58.CheckEncodeEosio(b, "suffix")
			}
			back, err = parseText(kind, 0, s)
		})
		if err != nil || Dump(back) != Dump(val) {
			r.Fail("not-reproduced", "%s %x has the text %q, which parses to %s, %v", textKindNames[kind], b, s, Dump(back), err)
		}
		return
	}
	var s []byte
	var err error
	r.Call("text form of "+textKindNames[kind], func() { s, err, _ = textOf(p.Interface()) })
	if err != nil {
		r.Fail("no-text", "%s accepted as %s has no text: %v", textKindNames[kind], Clip(DumpI(val)), err)
	}
	var back interface{}
	k := kind
	if k == txLegacy {
		k = txKey
	}
	r.Call(fmt.Sprintf("parse of %q", s), func() { back, err = parseText(k, 0, string(s)) })
	r.Evals++
	if err != nil || DumpI(back) != DumpI(val) {
		r.Fail("not-reproduced", "%s: the value %s has the text %q, which parses to %s, %v", textKindNames[kind], Clip(DumpI(val)), s, Clip(DumpI(back)), err)
	}
	if k, ok := val.(chain.PublicKey); ok && k.Type != chain.K1 {
		// a key of another type has no legacy text: none, or one that stands for it
		var p *chain.PublicKey
		if core.Try(func() { s = []byte(k.LegacyString("EOS")) }) == nil {
			r.Call("parse of a legacy text", func() { p, err = chain.NewPublicKeyFromString(string(s)) })
			if err == nil && DumpI(*p) != DumpI(val) {
				r.Fail("not-reproduced", "the key %s has the legacy text %q, which parses to %s", DumpI(val), s, DumpI(*p))
			}
		}
	}
	if k, ok := val.(chain.PublicKey); ok && k.Type == chain.K1 {
		r.Call("legacy form", func() {
			s = []byte(k.LegacyString("EOS"))
			back, err = parseText(txLegacy, 0, string(s))
		})
		// only keys of 33 bytes in compressed form have a legacy text of the usual length
		if len(k.Data) == 33 && (k.Data[0] == 2 || k.Data[0] == 3) && (err != nil || DumpI(back) != DumpI(val)) {
			r.Fail("not-reproduced", "the key %s has the legacy text %q, which parses to %s, %v", DumpI(val), s, DumpI(back), err)
		}
	}
}
