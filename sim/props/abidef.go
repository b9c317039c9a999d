package props

import (
	"fmt"
	"math"
	"regexp"
	"strings"

	"github.com/greymass/go-eosio/pkg/chain"

	"verifsim/core"
	"verifsim/ref"
)

// ABIBuild turns described types into an ABI definition. How (inheritance, aliases, order) is chosen.
type ABIBuild struct {
	C     core.Chooser
	Def   chain.Abi
	names map[*ref.Ty]string
	n     int
	given []string
	Pre   string // prefix of invented names
	Plain bool   // no aliases, no inheritance
	Same  bool   // all invented names are of one pattern
	alts  map[*ref.Ty][]string
	long  bool
}

func NewABIBuild(c core.Chooser, pre string) *ABIBuild {
	return &ABIBuild{C: c, names: map[*ref.Ty]string{}, alts: map[*ref.Ty][]string{}, Pre: pre, Def: chain.Abi{Version: "eosio::abi/1.1"}}
}

func (b *ABIBuild) fresh(k string) string {
	b.n++
	if b.Same {
		k = "t"
	}
	if b.C.N(50) == 49 {
		k += strings.Repeat("x", []int{9, 10, 11, 12, 13, 30, 62, 126, 300}[b.C.N(9)])
	}
	n := fmt.Sprintf("%s%s%d", b.Pre, k, b.n)
	if b.C.N(12) == 11 {
		// a name that is almost another one
		of := []string{"uint8", "string", "name", "asset", "bytes", "uint64", "varuint32", "public_key", "checksum256"}
		of = append(of, b.given...)
		m := of[b.C.N(len(of))]
		switch b.C.N(6) {
		case 0:
			m = strings.ToUpper(m)
		case 1:
			m = strings.ToUpper(m[:1]) + m[1:]
		case 2:
			m += []string{"_", ".", "0", "s"}[b.C.N(4)]
		case 3:
			m = []string{"_", "x"}[b.C.N(2)] + m
		case 4:
			m = m[:len(m)-1]
		default:
			m = m[:len(m)/2] + strings.ToUpper(m[len(m)/2:])
		}
		if !b.taken(m) {
			n = m
		}
	}
	b.given = append(b.given, n)
	return n
}

// taken: the name stands for something already, or may later.
func (b *ABIBuild) taken(n string) bool {
	for _, g := range b.given {
		if g == n {
			return true
		}
	}
	if n == "" || suffixed(n) || b.Pre != "" && !strings.HasPrefix(n, b.Pre) {
		return true
	}
	// what built-in types are called, and what will be invented
	return ref.IsBuiltin(n) || inventedRE.MatchString(n)
}

var inventedRE = regexp.MustCompile(`^[a-z]+x*[0-9]+$`)

func (b *ABIBuild) alias(target string) string {
	if !b.long && b.C.N(60) == 59 { // aliases of aliases
		b.long = true
		for i := []int{2, 4, 9}[b.C.N(3)]; i > 0; i-- {
			n := b.fresh("a")
			b.Def.Types = append(b.Def.Types, chain.AbiType{NewTypeName: n, Type: target})
			target = n
		}
	}
	n := b.fresh("a")
	b.Def.Types = append(b.Def.Types, chain.AbiType{NewTypeName: n, Type: target})
	return n
}

func suffixed(s string) bool { return strings.ContainsAny(s, "[?$") }

// bare is a name without suffix for the type.
func (b *ABIBuild) bare(t *ref.Ty) string {
	n := b.Name(t)
	if suffixed(n) {
		n = b.alias(n)
	}
	return n
}

// Name is an ABI type name for t, adding definitions as needed.
func (b *ABIBuild) Name(t *ref.Ty) string {
	if n, ok := b.names[t]; ok {
		return n
	}
	n := b.name(t)
	if !b.Plain && t.K < ref.LeafEnd && b.C.N(8) == 7 {
		n = b.alias(n)
	}
	return n
}

func (b *ABIBuild) name(t *ref.Ty) string {
	switch t.K {
	case ref.Ptr:
		return b.Name(t.Elem)
	case ref.Slice:
		return b.bare(t.Elem) + "[]"
	case ref.Opt:
		n := b.Name(t.Elem)
		if strings.ContainsAny(n, "?$") {
			n = b.alias(n)
		}
		return n + "?"
	case ref.Map:
		n := b.fresh("p")
		b.names[t] = n + "[]"
		i := len(b.Def.Structs)
		b.Def.Structs = append(b.Def.Structs, chain.AbiStruct{Name: n})
		fs := []chain.AbiField{{Name: "key", Type: b.Name(t.Key)}, {Name: "value", Type: b.Name(t.Elem)}}
		b.Def.Structs[i].Fields = fs
		return n + "[]"
	case ref.Array:
		n := b.fresh("r")
		b.names[t] = n
		i := len(b.Def.Structs)
		b.Def.Structs = append(b.Def.Structs, chain.AbiStruct{Name: n})
		var fs []chain.AbiField
		for j := 0; j < t.N; j++ {
			fs = append(fs, chain.AbiField{Name: fmt.Sprintf("e%d", j), Type: b.Name(t.Elem)})
		}
		b.Def.Structs[i].Fields = fs
		return n
	case ref.Struct:
		n := b.fresh("s")
		b.names[t] = n
		i := len(b.Def.Structs)
		b.Def.Structs = append(b.Def.Structs, chain.AbiStruct{Name: n})
		var fs []chain.AbiField
		for _, f := range t.F {
			fs = append(fs, chain.AbiField{Name: f.Name, Type: b.fieldType(f)})
		}
		b.Def.Structs[i].Fields = fs
		if !b.Plain {
			// move leading fields into base structs
			depth, deep := 3, false
			if b.C.N(40) == 39 {
				depth, deep = []int{5, 9, 17, 40, 150}[b.C.N(5)], true
			}
			for d := 0; d < depth && (len(fs) > 0 || deep) && (deep || b.C.N(3) == 2); d++ {
				k := len(fs) - min(b.C.N(len(fs)+1), b.C.N(3))
				if !deep {
					k = b.C.N(len(fs) + 1)
				}
				if k > 0 && strings.HasSuffix(fs[k-1].Type, "$") {
					break
				}
				base := b.fresh("b")
				b.Def.Structs[i].Base = base
				b.Def.Structs[i].Fields = fs[k:]
				b.Def.Structs = append(b.Def.Structs, chain.AbiStruct{Name: base, Fields: fs[:k]})
				i = len(b.Def.Structs) - 1
				fs = fs[:k]
			}
		}
		return n
	case ref.Variant:
		n := b.fresh("v")
		b.names[t] = n
		i := len(b.Def.Variants)
		b.Def.Variants = append(b.Def.Variants, chain.AbiVariant{Name: n})
		seen := map[string]bool{}
		var ts []string
		for _, f := range t.F {
			a := b.Name(f.T)
			if seen[a] {
				a = b.alias(a)
			}
			seen[a] = true
			ts = append(ts, a)
		}
		b.Def.Variants[i].Types = ts
		b.alts[t] = ts
		return n
	}
	return t.K.ABIName()
}

func (b *ABIBuild) fieldType(f ref.Field) string {
	n := b.Name(f.T)
	switch f.Mode {
	case ref.Optional:
		if strings.ContainsAny(n, "?$") {
			n = b.alias(n)
		}
		n += "?"
	case ref.Extension:
		switch {
		case strings.HasSuffix(n, "?") && b.C.N(3) > 0:
			if b.C.N(2) == 1 {
				return n[:len(n)-1] + "$?"
			}
		case strings.ContainsAny(n, "?$"):
			n = b.alias(n)
		}
		n += "$"
	}
	return n
}

// Tree is the dynamic value of v: as decoded (canon), or one of the forms accepted for encoding.
func (b *ABIBuild) Tree(t *ref.Ty, v *ref.Val, canon bool) interface{} {
	alt := func() bool { return !canon && b.C.N(2) == 1 }
	switch t.K {
	case ref.Bool:
		return v.U != 0
	case ref.U8:
		return uint8(v.U)
	case ref.U16:
		return uint16(v.U)
	case ref.U32, ref.BlkNum, ref.NU32:
		return uint32(v.U)
	case ref.U64, ref.CU64, ref.NU64:
		if alt() {
			return v.U
		}
		return chain.Uint64(v.U)
	case ref.I8:
		return int8(v.U)
	case ref.I16:
		return int16(v.U)
	case ref.I32, ref.NI32:
		return int32(v.U)
	case ref.I64, ref.NI64:
		return int64(v.U)
	case ref.F32:
		return math.Float32frombits(uint32(v.U))
	case ref.F64:
		return math.Float64frombits(v.U)
	case ref.VarU:
		return uint(v.U)
	case ref.VarI:
		return int(v.U)
	case ref.Str:
		return string(v.B)
	case ref.Raw, ref.Bytes, ref.Blob:
		if alt() {
			return append([]byte{}, v.B...)
		}
		return chain.Bytes(append([]byte{}, v.B...))
	case ref.Slice:
		l := make([]interface{}, len(v.L))
		for i, e := range v.L {
			l[i] = b.Tree(t.Elem, e, canon)
		}
		return l
	case ref.Array:
		m := map[string]interface{}{}
		for i, e := range v.L {
			m[fmt.Sprintf("e%d", i)] = b.Tree(t.Elem, e, canon)
		}
		return m
	case ref.Map:
		l := []interface{}{}
		for i := 0; i+1 < len(v.L); i += 2 {
			l = append(l, map[string]interface{}{"key": b.Tree(t.Key, v.L[i], canon), "value": b.Tree(t.Elem, v.L[i+1], canon)})
		}
		return l
	case ref.Struct:
		m := map[string]interface{}{}
		for i, f := range t.F {
			x := v.L[i]
			if x.Gone || x.Nil && f.Mode == ref.Optional {
				if canon || b.C.N(2) == 0 {
					m[f.Name] = nil
				}
				continue
			}
			m[f.Name] = b.Tree(f.T, x, canon)
		}
		return m
	case ref.Ptr:
		return b.Tree(t.Elem, v.L[0], canon)
	case ref.Opt:
		if v.Nil {
			return nil
		}
		return b.Tree(t.Elem, v.L[0], canon)
	case ref.Variant:
		return []interface{}{b.alts[t][v.Tag], b.Tree(t.F[v.Tag].T, v.L[0], canon)}
	}
	return ToGo(t, v).Interface()
}
