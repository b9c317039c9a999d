package props

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"unicode/utf8"

	"verifsim/core"
	"verifsim/ref"
)

// G generates types and values. Simplest choices come first.
type G struct {
	*core.R
	budget int // bytes of generated content left
	noWild bool
	huge   bool               // long lists of small elements
	min    map[*ref.Ty][2]int // for types made from ABI definitions: what has finite values
	nodes  int
	wide   int // 1: the next struct has many fields, 2: the next variant many alternatives
}

// Fit prepares for values of a type made from an ABI definition; false: it has no (small) value.
func (g *G) Fit(t *ref.Ty) bool {
	g.min, g.nodes = t.Min(), 0
	return g.min[t][0] < 3000 && g.min[t][1] < 200
}

// none: no value of the type is wanted here.
func (g *G) none(t *ref.Ty, depth int) bool {
	if g.min == nil {
		return depth > 8
	}
	m := g.min[t]
	return m[1] >= 200 || m[0] >= 3000 || depth > 8 || g.nodes > 600
}

func NewG(r *core.R) *G { return &G{R: r, budget: 6000} }

// U is an unsigned number of the given width, biased to boundaries and to constants of the sources.
func (g *G) U(bits int) uint64 {
	m := ^uint64(0)
	if bits < 64 {
		m = 1<<bits - 1
	}
	switch g.Pick(3, 3, 3, 3, 2) {
	case 0:
		return uint64(g.N(4)) & m
	case 1:
		k := g.N(bits + 1)
		v := uint64(0)
		if k < 64 {
			v = 1 << k
		}
		return (v + uint64(g.N(3)) - 1) & m
	case 2:
		if len(g.Dict.Ints) > 0 {
			return (g.Dict.Ints[g.N(len(g.Dict.Ints))] + uint64(g.N(3)) - 1) & m
		}
		return 0
	case 3:
		return g.U64() & m
	default:
		return uint64(g.N(256)) & m
	}
}

var lens = []int{0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537, 131071, 131072}

// Len is a length of elements of size sz, within the budget.
func (g *G) Len(sz int) int {
	n := 0
	switch g.Pick(10, 6, 2, 1) {
	case 0:
		n = g.N(4)
	case 1:
		n = g.N(20)
	case 2:
		n = lens[g.N(len(lens))]
	case 3:
		if len(g.Dict.Ints) > 0 {
			v := g.Dict.Ints[g.N(len(g.Dict.Ints))] + uint64(g.N(3)) - 1
			if v < 140000 {
				n = int(v)
			}
		}
	}
	if sz < 1 {
		sz = 1
	}
	if n*sz > g.budget {
		n = g.budget / sz
		if n > 3 {
			n = 3
		}
	}
	if n > 0 {
		g.budget -= n * sz
	}
	return n
}

// Big gives the run a large budget now and then.
func (g *G) Big() *G {
	if g.N(24) == 23 {
		g.budget = 300000
		g.huge = g.N(6) == 5
		g.Probe("large-values")
	}
	return g
}

var simpleLeaves = []ref.Kind{ref.U8, ref.Str, ref.U32, ref.U64, ref.Bool, ref.VarU, ref.VarI, ref.I8, ref.U16, ref.I16, ref.I32, ref.I64, ref.F32, ref.F64, ref.Raw}
var chainLeaves = []ref.Kind{ref.Name, ref.Asset, ref.Bytes, ref.PubKey, ref.Sig, ref.C256, ref.Sym, ref.SymCode, ref.ExtAsset, ref.TP, ref.TPS, ref.BTS, ref.U128, ref.I128, ref.F128, ref.C160, ref.C512, ref.Blob, ref.CU64, ref.BlkNum, ref.NU64, ref.NU32, ref.NI64, ref.NI32}
var hugeKinds = map[ref.Kind]bool{ref.U16: true, ref.I16: true, ref.Bool: true, ref.I8: true, ref.VarU: true, ref.VarI: true, ref.U32: true}
var keyLeaves = []ref.Kind{ref.Str, ref.U32, ref.U8, ref.Name, ref.I32, ref.U64, ref.I8, ref.U16, ref.I16, ref.I64, ref.CU64, ref.BlkNum, ref.NU64, ref.NI32, ref.VarU, ref.VarI}

// Leaf is a leaf type.
func (g *G) Leaf() *ref.Ty {
	if g.N(5) < 3 {
		return &ref.Ty{K: simpleLeaves[g.N(len(simpleLeaves))]}
	}
	return &ref.Ty{K: chainLeaves[g.N(len(chainLeaves))]}
}

// Opt of type generation.
type TyOpt struct {
	NoVariant bool // typed encode cannot write variants
	NoMap     bool
	ABI       bool // for ABI definitions only: optionals anywhere
	Zero      bool // elements may have no size
	ValScalar bool // optional fields held by value are scalars
	Ext       bool // top-level struct may end in extensions
}

// Type is any supported type.
func (g *G) Type(depth int, o TyOpt) *ref.Ty {
	sub := o
	sub.Ext = false
	if depth <= 0 {
		return g.Leaf()
	}
	if o.ABI && g.N(5) == 4 {
		e := g.Type(depth-1, sub)
		for e.K == ref.Ptr || e.K == ref.Opt {
			e = e.Elem
		}
		return &ref.Ty{K: ref.Opt, Elem: e}
	}
	switch g.Pick(5, 4, 4, 2, 2, 1, 3) {
	case 0:
		return g.Leaf()
	case 1:
		return g.StructTy(depth, o)
	case 2:
		return &ref.Ty{K: ref.Slice, Elem: g.elem(depth, sub)}
	case 3:
		n := g.N(4)
		if g.N(10) == 9 {
			n = []int{4, 7, 8, 9, 12, 16, 20, 32, 33, 64, 70}[g.N(11)]
			if n > 16 {
				depth = 1
			}
		}
		if g.N(4) == 3 {
			return &ref.Ty{K: ref.Array, N: n, Elem: &ref.Ty{K: ref.U8}}
		}
		return &ref.Ty{K: ref.Array, N: n, Elem: g.elem(depth, sub)}
	case 4:
		if o.NoMap {
			return g.Leaf()
		}
		if o.Zero && g.N(8) == 7 {
			return &ref.Ty{K: ref.Map, Key: &ref.Ty{K: ref.Array, N: 0, Elem: &ref.Ty{K: keyLeaves[g.N(len(keyLeaves))]}}, Elem: TyOf(reflect.TypeOf(Empty{}))}
		}
		e := g.Type(depth-1, sub)
		return &ref.Ty{K: ref.Map, Key: &ref.Ty{K: keyLeaves[g.N(len(keyLeaves))]}, Elem: e}
	case 5:
		e := g.Type(depth-1, sub)
		if e.K == ref.Ptr {
			e = e.Elem
		}
		return &ref.Ty{K: ref.Ptr, Elem: e}
	default:
		for {
			t := TyOf(staticTypes[g.N(len(staticTypes))])
			if o.NoVariant && hasVariant(t, map[*ref.Ty]bool{}) || !o.Ext && hasExt(t) || o.NoMap && hasMap(t, map[*ref.Ty]bool{}) {
				return TyOf(staticTypes[0])
			}
			return t
		}
	}
}

// Deep is a type that nests deeply.
func (g *G) Deep(o TyOpt) *ref.Ty {
	g.Probe("deep-type")
	o.Ext = false
	t := g.Type(1, o)
	for i := []int{6, 12, 30, 60}[g.N(4)]; i > 0; i-- {
		switch g.Pick(4, 3, 2, 1) {
		case 0:
			t = &ref.Ty{K: ref.Struct, F: []ref.Field{{T: t}}}
			if t.F[0].T.K == ref.Variant {
				t.F[0].Mode, t.F[0].Val = ref.VariantField, true
			} else if t.F[0].T.K != ref.Ptr && t.F[0].T.K != ref.Opt && g.N(3) == 2 {
				t.F[0].Mode = ref.Optional
			}
			for k := g.N(3); k > 0; k-- {
				t.F = append(t.F, ref.Field{T: g.Leaf()})
			}
			for k := range t.F {
				t.F[k].Name = fname(k)
			}
		case 1:
			if t.K == ref.U8 || MinSize(t) == 0 || t.K == ref.Variant && !o.ABI {
				continue
			}
			t = &ref.Ty{K: ref.Slice, Elem: t}
		case 2:
			if t.K == ref.U8 || MinSize(t) == 0 || t.K == ref.Variant && !o.ABI {
				continue
			}
			t = &ref.Ty{K: ref.Array, N: 1, Elem: t}
		default:
			if t.K == ref.Ptr || t.K == ref.Opt || t.K == ref.Variant {
				continue
			}
			if o.ABI {
				t = &ref.Ty{K: ref.Opt, Elem: t}
			} else {
				t = &ref.Ty{K: ref.Ptr, Elem: t}
			}
		}
	}
	for t.K == ref.Ptr {
		t = t.Elem
	}
	return t
}

// Top is any supported type for a whole message.
func (g *G) Top(depth int, o TyOpt) *ref.Ty {
	if only != nil {
		return onlyTop(g)
	}
	switch g.N(64) {
	case 63:
		g.wide = 1
		defer func() { g.wide = 0 }()
	case 62:
		if !o.NoVariant {
			g.wide = 2
			defer func() { g.wide = 0 }()
			return g.StructTy(max(depth, 1), o)
		}
	case 61:
		return g.Deep(o)
	}
	t := g.Type(depth, o)
	if g.huge && g.N(2) == 1 {
		t = &ref.Ty{K: ref.Slice, Elem: &ref.Ty{K: []ref.Kind{ref.U16, ref.Bool, ref.I8, ref.VarU, ref.U32}[g.N(5)]}}
		if g.N(2) == 1 {
			t = &ref.Ty{K: ref.Struct, F: []ref.Field{{Name: "fa0", T: g.Leaf()}, {Name: "fb0", T: t}}}
		}
	}
	for t.K == ref.Ptr {
		t = t.Elem
	}
	return t
}

// elements of no size are left out: their number is not bounded by the bytes
func (g *G) elem(depth int, o TyOpt) *ref.Ty {
	e := g.Type(depth-1, o)
	if e.K == ref.U8 {
		return &ref.Ty{K: ref.U16}
	}
	if o.Zero && g.N(8) == 7 {
		if g.N(2) == 0 {
			return TyOf(reflect.TypeOf(Empty{}))
		}
		return &ref.Ty{K: ref.Array, N: 0, Elem: g.Leaf()}
	}
	if MinSize(e) == 0 {
		return g.Leaf8()
	}
	return e
}

func (g *G) Leaf8() *ref.Ty { return &ref.Ty{K: ref.U64} }

// MinSize is the size of the smallest encoding.
func MinSize(t *ref.Ty) int { return minSize(t, 0) }

func (g *G) minSize(t *ref.Ty) int {
	if g.min != nil {
		return g.min[t][0]
	}
	return MinSize(t)
}

func minSize(t *ref.Ty, d int) int {
	if d > 12 {
		return 1
	}
	switch t.K {
	case ref.Array:
		return t.N * minSize(t.Elem, d+1)
	case ref.Ptr:
		return minSize(t.Elem, d+1)
	case ref.Struct:
		n := 0
		for _, f := range t.F {
			switch f.Mode {
			case ref.Optional, ref.VariantField:
				n++
			case ref.Plain:
				n += minSize(f.T, d+1)
			}
		}
		return n
	}
	return max(1, ref.Fixed(t.K))
}

func (g *G) StructTy(depth int, o TyOpt) *ref.Ty {
	sub := o
	sub.Ext = false
	t := &ref.Ty{K: ref.Struct}
	n := g.Range(1, 5)
	if g.N(12) == 11 {
		n = g.N(20)
	}
	if g.wide == 1 {
		g.wide = 0
		n = wides[g.N(len(wides))]
		g.Probe("struct-of-many-fields")
		if n > 20 {
			depth = min(depth, 1)
		}
	}
	wideV := -1
	if g.wide == 2 {
		wideV = g.N(n + 1)
	}
	for i := 0; i < n; i++ {
		f := ref.Field{}
		if i == wideV {
			f.Mode, f.Val = ref.VariantField, g.N(2) == 0
			f.T = g.VariantTy(depth-1, sub)
			t.F = append(t.F, f)
			continue
		}
		switch g.Pick(10, 3, 1, 1) {
		case 0:
			f.T = g.Type(depth-1, sub)
		case 1:
			f.Mode = ref.Optional
			f.T = g.Type(depth-1, sub)
			for f.T.K == ref.Ptr || f.T.K == ref.Opt {
				f.T = f.T.Elem
			}
		case 2:
			f.Mode, f.Val = ref.Optional, true
			f.T = &ref.Ty{K: valKinds[g.N(len(valKinds))]}
			if !o.ValScalar && g.N(3) == 2 {
				f.T = g.Type(depth-1, sub)
				for f.T.K == ref.Ptr || f.T.K == ref.Opt {
					f.T = f.T.Elem
				}
			}
		case 3:
			if o.NoVariant {
				f.T = g.Leaf()
				break
			}
			f.Mode = ref.VariantField
			f.Val = g.N(2) == 0
			f.T = g.VariantTy(depth-1, sub)
		}
		t.F = append(t.F, f)
	}
	if o.Ext && g.N(3) == 2 {
		for i := g.Range(1, 3); i > 0; i-- {
			e := g.Type(depth-1, sub)
			for e.K == ref.Ptr {
				e = e.Elem
			}
			if MinSize(e) == 0 {
				e = g.Leaf8()
			}
			t.F = append(t.F, ref.Field{T: e, Mode: ref.Extension, Val: g.N(2) == 0})
		}
	}
	for i := range t.F {
		t.F[i].Name = fname(i)
	}
	return t
}

var valKinds = []ref.Kind{ref.U8, ref.U32, ref.Str, ref.U64, ref.Bool, ref.I32, ref.Name, ref.VarU, ref.I64, ref.CU64, ref.TPS}

// wides are numbers of fields, alternatives and elements around which formats change.
var wides = []int{33, 64, 65, 100, 127, 128, 129, 130, 200, 255, 256, 257, 258, 300, 520}

func fname(i int) string {
	if i >= 260 {
		return fmt.Sprintf("g%d", i)
	}
	return "f" + string(rune('a'+i%26)) + string(rune('0'+i/26))
}

func (g *G) VariantTy(depth int, o TyOpt) *ref.Ty {
	t := &ref.Ty{K: ref.Variant}
	n := g.Range(1, 5)
	if g.wide == 2 {
		g.wide = 0
		n = wides[g.N(len(wides))]
		g.Probe("variant-of-many-alternatives")
	}
	for i := n; i > 0; i-- {
		if n > 20 {
			depth = 1
		}
		e := g.Type(depth-1, o)
		for e.K == ref.Ptr {
			e = e.Elem
		}
		t.F = append(t.F, ref.Field{Name: fname(i), T: e})
	}
	return t
}

func hasVariant(t *ref.Ty, seen map[*ref.Ty]bool) bool {
	if t == nil || seen[t] {
		return false
	}
	seen[t] = true
	if t.K == ref.Variant || hasVariant(t.Elem, seen) {
		return true
	}
	for _, f := range t.F {
		if hasVariant(f.T, seen) {
			return true
		}
	}
	return false
}

func hasMap(t *ref.Ty, seen map[*ref.Ty]bool) bool {
	if t == nil || seen[t] {
		return false
	}
	seen[t] = true
	if t.K == ref.Map || hasMap(t.Elem, seen) {
		return true
	}
	for _, f := range t.F {
		if hasMap(f.T, seen) {
			return true
		}
	}
	return false
}

// hasOpt: the type exists in ABI definitions only.
func hasOpt(t *ref.Ty, seen map[*ref.Ty]bool) bool {
	if t == nil || seen[t] {
		return false
	}
	seen[t] = true
	if t.K == ref.Opt || hasOpt(t.Elem, seen) {
		return true
	}
	for _, f := range t.F {
		if hasOpt(f.T, seen) {
			return true
		}
	}
	return false
}

func hasExt(t *ref.Ty) bool {
	if t.K != ref.Struct {
		return false
	}
	for _, f := range t.F {
		if f.Mode == ref.Extension {
			return true
		}
	}
	return false
}

// Val is any value of the type. absentExt allows trailing extensions to be absent.
func (g *G) Val(t *ref.Ty, absentExt bool) *ref.Val { return g.val(t, 0, absentExt) }

func (g *G) val(t *ref.Ty, depth int, absentExt bool) *ref.Val {
	v := &ref.Val{}
	g.nodes++
	switch t.K {
	case ref.Bool:
		v.U = uint64(g.N(2))
	case ref.U8:
		v.U = g.U(8)
	case ref.U16:
		v.U = g.U(16)
	case ref.U32, ref.BlkNum, ref.TPS, ref.BTS, ref.NU32, ref.VarU:
		v.U = g.U(32)
	case ref.F32:
		v.U = g.U(32)
		if v.U&0x7f800000 == 0x7f800000 && v.U&0x7fffff != 0 {
			v.U |= 1 << 22 // quiet NaNs only: a signalling one may change in a register
		}
	case ref.I8:
		v.U = uint64(int64(int8(g.U(8))))
	case ref.I16:
		v.U = uint64(int64(int16(g.U(16))))
	case ref.I32, ref.NI32, ref.VarI:
		v.U = uint64(int64(int32(g.U(32))))
	case ref.Str:
		v.B = g.text()
	case ref.Raw, ref.Bytes, ref.Blob:
		v.B = g.Bytes(g.Len(1))
	case ref.Asset:
		v.U, v.Hi = g.U(64), g.symbol()
	case ref.ExtAsset:
		v.U, v.Hi, v.X = g.U(64), g.symbol(), g.U(64)
	case ref.Sym:
		v.U = g.symbol()
	case ref.U128, ref.I128:
		v.U, v.Hi = g.U(64), g.U(64)
	case ref.F128:
		v.B = g.Bytes(16)
	case ref.C160:
		v.B = g.Bytes(20)
	case ref.C256:
		v.B = g.Bytes(32)
	case ref.C512:
		v.B = g.Bytes(64)
	case ref.PubKey:
		v.U = uint64(g.N(3))
		if v.U < 2 {
			v.B = g.Bytes(33)
		} else {
			v.B = g.Bytes(34)
			n := g.Len(1)
			v.B = ref.PutVarU(v.B, uint64(n))
			v.B = append(v.B, g.Bytes(n)...)
		}
	case ref.Sig:
		v.U = uint64(g.N(3))
		v.B = g.Bytes(65)
		if v.U == 2 {
			for i := 0; i < 2; i++ {
				n := g.Len(1)
				v.B = ref.PutVarU(v.B, uint64(n))
				v.B = append(v.B, g.Bytes(n)...)
			}
		}
	case ref.Slice:
		sz := 4 * (1 + g.minSize(t.Elem))
		if g.huge && depth < 2 && hugeKinds[t.Elem.K] {
			sz, g.huge = 2, false
			g.Probe("huge-list")
		}
		n := 0
		if sz == 2 {
			n = []int{65535, 65536, 65537, 70000, 33000, 131072}[g.N(6)]
			if n*sz > g.budget {
				n = max(0, min(100, g.budget/sz))
			}
			g.budget -= n * sz
		} else {
			n = g.Len(sz)
		}
		if depth > 6 || g.min != nil && g.none(t.Elem, depth) {
			n = 0
		}
		if n > 16 && depth > 0 && t.Elem.K > ref.LeafEnd {
			n = 16
		}
		if n > 20 && g.min != nil && g.min[t.Elem][0] == 0 {
			n = 20
		}
		for i := 0; i < n; i++ {
			v.L = append(v.L, g.val(t.Elem, depth+1, false))
		}
	case ref.Array:
		for i := 0; i < t.N; i++ {
			v.L = append(v.L, g.val(t.Elem, depth+1, false))
		}
	case ref.Map:
		n := g.Len(8 * (1 + g.minSize(t.Elem)))
		if depth > 6 {
			n = 0
		}
		if n > 40 {
			n = 40
		}
		if n > 1 && t.Key.ID == "props.UArr" { // how such keys are ordered is not specified
			n = 1
		}
		type ent struct{ k, v *ref.Val }
		var es []ent
		seen := map[string]bool{}
		for i := 0; i < n; i++ {
			k := g.val(t.Key, depth+1, false)
			id := string(ref.Encode(t.Key, k).B)
			if seen[id] {
				continue
			}
			seen[id] = true
			es = append(es, ent{k, g.val(t.Elem, depth+1, false)})
		}
		sort.SliceStable(es, func(i, j int) bool { return KeyLess(t.Key.K, es[i].k, es[j].k) })
		for _, e := range es {
			v.L = append(v.L, e.k, e.v)
		}
	case ref.Struct:
		gone := false
		for _, f := range t.F {
			switch f.Mode {
			case ref.Optional:
				if g.N(3) == 0 || g.none(f.T, depth) {
					v.L = append(v.L, &ref.Val{Nil: true})
					continue
				}
			case ref.Extension:
				if absentExt && (gone || g.N(3) == 2) {
					gone = true
					v.L = append(v.L, &ref.Val{Gone: true})
					continue
				}
			}
			x := g.val(f.T, depth+1, false)
			if f.Mode == ref.Optional && f.Val && zeroVal(f.T, x) {
				x = &ref.Val{Nil: true}
			}
			v.L = append(v.L, x)
		}
	case ref.Ptr:
		v.L = []*ref.Val{g.val(t.Elem, depth+1, false)}
	case ref.Opt:
		if g.N(3) == 0 || g.none(t.Elem, depth) {
			v.Nil = true
		} else {
			v.L = []*ref.Val{g.val(t.Elem, depth+1, false)}
		}
	case ref.Variant:
		v.Tag = g.N(len(t.F))
		if g.min != nil && g.none(t.F[v.Tag].T, depth) {
			// the alternative that ends soonest
			for i, f := range t.F {
				if a, b := g.min[f.T], g.min[t.F[v.Tag].T]; a[1] < b[1] || a[1] == b[1] && a[0] < b[0] {
					v.Tag = i
				}
			}
		}
		v.L = []*ref.Val{g.val(t.F[v.Tag].T, depth+1, false)}
	default: // 64 bits
		v.U = g.U(64)
	}
	return v
}

// KeyLess is the ascending order of map keys.
func KeyLess(k ref.Kind, a, b *ref.Val) bool {
	switch k {
	case ref.Str:
		return bytes.Compare(a.B, b.B) < 0
	case ref.I8, ref.I16, ref.I32, ref.I64, ref.NI32, ref.NI64, ref.VarI, ref.TP:
		return int64(a.U) < int64(b.U)
	}
	return a.U < b.U
}

func (g *G) symbol() uint64 {
	if g.N(5) == 4 {
		return g.U(64)
	}
	s := uint64(g.N(19))
	for i, n := 1, g.Range(0, 7); i <= n; i++ {
		s |= uint64('A'+g.N(26)) << (8 * i)
	}
	return s
}

func (g *G) text() []byte {
	switch g.Pick(4, 3, 2, 2) {
	case 0:
		b := make([]byte, g.Len(1))
		for i := range b {
			b[i] = byte('a' + i%26)
		}
		return b
	case 1:
		s := []byte("hello wörld ☃ \U0001f600 \"quoted\" \\ \x00 end")
		return s[:g.N(len(s)+1)]
	case 2:
		if len(g.Dict.Strings) > 0 {
			return []byte(g.Dict.Strings[g.N(len(g.Dict.Strings))])
		}
		return nil
	default:
		return g.Bytes(g.Len(1))
	}
}

// Tweak is a value that differs from v in one leaf at most.
func (g *G) Tweak(t *ref.Ty, v *ref.Val) *ref.Val {
	c := *v
	if v.Gone || v.Nil && (t.K == ref.Opt || t.K == ref.Ptr) {
		return &c
	}
	at := func(i int, e *ref.Ty) {
		c.L = append([]*ref.Val(nil), v.L...)
		c.L[i] = g.Tweak(e, v.L[i])
	}
	switch t.K {
	case ref.Struct:
		var can []int
		for i, f := range t.F {
			if !v.L[i].Gone && !v.L[i].Nil && MinSize(f.T) > 0 {
				can = append(can, i)
			}
		}
		if len(can) == 0 {
			return &c
		}
		i := can[g.N(len(can))]
		if w := g.Tweak(t.F[i].T, v.L[i]); !(t.F[i].Mode == ref.Optional && t.F[i].Val && zeroVal(t.F[i].T, w)) {
			c.L = append([]*ref.Val(nil), v.L...)
			c.L[i] = w
		}
	case ref.Slice, ref.Array:
		if len(v.L) > 0 {
			at(g.N(len(v.L)), t.Elem)
		}
	case ref.Map:
		if len(v.L) > 1 {
			at(1+2*g.N(len(v.L)/2), t.Elem)
		}
	case ref.Ptr, ref.Opt:
		at(0, t.Elem)
	case ref.Variant:
		at(0, t.F[v.Tag].T)
	case ref.Str, ref.Raw, ref.Bytes, ref.Blob:
		if len(v.B) == 0 {
			return g.val(t, 0, false)
		}
		c.B = append([]byte(nil), v.B...)
		i := g.N(len(c.B))
		if t.K == ref.Str {
			c.B[i] = "abcXYZ"[g.N(6)]
			if !utf8.Valid(c.B) {
				return v
			}
		} else {
			c.B[i] ^= 1 << g.N(8)
		}
	default:
		return g.val(t, 0, false)
	}
	return &c
}

// zeroVal: an optional field held by value is absent with this value.
func zeroVal(t *ref.Ty, v *ref.Val) bool {
	switch t.K {
	case ref.PubKey, ref.Sig, ref.Ptr, ref.Opt, ref.Variant:
		return false
	case ref.Slice, ref.Map:
		return len(v.L) == 0
	case ref.Array:
		for _, x := range v.L {
			if !zeroVal(t.Elem, x) {
				return false
			}
		}
		return true
	case ref.Struct:
		for i, f := range t.F {
			if x := v.L[i]; !x.Nil && !x.Gone && (f.Mode != ref.Plain && !f.Val || !zeroVal(f.T, x)) {
				return false
			}
		}
		return true
	case ref.F32:
		return v.U&(1<<31-1) == 0 // negative zero counts as zero
	case ref.F64:
		return v.U<<1 == 0
	case ref.C160, ref.C256, ref.C512, ref.F128:
		for _, x := range v.B {
			if x != 0 {
				return false
			}
		}
		return true
	}
	return v.U == 0 && len(v.B) == 0 && v.Hi == 0 && v.X == 0
}

// zeroOpt: an optional field held by value is present with a value that stands for absence.
func zeroOpt(t *ref.Ty, v *ref.Val) bool {
	if v.Nil || v.Gone {
		return false
	}
	for i, x := range v.L {
		e := t.Elem
		switch t.K {
		case ref.Struct:
			e = t.F[i].T
			if t.F[i].Mode == ref.Optional && t.F[i].Val && !x.Nil && zeroVal(e, x) {
				return true
			}
		case ref.Variant:
			e = t.F[v.Tag].T
		case ref.Map:
			if i%2 == 0 {
				continue
			}
		}
		if zeroOpt(e, x) {
			return true
		}
	}
	return false
}

// Next is a message like an earlier one, now and then differing in one leaf only.
func (g *G) Next(m *Msg, absentExt bool) *Msg {
	if g.N(3) == 2 {
		v := g.Tweak(m.T, m.V)
		g.Probe("sibling")
		return &Msg{T: m.T, V: v, W: ref.Encode(m.T, v), B: m.B, Name: m.Name, Act: m.Act}
	}
	n := NewMsg(g, m.T, absentExt)
	n.B, n.Name, n.Act = m.B, m.Name, m.Act
	return n
}

// assign makes dst equal src in place: what dst points to stays where it is.
func assign(dst, src reflect.Value) {
	switch dst.Kind() {
	case reflect.Ptr:
		if dst.IsNil() || src.IsNil() {
			dst.Set(src)
			return
		}
		assign(dst.Elem(), src.Elem())
	case reflect.Slice:
		if dst.Len() != src.Len() {
			dst.Set(src)
			return
		}
		for i := 0; i < dst.Len(); i++ {
			assign(dst.Index(i), src.Index(i))
		}
	case reflect.Array:
		for i := 0; i < dst.Len(); i++ {
			assign(dst.Index(i), src.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < dst.NumField(); i++ {
			assign(dst.Field(i), src.Field(i))
		}
	case reflect.Map:
		if dst.IsNil() || src.IsNil() {
			dst.Set(src)
			return
		}
		var ks []reflect.Value
		for it := dst.MapRange(); it.Next(); {
			if !src.MapIndex(it.Key()).IsValid() {
				ks = append(ks, it.Key())
			}
		}
		for _, k := range ks {
			dst.SetMapIndex(k, reflect.Value{})
		}
		for it := src.MapRange(); it.Next(); {
			dst.SetMapIndex(it.Key(), it.Value())
		}
	default:
		dst.Set(src)
	}
}
