package props

import (
	"fmt"
	"reflect"

	"github.com/greymass/go-eosio/pkg/chain"

	"verifsim/core"
	"verifsim/ref"
)

// GenType is a struct type with generated methods, and the same type without methods.
type GenType struct{ Gen, Plain interface{} }
type GenReg []GenType

var genTys, plainTys []*ref.Ty
var noMethods []string // generated types that lack a method

// RegisterGen makes types known to C12.
func RegisterGen(rs GenReg) {
	for _, x := range rs {
		t := reflect.TypeOf(x.Gen)
		if p := reflect.PtrTo(t); !p.Implements(marshaler) {
			noMethods = append(noMethods, t.Name()+" has no MarshalABI")
		} else if !p.Implements(unmarshaler) {
			noMethods = append(noMethods, t.Name()+" has no UnmarshalABI")
		}
		genTys = append(genTys, TyOf(t))
		plainTys = append(plainTys, TyOf(reflect.TypeOf(x.Plain)))
	}
}

// only, when set, are the types that messages consist of.
var only []*ref.Ty

func onlyTop(g *G) *ref.Ty {
	t := only[g.N(len(only))]
	switch g.Pick(8, 1, 1, 1, 1) {
	case 1:
		if MinSize(t) > 0 {
			return &ref.Ty{K: ref.Slice, Elem: t}
		}
	case 2:
		return &ref.Ty{K: ref.Array, N: g.N(3), Elem: t}
	case 3:
		return &ref.Ty{K: ref.Struct, F: []ref.Field{{Name: "fa0", T: &ref.Ty{K: ref.U8}}, {Name: "fb0", T: t, Mode: ref.Optional}, {Name: "fc0", T: &ref.Ty{K: ref.Ptr, Elem: t}}}}
	case 4:
		return &ref.Ty{K: ref.Map, Key: &ref.Ty{K: ref.Str}, Elem: t}
	}
	return t
}

func runC12Gen(r *core.R) {
	if len(noMethods) > 0 {
		r.Fail("no-method", "the generator gives no method: %s", noMethods[0])
	}
	runC12(r, genTys)
}
func runC12Plain(r *core.R) { runC12(r, plainTys) }

func runC12(r *core.R, tys []*ref.Ty) {
	if len(tys) == 0 {
		panic("props: no generated types in this build")
	}
	only = tys
	defer func() { only = nil }()
	switch r.Pick(4, 4, 4, 4, 3, 1) {
	case 0:
		runC01(r)
	case 1:
		runC02(r)
	case 2:
		runC03(r)
	case 3:
		runC04(r)
	case 4:
		runC06(r)
	default:
		nilPointers(r, tys)
	}
}

// nilPointers: a plain pointer that is nil cannot be encoded.
func nilPointers(r *core.R, tys []*ref.Ty) {
	g := NewG(r)
	t := tys[g.N(len(tys))]
	x := ToGo(t, g.Val(t, false))
	n := 0
	for i, f := range t.F {
		if f.T.K == ref.Ptr && r.N(2) == 1 {
			x.Field(i).Set(reflect.Zero(x.Field(i).Type()))
			n++
		}
	}
	if n == 0 {
		return
	}
	r.Fault("nil-pointer")
	w := core.NewWriter(r)
	var err error
	r.Call("encode of "+t.String(), func() { err = chain.NewEncoder(w).Encode(x.Interface()) })
	r.Ev("%s with %d nil pointers: %v", t, n, err)
	r.Evals++
	if err == nil {
		r.Fail("nil-encoded", "%s: %s", t, fmt.Sprintf("a value with %d nil pointers that are not optional is encoded as %x", n, clipB(w.Acc)))
	}
}
