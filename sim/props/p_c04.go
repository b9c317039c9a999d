package props

import (
	"encoding"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/greymass/go-eosio/pkg/chain"

	"verifsim/core"
	"verifsim/hook"
	"verifsim/ref"
)

// What a decode may use: a constant and a multiple of the bytes delivered.
const (
	heapBase, heapPer = 4 << 20, 16384
	stepBase, stepPer = 4 << 20, 16384
)

func runC04(r *core.R) {
	g := NewG(r).Big()
	g.budget /= 2
	deep := r.N(300) == 299
	t := g.Top(g.Range(0, 3), TyOpt{Ext: true, Zero: true, ABI: g.N(6) == 5})
	if deep && only == nil {
		t = TyOf([]reflect.Type{reflect.TypeOf(Tree{}), reflect.TypeOf(List{})}[r.N(2)])
	}
	m := NewMsg(g, t, r.N(4) == 3).ABI(r)
	for i := r.Range(1, 6); i > 0; i-- {
		path := DecPath(r, t)
		var data []byte
		switch {
		case deep && only == nil:
			// a value nested as deep as the bytes allow
			r.Fault("deep-nesting")
			unit := []byte{7, 1}
			if t.F[1].Mode == ref.Optional {
				unit = []byte{7, 0, 1}
			} else if r.N(2) == 1 {
				unit = []byte{7, 0xff, 0xff, 3}
			}
			n := []int{100, 20000, 3000000}[r.N(3)]
			data = make([]byte, 0, n*len(unit))
			for j := 0; j < n; j++ {
				data = append(data, unit...)
			}
			i = 1
		case r.N(8) == 7:
			r.Fault("garbage")
			data = r.Bytes(r.N(200))
		default:
			data = damage(r, m.W.B, m.W)
		}
		def := m.B.Def
		name := m.Name
		damagedABI := (path == PABI || path == PAction) && r.N(3) == 2
		if damagedABI {
			def, name = damageABI(r, def, name)
			if r.N(2) == 1 {
				data = m.W.B
			}
			// few enough that the work allowed for them is within the limit of the run
			data = data[:min(len(data), 6000)]
		}
		m2 := &Msg{T: t, V: m.V, W: m.W, B: &ABIBuild{C: r, Def: def, names: m.B.names, alts: m.B.alts}, Name: name, Act: m.Act}
		rd := core.NewReader(r, data)
		if len(data) < 100000 && r.N(4) == 3 {
			rd.Frag = r.N(core.FragCount)
		}
		dec := NewDec(path, rd)
		what := fmt.Sprintf("decode of %s (%s) from %d bytes %x", t, pathNames[path], len(data), clipB(data))
		if damagedABI {
			what = fmt.Sprintf("decode of %q by the damaged definition %s from %d bytes %x", name, Clip(fmt.Sprintf("%+v", def)), len(data), clipB(data))
		}
		var got interface{}
		var err error
		steps := hook.Steps()
		var heap uint64
		r.Call(what, func() { heap = core.Heap(func() { got, err = m2.Decode(path, rd, dec) }) })
		steps = hook.Steps() - steps
		r.Evals++
		r.Ev("%s abi-damaged %v -> err %v took %d", what, damagedABI, err, rd.Pos)
		size := 0
		if damagedABI {
			size = expanded(&def, name, m2.Act, path)
		}
		if max := uint64(heapBase + 2048*size + heapPer*rd.Pos); heap > max {
			r.Fail("memory", "%s: allocated %d bytes, %d delivered", what, heap, rd.Pos)
		}
		if max := uint64(stepBase + 512*size + stepPer*rd.Pos); steps > max {
			r.Fail("work", "%s: %d statements for %d bytes delivered", what, steps, rd.Pos)
		}
		if damagedABI && r.N(4) == 3 {
			tree := m.B.Tree(t, m.V, true)
			w := core.NewWriter(r)
			r.Call("encode of "+name+" by the definition of the "+what, func() {
				if path == PAction {
					err = def.EncodeAction(w, m2.Act, tree)
				} else {
					err = def.Encode(w, name, tree)
				}
			})
			r.Probe("encode-by-damaged-abi")
			continue
		}
		if err != nil {
			r.Probe("rejected")
			continue
		}
		r.Probe("accepted")
		if deep && only == nil && !damagedABI {
			r.Fail("accepted-garbage", "%s: the value never ends, but the decode returned %s", what, Clip(fmt.Sprintf("%T", got)))
		}
		if damagedABI {
			r.Probe("accepted-damaged-abi")
			render(r, what, reflect.ValueOf(got), 0)
			m2.judgeDamaged(r, what, path, got, rd)
			continue
		}
		d := ref.Dec{B: data, Pairs: path == PABI || path == PAction}
		v, derr := d.Decode(t)
		switch {
		case derr == ref.ErrWork:
			continue
		case derr != nil:
			r.Fail("accepted-garbage", "%s: the bytes are no encoding of the type (%v) but the decode returned %s", what, derr, Clip(DumpI(got)))
		}
		if w := m2.WantVal(path, v); DumpI(got) != w {
			r.Fail("wrong-value", "%s: %s", what, Diff(DumpI(got), w))
		}
		if rd.Pos != d.Pos {
			r.Fail("wrong-length", "%s: took %d bytes, the value has %d", what, rd.Pos, d.Pos)
		}
		render(r, what, reflect.ValueOf(got), 0)
		stable(r, what, m2, path, got, v)
	}
	if r.N(16) == 15 {
		// nothing can be decoded into such a destination
		x := strangeDest(r)
		what := fmt.Sprintf("decode into %T", x)
		var err error
		r.Call(what, func() {
			err = NewDec([]int{PTyped, PCustom, PBare}[r.N(3)], core.NewReader(r, []byte{1, 1, 'a', 1, 1, 1, 1, 1})).Decode(x)
		})
		r.Evals++
		if err == nil {
			r.Fail("accepted-garbage", "%s: there is no such value, but no error is returned", what)
		}
	}
	r.Sample("%s, %d bytes %x", t, len(m.W.B), clipB(m.W.B))
}

// judgeDamaged compares what a damaged definition decoded with what that definition means, where it means anything.
func (m *Msg) judgeDamaged(r *core.R, what string, path int, got interface{}, rd *core.Reader) {
	name := m.Name
	if path == PAction {
		n := 0
		for _, a := range m.B.Def.Actions {
			if a.Name == m.Act {
				name = a.Type
				n++
			}
		}
		if n == 0 {
			r.Fail("accepted-garbage", "%s: there is no such action, but the decode returned %s", what, Clip(DumpI(got)))
		}
		if n > 1 {
			return
		}
	}
	res, tb := meaning(r, &m.B.Def, name)
	if res.Odd {
		r.Probe("damaged-definition-means-nothing")
		return
	}
	d := ref.Dec{B: rd.Data, Pairs: true}
	v, err := d.Decode(res.T)
	switch {
	case err == ref.ErrWork:
		return
	case err != nil:
		r.Fail("accepted-garbage", "%s: the bytes are no encoding of %q (%v) but the decode returned %s", what, name, err, Clip(DumpI(got)))
	}
	r.Evals++
	r.Probe("damaged-definition-judged")
	if w := DumpI(tb.Tree(res.T, v, true)); DumpI(got) != w {
		r.Fail("wrong-value", "%s: %s", what, Diff(DumpI(got), w))
	}
	if rd.Pos != d.Pos {
		r.Fail("wrong-length", "%s: took %d bytes, the value has %d", what, rd.Pos, d.Pos)
	}
}

// stable: a decoded value encodes to bytes that decode to the same value.
func stable(r *core.R, what string, m *Msg, path int, got interface{}, v *ref.Val) {
	abiWay := path == PABI || path == PAction
	if !abiWay && hasVariant(m.T, map[*ref.Ty]bool{}) || hasGone(v) || !abiWay && zeroOpt(m.T, v) {
		return
	}
	w := core.NewWriter(r)
	var err error
	r.Call("encode after "+what, func() {
		if abiWay {
			err = m.B.Def.Encode(w, m.Name, got)
		} else {
			err = chain.NewEncoder(w).Encode(got)
		}
	})
	if err != nil {
		r.Fail("not-encodable", "%s: the decoded value %s cannot be encoded: %v", what, Clip(DumpI(got)), err)
	}
	rd := core.NewReader(r, w.Acc)
	var again interface{}
	r.Call("decode again after "+what, func() { again, err = m.Decode(path, rd, NewDec(path, rd)) })
	if err != nil {
		r.Fail("not-stable", "%s: encoded again to %x, which is rejected: %v", what, clipB(w.Acc), err)
	}
	if a, b := DumpI(again), DumpI(got); a != b {
		r.Fail("not-stable", "%s: encoded and decoded again: %s", what, Diff(a, b))
	}
	if rd.Pos != len(w.Acc) {
		r.Fail("not-stable", "%s: encoded again to %d bytes of which %d are read", what, len(w.Acc), rd.Pos)
	}
	r.Evals++
}

func hasGone(v *ref.Val) bool {
	if v == nil {
		return false
	}
	if v.Gone {
		return true
	}
	for _, x := range v.L {
		if hasGone(x) {
			return true
		}
	}
	return false
}

// render writes every part of the value as text and the whole as JSON.
func render(r *core.R, what string, v reflect.Value, depth int) {
	if depth == 0 && v.IsValid() {
		r.Call("JSON form after "+what, func() { json.Marshal(v.Interface()) })
	}
	if !v.IsValid() || depth > 40 || !v.CanInterface() {
		return
	}
	x := v
	if x.Kind() != reflect.Ptr && x.Kind() != reflect.Interface {
		p := reflect.New(x.Type())
		p.Elem().Set(x)
		x = p
	}
	if x.Kind() == reflect.Ptr && !x.IsNil() {
		i := x.Interface()
		if s, ok := i.(fmt.Stringer); ok {
			r.Call("text form after "+what, func() { _ = s.String() })
		}
		if s, ok := i.(encoding.TextMarshaler); ok {
			r.Call("text form after "+what, func() { s.MarshalText() })
		}
		if s, ok := i.(json.Marshaler); ok {
			r.Call("JSON form after "+what, func() { s.MarshalJSON() })
		}
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			render(r, what, v.Elem(), depth+1)
		}
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		n := v.Len()
		if n > 50 {
			n = 50
		}
		for i := 0; i < n; i++ {
			render(r, what, v.Index(i), depth+1)
		}
	case reflect.Map:
		it := v.MapRange()
		for it.Next() {
			render(r, what, it.Key(), depth+1)
			render(r, what, it.Value(), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			render(r, what, v.Field(i), depth+1)
		}
	}
}

// slots are the places of type names in a definition.
func slots(def *chain.Abi) (s []*string) {
	for i := range def.Types {
		s = append(s, &def.Types[i].Type, &def.Types[i].NewTypeName)
	}
	for i := range def.Structs {
		s = append(s, &def.Structs[i].Base, &def.Structs[i].Name)
		for j := range def.Structs[i].Fields {
			s = append(s, &def.Structs[i].Fields[j].Type, &def.Structs[i].Fields[j].Name)
		}
	}
	for i := range def.Variants {
		s = append(s, &def.Variants[i].Name)
		for j := range def.Variants[i].Types {
			s = append(s, &def.Variants[i].Types[j])
		}
	}
	for i := range def.Actions {
		s = append(s, &def.Actions[i].Type)
	}
	return s
}

// expanded is how many parts a value of the named type has when no byte says otherwise: the size of the target. A
// damaged definition can nest a struct in each of hundreds of fields of another.
func expanded(def *chain.Abi, name string, act chain.Name, path int) int {
	const limit = 1 << 24
	if path == PAction {
		for _, a := range def.Actions {
			if a.Name == act {
				name = a.Type
			}
		}
	}
	structs := map[string]*chain.AbiStruct{}
	for i := range def.Structs {
		structs[def.Structs[i].Name] = &def.Structs[i]
	}
	alias := map[string]string{}
	for _, t := range def.Types {
		alias[t.NewTypeName] = t.Type
	}
	open, known, endless := map[string]bool{}, map[string]int{}, false
	var count func(name string) int
	count = func(name string) int {
		name = strings.TrimSuffix(name, "$")
		if a, ok := alias[name]; ok && !open[name] {
			open[name] = true
			n := count(a)
			delete(open, name)
			return n
		}
		s := structs[name]
		if s != nil && open[name] {
			endless = true
		}
		if s == nil || open[name] {
			return 1
		}
		if n, ok := known[name]; ok {
			return n
		}
		open[name] = true
		n := 1
		if s.Base != "" {
			n += count(s.Base)
		}
		for _, f := range s.Fields {
			n += count(f.Type)
			if n > limit {
				n = limit
				break
			}
		}
		delete(open, name)
		known[name] = n
		return n
	}
	n := count(strings.TrimRight(name, "[]?$"))
	if endless {
		// a struct within itself: followed until the nesting is too deep
		n *= 1000
	}
	return n
}

// CopyABI is a deep copy.
func CopyABI(a chain.Abi) chain.Abi {
	c := a
	c.Types = append([]chain.AbiType(nil), a.Types...)
	c.Structs = append([]chain.AbiStruct(nil), a.Structs...)
	for i := range c.Structs {
		c.Structs[i].Fields = append([]chain.AbiField(nil), a.Structs[i].Fields...)
	}
	c.Variants = append([]chain.AbiVariant(nil), a.Variants...)
	for i := range c.Variants {
		c.Variants[i].Types = append([]string(nil), a.Variants[i].Types...)
	}
	c.Actions = append([]chain.AbiAction(nil), a.Actions...)
	c.Tables = append([]chain.AbiTable(nil), a.Tables...)
	c.RicardianClauses = append([]chain.AbiClause(nil), a.RicardianClauses...)
	c.ErrorMessages = append([]chain.AbiErrorMessage(nil), a.ErrorMessages...)
	c.Extensions = append([]*chain.AbiExtension(nil), a.Extensions...)
	return c
}

var oddNames = []string{"", "?", "$", "[]", "[", "]", "a", "?$", "$?", "[]?", "[]$", "[]?$", "??", "$$", "[][]", "]?", "x[]", "x?", "x$", "uint8", "string", "name", "\x00", "é", "uint8[]", "uint8?", "uint8$"}
var suffixes = []string{"?", "$", "[]", "?$", "$?", "[]?", " "}

// damageABI corrupts a definition, and sometimes the name that is asked for.
func damageABI(r *core.R, def chain.Abi, name string) (chain.Abi, string) {
	if r.N(6) == 5 {
		// the binary form is damaged on its way
		w := core.NewWriter(r)
		var err error
		r.Call("encode of a definition", func() { err = chain.NewEncoder(w).Encode(def) })
		if err == nil {
			rd := core.NewReader(r, damage(r, w.Acc, nil))
			var d chain.Abi
			var heap uint64
			r.Call("decode of a damaged definition", func() { heap = core.Heap(func() { err = chain.NewDecoder(rd).Decode(&d) }) })
			if max := uint64(heapBase + heapPer*rd.Pos); heap > max {
				r.Fail("memory", "decode of a damaged definition: allocated %d bytes, %d delivered: %x", heap, rd.Pos, clipB(rd.Data))
			}
			if err == nil {
				r.Fault("definition-damaged-in-transit")
				return d, name
			}
		}
	}
	def = CopyABI(def)
	for i := r.Range(1, 3); i > 0; i-- {
		s := slots(&def)
		if len(s) == 0 {
			break
		}
		p := s[r.N(len(s))]
		switch r.N(8) {
		case 0, 1:
			r.Fault("definition-name-replaced")
			*p = *s[r.N(len(s))]
		case 2:
			r.Fault("definition-name-odd")
			*p = oddNames[r.N(len(oddNames))]
		case 3:
			r.Fault("definition-name-suffix")
			*p += suffixes[r.N(len(suffixes))]
		case 4:
			r.Fault("definition-name-cut")
			if len(*p) > 0 {
				*p = (*p)[:len(*p)-1]
			}
		case 5:
			r.Fault("definition-part-lost")
			if n := len(def.Structs); n > 0 && r.N(2) == 0 {
				k := r.N(n)
				def.Structs = append(def.Structs[:k:k], def.Structs[k+1:]...)
			} else if n := len(def.Types); n > 0 {
				k := r.N(n)
				def.Types = append(def.Types[:k:k], def.Types[k+1:]...)
			}
		case 6:
			r.Fault("definition-cycle")
			// a type that contains itself
			switch k := r.N(3); {
			case k == 0 && len(def.Structs) > 0:
				st := &def.Structs[r.N(len(def.Structs))]
				st.Fields = append(st.Fields, chain.AbiField{Name: "self", Type: st.Name + suffixes[r.N(len(suffixes))][:r.N(2)]})
			case k == 1 && len(def.Structs) > 0:
				def.Structs[r.N(len(def.Structs))].Base = def.Structs[r.N(len(def.Structs))].Name
			default:
				def.Types = append(def.Types, chain.AbiType{NewTypeName: "c1", Type: "c2"}, chain.AbiType{NewTypeName: "c2", Type: "c1" + []string{"", "[]", "?"}[r.N(3)]})
				*p = "c1"
			}
		case 7:
			r.Fault("definition-empty-variant")
			def.Variants = append(def.Variants, chain.AbiVariant{Name: "ev"})
			*p = "ev"
		}
	}
	if r.N(6) == 5 {
		name = oddNames[r.N(len(oddNames))]
	} else if s := slots(&def); len(s) > 0 && r.N(3) == 2 {
		name = *s[r.N(len(s))]
	}
	return def, name
}
