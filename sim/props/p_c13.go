package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"

	"github.com/greymass/go-eosio/pkg/chain"

	"verifsim/core"
	"verifsim/ref"
)

// refDef is the definition as the reference sees it.
func refDef(a *chain.Abi) *ref.Def {
	d := &ref.Def{}
	for _, t := range a.Types {
		d.Aliases = append(d.Aliases, ref.Alias{Name: t.NewTypeName, Type: t.Type})
	}
	for _, s := range a.Structs {
		x := ref.StructDef{Name: s.Name, Base: s.Base}
		for _, f := range s.Fields {
			x.Fields = append(x.Fields, ref.FieldDef{Name: f.Name, Type: f.Type})
		}
		d.Structs = append(d.Structs, x)
	}
	for _, v := range a.Variants {
		d.Variants = append(d.Variants, ref.VariantDef{Name: v.Name, Types: append([]string(nil), v.Types...)})
	}
	return d
}

// meaning is what a name stands for in a definition, with the builder of its trees.
func meaning(r *core.R, a *chain.Abi, name string) (*ref.Resolved, *ABIBuild) {
	m := refDef(a).Resolve(name)
	return m, &ABIBuild{C: r, alts: m.Alts}
}

// contract is a definition that a program holds.
type contract struct {
	live *chain.Abi
	gone []string // names it had
}

// names that can be asked for in a definition.
func askable(a *chain.Abi) (s []string) {
	for _, x := range a.Structs {
		s = append(s, x.Name)
	}
	for _, x := range a.Types {
		s = append(s, x.NewTypeName)
	}
	for _, x := range a.Variants {
		s = append(s, x.Name)
	}
	return s
}

// isName: the text is the text of a name.
func isName(s string) bool {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= '1' && c <= '5') {
			return false
		}
	}
	return len(s) > 0 && len(s) <= 12
}

var leafNames = []string{"uint8", "string", "uint32", "name", "bool", "asset", "uint64", "varuint32", "varint32", "int8", "int64", "bytes", "public_key", "checksum256", "symbol", "time_point_sec", "float64", "int128", "extended_asset", "eosio::name", "uint16", "signature", "block_timestamp_type"}

func newContract(r *core.R, g *G, same bool) *contract {
	var ts []*ref.Ty
	for i := r.Range(1, 3); i > 0; i-- {
		ts = append(ts, g.Top(g.Range(1, 3), TyOpt{Ext: true, ABI: r.N(2) == 1}))
	}
	s := &side{b: NewABIBuild(r, ""), name: map[*ref.Ty]string{}, act: map[*ref.Ty]chain.Name{}}
	s.b.Same = same
	for i, t := range ts {
		if s.name[t] == "" {
			s.name[t] = s.b.Name(t)
			s.b.Def.Actions = append(s.b.Def.Actions, chain.AbiAction{Name: chain.N("act" + string(rune('a'+i))), Type: s.name[t]})
		}
	}
	// an action may have the name of a type that is not its own
	if n := askable(&s.b.Def); len(n) > 0 {
		for i := r.N(3); i > 0; i-- {
			if a := n[r.N(len(n))]; isName(a) && s.b.Def.GetAction(chain.N(a)) == nil {
				t := leafNames[r.N(len(leafNames))]
				switch r.N(4) {
				case 0:
					t = n[r.N(len(n))]
				case 1:
					t = n[r.N(len(n))] + "[]"
				case 2:
					t += "?"
				}
				s.b.Def.Actions = append(s.b.Def.Actions, chain.AbiAction{Name: chain.N(a), Type: t})
			}
		}
	}
	d := CopyABI(s.b.Def)
	if r.N(3) == 2 {
		d.Tables = append(d.Tables, chain.AbiTable{Name: chain.N("tbl"), IndexType: "i64", Type: s.name[ts[0]]})
		for i := r.N(4); i > 0; i-- {
			d.Tables = append(d.Tables, chain.AbiTable{Name: chain.N("tbl" + string(rune('a'+i))), IndexType: "i64", KeyNames: []string{"k"}, KeyTypes: []string{"uint64"}, Type: s.name[ts[0]]})
		}
	}
	return &contract{live: &d}
}

// edit changes a definition in place, as an upgrade might.
func edit(r *core.R, c *contract) string {
	d := c.live
	r.Fault("definition-edited")
	target := func() string {
		n := askable(d)
		t := ""
		if len(n) > 0 && r.N(2) == 0 {
			t = n[r.N(len(n))]
		} else {
			t = leafNames[r.N(len(leafNames))]
		}
		switch r.N(6) {
		case 4:
			t += "[]"
		case 5:
			t += "?"
		}
		return t
	}
	for try := 0; try < 8; try++ {
		switch r.N(11) {
		case 0, 1:
			if n := len(d.Structs); n > 0 {
				s := &d.Structs[r.N(n)]
				if k := len(s.Fields); k > 0 {
					f := &s.Fields[r.N(k)]
					old := f.Type
					f.Type = target()
					return fmt.Sprintf("field %s.%s: %s becomes %s", s.Name, f.Name, old, f.Type)
				}
			}
		case 2:
			if n := len(d.Types); n > 0 {
				t := &d.Types[r.N(n)]
				old := t.Type
				t.Type = target()
				return fmt.Sprintf("alias %s: %s becomes %s", t.NewTypeName, old, t.Type)
			}
		case 3:
			if n := len(d.Variants); n > 0 {
				v := &d.Variants[r.N(n)]
				if k := len(v.Types); k > 1 {
					i, j := r.N(k), r.N(k)
					v.Types[i], v.Types[j] = v.Types[j], v.Types[i]
					return fmt.Sprintf("variant %s reordered", v.Name)
				}
				v.Types = append(v.Types, target())
				return fmt.Sprintf("variant %s gets %s", v.Name, v.Types[len(v.Types)-1])
			}
		case 4:
			if n := len(d.Structs); n > 0 {
				s := &d.Structs[r.N(n)]
				s.Fields = append(s.Fields, chain.AbiField{Name: fmt.Sprintf("new%d", len(s.Fields)), Type: target() + []string{"", "$"}[r.N(2)]})
				return fmt.Sprintf("struct %s gets field of type %s", s.Name, s.Fields[len(s.Fields)-1].Type)
			}
		case 5:
			if n := len(d.Structs); n > 0 {
				s := &d.Structs[r.N(n)]
				if k := len(s.Fields); k > 1 {
					i, j := r.N(k), r.N(k)
					s.Fields[i], s.Fields[j] = s.Fields[j], s.Fields[i]
					return fmt.Sprintf("struct %s: fields reordered", s.Name)
				}
				if len(s.Fields) == 1 {
					s.Fields = s.Fields[:0]
					return fmt.Sprintf("struct %s: field removed", s.Name)
				}
			}
		case 6:
			// another base
			if n := len(d.Structs); n > 0 {
				s := &d.Structs[r.N(n)]
				old := s.Base
				switch r.N(4) {
				case 0:
					s.Base = ""
				case 1:
					// through an alias
					if s.Base != "" {
						d.Types = append(d.Types, chain.AbiType{NewTypeName: fmt.Sprintf("ba%d", len(d.Types)), Type: s.Base})
						s.Base = d.Types[len(d.Types)-1].NewTypeName
					}
				default:
					// a struct with names of its own
					b := chain.AbiStruct{Name: fmt.Sprintf("nb%d", len(d.Structs))}
					for i := r.N(3); i > 0; i-- {
						b.Fields = append(b.Fields, chain.AbiField{Name: fmt.Sprintf("%s%d", b.Name, i), Type: target()})
					}
					if r.N(2) == 1 {
						b.Base = old
					}
					d.Structs = append(d.Structs, b)
					s = &d.Structs[indexOf(d, s.Name)]
					s.Base = b.Name
				}
				return fmt.Sprintf("base of %s: %q becomes %q", s.Name, old, s.Base)
			}
		case 7:
			// exchange two definitions
			if n := len(d.Structs); n > 1 {
				i, j := r.N(n), r.N(n)
				a, b := &d.Structs[i], &d.Structs[j]
				a.Fields, b.Fields = b.Fields, a.Fields
				return fmt.Sprintf("structs %s and %s exchange their fields", a.Name, b.Name)
			}
		case 8:
			if n := len(d.Actions); n > 0 {
				a := &d.Actions[r.N(n)]
				a.Type = target()
				return fmt.Sprintf("action %v becomes %s", a.Name, a.Type)
			}
		case 9:
			// something is removed
			if n := len(d.Structs); n > 1 && r.N(2) == 0 {
				k := r.N(n)
				c.gone = append(c.gone, d.Structs[k].Name)
				name := d.Structs[k].Name
				d.Structs = append(d.Structs[:k], d.Structs[k+1:]...)
				return "struct " + name + " removed"
			} else if n := len(d.Types); n > 0 {
				k := r.N(n)
				c.gone = append(c.gone, d.Types[k].NewTypeName)
				name := d.Types[k].NewTypeName
				d.Types = append(d.Types[:k], d.Types[k+1:]...)
				return "alias " + name + " removed"
			}
		case 10:
			// one name changes its nature
			if n := len(d.Types); n > 0 {
				k := r.N(n)
				name := d.Types[k].NewTypeName
				d.Types = append(d.Types[:k], d.Types[k+1:]...)
				if r.N(2) == 0 {
					d.Structs = append(d.Structs, chain.AbiStruct{Name: name, Fields: []chain.AbiField{{Name: "was", Type: target()}}})
				} else {
					d.Variants = append(d.Variants, chain.AbiVariant{Name: name, Types: []string{leafNames[r.N(len(leafNames))], "uint8[]"}})
				}
				return "alias " + name + " becomes a struct or variant"
			}
		}
	}
	return "nothing"
}

func indexOf(d *chain.Abi, name string) int {
	for i := range d.Structs {
		if d.Structs[i].Name == name {
			return i
		}
	}
	return 0
}

// install replaces the definition that c holds.
func install(r *core.R, c *contract, d chain.Abi) string {
	c.gone = append(c.gone, askable(c.live)...)
	switch r.N(5) {
	case 0:
		x := CopyABI(d)
		c.live = &x
		return "another variable"
	case 1:
		*c.live = CopyABI(d)
		return "the same variable"
	case 2:
		// the same variable and the same memory
		x := CopyABI(d)
		c.live.Types = append(c.live.Types[:0], x.Types...)
		c.live.Structs = append(c.live.Structs[:0], x.Structs...)
		c.live.Variants = append(c.live.Variants[:0], x.Variants...)
		c.live.Actions = append(c.live.Actions[:0], x.Actions...)
		c.live.Tables = append(c.live.Tables[:0], x.Tables...)
		return "the same memory"
	case 3:
		return transfer(r, c, d, false)
	default:
		return transfer(r, c, d, true)
	}
}

// transfer sends a definition over a link that may fail; the receiver keeps what it has if it does.
func transfer(r *core.R, c *contract, d chain.Abi, js bool) string {
	want := DumpI(d)
	var dst *chain.Abi
	if r.N(2) == 1 && !js {
		// into a copy of what it had
		x := CopyABI(*c.live)
		dst = &x
	} else {
		dst = new(chain.Abi)
	}
	if js {
		var b []byte
		var err error
		r.Call("JSON of a definition", func() { b, err = json.Marshal(d) })
		if err != nil {
			r.Fail("definition-lost", "a definition has no JSON form: %v", err)
		}
		cut := len(b)
		if r.N(4) == 3 {
			cut = r.N(len(b))
			r.Fault("definition-cut")
		}
		r.Call("definition from JSON", func() { err = json.Unmarshal(b[:cut], dst) })
		r.Evals++
		if cut < len(b) {
			if err == nil {
				r.Fail("definition-lost", "a cut JSON definition is accepted")
			}
			return "JSON, lost"
		}
		if err != nil || DumpI(*dst) != want {
			r.Fail("definition-lost", "a definition sent as JSON arrives changed (%v): %s", err, Diff(DumpI(*dst), want))
		}
		c.live = dst
		return "received as JSON"
	}
	w := core.NewWriter(r)
	var err error
	r.Call("encode of a definition", func() { err = chain.NewEncoder(w).Encode(d) })
	if err != nil {
		r.Fail("definition-lost", "a definition has no binary form: %v", err)
	}
	rd := core.NewReader(r, w.Acc)
	rd.Frag = r.N(core.FragCount)
	cut := -1
	if r.N(4) == 3 {
		rd.FailAt, rd.Err, rd.Sticky = r.N(len(w.Acc)), &core.IOErr{What: "connection reset"}, true
		cut = rd.FailAt
	}
	r.Call("decode of a definition", func() { err = chain.NewDecoder(rd).Decode(dst) })
	r.Evals++
	if cut >= 0 {
		if err == nil {
			r.Fail("definition-lost", "a definition cut at %d of %d is accepted", cut, len(w.Acc))
		}
		return "binary, lost"
	}
	if err != nil || DumpI(*dst) != want {
		r.Fail("definition-lost", "a definition sent in binary arrives changed (%v): %s", err, Diff(DumpI(*dst), want))
	}
	c.live = dst
	return "received in binary"
}

// nest makes another call whenever the stream is used.
type nest struct {
	r io.Reader
	w io.Writer
	f func()
	n int
}

func (x *nest) Read(p []byte) (int, error) {
	if x.n > 0 {
		x.n--
		x.f()
	}
	return x.r.Read(p)
}
func (x *nest) Write(p []byte) (int, error) {
	if x.n > 0 {
		x.n--
		x.f()
	}
	return x.w.Write(p)
}

func runC13(r *core.R) {
	g := NewG(r)
	g.budget = 3000
	same := r.N(2) == 1
	var cs []*contract
	for i := r.Range(1, 3); i > 0; i-- {
		cs = append(cs, newContract(r, g, same))
	}
	r.Ev("%d definitions", len(cs))
	steps := r.Range(2, 10)
	for i := 0; i < steps; i++ {
		c := cs[r.N(len(cs))]
		switch r.Pick(6, 3, 1) {
		case 0:
			callABI(r, g, cs, c, 0)
		case 1:
			r.Ev("edit: %s", edit(r, c))
			callABI(r, g, cs, c, 0)
		case 2:
			var d chain.Abi
			if r.N(3) == 2 {
				d = CopyABI(*cs[r.N(len(cs))].live) // another contract's
			} else {
				d = *newContract(r, g, same).live
			}
			if r.N(2) == 1 {
				// an upgrade of its own
				x := CopyABI(*c.live)
				n := &contract{live: &x}
				r.Ev("edit: %s", edit(r, n))
				d = x
			}
			r.Ev("installed: %s", install(r, c, d))
			callABI(r, g, cs, c, 0)
		}
	}
	r.Sample("%d definitions, %d steps, one of them with %d structs, %d aliases, %d variants", len(cs), steps, len(cs[0].live.Structs), len(cs[0].live.Types), len(cs[0].live.Variants))
}

// lookups asks a definition for its parts.
func lookups(r *core.R, cs []*contract, c *contract) {
	def := c.live
	from := cs[r.N(len(cs))]
	names := append(append([]string{"nosuch", ""}, c.gone...), askable(from.live)...)
	own := askable(def)
	name := ""
	if k := r.N(len(names) + len(own)); k < len(names) {
		name = names[k]
	} else {
		name = own[k-len(names)]
	}
	acct := chain.N("nosuch")
	var accts []chain.Name
	for _, a := range def.Actions {
		accts = append(accts, a.Name)
	}
	for _, a := range def.Tables {
		accts = append(accts, a.Name)
	}
	for _, a := range from.live.Tables {
		accts = append(accts, a.Name)
	}
	if k := r.N(len(accts) + 1); k < len(accts) {
		acct = accts[k]
	}
	check := func(what string, got interface{}, none bool, all []interface{}) {
		r.Evals++
		d := DumpI(got)
		for _, x := range all {
			if !none && DumpI(x) == d {
				return
			}
		}
		if len(all) > 0 {
			r.Fail("wrong-part", "%s of the definition is %s, not %s", what, d, DumpI(all))
		}
		if !none {
			r.Fail("wrong-part", "%s is not in the definition, but found as %s", what, d)
		}
	}
	var all []interface{}
	switch r.N(5) {
	case 0:
		var x *chain.AbiTable
		r.Call("table", func() { x = def.GetTable(acct) })
		for _, y := range def.Tables {
			if y.Name == acct {
				all = append(all, y)
			}
		}
		none := x == nil
		if none {
			x = &chain.AbiTable{}
		}
		check(fmt.Sprintf("table %v", acct), *x, none, all)
	case 1:
		var x *chain.AbiAction
		r.Call("action", func() { x = def.GetAction(acct) })
		for _, y := range def.Actions {
			if y.Name == acct {
				all = append(all, y)
			}
		}
		none := x == nil
		if none {
			x = &chain.AbiAction{}
		}
		check(fmt.Sprintf("action %v", acct), *x, none, all)
	case 2:
		var x *chain.AbiStruct
		r.Call("struct", func() { x = def.GetStruct(name) })
		for _, y := range def.Structs {
			if y.Name == name {
				all = append(all, y)
			}
		}
		none := x == nil
		if none {
			x = &chain.AbiStruct{}
		}
		check("struct "+name, *x, none, all)
	case 3:
		var x *chain.AbiType
		r.Call("alias", func() { x = def.GetType(name) })
		for _, y := range def.Types {
			if y.NewTypeName == name {
				all = append(all, y)
			}
		}
		none := x == nil
		if none {
			x = &chain.AbiType{}
		}
		check("alias "+name, *x, none, all)
	default:
		var x *chain.AbiVariant
		r.Call("variant", func() { x = def.GetVariant(name) })
		for _, y := range def.Variants {
			if y.Name == name {
				all = append(all, y)
			}
		}
		none := x == nil
		if none {
			x = &chain.AbiVariant{}
		}
		check("variant "+name, *x, none, all)
	}
}

func callABI(r *core.R, g *G, cs []*contract, c *contract, depth int) {
	def := c.live
	if r.N(6) == 5 {
		lookups(r, cs, c)
	}
	ns := askable(def)
	act := -1
	name := leafNames[r.N(len(leafNames))]
	if len(def.Actions) > 0 && r.N(3) > 0 {
		act = r.N(len(def.Actions))
		name = def.Actions[act].Type
	} else if len(ns) > 0 && r.N(8) > 0 {
		name = ns[r.N(len(ns))]
		switch r.N(6) {
		case 4:
			name += "[]"
		case 5:
			name += "?"
		}
	}
	if r.N(8) == 7 {
		// a name from elsewhere
		act = -1
		from := cs[r.N(len(cs))]
		n := append(append([]string{"nosuch", "Uint8", "struct"}, from.gone...), askable(from.live)...)
		name = n[r.N(len(n))]
	}
	m, tb := meaning(r, def, name)
	if m.Odd {
		r.Probe("odd-definition")
		r.Call(fmt.Sprintf("decode of %q", name), func() { def.Decode(bytes.NewReader(r.Bytes(40)), name) })
		return
	}
	what := fmt.Sprintf("%q", name)
	if act >= 0 {
		what = fmt.Sprintf("action %v, %q", def.Actions[act].Name, name)
	}
	keep := DumpI(*def)
	decode := func(rd io.Reader) (x interface{}, err error) {
		r.Call("decode of "+what, func() {
			if act < 0 {
				x, err = def.Decode(rd, name)
			} else {
				x, err = def.DecodeAction(rd, def.Actions[act].Name)
			}
		})
		return
	}
	encode := func(w io.Writer, x interface{}) (err error) {
		r.Call("encode of "+what, func() {
			if act < 0 {
				err = def.Encode(w, name, x)
			} else {
				err = def.EncodeAction(w, def.Actions[act].Name, x)
			}
		})
		return
	}
	defer func() {
		if now := DumpI(*def); now != keep {
			r.Fail("definition-changed", "%s: the call changed the definition: %s", what, Diff(now, keep))
		}
	}()
	if !g.Fit(m.T) {
		// no value: every message is an error
		r.Probe("no-value")
		data := r.Bytes(r.N(60))
		if m.T.K == ref.Unknown {
			x, err := decode(bytes.NewReader(data))
			r.Evals++
			r.Ev("unknown %s -> %v", what, err)
			if err == nil {
				r.Fail("unknown-accepted", "%s is not defined but decodes to %s", what, Clip(DumpI(x)))
			}
			w := core.NewWriter(r)
			err = encode(w, []interface{}{nil, map[string]interface{}{}, uint8(1), "x"}[r.N(4)])
			if err == nil {
				r.Fail("unknown-accepted", "%s is not defined but encodes to %x", what, w.Acc)
			}
			if act >= 0 && m.T.K == ref.Unknown {
				return
			}
			no := chain.N("nosuchaction")
			r.Call("unknown action", func() { x, err = def.DecodeAction(bytes.NewReader(data), no) })
			if err == nil {
				r.Fail("unknown-accepted", "an unknown action decodes to %s", Clip(DumpI(x)))
			}
			r.Call("unknown action", func() { err = def.EncodeAction(w, no, map[string]interface{}{}) })
			if err == nil {
				r.Fail("unknown-accepted", "an unknown action encodes")
			}
		} else {
			decode(bytes.NewReader(data))
		}
		return
	}
	g.budget = 1500
	v := g.Val(m.T, r.N(3) == 2)
	e := ref.Encode(m.T, v)
	tree := DumpI(tb.Tree(m.T, v, true))
	rd := core.NewReader(r, e.B)
	rd.Frag = r.N(core.FragCount)
	var in io.Reader = rd
	var inner func()
	if depth < 2 && r.N(5) == 4 {
		r.Fault("call-within-a-call")
		o := cs[r.N(len(cs))]
		inner = func() {
			save := *g
			callABI(r, g, cs, o, depth+1)
			*g = save
		}
		in = &nest{r: rd, f: inner, n: 1}
	}
	switch r.N(6) {
	case 5:
		// first a failing call
		f := core.NewReader(r, e.B)
		if len(e.B) > 0 {
			f.FailAt, f.Err = r.N(len(e.B)), &core.IOErr{What: "connection reset"}
			x, err := decode(f)
			r.Evals++
			if err == nil {
				r.Fail("accepted-cut", "%s: cut at %d of %d accepted as %s", what, f.FailAt, len(e.B), Clip(DumpI(x)))
			}
		}
	case 4:
		// damaged bytes
		data := damage(r, e.B, e)
		x, err := decode(bytes.NewReader(data))
		r.Evals++
		d := ref.Dec{B: data, Pairs: true}
		dv, derr := d.Decode(m.T)
		switch {
		case err != nil || derr == ref.ErrWork:
		case derr != nil:
			r.Fail("accepted-garbage", "%s: %x is no message (%v) but decodes to %s", what, clipB(data), derr, Clip(DumpI(x)))
		default:
			if want := DumpI(tb.Tree(m.T, dv, true)); DumpI(x) != want {
				r.Fail("wrong-value", "%s from %x: %s", what, clipB(data), Diff(DumpI(x), want))
			}
		}
	}
	x, err := decode(in)
	r.Evals++
	r.Ev("decode %s %x -> %v", what, clipB(e.B), err)
	if err != nil {
		r.Fail("rejected", "%s (%s) from %x: %v; definition %s", what, m.T, clipB(e.B), err, Clip(fmt.Sprintf("%+v", *def)))
	}
	if got := DumpI(x); got != tree {
		r.Fail("wrong-value", "%s (%s) from %x: %s; definition %s", what, m.T, clipB(e.B), Diff(got, tree), Clip(fmt.Sprintf("%+v", *def)))
	}
	if rd.Pos != len(e.B) {
		r.Fail("wrong-length", "%s (%s): took %d bytes of %d", what, m.T, rd.Pos, len(e.B))
	}
	if act >= 0 && r.N(3) == 2 {
		var mm map[string]interface{}
		r.Call("Action.Decode", func() {
			mm, err = chain.Action{Name: def.Actions[act].Name, Data: e.B}.Decode(def)
		})
		r.Evals++
		if _, ok := x.(map[string]interface{}); ok && (err != nil || DumpI(interface{}(mm)) != tree) {
			r.Fail("wrong-value", "Action.Decode %s: %v %s", what, err, Diff(DumpI(mm), tree))
		} else if !ok && err == nil {
			r.Fail("wrong-value", "Action.Decode %s returns %s for %s", what, DumpI(mm), tree)
		}
	}
	if hasGone(v) || m.DecodeOnly {
		return
	}
	w := core.NewWriter(r)
	var out io.Writer = w
	if inner != nil {
		out = &nest{w: w, f: inner, n: 1}
	}
	if r.N(8) == 7 && len(e.B) > 0 {
		f := core.NewWriter(r)
		f.FailAt, f.Err = r.N(len(e.B)), io.ErrClosedPipe
		if err := encode(f, tb.Tree(m.T, v, false)); err == nil {
			r.Fail("write-error-lost", "%s: the writer failed at %d of %d", what, f.FailAt, len(e.B))
		}
	}
	err = encode(out, tb.Tree(m.T, v, false))
	r.Evals++
	if err != nil || !bytes.Equal(w.Acc, e.B) {
		r.Fail("wrong-bytes", "%s (%s): %s encodes to %x, %v; should be %x", what, m.T, Clip(tree), clipB(w.Acc), err, clipB(e.B))
	}
}
