package ref

import "strings"

// Def is an ABI definition, reduced to what decides the types.
type Def struct {
	Aliases  []Alias
	Structs  []StructDef
	Variants []VariantDef
}
type Alias struct{ Name, Type string }
type StructDef struct {
	Name, Base string
	Fields     []FieldDef
}
type FieldDef struct{ Name, Type string }
type VariantDef struct {
	Name  string
	Types []string
}

// Resolved is what a name means in a definition.
type Resolved struct {
	T    *Ty
	Alts map[*Ty][]string // names of the alternatives of variants
	// Odd: the definition is not a valid one where the type reaches it (a name defined twice, repeated
	// field names, suffixes out of place, structs that inherit from themselves), so that nothing is prescribed.
	Odd bool
	// DecodeOnly: values exist that decode but have no tree of their own (an optional of an optional).
	DecodeOnly bool
}

var builtins = func() map[string]Kind {
	m := map[string]Kind{}
	for _, k := range []Kind{Bool, U8, U16, U32, U64, I8, I16, I32, I64, F32, F64, VarU, VarI, Str, Bytes, Name, Sym, SymCode, Asset, ExtAsset, TP, TPS, BTS, U128, I128, F128, C160, C256, C512, PubKey, Sig} {
		m[kindNames[k]] = k
	}
	m["eosio::name"] = Name
	return m
}()

// IsBuiltin: the name is that of a built-in type.
func IsBuiltin(name string) bool {
	_, ok := builtins[name]
	return ok || name == "bytes"
}

type abiRes struct {
	d    *Def
	r    *Resolved
	base map[string]*Ty // by name without suffix
	busy map[string]bool
}

// Resolve gives the type that a name stands for.
func (d *Def) Resolve(name string) *Resolved {
	a := &abiRes{d: d, r: &Resolved{Alts: map[*Ty][]string{}}, base: map[string]*Ty{}, busy: map[string]bool{}}
	t, ext := a.typ(name)
	if ext {
		a.r.Odd = true
	}
	a.r.T = t
	a.finish(t)
	return a.r
}

// split takes the suffixes off: T, T[], T?, T[]?, each with $ for an extension.
func split(name string) (base string, arr, opt, ext, odd bool) {
	base = name
	if strings.HasSuffix(base, "$") {
		ext, base = true, base[:len(base)-1]
	} else if strings.HasSuffix(base, "$?") {
		ext, base = true, base[:len(base)-2]+"?"
	}
	if strings.HasSuffix(base, "?") {
		opt, base = true, base[:len(base)-1]
	}
	if strings.HasSuffix(base, "[]") {
		arr, base = true, base[:len(base)-2]
	}
	return base, arr, opt, ext, base == "" || strings.ContainsAny(base, "?$[] ")
}

func (a *abiRes) typ(name string) (t *Ty, ext bool) {
	base, arr, opt, ext, odd := split(name)
	if odd {
		a.r.Odd = true
		return &Ty{K: Unknown}, ext
	}
	t = a.named(base)
	if arr {
		t = &Ty{K: Slice, Elem: t}
	}
	if opt {
		t = &Ty{K: Opt, Elem: t}
	}
	return t, ext
}

func (a *abiRes) named(name string) *Ty {
	if t, ok := a.base[name]; ok {
		return t
	}
	n := 0
	var st *StructDef
	var vt *VariantDef
	var al *Alias
	for i := range a.d.Structs {
		if a.d.Structs[i].Name == name {
			st = &a.d.Structs[i]
			n++
		}
	}
	for i := range a.d.Variants {
		if a.d.Variants[i].Name == name {
			vt = &a.d.Variants[i]
			n++
		}
	}
	for i := range a.d.Aliases {
		if a.d.Aliases[i].Name == name {
			al = &a.d.Aliases[i]
			n++
		}
	}
	k, built := builtins[name]
	if built {
		n++
	}
	if n > 1 {
		a.r.Odd = true
	}
	switch {
	case n == 0:
		return &Ty{K: Unknown}
	case st != nil:
		t := &Ty{K: Struct}
		a.base[name] = t
		fs, ok := a.fields(st, 0)
		if !ok {
			t.K = Unknown
			return t
		}
		seen := map[string]bool{}
		for _, f := range fs {
			if seen[f.Name] {
				a.r.Odd = true
			}
			seen[f.Name] = true
			ft, ext := a.typ(f.Type)
			x := Field{Name: f.Name, T: ft}
			if ext {
				x.Mode = Extension
			}
			t.F = append(t.F, x)
		}
		return t
	case vt != nil:
		t := &Ty{K: Variant}
		a.base[name] = t
		seen := map[string]bool{}
		for _, n := range vt.Types {
			if seen[n] {
				a.r.Odd = true
			}
			seen[n] = true
			at, ext := a.typ(n)
			if ext {
				a.r.Odd = true
			}
			t.F = append(t.F, Field{Name: n, T: at})
		}
		a.r.Alts[t] = append([]string(nil), vt.Types...)
		return t
	case al != nil:
		if a.busy[name] {
			a.r.Odd = true // an alias of itself
			return &Ty{K: Unknown}
		}
		a.busy[name] = true
		t, ext := a.typ(al.Type)
		delete(a.busy, name)
		if ext {
			a.r.Odd = true
		}
		a.base[name] = t
		return t
	}
	if built {
		return &Ty{K: k}
	}
	return &Ty{K: Unknown}
}

// fields are those of the base, then the struct's own. Not ok: there is no such base.
func (a *abiRes) fields(s *StructDef, depth int) ([]FieldDef, bool) {
	if s.Base == "" {
		return s.Fields, true
	}
	if depth > 40 {
		a.r.Odd = true
		return nil, false
	}
	name := s.Base
	for hops := 0; ; hops++ {
		if _, _, _, _, odd := split(name); odd || strings.ContainsAny(name, "?$[]") || hops > 40 {
			a.r.Odd = true
			return nil, false
		}
		n := 0
		var b *StructDef
		to := ""
		for i := range a.d.Structs {
			if a.d.Structs[i].Name == name {
				b = &a.d.Structs[i]
				n++
			}
		}
		for i := range a.d.Aliases {
			if a.d.Aliases[i].Name == name {
				to = a.d.Aliases[i].Type
				n++
			}
		}
		for i := range a.d.Variants {
			if a.d.Variants[i].Name == name {
				n++
			}
		}
		if _, built := builtins[name]; n > 1 || built {
			a.r.Odd = true
			return nil, false
		}
		if b == nil && to != "" {
			name = to
			continue
		}
		if b == nil {
			return nil, false
		}
		fs, ok := a.fields(b, depth+1)
		return append(append([]FieldDef(nil), fs...), s.Fields...), ok
	}
}

// finish looks for combinations of which little is prescribed.
func (a *abiRes) finish(t *Ty) {
	seen := map[*Ty]bool{}
	var walk func(t *Ty)
	walk = func(t *Ty) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.K == Opt && t.Elem.K == Opt {
			a.r.DecodeOnly = true
		}
		for i, f := range t.F {
			if f.Mode == Extension {
				if f.T.MinSize() == 0 {
					a.r.Odd = true
				}
				for _, g := range t.F[i+1:] {
					if g.Mode != Extension {
						a.r.Odd = true
					}
				}
			}
			walk(f.T)
		}
		walk(t.Elem)
		walk(t.Key)
	}
	walk(t)
}

// Inf is more than any size or depth.
const Inf = 1 << 30

// reach lists the types that t consists of.
func (t *Ty) reach(seen map[*Ty]bool, out *[]*Ty) {
	if t == nil || seen[t] {
		return
	}
	seen[t] = true
	*out = append(*out, t)
	t.Elem.reach(seen, out)
	t.Key.reach(seen, out)
	for _, f := range t.F {
		f.T.reach(seen, out)
	}
}

// Min gives the size of the smallest encoding and the depth of the shallowest value of every type in t.
func (t *Ty) Min() map[*Ty][2]int {
	var all []*Ty
	t.reach(map[*Ty]bool{}, &all)
	m := map[*Ty][2]int{}
	for _, x := range all {
		m[x] = [2]int{Inf, Inf}
	}
	add := func(a, b int) int { return min(a+b, Inf) }
	for again := true; again; {
		again = false
		for i := len(all) - 1; i >= 0; i-- {
			x := all[i]
			s, d := 0, 0
			switch x.K {
			case Slice, Map, Opt:
				s = 1
			case Array:
				if x.N > 0 {
					e := m[x.Elem]
					s, d = e[0]*min(x.N, 1<<20), e[1]
					if e[0] == Inf || s > Inf {
						s = Inf
					}
				}
			case Ptr:
				s, d = m[x.Elem][0], m[x.Elem][1]
			case Struct:
				for _, f := range x.F {
					switch f.Mode {
					case Optional:
						s++
					case Extension:
						// present in the values made here
						d = max(d, m[f.T][1])
					case VariantField:
						s, d = add(s, m[f.T][0]), max(d, m[f.T][1])
					default:
						s, d = add(s, m[f.T][0]), max(d, m[f.T][1])
					}
				}
			case Variant:
				s, d = Inf, Inf
				for _, f := range x.F {
					s, d = min(s, m[f.T][0]), min(d, m[f.T][1])
				}
				s = add(s, 1)
			case Unknown:
				s, d = Inf, Inf
			case Str, NStr, Raw, Bytes, Blob, VarU, VarI:
				s = 1
			case PubKey:
				s = 34
			case Sig:
				s = 66
			default:
				s = Fixed(x.K)
			}
			n := [2]int{min(s, Inf), min(add(d, 1), Inf)}
			if n[0] < m[x][0] || n[1] < m[x][1] {
				m[x] = [2]int{min(n[0], m[x][0]), min(n[1], m[x][1])}
				again = true
			}
		}
	}
	return m
}

// MinSize is the size of the smallest encoding.
func (t *Ty) MinSize() int { return t.Min()[t][0] }
