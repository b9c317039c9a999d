package props

import (
	"encoding"
	"encoding/json"
	"fmt"
	"reflect"

	"github.com/greymass/go-eosio/pkg/abi"

	"verifsim/core"
	"verifsim/ref"
)

func runC06(r *core.R) {
	if r.N(4) == 3 && only == nil {
		reuseText(r)
		return
	}
	g := NewG(r).Big()
	g.budget /= 2
	t := g.Top(g.Range(0, 3), TyOpt{Ext: true})
	gt := GoType(t)
	dst := reflect.New(gt)
	pre := "zero"
	if r.N(3) == 2 {
		// the destination holds something made by the program
		dst.Elem().Set(ToGo(t, g.Val(t, true)))
		roomy(r, dst.Elem(), 0)
		pre = "prefilled"
	}
	r.Ev("type %s destination %s", t, pre)
	var last *Msg
	okBefore := 0
	for i := r.Range(2, 9); i > 0; i-- {
		var m *Msg
		if last != nil && r.N(5) == 4 {
			m = last
		} else if last != nil {
			m = g.Next(last, true)
		} else {
			m = NewMsg(g, t, true)
		}
		last = m
		path := PTyped
		switch r.N(6) {
		case 3:
			path = PCustom
		case 4:
			path = PBare
		case 5:
			if reflect.PtrTo(gt).Implements(unmarshaler) {
				path = PSelf
			}
		}
		data := m.W.B
		fault := ""
		errAt := -1
		switch r.Pick(4, 2, 2, 1) {
		case 1:
			if len(data) > 0 {
				data = data[:offset(r, m.W, len(data))]
				fault = "cut"
				r.Fault("stream-cut")
			}
		case 2:
			data = damage(r, data, m.W)
			fault = "damaged"
		case 3:
			if len(data) > 0 {
				errAt = offset(r, m.W, len(data))
				fault = "read error"
			}
		}
		reader := func() *core.Reader {
			rd := core.NewReader(r, data)
			if errAt >= 0 {
				rd.FailAt, rd.Err, rd.Sticky = errAt, &core.IOErr{What: "connection reset"}, true
			}
			return rd
		}
		into := func(d reflect.Value) (err error) {
			rd := reader()
			dec := NewDec(path, rd)
			r.Call(fmt.Sprintf("decode of %s (%s) from %x", t, pathNames[path], clipB(data)), func() {
				if path == PSelf {
					err = d.Interface().(abi.Unmarshaler).UnmarshalABI(dec)
				} else {
					err = decodeInto(t, dec, d)
				}
			})
			return err
		}
		fresh := reflect.New(gt)
		ferr := into(fresh)
		err := into(dst)
		r.Evals++
		r.Ev("%s %s %d bytes %x -> %v", pathNames[path], fault, len(data), clipB(data), err)
		if (err == nil) != (ferr == nil) {
			r.Fail("outcome-differs", "%s (%s) from %x: into a used destination %v, into a fresh one %v", t, pathNames[path], clipB(data), err, ferr)
		}
		if err != nil {
			if okBefore > 0 {
				r.Probe("failure-after-success")
			}
			continue
		}
		okBefore++
		a, b := Dump(dst.Elem().Interface()), Dump(fresh.Elem().Interface())
		if a != b {
			r.Fail("differs", "%s (%s) from %x (%s): used and fresh destination differ: %s", t, pathNames[path], clipB(data), fault, Diff(a, b))
		}
		if fault == "" {
			if w := Dump(ToGo(t, m.V).Interface()); b != w {
				r.Fail("wrong-value", "%s (%s): %s", t, pathNames[path], Diff(b, w))
			}
		}
		// the program may work with what it got
		if r.N(4) == 3 {
			scribble(r, dst.Elem(), 0)
			r.Probe("value-changed-by-caller")
		}
	}
	r.Sample("%s, destination %s", t, pre)
}

// roomy gives slices spare capacity with old content behind their end.
func roomy(r *core.R, v reflect.Value, depth int) {
	if depth > 8 {
		return
	}
	switch v.Kind() {
	case reflect.Slice:
		n := v.Len()
		for i := 0; i < n; i++ {
			roomy(r, v.Index(i), depth+1)
		}
		if n > 0 && v.CanSet() && r.N(2) == 1 {
			s := reflect.MakeSlice(v.Type(), n+2, n+7)
			reflect.Copy(s, v)
			reflect.Copy(s.Slice(n, n+2), v)
			v.Set(s.Slice(0, r.N(n+1)))
		}
	case reflect.Ptr:
		if !v.IsNil() {
			roomy(r, v.Elem(), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			roomy(r, v.Field(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			roomy(r, v.Index(i), depth+1)
		}
	}
}

// scribble changes parts of a value as a program might.
func scribble(r *core.R, v reflect.Value, depth int) {
	if depth > 8 {
		return
	}
	switch v.Kind() {
	case reflect.Slice:
		if v.Len() > 0 && v.CanSet() {
			if r.N(2) == 1 {
				v.Set(v.Slice(0, r.N(v.Len()+1)))
			}
			for i := 0; i < v.Len() && i < 4; i++ {
				scribble(r, v.Index(i), depth+1)
			}
		}
	case reflect.Ptr:
		if !v.IsNil() {
			scribble(r, v.Elem(), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scribble(r, v.Field(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len() && i < 4; i++ {
			scribble(r, v.Index(i), depth+1)
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		if v.CanSet() {
			v.SetUint(v.Uint() ^ 1)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribble")
		}
	}
}

var textKinds = []ref.Kind{ref.Name, ref.Asset, ref.Bytes, ref.PubKey, ref.Sig, ref.C256, ref.Sym, ref.SymCode, ref.TP, ref.TPS, ref.BTS, ref.U128, ref.I128, ref.F128, ref.C160, ref.C512, ref.Blob, ref.CU64, ref.BlkNum}

// parse sets the value behind p from text or JSON.
func parse(p interface{}, text []byte) (err error, ok bool) {
	switch u := p.(type) {
	case encoding.TextUnmarshaler:
		return u.UnmarshalText(text), true
	case json.Unmarshaler:
		return u.UnmarshalJSON(text), true
	}
	return nil, false
}

// text is the text or JSON form of the value behind p.
func textOf(p interface{}) (b []byte, err error, ok bool) {
	switch u := p.(type) {
	case encoding.TextMarshaler:
		b, err = u.MarshalText()
		return b, err, true
	case json.Marshaler:
		b, err = u.MarshalJSON()
		return b, err, true
	}
	return nil, nil, false
}

// reuseText: text parses into used destinations.
func reuseText(r *core.R) {
	g := NewG(r)
	g.noWild = true
	t := &ref.Ty{K: textKinds[g.N(len(textKinds))]}
	gt := GoType(t)
	dst := reflect.New(gt)
	r.Ev("text of %s", t)
	for i := r.Range(2, 8); i > 0; i-- {
		src := reflect.New(gt)
		src.Elem().Set(ToGo(t, g.Val(t, false)))
		var text []byte
		var err error
		var ok bool
		r.Call("text form of "+t.String(), func() { text, err, ok = textOf(src.Interface()) })
		if !ok || err != nil {
			return
		}
		if r.N(2) == 1 {
			text = damageText(r, text)
		}
		fresh := reflect.New(gt)
		var ferr error
		cp := func() []byte { return append(make([]byte, 0, len(text)+8), text...) }
		r.Call(fmt.Sprintf("parse of %s %q", t, text), func() { ferr, ok = parse(fresh.Interface(), cp()) })
		r.Call(fmt.Sprintf("parse of %s %q", t, text), func() { err, ok = parse(dst.Interface(), cp()) })
		if !ok {
			return
		}
		r.Evals++
		r.Ev("%q -> %v", text, err)
		if (err == nil) != (ferr == nil) {
			r.Fail("outcome-differs", "%s text %q: into a used destination %v, into a fresh one %v", t, text, err, ferr)
		}
		if err == nil {
			r.Probe("text-parsed")
			if a, b := Dump(dst.Elem().Interface()), Dump(fresh.Elem().Interface()); a != b {
				r.Fail("differs", "%s text %q: used and fresh destination differ: %s", t, text, Diff(a, b))
			}
		}
	}
	r.Sample("text parses of %s", t)
}
