package props

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/greymass/go-eosio/pkg/chain"

	"verifsim/core"
	"verifsim/ref"
)

// The JSON form of a value, made by the reference.
type (
	jLeaf struct {
		main interface{}   // string, json.Number, bool, nil, float32, float64
		alts []interface{} // other forms in which a node may send it
		text bool          // a string that goes through a text parser
	}
	jList []interface{}
	jObj  struct {
		keys   []string
		vals   []interface{}
		fields bool // a struct: keys in any order, unknown ones ignored
		elide  map[string]bool
	}
)

// What nodes call the fields of these; "" is embedded.
var jNames = map[reflect.Type]map[string]string{
	reflect.TypeOf(chain.ExtendedAsset{}):        {"Quantity": "quantity", "Contract": "contract"},
	reflect.TypeOf(chain.PermissionLevel{}):      {"Actor": "actor", "Permission": "permission"},
	reflect.TypeOf(chain.Action{}):               {"Account": "account", "Name": "name", "Authorization": "authorization", "Data": "data"},
	reflect.TypeOf(chain.TransactionHeader{}):    {"Expiration": "expiration", "RefBlockNum": "ref_block_num", "RefBlockPrefix": "ref_block_prefix", "MaxNetUsageWords": "max_net_usage_words", "MaxCpuUsageMs": "max_cpu_usage_ms", "DelaySec": "delay_sec"},
	reflect.TypeOf(chain.Transaction{}):          {"TransactionHeader": "", "ContextFreeActions": "context_free_actions", "Actions": "actions", "Extensions": "transaction_extensions"},
	reflect.TypeOf(chain.TransactionExtension{}): {"Type": "type", "Data": "data"},
	reflect.TypeOf(chain.Abi{}):                  {"Version": "version", "Types": "types", "Structs": "structs", "Actions": "actions", "Tables": "tables", "RicardianClauses": "ricardian_clauses", "ErrorMessages": "error_messages", "Extensions": "abi_extensions", "Variants": "variants"},
	reflect.TypeOf(chain.AbiType{}):              {"NewTypeName": "new_type_name", "Type": "type"},
	reflect.TypeOf(chain.AbiVariant{}):           {"Name": "name", "Types": "types"},
	reflect.TypeOf(chain.AbiStruct{}):            {"Name": "name", "Base": "base", "Fields": "fields"},
	reflect.TypeOf(chain.AbiField{}):             {"Name": "name", "Type": "type"},
	reflect.TypeOf(chain.AbiAction{}):            {"Name": "name", "Type": "type", "RicardianContract": "ricardian_contract"},
	reflect.TypeOf(chain.AbiTable{}):             {"Name": "name", "IndexType": "index_type", "KeyNames": "key_names", "KeyTypes": "key_types", "Type": "type"},
	reflect.TypeOf(chain.AbiClause{}):            {"Id": "id", "Body": "body"},
	reflect.TypeOf(chain.AbiExtension{}):         {"Type": "type", "Data": "data"},
	reflect.TypeOf(chain.AbiErrorMessage{}):      {"Code": "error_code", "Message": "error_msg"},
}

var jElide = map[reflect.Type]map[string]bool{
	reflect.TypeOf(chain.Abi{}): {"error_messages": true, "abi_extensions": true, "variants": true},
}

func jText(s string, alts ...interface{}) *jLeaf { return &jLeaf{main: s, alts: alts, text: true} }

// jForm is the JSON form of a Go value.
func jForm(v reflect.Value) interface{} {
	if !v.IsValid() {
		return &jLeaf{}
	}
	switch x := v.Interface().(type) {
	case chain.Name:
		return jText(ref.NameText(uint64(x)))
	case chain.Symbol:
		return jText(ref.SymbolForm(uint64(x)))
	case chain.SymbolCode:
		return jText(ref.CodeForm(uint64(x)))
	case chain.Asset:
		return jText(ref.AssetForm(x.Value, uint64(x.Symbol)))
	case chain.TimePoint:
		s := ref.TimeForm(int64(x), true)
		return jText(s, s+"Z")
	case chain.TimePointSec:
		s := ref.TimeForm(int64(x)*1_000_000, false)
		return jText(s, s+"Z")
	case chain.BlockTimestamp:
		s := ref.TimeForm(946684800_000_000+int64(x)*500_000, true)
		return jText(s, s+"Z")
	case chain.Uint64:
		n := strconv.FormatUint(uint64(x), 10)
		if uint64(x) > math.MaxUint32 {
			return &jLeaf{main: n, alts: []interface{}{json.Number(n)}}
		}
		return &jLeaf{main: json.Number(n), alts: []interface{}{n}}
	case chain.BlockNum:
		n := strconv.FormatUint(uint64(x), 10)
		return &jLeaf{main: json.Number(n), alts: []interface{}{n}}
	case chain.Uint128:
		return jText(ref.Big128(x.Lo, x.Hi, false).String())
	case chain.Int128:
		return jText(ref.Big128(x.Lo, x.Hi, true).String())
	case chain.Float128:
		return jText(ref.HexText(x.Data[:]), strings.ToUpper(ref.HexText(x.Data[:])))
	case chain.Checksum160:
		return jText(ref.HexText(x[:]), strings.ToUpper(ref.HexText(x[:])))
	case chain.Checksum256:
		return jText(ref.HexText(x[:]), strings.ToUpper(ref.HexText(x[:])))
	case chain.Checksum512:
		return jText(ref.HexText(x[:]), strings.ToUpper(ref.HexText(x[:])))
	case chain.Bytes:
		return jText(ref.HexText(x), strings.ToUpper(ref.HexText(x)))
	case chain.Blob:
		s := ref.B64Text(x)
		return jText(s, strings.TrimRight(s, "="))
	case chain.PublicKey:
		t := keyTypes[x.Type]
		l := jText("PUB_" + t + "_" + ref.B58Rmd(x.Data, t))
		if s := ref.B58Rmd(x.Data, ""); x.Type == chain.K1 && len(s) == 50 {
			l.alts = []interface{}{"EOS" + s}
		}
		return l
	case chain.Signature:
		t := keyTypes[x.Type]
		return jText("SIG_" + t + "_" + ref.B58Rmd(x.Data, t))
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			return &jLeaf{}
		}
		return jForm(v.Elem())
	case reflect.Bool:
		return &jLeaf{main: v.Bool()}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return &jLeaf{main: json.Number(strconv.FormatInt(v.Int(), 10))}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return &jLeaf{main: json.Number(strconv.FormatUint(v.Uint(), 10))}
	case reflect.Float32:
		return &jLeaf{main: float32(v.Float())}
	case reflect.Float64:
		return &jLeaf{main: v.Float()}
	case reflect.String:
		return &jLeaf{main: v.String()}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return &jLeaf{main: ref.B64Text(v.Bytes())}
		}
		fallthrough
	case reflect.Array:
		l := jList{}
		for i := 0; i < v.Len(); i++ {
			l = append(l, jForm(v.Index(i)))
		}
		return l
	case reflect.Map:
		o := &jObj{}
		m := map[string]reflect.Value{}
		for it := v.MapRange(); it.Next(); {
			k := ""
			switch l := jForm(it.Key()).(*jLeaf).main.(type) {
			case string:
				k = l
			case json.Number:
				k = string(l)
			}
			m[k] = it.Value()
			o.keys = append(o.keys, k)
		}
		sort.Strings(o.keys)
		for _, k := range o.keys {
			o.vals = append(o.vals, jForm(m[k]))
		}
		return o
	case reflect.Struct:
		o := &jObj{fields: true, elide: jElide[v.Type()]}
		names, own := jNames[v.Type()]
		for i := 0; i < v.NumField(); i++ {
			k := v.Type().Field(i).Name
			if own {
				ok := false
				if k, ok = names[k]; !ok {
					continue // a field this reference does not know
				}
			}
			x := jForm(v.Field(i))
			if e, ok := x.(*jObj); ok && k == "" {
				o.keys = append(o.keys, e.keys...)
				o.vals = append(o.vals, e.vals...)
				continue
			}
			o.keys = append(o.keys, k)
			o.vals = append(o.vals, x)
		}
		return o
	}
	panic("props: no JSON form of " + v.Type().String())
}

// jMatch says where what was written (decoded generically, with numbers kept) differs from the form.
func jMatch(want, got interface{}, at string) string {
	switch w := want.(type) {
	case *jLeaf:
		switch m := w.main.(type) {
		case float64:
			if n, ok := got.(json.Number); ok {
				if f, err := strconv.ParseFloat(string(n), 64); err == nil && f == m {
					return ""
				}
			}
		case float32:
			if n, ok := got.(json.Number); ok {
				if f, err := strconv.ParseFloat(string(n), 32); err == nil && float32(f) == m {
					return ""
				}
			}
		default:
			if reflect.DeepEqual(m, got) {
				return ""
			}
		}
		return fmt.Sprintf("%s is %#v, expected %#v", at, got, w.main)
	case jList:
		g, ok := got.([]interface{})
		if got == nil && len(w) == 0 {
			return ""
		}
		if !ok || len(g) != len(w) {
			return fmt.Sprintf("%s is %s, expected a list of %d", at, Clip(fmt.Sprintf("%#v", got)), len(w))
		}
		for i := range w {
			if s := jMatch(w[i], g[i], fmt.Sprintf("%s[%d]", at, i)); s != "" {
				return s
			}
		}
	case *jObj:
		g, ok := got.(map[string]interface{})
		if got == nil && len(w.keys) == 0 {
			return ""
		}
		if !ok {
			return fmt.Sprintf("%s is %s, expected an object", at, Clip(fmt.Sprintf("%#v", got)))
		}
		for i, k := range w.keys {
			x, ok := g[k]
			l, isList := w.vals[i].(jList)
			if !ok && !(w.elide[k] && isList && len(l) == 0) {
				return fmt.Sprintf("%s.%s is missing", at, k)
			}
			if s := jMatch(w.vals[i], x, at+"."+k); s != "" {
				return s
			}
		}
		if !w.fields && len(g) != len(w.keys) {
			return fmt.Sprintf("%s has %d entries, expected %d", at, len(g), len(w.keys))
		}
	}
	return ""
}

func jQuote(r *core.R, s string, odd bool) string {
	if odd && len(s) > 0 && r.N(8) == 7 {
		k := r.N(len(s))
		if s[k] > ' ' && s[k] < 127 {
			a, _ := json.Marshal(s[:k])
			b, _ := json.Marshal(s[k+1:])
			return string(a[:len(a)-1]) + fmt.Sprintf(`\u%04x`, s[k]) + string(b[1:])
		}
	}
	b, _ := json.Marshal(s)
	return string(b)
}

// jPrint writes the form as a node might.
func jPrint(r *core.R, b *strings.Builder, x interface{}, plain bool) {
	ws := func() {
		if !plain && r.N(12) == 11 {
			b.WriteString([]string{" ", "\n", "\t", "\r\n  "}[r.N(4)])
		}
	}
	ws()
	switch w := x.(type) {
	case *jLeaf:
		m := w.main
		if len(w.alts) > 0 && !plain && r.N(3) == 2 {
			m = w.alts[r.N(len(w.alts))]
		}
		switch m := m.(type) {
		case nil:
			b.WriteString("null")
		case string:
			b.WriteString(jQuote(r, m, w.text && !plain))
		case json.Number:
			b.WriteString(string(m))
		default:
			j, _ := json.Marshal(m)
			b.Write(j)
		}
	case jList:
		b.WriteByte('[')
		for i, e := range w {
			if i > 0 {
				b.WriteByte(',')
			}
			jPrint(r, b, e, plain)
		}
		ws()
		b.WriteByte(']')
	case *jObj:
		b.WriteByte('{')
		n := 0
		sep := func() {
			if n++; n > 1 {
				b.WriteByte(',')
			}
		}
		ord := make([]int, len(w.keys))
		for i := range ord {
			ord[i] = i
		}
		if !plain && len(ord) > 1 && r.N(3) == 2 {
			for i := len(ord) - 1; i > 0; i-- {
				j := r.N(i + 1)
				ord[i], ord[j] = ord[j], ord[i]
			}
		}
		for _, i := range ord {
			if l, ok := w.vals[i].(*jLeaf); ok && l.main == nil && w.fields && !plain && r.N(2) == 1 {
				continue // absent instead of null
			}
			if l, ok := w.vals[i].(jList); ok && len(l) == 0 && w.fields && !plain && r.N(3) == 2 && w.elide[w.keys[i]] {
				continue
			}
			if w.fields && !plain && r.N(16) == 15 {
				sep()
				fmt.Fprintf(b, `"~extra%d":%s`, n, []string{"1", `"x"`, "null", `{"a":[1,{}]}`}[r.N(4)])
			}
			sep()
			b.WriteString(jQuote(r, w.keys[i], false))
			ws()
			b.WriteByte(':')
			jPrint(r, b, w.vals[i], plain)
		}
		ws()
		b.WriteByte('}')
	}
	ws()
}
