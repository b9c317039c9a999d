// gentool draws struct types from the seed, has /repo's code generator write methods for them and
// compiles the result. A struct for which generation or compilation fails is minimised and reported.
//
//	gentool -dir SIM -seed 1 -tier quick -evidence F -replays D [-overlay F]
//	gentool -dir SIM -replay FILE
//
// Exit status 0: the generated packages are in place; 1: violation reported; 2: trouble.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"verifsim/core"
)

type Field struct {
	Name string `json:"name"`
	Type string `json:"type"`
	Tag  string `json:"tag,omitempty"`
}

type Struct struct {
	Name   string  `json:"name"` // B0.. in genbase, G0.. in gentypes
	Fields []Field `json:"fields"`
}

type Replay struct {
	Property string   `json:"property"`
	Class    string   `json:"class"`
	Detail   string   `json:"detail"`
	Seed     int64    `json:"seed"`
	Run      int      `json:"run"`
	Tier     string   `json:"tier"`
	Minimal  bool     `json:"minimised"`
	Structs  []Struct `json:"structs"`
	How      string   `json:"how_to_replay"`
}

var scalars = []string{"uint8", "string", "uint64", "bool", "uint16", "uint32", "int8", "int16", "int32", "int64", "float32", "float64", "int", "uint"}
var chains = []string{"chain.Name", "chain.Asset", "chain.Bytes", "chain.PublicKey", "chain.Signature", "chain.Checksum160", "chain.Checksum256", "chain.Checksum512", "chain.Symbol", "chain.SymbolCode",
	"chain.TimePoint", "chain.TimePointSec", "chain.BlockTimestamp", "chain.Uint128", "chain.Int128", "chain.Float128", "chain.Uint64", "chain.BlockNum", "chain.Blob",
	"chain.PermissionLevel", "chain.Action", "chain.Transaction", "chain.TransactionHeader", "chain.TransactionExtension"}
var lens = []int{1, 2, 3, 0, 4, 7, 10, 12, 33}

// drawStruct: fields are scalars, types with methods, lists and arrays of these, and pointers to these.
func drawStruct(c *core.Ch, name string, others []string) Struct {
	s := Struct{Name: name}
	n := c.Range(1, 6)
	switch c.N(10) {
	case 8:
		n = 0
	case 9:
		n = c.Range(7, 16)
	}
	only := c.N(8) // now and then all fields are of one form
	for i := 0; i < n; i++ {
		f := Field{Name: fmt.Sprintf("F%d", i)}
		if c.N(6) == 5 {
			f.Name = []string{"Err", "Length", "Exists", "Tmp", "I", "V", "E", "D", "Abi", "Chain"}[c.N(10)] + fmt.Sprint(i)
		}
		var el string
		switch k := c.N(8); {
		case k < 4:
			el = scalars[c.N(len(scalars))]
		case k < 7 || len(others) == 0:
			el = chains[c.N(len(chains))]
		default:
			el = others[c.N(len(others))]
		}
		form := c.N(12)
		if only >= 4 {
			form = []int{6, 8, 9, 11}[only-4]
		}
		switch {
		case form < 6:
			f.Type = el
		case form < 8:
			f.Type = "[]" + el
			if c.N(6) == 5 {
				f.Type = "[]byte"
			}
		case form < 9:
			f.Type = fmt.Sprintf("[%d]%s", lens[c.N(len(lens))], el)
		case form < 11:
			f.Type, f.Tag = "*"+el, `eosio:"optional"`
		default:
			f.Type = "*" + el
		}
		if c.N(6) == 5 {
			f.Tag = strings.TrimSpace(f.Tag + fmt.Sprintf(` json:"f%d"`, i))
		}
		s.Fields = append(s.Fields, f)
	}
	return s
}

// draw: the second half of the types can have fields of the first half's types.
func draw(seed int64, n int) (ss []Struct) {
	c := core.NewCh(core.RunSeed("C12-types", seed, n))
	var others []string
	for i := 0; i < n/3; i++ {
		s := drawStruct(c, fmt.Sprintf("B%d", i), nil)
		ss = append(ss, s)
		if size(s) > 0 {
			others = append(others, "genbase."+s.Name)
		}
	}
	for i := 0; i < n-n/3; i++ {
		ss = append(ss, drawStruct(c, fmt.Sprintf("G%d", i), others))
	}
	return ss
}

// size tells whether a value takes any bytes.
func size(s Struct) int {
	for _, f := range s.Fields {
		if !strings.HasPrefix(f.Type, "[0]") {
			return 1
		}
	}
	return 0
}

func pkgOf(name string) string {
	if name[0] == 'B' {
		return "genbase"
	}
	return "gentypes"
}

// render writes the type declarations: T with methods to come, and a twin without.
func render(dir string, ss []Struct) error {
	for _, pkg := range []string{"genbase", "gentypes"} {
		old, _ := filepath.Glob(filepath.Join(dir, pkg, "z*.go"))
		for _, f := range old {
			os.Remove(f)
		}
		var b strings.Builder
		body := ""
		reg := ""
		for _, s := range ss {
			if pkgOf(s.Name) != pkg {
				continue
			}
			for _, twin := range []bool{false, true} {
				name := s.Name
				if twin {
					name = "P" + name
				}
				body += fmt.Sprintf("type %s struct {\n", name)
				for _, f := range s.Fields {
					t := f.Type
					if twin {
						t = strings.Replace(t, "genbase.B", "genbase.PB", 1)
					}
					body += "\t" + f.Name + " " + t
					if f.Tag != "" {
						body += " `" + f.Tag + "`"
					}
					body += "\n"
				}
				body += "}\n\n"
			}
			reg += fmt.Sprintf("\t{Gen: %s{}, Plain: P%s{}},\n", s.Name, s.Name)
		}
		fmt.Fprintf(&b, "package %s\n\n", pkg)
		if strings.Contains(body, "chain.") {
			b.WriteString("import \"github.com/greymass/go-eosio/pkg/chain\"\n\n")
		}
		if strings.Contains(body, "genbase.") {
			b.WriteString("import \"verifsim/genbase\"\n\n")
		}
		b.WriteString(body)
		b.WriteString("var All = Reg{\n" + reg + "}\n")
		if err := os.WriteFile(filepath.Join(dir, pkg, "ztypes.go"), []byte(b.String()), 0o644); err != nil {
			return err
		}
	}
	return nil
}

func run(dir string, args ...string) (string, error) {
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Dir = dir
	b, err := cmd.CombinedOutput()
	return string(b), err
}

// try generates and compiles; class is "" if all is well.
func try(dir string, ss []Struct) (class, detail string, bad string, err error) {
	if err := render(dir, ss); err != nil {
		return "", "", "", err
	}
	if out, err := run(dir, "go", "build", "./genbase", "./gentypes"); err != nil {
		return "", "", "", fmt.Errorf("the drawn types do not compile: %s", out)
	}
	if out, err := run(dir, "go", "run", "./cmd/gencode", dir); err != nil {
		return "", "", "", fmt.Errorf("gencode: %s", out)
	}
	var fails map[string]string
	b, err := os.ReadFile(filepath.Join(dir, "gencode.json"))
	if err != nil {
		return "", "", "", err
	}
	if err := json.Unmarshal(b, &fails); err != nil {
		return "", "", "", err
	}
	for _, s := range ss {
		if f := fails[s.Name]; f != "" {
			return "generator-fails", f, s.Name, nil
		}
	}
	for _, pkg := range []string{"genbase", "gentypes"} {
		if out, err := run(dir, "go", "build", "-gcflags=-e", "./"+pkg); err != nil {
			for _, s := range ss {
				if strings.Contains(out, "zgen_"+s.Name+".go") {
					return "does-not-compile", out, s.Name, nil
				}
			}
			return "", "", "", fmt.Errorf("build of %s: %s", pkg, out)
		}
	}
	return "", "", "", nil
}

func main() {
	dir := flag.String("dir", "", "")
	seed := flag.Int64("seed", 1, "")
	tier := flag.String("tier", "quick", "")
	replays := flag.String("replays", "", "")
	evidence := flag.String("evidence", "", "")
	replay := flag.String("replay", "", "")
	flag.Parse()
	start := time.Now()
	n := 60
	if *tier == "thorough" {
		n = 300
	}
	fatal := func(err error) {
		fmt.Fprintln(os.Stderr, "gentool:", err)
		os.Exit(2)
	}
	var ss []Struct
	if *replay != "" {
		var rep Replay
		b, err := os.ReadFile(*replay)
		if err == nil {
			err = json.Unmarshal(b, &rep)
		}
		if err != nil {
			fatal(err)
		}
		if len(rep.Structs) == 0 {
			// the violation is one of behaviour: its types are drawn again
			*seed, *tier = rep.Seed, rep.Tier
			if n = 60; *tier == "thorough" {
				n = 300
			}
		} else {
			class, detail, _, err := try(*dir, rep.Structs)
			if err != nil {
				fatal(err)
			}
			if class == "" {
				fmt.Println("not reproduced: the generated code compiles")
				os.Exit(3)
			}
			fmt.Printf("%s: %s\nidentical to the recorded execution: %v\nVIOLATION property=C12 replay=%s\n", class, detail, class == rep.Class, *replay)
			os.Exit(1)
		}
	}
	ss = draw(*seed, n)
	class, detail, bad, err := try(*dir, ss)
	if err != nil {
		fatal(err)
	}
	if class == "" {
		fmt.Printf("generated and compiled methods for %d structs\n", len(ss))
		os.Exit(0)
	}
	// minimise: the struct alone (with the types it uses), then without each field
	var cur []Struct
	for _, s := range ss {
		if s.Name == bad {
			cur = append(cur, s)
		}
	}
	for _, f := range cur[0].Fields {
		for _, s := range ss {
			if strings.HasSuffix(f.Type, "genbase."+s.Name) && (len(cur) == 1 || !has(cur, s.Name)) {
				cur = append(cur, s)
			}
		}
	}
	minimal := false
	if c2, d2, _, err := try(*dir, cur); err == nil && c2 == class {
		detail, minimal = d2, true
		for i := 0; i < len(cur); i++ {
			for j := 0; j < len(cur[i].Fields); {
				cand := append([]Struct{}, cur...)
				cand[i].Fields = append(append([]Field{}, cur[i].Fields[:j]...), cur[i].Fields[j+1:]...)
				if c2, d2, _, err := try(*dir, cand); err == nil && c2 == class {
					cur, detail = cand, d2
				} else {
					j++
				}
			}
		}
		for i := len(cur) - 1; i > 0; i-- {
			cand := append(append([]Struct{}, cur[:i]...), cur[i+1:]...)
			if c2, d2, _, err := try(*dir, cand); err == nil && c2 == class {
				cur, detail = cand, d2
			}
		}
	} else {
		cur = ss
	}
	if len(detail) > 2000 {
		detail = detail[:2000] + "..."
	}
	detail = fmt.Sprintf("struct %+v: %s", cur[0].Fields, detail)
	path := filepath.Join(*replays, fmt.Sprintf("C12-seed%d-types.json", *seed))
	rep := Replay{Property: "C12", Class: class, Detail: detail, Seed: *seed, Run: -1, Tier: *tier, Minimal: minimal, Structs: cur, How: "cd /verif && ./check.sh replay " + path}
	os.MkdirAll(*replays, 0o755)
	if err := write(path, rep); err != nil {
		fatal(err)
	}
	if *evidence != "" {
		os.MkdirAll(filepath.Dir(*evidence), 0o755)
		err := write(*evidence, map[string]interface{}{
			"property": "C12", "tier": *tier, "seed": *seed, "level": "exploration", "wall_s": time.Since(start).Seconds(), "violations": 1,
			"coverage": map[string]interface{}{"evaluations": len(ss), "distinct_nontrivial": len(ss), "rule": "struct types drawn from the seed and given to the code generator; no run was simulated because the generated code does not compile",
				"samples": []interface{}{detail}, "violation": map[string]string{"class": class, "detail": detail, "replay": path}},
			"assumptions": []string{"a seeded search: the property is checked on the struct types drawn, not on all"},
		})
		if err != nil {
			fatal(err)
		}
	}
	fmt.Printf("%s: %s\nVIOLATION property=C12 replay=%s\n", class, detail, path)
	os.Exit(1)
}

func has(ss []Struct, name string) bool {
	for _, s := range ss {
		if s.Name == name {
			return true
		}
	}
	return false
}

func write(path string, x interface{}) error {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	e.SetIndent("", " ")
	if err := e.Encode(x); err != nil {
		return err
	}
	return os.WriteFile(path, b.Bytes(), 0o644)
}
