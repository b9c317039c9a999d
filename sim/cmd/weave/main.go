// weave writes, for the packages of a repository, a go build overlay in which every statement is
// preceded by a call of the simulator's hook, and a dictionary of the literals found in the sources.
// usage: weave REPO OUTDIR [PART]
// In files whose path contains PART only functions and outermost loops get a call: for bulk data.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type insertion struct {
	off  int
	text string
}

type dict struct {
	Woven   bool     `json:"woven"`
	Maps    bool     `json:"maps"`
	Sites   int      `json:"sites"`
	Files   int      `json:"files"`
	Ints    []uint64 `json:"ints"`
	Strings []string `json:"strings"`
}

var (
	site  uint32
	ints  = map[uint64]bool{}
	strs  = map[string]bool{}
	hasGo bool
)

func main() {
	repo, out := os.Args[1], os.Args[2]
	part := ""
	if len(os.Args) > 3 {
		part = os.Args[3]
	}
	overlay := map[string]string{}
	var files []string
	err := filepath.Walk(filepath.Join(repo, "pkg"), func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if !fi.IsDir() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, "weave:", err)
		os.Exit(2)
	}
	sort.Strings(files)
	for i, f := range files {
		src, err := os.ReadFile(f)
		if err != nil {
			fmt.Fprintln(os.Stderr, "weave:", err)
			os.Exit(2)
		}
		woven, err := weave(f, src, part != "" && strings.Contains(f[len(repo):], part))
		if err != nil {
			fmt.Fprintln(os.Stderr, "weave: left alone:", err)
			continue
		}
		dst := filepath.Join(out, fmt.Sprintf("w%03d_%s", i, filepath.Base(f)))
		if err := os.WriteFile(dst, woven, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "weave:", err)
			os.Exit(2)
		}
		overlay[f] = dst
	}
	d := dict{Woven: !hasGo, Sites: int(site), Files: len(overlay)}
	if hasGo {
		// the library starts goroutines of its own: the statement hook cannot tell them from tasks
		overlay = map[string]string{}
	}
	for v := range ints {
		d.Ints = append(d.Ints, v)
	}
	sort.Slice(d.Ints, func(i, j int) bool { return d.Ints[i] < d.Ints[j] })
	for s := range strs {
		d.Strings = append(d.Strings, s)
	}
	sort.Strings(d.Strings)
	maps := map[string]string{}
	if from, to := runtimeRand(out); from != "" {
		overlay[from], maps[from] = to, to
		d.Maps = true
	}
	write(filepath.Join(out, "overlay.json"), map[string]interface{}{"Replace": overlay})
	write(filepath.Join(out, "maps.json"), map[string]interface{}{"Replace": maps})
	write(filepath.Join(out, "dict.json"), d)
}

// runtimeRand makes a copy of runtime/rand.go in which the randomness of maps comes from a counter that
// the simulator seeds, and the process-wide hash key is constant.
func runtimeRand(out string) (from, to string) {
	b, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return "", ""
	}
	from = filepath.Join(strings.TrimSpace(string(b)), "src", "runtime", "rand.go")
	src, err := os.ReadFile(from)
	if err != nil {
		return "", ""
	}
	s := string(src)
	initLine := "\tglobalRand.state.Init(*seed)\n"
	mapsFn := "func maps_rand() uint64 {\n\treturn rand()\n}"
	if strings.Count(s, initLine) != 1 || strings.Count(s, mapsFn) != 1 {
		return "", ""
	}
	s = strings.Replace(s, initLine, "\tfor i := range seed {\n\t\tseed[i] = byte(i + 1)\n\t}\n"+initLine, 1)
	s = strings.Replace(s, mapsFn, `func maps_rand() uint64 {
	if SimMapOn == 0 {
		return rand()
	}
	SimMapState += 0x9e3779b97f4a7c15
	z := SimMapState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:linkname SimMapOn
//go:linkname SimMapState
var SimMapOn, SimMapState uint64
`, 1)
	to = filepath.Join(out, "runtime_rand.go")
	if os.WriteFile(to, []byte(s), 0o644) != nil {
		return "", ""
	}
	return from, to
}

func write(p string, v interface{}) {
	b, err := json.Marshal(v)
	if err == nil {
		err = os.WriteFile(p, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "weave:", err)
		os.Exit(2)
	}
}

func weave(name string, src []byte, coarse bool) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	ins := []insertion{{off(f.Name.End()), `; import verifhook "verifsim/hook"`}}
	type repl struct {
		from, to int
		text     string
	}
	var repls []repl
	clock := ""
	for _, im := range f.Imports {
		if im.Path.Value == `"time"` {
			clock = "time"
			if im.Name != nil {
				clock = im.Name.Name
			}
		}
		if im.Path.Value == `"sync"` {
			text := `sync "verifsim/simsync"`
			if im.Name != nil {
				text = `"verifsim/simsync"`
			}
			repls = append(repls, repl{off(im.Path.Pos()), off(im.Path.End()), text})
		}
	}
	list := func(l []ast.Stmt) {
		if coarse {
			return
		}
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			site++
			ins = append(ins, insertion{off(s.Pos()), fmt.Sprintf("verifhook.Y(%d); ", site)})
		}
	}
	first := func(b *ast.BlockStmt) {
		if coarse && b != nil && len(b.List) > 0 {
			site++
			ins = append(ins, insertion{off(b.List[0].Pos()), fmt.Sprintf("verifhook.Y(%d); ", site)})
		}
	}
	var tables []ast.Node
	loopEnd := token.NoPos
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			list(caseFree(n.List))
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		case *ast.FuncDecl:
			first(n.Body)
		case *ast.ForStmt:
			if n.Pos() > loopEnd {
				loopEnd = n.End()
				first(n.Body)
			}
		case *ast.RangeStmt:
			if n.Pos() > loopEnd {
				loopEnd = n.End()
				first(n.Body)
			}
		case *ast.GoStmt:
			hasGo = true
		case *ast.SelectorExpr:
			// the clock is the simulator's
			if x, ok := n.X.(*ast.Ident); ok && clock != "" && x.Name == clock && x.Obj == nil {
				switch n.Sel.Name {
				case "Now", "Since", "Until", "Sleep":
					repls = append(repls, repl{off(x.Pos()), off(x.End()), "verifhook"})
				}
			}
		case *ast.CompositeLit:
			if len(n.Elts) > 16 {
				tables = append(tables, n)
			}
		}
		if n, ok := n.(ast.Expr); ok {
			inTable := false
			for _, t := range tables {
				if n.Pos() >= t.Pos() && n.End() <= t.End() {
					inTable = true
				}
			}
			if !inTable {
				mine(n)
			}
		}
		return true
	})
	ins = append(ins, insertion{len(src), "\nvar _ = verifhook.Y\n"})
	if clock != "" && clock != "_" && clock != "." {
		ins = append(ins, insertion{len(src), "var _ " + clock + ".Time\n"})
	}
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
	var b strings.Builder
	pos := 0
	ri := 0
	sort.Slice(repls, func(i, j int) bool { return repls[i].from < repls[j].from })
	emit := func(to int) {
		for ri < len(repls) && repls[ri].from < to {
			b.Write(src[pos:repls[ri].from])
			b.WriteString(repls[ri].text)
			pos = repls[ri].to
			ri++
		}
		b.Write(src[pos:to])
		pos = to
	}
	for _, in := range ins {
		emit(in.off)
		b.WriteString(in.text)
	}
	emit(len(src))
	return []byte(b.String()), nil
}

// the body of a switch or select is a block of clauses, which take no statements between them
func caseFree(l []ast.Stmt) []ast.Stmt {
	for _, s := range l {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			return nil
		}
	}
	return l
}

func mine(e ast.Expr) {
	if b, ok := e.(*ast.BasicLit); ok && b.Kind == token.STRING {
		if s, err := strconv.Unquote(b.Value); err == nil && len(s) > 0 && len(s) <= 64 {
			strs[s] = true
		}
		return
	}
	if v := eval(e); v != nil {
		if v.Sign() < 0 {
			v = new(big.Int).Neg(v)
		}
		if v.BitLen() <= 64 {
			ints[v.Uint64()] = true
		}
	}
}

var named = map[string]string{
	"MaxInt8": "127", "MaxInt16": "32767", "MaxInt32": "2147483647", "MaxInt64": "9223372036854775807", "MaxInt": "9223372036854775807",
	"MaxUint8": "255", "MaxUint16": "65535", "MaxUint32": "4294967295", "MaxUint64": "18446744073709551615",
	"MaxVarintLen16": "3", "MaxVarintLen32": "5", "MaxVarintLen64": "10",
}

func eval(e ast.Expr) *big.Int {
	switch e := e.(type) {
	case *ast.BasicLit:
		switch e.Kind {
		case token.INT:
			if v, ok := new(big.Int).SetString(strings.ReplaceAll(e.Value, "_", ""), 0); ok {
				return v
			}
		case token.CHAR:
			if r, _, _, err := strconv.UnquoteChar(e.Value[1:], '\''); err == nil {
				return big.NewInt(int64(r))
			}
		}
	case *ast.ParenExpr:
		return eval(e.X)
	case *ast.SelectorExpr:
		if s, ok := named[e.Sel.Name]; ok {
			v, _ := new(big.Int).SetString(s, 10)
			return v
		}
	case *ast.CallExpr:
		if id, ok := e.Fun.(*ast.Ident); ok && len(e.Args) == 1 {
			switch id.Name {
			case "int", "uint", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "byte":
				return eval(e.Args[0])
			}
		}
	case *ast.BinaryExpr:
		x, y := eval(e.X), eval(e.Y)
		if x == nil || y == nil {
			return nil
		}
		z := new(big.Int)
		switch e.Op {
		case token.ADD:
			return z.Add(x, y)
		case token.SUB:
			return z.Sub(x, y)
		case token.MUL:
			return z.Mul(x, y)
		case token.OR:
			return z.Or(x, y)
		case token.AND:
			return z.And(x, y)
		case token.SHL:
			if y.IsUint64() && y.Uint64() < 200 {
				return z.Lsh(x, uint(y.Uint64()))
			}
		case token.SHR:
			if y.IsUint64() && y.Uint64() < 200 {
				return z.Rsh(x, uint(y.Uint64()))
			}
		case token.QUO:
			if y.Sign() != 0 {
				return z.Quo(x, y)
			}
		}
	}
	return nil
}
