// gencode calls /repo's code generator for every struct type in genbase and gentypes and writes the
// methods next to the types. DIR/gencode.json tells for which of them the generator failed.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"reflect"
	"sort"

	"github.com/greymass/go-eosio/pkg/codegen"

	"verifsim/genbase"
	"verifsim/gentypes"
)

// what generated code can refer to
var known = map[string]string{"abi": "github.com/greymass/go-eosio/pkg/abi", "chain": "github.com/greymass/go-eosio/pkg/chain", "genbase": "verifsim/genbase",
	"errors": "errors", "fmt": "fmt", "io": "io", "bytes": "bytes", "math": "math", "strconv": "strconv", "strings": "strings", "sort": "sort", "reflect": "reflect", "binary": "encoding/binary"}

func imports(pkg, src string) string {
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", "package "+pkg+"\n"+src, 0)
	if err != nil {
		return "" // the compiler will tell
	}
	if len(f.Imports) > 0 {
		return ""
	}
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok && id.Obj == nil && known[id.Name] != "" && id.Name != pkg {
				used[id.Name] = true
			}
		}
		return true
	})
	var ps []string
	for p := range used {
		ps = append(ps, known[p])
	}
	sort.Strings(ps)
	out := ""
	for _, p := range ps {
		out += fmt.Sprintf("import %q\n", p)
	}
	return out
}

func main() {
	dir := os.Args[1]
	fails := map[string]string{}
	do := func(pkg string, g interface{}) {
		name := reflect.TypeOf(g).Name()
		defer func() {
			if x := recover(); x != nil {
				fails[name] = fmt.Sprint("the generator panics: ", x)
			}
		}()
		src := codegen.GenUnmarshalFn(g)
		if again := codegen.GenUnmarshalFn(g); again != src {
			fails[name] = "the generator gives different code for the same type: " + again + "\nand\n" + src
		}
		if err := os.WriteFile(filepath.Join(dir, pkg, "zgen_"+name+".go"), []byte("package "+pkg+"\n\n"+imports(pkg, src)+"\n"+src), 0o644); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
	}
	for _, t := range genbase.All {
		do("genbase", t.Gen)
	}
	for _, t := range gentypes.All {
		do("gentypes", t.Gen)
	}
	b, _ := json.Marshal(fails)
	if err := os.WriteFile(filepath.Join(dir, "gencode.json"), b, 0o644); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
}
