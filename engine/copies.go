package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// genCopies makes the command generator, a main package, importable: a copy of its files with the package renamed and
// main exported, and a package holding the command sources as strings. Both are written anew from the tree on every run.
func genCopies(repo, tmp string) (map[string]string, error) {
	files := map[string]string{}
	put := func(virtual, text string) error {
		real := filepath.Join(tmp, fmt.Sprintf("copy%d.go", len(files)))
		files[filepath.Join(repo, virtual)] = real
		return os.WriteFile(real, []byte(text), 0o644)
	}
	list := func(dir string) ([]string, error) {
		l, err := filepath.Glob(filepath.Join(repo, dir, "*.go"))
		var r []string
		for _, f := range l {
			if !strings.HasSuffix(f, "_test.go") {
				r = append(r, f)
			}
		}
		sort.Strings(r)
		return r, err
	}
	src, err := list("cmd/gen_redis_cmd")
	if err != nil {
		return nil, err
	}
	for _, f := range src {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		fset := token.NewFileSet()
		a, err := parser.ParseFile(fset, f, b, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		type edit struct {
			at, n int
			s     string
		}
		es := []edit{{fset.Position(a.Name.Pos()).Offset, len(a.Name.Name), "zzgen"}}
		for _, d := range a.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
				es = append(es, edit{fset.Position(fd.Name.Pos()).Offset, 4, "ZzMain"})
			}
		}
		// leaving the process becomes a panic that the harness sees
		tail := ""
		ast.Inspect(a, func(n ast.Node) bool {
			c, ok := n.(*ast.CallExpr)
			if !ok {
				return true
			}
			se, ok := c.Fun.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			x, ok := se.X.(*ast.Ident)
			if !ok || x.Obj != nil {
				return true
			}
			name := x.Name + "." + se.Sel.Name
			switch name {
			case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln":
				o := fset.Position(se.Pos()).Offset
				es = append(es, edit{o, fset.Position(se.End()).Offset - o, map[bool]string{true: "zzExit", false: "zzFatal"}[name == "os.Exit"]})
				tail += "\nvar _ = " + name + "\n"
			}
			return true
		})
		sort.Slice(es, func(i, j int) bool { return es[i].at < es[j].at })
		out, at := "", 0
		for _, e := range es {
			out += string(b[at:e.at]) + e.s
			at = e.at + e.n
		}
		if err := put(filepath.Join("cmd/gen_redis_cmd/zzgen", filepath.Base(f)), out+string(b[at:])+tail); err != nil {
			return nil, err
		}
	}
	exit := "package zzgen\n\n// ZzExit is the panic that stands for leaving the process.\ntype ZzExit int\n\n" +
		"func zzExit(code int) { panic(ZzExit(code)) }\n\nfunc zzFatal(...interface{}) { panic(ZzExit(1)) }\n"
	if err := put("cmd/gen_redis_cmd/zzgen/zz_exit.go", exit); err != nil {
		return nil, err
	}
	src, err = list("redis")
	if err != nil {
		return nil, err
	}
	var t strings.Builder
	t.WriteString("package zzsrc\n\ntype File struct{ Name, Text string }\n\nvar Files = []File{\n")
	for _, f := range src {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		fmt.Fprintf(&t, "\t{%q, %q},\n", filepath.Base(f), b)
	}
	t.WriteString("}\n")
	return files, put("zzverif/zzsrc/src.go", t.String())
}
