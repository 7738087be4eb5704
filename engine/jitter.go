package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Native runs of schedule counterexamples: the repository's statements get random pauses in
// front of them (nothing else changes), so that rare interleavings come up within a few runs.

const jitterHook = `package vh

import (
	"os"
	"runtime"
	"sync/atomic"
	"time"
)

var (
	jitOn   int32
	jitMode uint64
	jitSeed uint64
	clockOn int32
)

func rnd() uint64 {
	x := atomic.AddUint64(&jitSeed, 0x9e3779b97f4a7c15)
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

// D is a timeout: when the harness lets time pass at any point, a short one.
func D(d time.Duration) time.Duration {
	if atomic.LoadInt32(&clockOn) == 0 {
		return d
	}
	return time.Duration(rnd()%1500) * time.Microsecond
}

func init() {
	jitSeed = uint64(time.Now().UnixNano())*2862933555777941757 + uint64(os.Getpid())*3037000493
	jitMode = []uint64{2, 4, 12, 40}[os.Getpid()%4]
	clockHook = func(n int) { atomic.StoreInt32(&clockOn, int32(n)) }
	schedHook = func(n int) {
		v := int32(0)
		if n > 0 {
			v = 1
		}
		atomic.StoreInt32(&jitOn, v)
	}
}

// J pauses at random.
func J(hot int) {
	if atomic.LoadInt32(&jitOn) == 0 {
		return
	}
	x := rnd()
	m := jitMode
	if hot == 0 {
		m *= 16
	}
	if x%m != 0 {
		return
	}
	x >>= 8
	if x%3 == 0 {
		runtime.Gosched()
		return
	}
	time.Sleep(time.Duration(20+(x>>4)%400) * time.Microsecond)
}
`

func isHot(s ast.Stmt) bool {
	hot := false
	switch s.(type) {
	case *ast.GoStmt, *ast.SelectStmt, *ast.SendStmt, *ast.DeferStmt, *ast.ReturnStmt:
		return true
	}
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit, *ast.BlockStmt:
			return false
		case *ast.UnaryExpr:
			hot = hot || n.Op == token.ARROW
		case *ast.RangeStmt:
			hot = true
		case *ast.CallExpr:
			switch f := n.Fun.(type) {
			case *ast.Ident:
				hot = hot || f.Name == "close" || f.Name == "delete"
			case *ast.SelectorExpr:
				hot = true
			}
		}
		return true
	})
	return hot
}

// jitterFile is the file with a pause in front of every statement.
func jitterFile(path string) ([]byte, bool) {
	src, err := os.ReadFile(path)
	if err != nil {
		return nil, false
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, false
	}
	type ins struct {
		off  int
		text string
	}
	var at []ins
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			h := 0
			if isHot(s) {
				h = 1
			}
			at = append(at, ins{fset.Position(s.Pos()).Offset, fmt.Sprintf("zzjvh.J(%d);", h)})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		case *ast.CallExpr:
			if f, ok := n.Fun.(*ast.SelectorExpr); ok && len(n.Args) > 0 {
				x, _ := f.X.(*ast.Ident)
				if x != nil && (x.Name == "context" && f.Sel.Name == "WithTimeout" || x.Name == "time" && (f.Sel.Name == "After" || f.Sel.Name == "NewTimer" || f.Sel.Name == "AfterFunc")) {
					a := n.Args[0]
					if x.Name == "context" {
						a = n.Args[len(n.Args)-1]
					}
					at = append(at, ins{fset.Position(a.Pos()).Offset, "zzjvh.D("}, ins{fset.Position(a.End()).Offset, ")"})
				}
			}
		}
		return true
	})
	if len(at) == 0 {
		return nil, false
	}
	sort.SliceStable(at, func(i, j int) bool { return at[i].off < at[j].off })
	var b bytes.Buffer
	prev := 0
	for _, p := range at {
		b.Write(src[prev:p.off])
		b.WriteString(p.text)
		prev = p.off
	}
	b.Write(src[prev:])
	out := b.Bytes()
	// the import goes right after the package clause
	end := fset.Position(f.Name.End()).Offset
	imp := fmt.Sprintf(";import zzjvh %q", repoModule+"/zzverif/vh")
	return append(append(append([]byte(nil), out[:end]...), imp...), out[end:]...), true
}

// jitter adds the paused files to the overlay.
func (n *Native) jitter(rep map[string]string) error {
	d := filepath.Join(n.dir, "jit")
	if err := os.MkdirAll(d, 0o755); err != nil {
		return err
	}
	hook := filepath.Join(d, "hook.go")
	if err := os.WriteFile(hook, []byte(jitterHook), 0o644); err != nil {
		return err
	}
	rep[filepath.Join(n.repo, "zzverif", "vh", "zz_jitter.go")] = hook
	k := 0
	return filepath.Walk(n.repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			b := filepath.Base(p)
			if b == ".git" || b == "cmd" || b == "e2e" || b == "vendor" || b == "testdata" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		if c, ok := jitterFile(p); ok {
			k++
			o := filepath.Join(d, fmt.Sprintf("f%d.go", k))
			if err := os.WriteFile(o, c, 0o644); err != nil {
				return err
			}
			rep[p] = o
		}
		return nil
	})
}
