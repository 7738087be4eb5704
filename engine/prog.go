package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded code under test plus harness and library models.
type Program struct {
	fset      *token.FileSet
	prog      *ssa.Program
	harness   *ssa.Package
	model     *ssa.Package
	pathInit  map[*ssa.Package]bool
	onceInit  []*ssa.Package
	rtErrType types.Type
	timeType  types.Type
	mu        sync.Mutex
	built     map[*ssa.Package]bool
	overlay   map[string][]byte
	files     map[string]string // virtual path -> real path
}

var pureStd = map[string]bool{
	"errors": true, "io": true, "unicode": true, "unicode/utf8": true, "unicode/utf16": true, "strings": true, "bytes": true, "strconv": true,
	"internal/strconv": true, "math": true, "math/bits": true, "sort": true, "slices": true, "maps": true, "cmp": true, "bufio": true, "context": true,
	"container/list": true, "container/heap": true, "container/ring": true, "internal/stringslite": true, "internal/itoa": true, "hash": true,
	"hash/fnv": true, "hash/crc32": true, "iter": true, "time": true, "sync/atomic": true, "path": true, "encoding/binary": true, "encoding/hex": true,
	"internal/byteorder": true, "math/cmplx": false, "fmt": true, "io/ioutil": true, "path/filepath": true, "text/tabwriter": true, "math/big": true,
	"encoding/base64": true, "hash/crc64": true, "hash/adler32": true, "html": true, "net/url": true, "text/scanner": true, "regexp/syntax": true, "regexp": true, "unique": false,
}

func initAllowed(path string) bool {
	return pureStd[path] || strings.HasPrefix(path, "github.com/yusank/")
}

// collectOverlay maps the harness sources into the repository tree.
func collectOverlay(repo, verif string) (map[string]string, error) {
	files := map[string]string{}
	root := filepath.Join(verif, "harness")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		files[filepath.Join(repo, "zzverif", rel)] = p
		return nil
	})
	return files, err
}

func loadProgram(repo, verif, harness, tmp string) (*Program, error) {
	files, err := collectOverlay(repo, verif)
	if err != nil {
		return nil, err
	}
	if harness == "c27" {
		more, err := genCopies(repo, tmp)
		if err != nil {
			return nil, err
		}
		for v, r := range more {
			files[v] = r
		}
	}
	p := &Program{fset: token.NewFileSet(), pathInit: map[*ssa.Package]bool{}, built: map[*ssa.Package]bool{}, overlay: map[string][]byte{}, files: files}
	for v, r := range files {
		b, err := os.ReadFile(r)
		if err != nil {
			return nil, err
		}
		p.overlay[v] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Fset: p.fset, Overlay: p.overlay, Env: goEnv(false), BuildFlags: []string{"-tags=math_big_pure_go,purego"}}
	pkgs, err := packages.Load(cfg, repoModule+"/zzverif/"+harness, repoModule+"/zzverif/model")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(q *packages.Package) {
		for _, e := range q.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 5 {
			errs = errs[:5]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p.prog = prog
	for _, q := range pkgs {
		sp := prog.Package(q.Types)
		if strings.HasSuffix(q.PkgPath, "/zzverif/model") {
			p.model = sp
		} else {
			p.harness = sp
		}
	}
	seen := map[*types.Package]bool{}
	var visit func(t *types.Package)
	visit = func(t *types.Package) {
		if seen[t] {
			return
		}
		seen[t] = true
		imps := append([]*types.Package(nil), t.Imports()...)
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, i := range imps {
			visit(i)
		}
		sp := prog.Package(t)
		if sp == nil {
			return
		}
		switch {
		case strings.HasPrefix(t.Path(), repoModule):
			p.pathInit[sp] = true
		case initAllowed(t.Path()):
			p.onceInit = append(p.onceInit, sp)
		}
	}
	visit(p.harness.Pkg)
	visit(p.model.Pkg)
	p.rtErrType = p.model.Type("RuntimeError").Type()
	p.ensure(p.model)
	p.ensure(p.harness)
	tp := prog.ImportedPackage("time")
	if tp != nil {
		p.timeType = tp.Type("Time").Type()
	}
	return p, nil
}

func (p *Program) ensure(q *ssa.Package) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if q != nil && !p.built[q] {
		q.Build()
		p.built[q] = true
	}
}

func (p *Program) modelFn(name string) *ssa.Function {
	p.ensure(p.model)
	return p.model.Func(name)
}

func (p *Program) methodSet(t types.Type) *types.MethodSet {
	return p.prog.MethodSets.MethodSet(t)
}

func (p *Program) methodValue(sel *types.Selection) *ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.prog.MethodValue(sel)
}

func goEnv(cgo bool) []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := e
		if i := strings.IndexByte(e, '='); i >= 0 {
			k = e[:i]
		}
		switch k {
		case "CGO_ENABLED", "GOFLAGS", "GOPROXY", "GOSUMDB", "GOTOOLCHAIN":
			continue
		}
		env = append(env, e)
	}
	c := "0"
	if cgo {
		c = "1"
	}
	flags := "-mod=readonly"
	if f := os.Getenv("VH_GOFLAGS"); f != "" {
		flags = f
	}
	return append(env, "CGO_ENABLED="+c, "GOFLAGS="+flags, "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local")
}
