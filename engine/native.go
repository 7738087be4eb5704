package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Native builds the harness together with the repository's current code and runs it
// on concrete values, to confirm what the solver reports and to compare observations.
type Native struct {
	P       *Program
	repo    string
	dir     string
	harness string
	tier    string
	mu      sync.Mutex
	bins    map[nativeKind]string
	errs    map[nativeKind]error
	seq     int
	runs    int64
}

// nativeKind tells the builds apart.
type nativeKind struct{ race, jitter bool }

type nativeResult struct {
	kind   string // done, assume, assert, crash, hang, race
	msg    string
	obs    [][2]string
	output string
}

var randMethod = regexp.MustCompile(`(?m)^func \(r \*Rand\) (Int63|Uint32|Uint64|Int31|Int|Int63n|Int31n|Intn|Float64|Int64|Int32|IntN|Int64N|Int32N)\(([^)]*)\) (\w+) \{`)

const randHook = `package rand

import (
	"math"
	"syscall"
)

var (
	vhList []string
	vhOn   bool
	vhMu   = make(chan bool, 1)
)

func init() {
	s, ok := syscall.Getenv("VH_RAND")
	vhOn = ok
	for i := 0; i < len(s); {
		j := i
		for j < len(s) && s[j] != ',' {
			j++
		}
		vhList = append(vhList, s[i:j])
		i = j + 1
	}
}

func vhNext(f string) (uint64, bool) {
	if !vhOn {
		return 0, false
	}
	vhMu <- true
	defer func() { <-vhMu }()
	if len(vhList) > 0 {
		v := uint64(0)
		for _, c := range []byte(vhList[0]) {
			v = v*10 + uint64(c-'0')
		}
		vhList = vhList[1:]
		return v, true
	}
	switch f {
	case "Int", "Int63", "Int64":
		return 1<<63 - 1, true
	case "Int31", "Int32":
		return 1<<31 - 1, true
	case "Uint32":
		return 1<<32 - 1, true
	case "Uint64":
		return 1<<64 - 1, true
	case "Float64":
		return math.Float64bits(0.9999), true
	}
	return 0, true
}
`

func (n *Native) overlayFile(jitter bool) (string, error) {
	rep := map[string]string{}
	for v, r := range n.P.files {
		rep[v] = r
	}
	// main function listing the harnesses
	var names []string
	for name, m := range n.P.harness.Members {
		if f := n.P.harness.Func(name); f != nil && m.Object() != nil && m.Object().Exported() {
			sig := m.Object().Type().(*types.Signature)
			if sig.Params().Len() == 0 && sig.Results().Len() == 0 && sig.TypeParams().Len() == 0 {
				names = append(names, name)
			}
		}
	}
	sort.Strings(names)
	var b bytes.Buffer
	fmt.Fprintf(&b, "package main\n\nimport \"%s/zzverif/vh\"\n\nfunc main() {\n\tvh.Main(map[string]func(){\n", repoModule)
	for _, s := range names {
		fmt.Fprintf(&b, "\t\t%q: %s,\n", s, s)
	}
	b.WriteString("\t})\n}\n")
	mf := filepath.Join(n.dir, "zz_main.go")
	if err := os.WriteFile(mf, b.Bytes(), 0o644); err != nil {
		return "", err
	}
	rep[filepath.Join(n.repo, "zzverif", n.harness, "zz_main.go")] = mf
	// random numbers follow the solver's values
	root, err := exec.Command("go", "env", "GOROOT").Output()
	if err == nil {
		gr := strings.TrimSpace(string(root))
		for _, d := range []string{"math/rand"} {
			src := filepath.Join(gr, "src", d, "rand.go")
			if c, err := os.ReadFile(src); err == nil {
				c = randMethod.ReplaceAllFunc(c, func(m []byte) []byte {
					s := randMethod.FindSubmatch(m)
					conv := string(s[3]) + "(v)"
					if string(s[3]) == "float64" {
						conv = "math.Float64frombits(v)"
					}
					return []byte(fmt.Sprintf("%s if v, ok := vhNext(%q); ok { return %s }\n", m, s[1], conv))
				})
				if bytes.Contains(c, []byte("math.Float64frombits")) && !bytes.Contains(c, []byte("\"math\"")) {
					c = bytes.Replace(c, []byte("import ("), []byte("import (\n\t\"math\""), 1)
				}
				pf := filepath.Join(n.dir, "rand.go")
				hf := filepath.Join(n.dir, "rand_hook.go")
				os.WriteFile(pf, c, 0o644)
				os.WriteFile(hf, []byte(randHook), 0o644)
				rep[src] = pf
				rep[filepath.Join(gr, "src", d, "zz_vh.go")] = hf
			}
		}
	}
	if jitter {
		if err := n.jitter(rep); err != nil {
			return "", err
		}
	}
	j, _ := json.Marshal(map[string]any{"Replace": rep})
	of := filepath.Join(n.dir, fmt.Sprintf("overlay-%v.json", jitter))
	return of, os.WriteFile(of, j, 0o644)
}

func (n *Native) build(k nativeKind) (string, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.bins == nil {
		n.bins, n.errs = map[nativeKind]string{}, map[nativeKind]error{}
	}
	if b, ok := n.bins[k]; ok {
		return b, n.errs[k]
	}
	bin := filepath.Join(n.dir, fmt.Sprintf("native-%v-%v", k.race, k.jitter))
	ov, err := n.overlayFile(k.jitter)
	if err == nil {
		args := []string{"build", "-overlay", ov, "-o", bin}
		if k.race {
			args = append(args, "-race")
		}
		args = append(args, repoModule+"/zzverif/"+n.harness)
		cmd := exec.Command("go", args...)
		cmd.Dir = n.repo
		cmd.Env = goEnv(k.race)
		var out []byte
		out, err = cmd.CombinedOutput()
		if err != nil {
			err = fmt.Errorf("native build: %v: %s", err, firstLines(string(out), 6))
		}
	}
	n.bins[k], n.errs[k] = bin, err
	return bin, err
}

func firstLines(s string, k int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > k {
		l = l[:k]
	}
	return strings.Join(l, " | ")
}

// run executes one harness natively. memMB limits the address space.
func (n *Native) run(fn string, vals, rands []string, useRand bool, k nativeKind, memMB int, limit time.Duration, procs int) (nativeResult, error) {
	bin, err := n.build(k)
	race := k.race
	if err != nil {
		return nativeResult{}, err
	}
	n.mu.Lock()
	n.seq++
	n.runs++
	id := n.seq
	n.mu.Unlock()
	d := filepath.Join(n.dir, "run"+strconv.Itoa(id))
	if err := os.Mkdir(d, 0o755); err != nil {
		return nativeResult{}, err
	}
	defer os.RemoveAll(d)
	vf, of := filepath.Join(d, "in"), filepath.Join(d, "out")
	os.WriteFile(vf, []byte(fn+"\n"+strings.Join(vals, "\n")+"\n"), 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	sh := "exec \"$0\""
	if memMB > 0 {
		sh = fmt.Sprintf("ulimit -v %d; exec \"$0\"", memMB*1024)
	}
	cmd := exec.CommandContext(ctx, "/bin/sh", "-c", sh, bin)
	cmd.Dir = d
	cmd.Env = append(goEnv(false), "VH_FILE="+vf, "VH_OUT="+of, "VH_TIER="+n.tier, "GOTRACEBACK=single")
	if useRand {
		cmd.Env = append(cmd.Env, "VH_RAND="+strings.Join(rands, ","))
	}
	if procs > 0 {
		cmd.Env = append(cmd.Env, "GOMAXPROCS="+strconv.Itoa(procs))
	}
	var buf limitedBuf
	cmd.Stdout, cmd.Stderr = &buf, &buf
	cmd.WaitDelay = 2 * time.Second
	runErr := cmd.Run()
	res := nativeResult{output: buf.String()}
	if race && strings.Contains(res.output, "WARNING: DATA RACE") {
		res.kind, res.msg = "race", "data race"
		return res, nil
	}
	b, err := os.ReadFile(of)
	if err != nil || len(b) == 0 {
		if ctx.Err() != nil {
			res.kind, res.msg = "hang", fmt.Sprintf("no answer within %v", limit)
			return res, nil
		}
		for _, mark := range []string{"fatal error: ", "panic: ", "runtime: out of memory", "unexpected fault"} {
			if i := strings.Index(res.output, mark); i >= 0 {
				res.kind = "crash"
				res.msg = firstLines(res.output[i:], 1)
				return res, nil
			}
		}
		if runErr == nil {
			res.kind, res.msg = "crash", "process exit without a result"
			return res, nil
		}
		return res, fmt.Errorf("native run: %v: %s", runErr, firstLines(res.output, 3))
	}
	lines := strings.Split(strings.TrimRight(string(b), "\n"), "\n")
	res.kind = lines[0]
	if len(lines) > 1 {
		res.msg, _ = strconv.Unquote(lines[1])
	}
	for _, l := range lines[min(2, len(lines)):] {
		if i := strings.IndexByte(l, ' '); i > 0 {
			v, _ := strconv.Unquote(l[i+1:])
			res.obs = append(res.obs, [2]string{l[:i], v})
		}
	}
	return res, nil
}

type limitedBuf struct {
	mu sync.Mutex
	b  []byte
}

func (l *limitedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if room := 1<<18 - len(l.b); room > 0 {
		l.b = append(l.b, p[:min(room, len(p))]...)
	}
	return len(p), nil
}
func (l *limitedBuf) String() string { l.mu.Lock(); defer l.mu.Unlock(); return string(l.b) }

// confirm runs a candidate until it misbehaves natively or the tries run out.
func (n *Native) confirm(c *Candidate, budget time.Duration) (nativeResult, bool, error) {
	tries, race, mem := 2, false, 0
	limit := 10 * time.Second
	switch c.Kind {
	case "race":
		race, tries = true, 40
	case "memory":
		mem = 1500
	case "hang":
		limit = 15 * time.Second
	}
	if strings.HasPrefix(c.Msg, "stack overflow") {
		limit = 60 * time.Second
	}
	if c.MapUsed {
		tries = 120
	}
	if c.Sched {
		tries = 400
	}
	end := time.Now().Add(budget)
	type out struct {
		r   nativeResult
		err error
	}
	par := 1
	if tries > 4 {
		par = max(1, runtime.NumCPU()/2)
	}
	var last nativeResult
	for i := 0; i < tries && (i == 0 || time.Now().Before(end)); i += par {
		ch := make(chan out, par)
		for k := 0; k < par; k++ {
			go func(k int) {
				procs := 0
				if c.Sched {
					procs = []int{0, 1, 2, 4}[(i/par+k)%4]
				}
				r, err := n.run(c.Harness, c.Vals, c.Rands, true, nativeKind{race, c.Sched}, mem, limit, procs)
				ch <- out{r, err}
			}(k)
		}
		var hit *nativeResult
		var ferr error
		for k := 0; k < par; k++ {
			o := <-ch
			if o.err != nil {
				ferr = o.err
				continue
			}
			last = o.r
			switch o.r.kind {
			case "assert", "crash", "race":
				r := o.r
				hit = &r
			case "hang":
				if c.Kind == "hang" || c.Kind == "deadlock" || c.Sched || c.MapUsed {
					r := o.r
					hit = &r
				} else if hit == nil {
					// not what was predicted: give it more time before believing it
					if r2, err := n.run(c.Harness, c.Vals, c.Rands, true, nativeKind{race, c.Sched}, mem, 40*time.Second, 0); err == nil && r2.kind == "hang" {
						hit = &r2
					}
				}
			}
		}
		if hit != nil {
			return *hit, true, nil
		}
		if ferr != nil {
			return last, false, ferr
		}
	}
	return last, false, nil
}
