package main

import (
	"fmt"
	"math"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type work struct {
	prefix []dec
	model  []uint64
}

type Candidate struct {
	Harness string   `json:"harness"`
	Msg     string   `json:"msg"`
	Vals    []string `json:"vals"`
	Kind    string   `json:"kind"`
	Rands   []string `json:"rands"`
	MapUsed bool     `json:"map_used"`
	Sched   bool     `json:"sched"`
	Clock   bool     `json:"clock"`
	Race    bool     `json:"race"`
	depth   int
}

type Sample struct {
	Vals  []string
	Rands []string
	Obs   [][2]string
	Show  string
	steps int64
}

type Explorer struct {
	P        *Program
	harness  string
	thorough bool
	fnName   string
	workers  int
	maxSteps int64
	timeout  int // solver, ms
	solver   string
	deadline time.Time
	randB    int
	mapB     int
	maxPaths int64

	mu      sync.Mutex
	cond    *sync.Cond
	queues  [][]work
	later   []work // paths with very many open branches, resumed when nothing else is left
	active  int
	stop    bool
	paused  bool // stopped by the end of its time slice
	used    time.Duration
	cutAt   time.Time // paths under way are cut soon after
	perVM   []*VM
	initErr error

	paths, pruned, done, assumeEnds, incomplete, forks atomic.Int64
	decisions, steps                                   atomic.Int64
	assertions, provedQ                                atomic.Int64
	pending                                            int64

	cands     []Candidate
	candSeen  map[string]int
	confirmed func(c Candidate) bool
	reasons   map[string]int
	notes     map[string]int
	reached   map[string]int
	samples   []Sample
	nsample   int64
	rngState  uint64
	stats     SolverStats
	funcs     map[string]fnCov
	trace     bool
	noteInfo  map[string]bool
	vmPool    *vmPool
}

type fnCov struct{ hit, total int }

type SolverStats struct {
	Queries, Sat, Unsat, Unknown int64
	Time                         time.Duration
}

// vmPool keeps initialised interpreters between harnesses of one run.
type vmPool struct {
	mu  sync.Mutex
	vms []*VM
}

func (x *Explorer) fork(vm *VM, d dec, m []uint64) {
	p := make([]dec, len(vm.decs)+1)
	copy(p, vm.decs)
	p[len(vm.decs)] = d
	x.forks.Add(1)
	x.mu.Lock()
	q := vm.qid
	x.queues[q] = append(x.queues[q], work{p, m})
	x.mu.Unlock()
	x.cond.Signal()
}

func (x *Explorer) take(q int) (work, bool) {
	x.mu.Lock()
	defer x.mu.Unlock()
	for {
		if !x.stop && time.Now().After(x.deadline) {
			x.stop, x.paused = true, true
		}
		if x.stop {
			x.cond.Broadcast()
			return work{}, false
		}
		if n := len(x.queues[q]); n > 0 {
			if q&1 == 1 && x.forks.Load()%3 == 0 {
				// not only depth first: when the time does not suffice for all paths, see varied ones
				x.rngState ^= x.rngState << 13
				x.rngState ^= x.rngState >> 7
				x.rngState ^= x.rngState << 17
				i := int(x.rngState % uint64(n))
				x.queues[q][i], x.queues[q][n-1] = x.queues[q][n-1], x.queues[q][i]
			}
			w := x.queues[q][n-1]
			x.queues[q] = x.queues[q][:n-1]
			x.active++
			return w, true
		}
		best := -1
		for i := range x.queues {
			if len(x.queues[i]) > 0 && (best < 0 || len(x.queues[i]) > len(x.queues[best])) {
				best = i
			}
		}
		if best >= 0 {
			w := x.queues[best][0]
			x.queues[best] = x.queues[best][1:]
			x.active++
			return w, true
		}
		if n := len(x.later); n > 0 {
			w := x.later[n-1]
			x.later = x.later[:n-1]
			x.active++
			return w, true
		}
		if x.active == 0 {
			x.cond.Broadcast()
			return work{}, false
		}
		x.cond.Wait()
	}
}

func (x *Explorer) release() {
	x.mu.Lock()
	x.active--
	if x.active == 0 {
		x.cond.Broadcast()
	}
	x.mu.Unlock()
}

// run explores until nothing is left, enough was found or the deadline; it may be called again to go on.
func (x *Explorer) run() {
	t0 := time.Now()
	defer func() { x.used += time.Since(t0) }()
	if x.cond == nil {
		x.prepare()
	} else if x.paused {
		x.stop, x.paused = false, false
	}
	x.pending = 0
	x.explore()
}

// unfinished tells that there is work left for another call of run.
func (x *Explorer) unfinished() bool { return x.paused && x.pending > 0 }

func (x *Explorer) prepare() {
	x.cond = sync.NewCond(&x.mu)
	x.queues = make([][]work, x.workers)
	x.queues[0] = []work{{}}
	x.candSeen = map[string]int{}
	x.reasons = map[string]int{}
	x.notes = map[string]int{}
	x.reached = map[string]int{}
	x.funcs = map[string]fnCov{}
	x.rngState = 0x9e3779b97f4a7c15
	if s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		x.rngState += s * 0x2545f4914f6cdd1d
	}
}

func (x *Explorer) explore() {
	stopTick := make(chan bool)
	go func() { // wakes waiting workers at the deadline
		for {
			select {
			case <-stopTick:
				return
			case <-time.After(200 * time.Millisecond):
				x.cond.Broadcast()
			}
		}
	}()
	var wg sync.WaitGroup
	for i := 0; i < x.workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			x.worker(i)
		}(i)
	}
	wg.Wait()
	close(stopTick)
	for _, q := range x.queues {
		x.pending += int64(len(q))
	}
	x.pending += int64(len(x.later))
}

func (x *Explorer) worker(q int) {
	w, ok := x.take(q)
	if !ok {
		return
	}
	vm, err := x.getVM()
	if err != nil {
		x.mu.Lock()
		x.initErr = err
		x.stop = true
		x.mu.Unlock()
		x.release()
		return
	}
	vm.X = x
	vm.qid = q
	vm.maxSteps = x.maxSteps
	if len(vm.S.defined) > 3000 || vm.S.timeout != x.timeout || vm.S.bin != x.solver {
		vm.S.timeout, vm.S.bin = x.timeout, x.solver
		vm.S.restart()
	}
	q0, s0, u0, k0, d0 := vm.S.queries, vm.S.nSat, vm.S.nUnsat, vm.S.nUnknown, vm.S.dur
	for _, f := range vm.fns {
		f.hit = false
	}
	for ok {
		vm.runPath(w)
		x.release()
		if vm.T.next > 1500000 {
			vm.T.reset()
			vm.S.terms = vm.T
			vm.S.restart()
		}
		w, ok = x.take(q)
	}
	x.mu.Lock()
	x.stats.Queries += vm.S.queries - q0
	x.stats.Sat += vm.S.nSat - s0
	x.stats.Unsat += vm.S.nUnsat - u0
	x.stats.Unknown += vm.S.nUnknown - k0
	x.stats.Time += vm.S.dur - d0
	for _, f := range vm.fns {
		if f.repo && f.hit && f.code != nil && f.ssa.Synthetic == "" {
			n := 0
			for _, b := range f.blkHit {
				if b {
					n++
				}
			}
			c := x.funcs[f.name]
			c.total = len(f.blkHit)
			if n > c.hit {
				c.hit = n
			}
			x.funcs[f.name] = c
		}
	}
	x.mu.Unlock()
	x.vmPool.mu.Lock()
	x.vmPool.vms = append(x.vmPool.vms, vm)
	x.vmPool.mu.Unlock()
}

func (x *Explorer) getVM() (*VM, error) {
	x.vmPool.mu.Lock()
	if n := len(x.vmPool.vms); n > 0 {
		vm := x.vmPool.vms[n-1]
		x.vmPool.vms = x.vmPool.vms[:n-1]
		x.vmPool.mu.Unlock()
		return vm, nil
	}
	x.vmPool.mu.Unlock()
	vm := newVM(x.P, x)
	s, err := newSolver(vm.T, x.solver, x.timeout)
	if err != nil {
		return nil, err
	}
	vm.S = s
	s.repair = vm.repairTexts
	if err := vm.initOnce(); err != nil {
		return nil, err
	}
	return vm, nil
}

// initOnce runs the initialisers of library packages; their effects are shared by all paths.
func (vm *VM) initOnce() (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("library initialisation: %v %s", r, debug.Stack())
			if e, ok := r.(endSig); ok {
				err = fmt.Errorf("library initialisation: %s %s", e.kind, e.msg)
			}
		}
	}()
	vm.resetPath(work{})
	vm.inPath = false
	vm.maxSteps = 1 << 40
	for _, p := range vm.P.onceInit {
		vm.P.ensure(p)
		f := p.Func("init")
		if f == nil {
			continue
		}
		vm.gs, vm.runq, vm.cur = nil, nil, nil
		vm.runMain(vm.fnOf(f))
	}
	vm.inPath = true
	return nil
}

func (vm *VM) resetPath(w work) {
	for i := len(vm.undo) - 1; i >= 0; i-- {
		u := vm.undo[i]
		u.o.cells[u.off] = u.old
	}
	vm.undo = vm.undo[:0]
	for i := len(vm.undoMaps) - 1; i >= 0; i-- {
		u := vm.undoMaps[i]
		u.m.ents, u.m.n, u.m.nsym = u.ents, u.n, u.nsym
		u.m.idx = map[string]int{}
		for k, e := range u.ents {
			if e.live && !e.sym {
				kb, _ := vm.keyBytes(nil, u.m.ki, e.k)
				u.m.idx[string(kb)] = k
			}
		}
	}
	vm.undoMaps = vm.undoMaps[:0]
	clear(vm.saved)
	for _, o := range vm.raceObjs {
		o.shadow = nil
	}
	vm.raceObjs = nil
	for _, o := range vm.pathGlobals {
		clear(o.cells)
		o.shadow = nil
	}
	vm.gs, vm.runq, vm.cur = nil, nil, nil
	vm.prefix = w.prefix
	vm.decs = make([]dec, 0, len(w.prefix)+16)
	vm.pc = make([]*Term, 0, 64)
	vm.pcSet = map[*Term]bool{}
	vm.vars = nil
	vm.srcs = nil
	vm.rands, vm.mapUsed = nil, false
	vm.steps, vm.now, vm.tseq, vm.objID = 0, 0, 0, 0
	vm.timers, vm.texts = nil, nil
	vm.obs, vm.reached = nil, nil
	vm.sched = schedCfg{}
	vm.sleep, vm.wasSched, vm.clockLeft, vm.wasClock = nil, false, 0, false
	vm.preempts = 0
	vm.side = map[sideKey]any{}
	clear(vm.notes)
	vm.race = false
	vm.randLeft, vm.mapLeft, vm.randSeed = 0, 0, 0
	vm.setModel(w.model)
}

func (vm *VM) runPath(w work) {
	x := vm.X
	vm.resetPath(w)
	vm.inPath = true
	kind, msg := "done", ""
	func() {
		defer func() {
			r := recover()
			switch e := r.(type) {
			case nil:
			case endSig:
				kind, msg = e.kind, e.msg
			case unsupported:
				kind, msg = "incomplete", "unsupported: "+string(e)
				if vm.cur != nil {
					msg += " in " + vm.where(vm.cur)
				}
			default:
				kind, msg = "incomplete", fmt.Sprintf("internal: %v", r)
				if x.trace {
					fmt.Fprintf(os.Stderr, "%v\n%s\n", r, debug.Stack())
					if vm.cur != nil {
						fmt.Fprintln(os.Stderr, vm.where(vm.cur))
					}
				}
			}
		}()
		vm.runMain(vm.fnOf(vm.P.harness.Func("init")))
		vm.cur = nil
		vm.randLeft, vm.mapLeft = x.randB, x.mapB
		f := vm.P.harness.Func(x.fnName)
		vm.runMain(vm.fnOf(f))
	}()
	x.steps.Add(vm.steps)
	if kind == "later" {
		x.mu.Lock()
		x.later = append(x.later, work{append([]dec(nil), vm.decs...), vm.T.model})
		for n := range vm.notes {
			x.notes[n]++
		}
		x.mu.Unlock()
		return
	}
	x.paths.Add(1)
	x.decisions.Add(int64(len(vm.decs) - len(w.prefix)))
	if x.trace {
		fmt.Fprintf(os.Stderr, "path %s %s decs=%d steps=%d vals=%v\n", kind, msg, len(vm.decs), vm.steps, vm.inputVals())
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	for n := range vm.notes {
		x.notes[n]++
	}
	switch kind {
	case "done":
		x.done.Add(1)
		for _, r := range vm.reached {
			x.reached[r]++
		}
		x.keepSample(vm)
	case "pruned":
		x.pruned.Add(1)
	case "assume", "infeasible":
		x.assumeEnds.Add(1)
	case "incomplete":
		x.incomplete.Add(1)
		x.reasons[msg]++
	case "violation":
		sig := msg
		if i := strings.Index(sig, " ["); i > 0 {
			sig = sig[:i]
		}
		x.candSeen[sig]++
		if x.candSeen[sig] <= 6 {
			x.cands = append(x.cands, Candidate{Harness: x.fnName, Msg: msg, Vals: vm.inputVals(), Sched: vm.wasSched, Clock: vm.wasClock, Race: vm.race,
				Rands: vm.randVals(), MapUsed: vm.mapUsed, Kind: strings.SplitN(msg, ":", 2)[0], depth: len(vm.decs)})
		}
		if len(x.cands) >= 24 || x.candSeen[sig] >= 60 {
			x.stop = true
			x.cond.Broadcast()
		}
	}
	if x.maxPaths > 0 && x.paths.Load() >= x.maxPaths {
		x.stop = true
		x.cond.Broadcast()
	}
}

func (vm *VM) inputVals() []string {
	out := make([]string, len(vm.srcs))
	for i, s := range vm.srcs {
		out[i] = strconv.FormatUint(vm.T.eval(s.t), 10)
	}
	return out
}

func (vm *VM) randVals() []string {
	out := make([]string, len(vm.rands))
	for i, t := range vm.rands {
		out[i] = strconv.FormatUint(vm.T.eval(t), 10)
	}
	return out
}

func (x *Explorer) keepSample(vm *VM) {
	if vm.wasSched || vm.mapUsed || len(vm.obs) == 0 {
		return
	}
	x.nsample++
	x.rngState ^= x.rngState << 13
	x.rngState ^= x.rngState >> 7
	x.rngState ^= x.rngState << 17
	const keep = 24
	slot := -1
	if len(x.samples) < keep {
		x.samples = append(x.samples, Sample{})
		slot = len(x.samples) - 1
	} else if k := x.rngState % uint64(x.nsample); k < keep {
		slot = int(k)
	}
	if slot < 0 {
		return
	}
	s := Sample{Vals: vm.inputVals(), Rands: vm.randVals(), steps: vm.steps}
	for _, o := range vm.obs {
		s.Obs = append(s.Obs, [2]string{o.label, vm.obsText(o)})
	}
	var sh []string
	for i, v := range vm.srcs {
		if i > 40 {
			break
		}
		switch v.kind {
		case "int":
			sh = append(sh, strconv.FormatInt(int64(vm.T.eval(v.t)), 10))
		case "float":
			sh = append(sh, strconv.FormatFloat(math.Float64frombits(vm.T.eval(v.t)), 'g', -1, 64))
		case "byte":
			sh = append(sh, fmt.Sprintf("%q", byte(vm.T.eval(v.t))))
		default:
			sh = append(sh, fmt.Sprintf("#%d", vm.T.eval(v.t)))
		}
	}
	s.Show = strings.Join(sh, " ")
	x.samples[slot] = s
}

func (vm *VM) obsText(o obsRec) string {
	if o.ti.kind == kString {
		return vm.evalStr(strOf(o.v))
	}
	if o.v.o == nil {
		return strconv.FormatInt(int64(o.v.n), 10)
	}
	return strconv.FormatInt(int64(vm.T.eval(o.v.o.(*Term))), 10)
}

func topReasons(m map[string]int, n int) []string {
	type kv struct {
		k string
		n int
	}
	var l []kv
	for k, v := range m {
		l = append(l, kv{k, v})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n || l[i].n == l[j].n && l[i].k < l[j].k })
	var out []string
	for i, e := range l {
		if i == n {
			break
		}
		out = append(out, fmt.Sprintf("%s (x%d)", e.k, e.n))
	}
	return out
}
