package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type gstat uint8

const (
	gRun gstat = iota
	gBlocked
	gDone
)

// syncOp is the synchronisation operation a transition starts with.
type syncOp struct {
	ts    []touch
	sel   bool // select statement
	block bool // without default
	g     *G
}

// touch is one object of a syncOp. kind: 'm' lock or atomic, 's' send, 'r' receive, 'c' close, 'x' anything on a channel.
type touch struct {
	o    any
	off  int
	w    bool
	kind byte
}

var schedDebug = os.Getenv("SCHEDDEBUG") != ""

func selWaiters(q []*waiter, f func(*waiter)) {
	for _, w := range q {
		if !w.dead && w.sel != nil && !w.sel.done {
			f(w)
		}
	}
}

// widen adds the channels of the select statements that wait on a channel of op.
func (op *syncOp) widen() []touch {
	ts := op.ts
	for _, t := range op.ts {
		c, ok := t.o.(*ChanObj)
		if !ok {
			continue
		}
		add := func(w *waiter) {
			for _, s := range w.sel.in.sel {
				if o := w.sel.fr.get(s.ch).o; o != nil {
					ts = append(ts[:len(ts):len(ts)], touch{o: o, kind: 'x'})
				}
			}
		}
		selWaiters(c.recvq, add)
		selWaiters(c.sendq, add)
	}
	return ts
}

// plain: the operation behaves like one send or receive: it is no select, or none of its cases is ready yet.
func (vm *VM) plain(op *syncOp) bool {
	if !op.sel {
		return true
	}
	if !op.block {
		return false
	}
	for _, t := range op.ts {
		c := t.o.(*ChanObj)
		if t.kind == 's' && vm.canSend(c, op.g) || t.kind == 'r' && vm.canRecv(c, op.g) {
			return false
		}
	}
	return true
}

// commute tells whether two operations of different goroutines lead to the same state in either order
// (in the current state). A send and a receive on one channel do, whichever comes first and whether
// or not it blocks; so do a close and a receive when nobody waits to send.
func (vm *VM) commute(a, b *syncOp) bool {
	if a == nil || b == nil {
		return true
	}
	at, bt := a.widen(), b.widen()
	for _, x := range at {
		for _, y := range bt {
			if x.o != y.o {
				continue
			}
			if x.kind == 'm' {
				if x.off == y.off && (x.w || y.w) {
					return false
				}
				continue
			}
			k, l := x.kind, y.kind
			if k == 'r' {
				k, l = l, k
			}
			c := x.o.(*ChanObj)
			if l == 'r' && (k == 's' || k == 'c' && !hasWaiter(c.sendq, nil)) && vm.plain(a) && vm.plain(b) {
				continue
			}
			return false
		}
	}
	return true
}

// G is an interpreted goroutine.
type G struct {
	id      int
	top     *Frame
	st      gstat
	poll    func() bool // when blocked on a condition rather than a channel
	why     string
	throw   *Value // panic to raise on resumption
	vc      vclock
	yielded bool
	pend    *syncOp // what its next transition starts with (nil: nothing others can see)
	panics  []*panicRec
	daemon  bool
	onPanic func(v Value) // recovery done by a modelled library around this goroutine
}

type panicRec struct {
	val       Value
	recovered bool
	frame     *Frame // frame being unwound
	trace     string
}

type deferred struct {
	fn   *Closure
	args []Value
	ci   *callInfo
	bi   string
}

type Frame struct {
	fn      *Fn
	regs    []Value
	pc      int
	caller  *Frame
	ret     int32 // destination in caller, -1: discard
	defers  []deferred
	unwind  *panicRec // panic being propagated through this frame
	running bool      // RunDefers in progress (normal)
	deferOf *Frame    // frame whose deferred function this is
	cont    func(v Value)
}

type undoRec struct {
	o   *Obj
	off int
	old Value
}
type undoMap struct {
	m    *MapObj
	ents []mapEnt
	n    int
	nsym int
}

type dec struct {
	taken   bool
	implied bool
	isVal   bool
	val     uint64
}

type timer struct {
	at     int64
	seq    int
	obj    *Obj
	fn     *Closure
	ch     *ChanObj
	active bool
	wake   func()
	period int64
}

type VM struct {
	P       *Program
	T       *Terms
	S       *Solver
	X       *Explorer
	fns     map[*ssa.Function]*Fn
	globals map[*ssa.Global]*Obj
	tiMap   *typeutil.Map
	tiPtr   map[types.Type]*TI
	implTab map[[2]int]bool
	methTab map[methKey]*Fn

	pathGlobals []*Obj
	inPath      bool
	undo        []undoRec
	undoMaps    []undoMap
	saved       map[*MapObj]bool

	// per path
	gs        []*G
	runq      []*G
	cur       *G
	prefix    []dec
	decs      []dec
	pc        []*Term
	pcSet     map[*Term]bool
	vars      []*Term
	nsrc      int // variables that are harness inputs
	srcs      []srcVal
	steps     int64
	now       int64
	timers    []*timer
	tseq      int
	objID     int32
	obs       []obsRec
	reached   []string
	rands     []*Term
	mapUsed   bool
	randLeft  int
	randSeed  uint64
	mapLeft   int
	sched     schedCfg
	sleep     map[*G]bool
	wasSched  bool
	clockLeft int // how many timers may still fire while goroutines can run
	wasClock  bool
	markEpoch uint32
	preempts  int
	side      map[sideKey]any

	parseFloatFn *Fn
	notes        map[string]bool
	texts        []numTexts
	race         bool
	nchoice      int
	maxSteps     int64
	aborted      bool
	raceObjs     []*Obj
	qid          int
	trace        bool
	freeRegs     map[int][][]Value
	nqSelf       int64
}

type schedCfg struct {
	all   bool // every interleaving
	on    bool
	bound int
}

type sideKey struct {
	o   *Obj
	off int
}

type srcVal struct {
	kind string
	t    *Term
	lo   int64
}

type obsRec struct {
	label string
	v     Value
	ti    *TI
}

type methKey struct {
	tid int
	m   *types.Func
}

// signals raised as Go panics inside the interpreter
type throwSig struct{ v Value }
type endSig struct {
	kind string // "assume", "violation", "incomplete", "done"
	msg  string
}

func newVM(p *Program, x *Explorer) *VM {
	vm := &VM{P: p, X: x, T: newTerms(), fns: map[*ssa.Function]*Fn{}, globals: map[*ssa.Global]*Obj{}, tiMap: new(typeutil.Map),
		tiPtr: map[types.Type]*TI{}, implTab: map[[2]int]bool{}, methTab: map[methKey]*Fn{}, saved: map[*MapObj]bool{},
		freeRegs: map[int][][]Value{}, notes: map[string]bool{}}
	vm.tiMap.SetHasher(typeutil.MakeHasher())
	return vm
}

func (vm *VM) newObj(n int) *Obj {
	vm.objID++
	o := &Obj{cells: make([]Value, n), id: vm.objID}
	if vm.inPath {
		o.epoch = 1
	}
	return o
}

// ---- throwing ----

func (vm *VM) runtimePanic(msg string) {
	panic(throwSig{vm.mkRuntimeError(msg)})
}

func (vm *VM) mkRuntimeError(msg string) Value {
	return Value{o: &Iface{ti: vm.ti(vm.P.rtErrType), v: Value{o: Agg{mkStr(msg)}}}}
}

func (vm *VM) end(kind, msg string) {
	panic(endSig{kind, msg})
}

// ---- frames ----

func (vm *VM) getRegs(n int) []Value {
	if l := vm.freeRegs[n]; len(l) > 0 {
		r := l[len(l)-1]
		vm.freeRegs[n] = l[:len(l)-1]
		return r
	}
	return make([]Value, n)
}

func (vm *VM) putRegs(r []Value) {
	clear(r)
	vm.freeRegs[len(r)] = append(vm.freeRegs[len(r)], r)
}

func (vm *VM) pushFrame(g *G, fn *Fn, args []Value, binds []Value, ret int32) *Frame {
	vm.build(fn)
	if fn.code == nil {
		panic(unsupported("no body: " + fn.name))
	}
	fr := &Frame{fn: fn, regs: vm.getRegs(fn.nregs), caller: g.top, ret: ret}
	copy(fr.regs, args)
	copy(fr.regs[fn.nparams:], binds)
	fn.hit = true
	fn.blkHit[0] = true
	depth := 0
	if vm.steps&0xff == 0 {
		for f := fr; f != nil; f = f.caller {
			depth++
		}
		if depth > 20000 {
			vm.end("violation", "stack overflow: unbounded recursion in "+fn.name)
		}
	}
	g.top = fr
	return fr
}

func (vm *VM) spawn(c *Closure, args []Value) *G {
	g := &G{id: len(vm.gs) + 1}
	vm.gs = append(vm.gs, g)
	if c.fn.intr != nil {
		// run the intrinsic at once (logging and the like)
		g.st = gDone
		c.fn.intr(vm, g, c.fn, args, nil)
		return g
	}
	vm.pushFrame(g, c.fn, args, c.binds, -1)
	vm.runq = append(vm.runq, g)
	if vm.race {
		p := vclock{}
		if vm.cur != nil {
			p = vm.cur.vc.clone()
			vm.cur.vc.tick(vm.cur.id)
		}
		p.tick(g.id)
		g.vc = p
	}
	return g
}

func (vm *VM) wake(g *G) {
	if g.st == gBlocked {
		g.st = gRun
		if g.poll == nil {
			g.pend = nil // a partner completed its operation
		}
		g.poll = nil
		vm.runq = append(vm.runq, g)
	}
}

func (fr *Frame) get(i int32) Value {
	if i >= 0 {
		return fr.regs[i]
	}
	return fr.fn.consts[^i]
}

// return from frame with results already packed
func (vm *VM) popFrame(g *G, v Value) {
	fr := g.top
	g.top = fr.caller
	if fr.deferOf != nil {
		// a deferred call finished
		par := fr.deferOf
		vm.putRegs(fr.regs)
		fr.regs = nil
		vm.afterDefer(g, par)
		return
	}
	vm.putRegs(fr.regs)
	fr.regs = nil
	if fr.cont != nil {
		fr.cont(v)
		return
	}
	if g.top == nil {
		g.st = gDone
		return
	}
	if fr.ret >= 0 {
		g.top.regs[fr.ret] = v
	}
}

// wrapper is a function that only calls f (or a builtin), so that a deferred call may block and be retried.
func wrapper(f *Fn, bi string, n int, ci *callInfo, quiet bool) *Fn {
	c := callInfo{}
	if ci != nil {
		c = *ci
	}
	c.fn, c.builtin, c.method = f, bi, nil
	var args []int32
	for i := 0; i < n; i++ {
		args = append(args, int32(i))
	}
	pos := token.NoPos
	if ci != nil && ci.instr != nil {
		pos = ci.instr.Pos()
	}
	return &Fn{name: "deferred call", nregs: n + 1, nparams: n, built: true, recover: -1, quiet: quiet,
		code: []Instr{{op: opCall, dst: int32(n), args: args, call: &c, pos: pos}, {op: opReturn, pos: pos}}, blkHit: make([]bool, 1), pcBlk: make([]int32, 2)}
}

// continue running the deferred calls of fr (g.top == fr)
func (vm *VM) afterDefer(g *G, fr *Frame) {
	if fr.unwind != nil && fr.unwind.recovered {
		// a deferred function recovered: stop unwinding, run the remaining defers, then return
		g.panics = g.panics[:len(g.panics)-1]
		fr.unwind = nil
		fr.running = true
		if fr.fn.recover >= 0 {
			fr.pc = int(fr.fn.recover)
		} else {
			fr.pc = -1
		}
		// the recover block itself performs RunDefers? It does not: run them here.
	}
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		if d.bi != "" && d.bi != "close" {
			vm.callBuiltin(g, fr, d.bi, d.args, d.ci)
			continue
		}
		if d.bi != "" {
			vm.pushFrame(g, wrapper(nil, d.bi, len(d.args), d.ci, fr.fn.quiet), d.args, nil, -1).deferOf = fr
			return
		}
		if d.fn == nil {
			vm.throwIn(g, vm.mkRuntimeError("invalid memory address or nil pointer dereference (nil deferred func)"))
			return
		}
		if d.fn.fn.intr != nil {
			vm.pushFrame(g, wrapper(d.fn.fn, "", len(d.args), d.ci, fr.fn.quiet), d.args, nil, -1).deferOf = fr
			return
		}
		nf := vm.pushFrame(g, d.fn.fn, d.args, d.fn.binds, -1)
		nf.deferOf = fr
		return
	}
	if fr.unwind != nil {
		vm.unwindTo(g)
		return
	}
	if fr.running {
		fr.running = false
		if fr.pc == -1 {
			var v Value
			switch len(fr.fn.results) {
			case 0:
			case 1:
				v = fr.fn.results[0].zero()
			default:
				t := Tuple{}
				for _, r := range fr.fn.results {
					t = append(t, r.zero())
				}
				v = Value{o: t}
			}
			if fr.caller != nil && fr.deferOf == nil && fr.cont == nil {
				fr.caller.pc++
			}
			vm.popFrame(g, v)
		}
	}
}

// unwindTo propagates g's current panic out of the top frame, whose defers are exhausted.
func (vm *VM) unwindTo(g *G) {
	p := g.panics[len(g.panics)-1]
	fr := g.top
	g.top = fr.caller
	if fr.deferOf != nil {
		par := fr.deferOf
		// a panic in a deferred call replaces the one being propagated
		if par.unwind != nil {
			for i, q := range g.panics {
				if q == par.unwind {
					g.panics = append(g.panics[:i], g.panics[i+1:]...)
					break
				}
			}
		}
		g.top = par
	}
	if g.top == nil {
		vm.uncaught(g, p)
		return
	}
	g.top.unwind = p
	p.frame = g.top
	g.top.running = false
	vm.afterDefer(g, g.top)
}

func (vm *VM) uncaught(g *G, p *panicRec) {
	if g.onPanic != nil {
		g.st = gDone
		g.top = nil
		return
	}
	vm.end("violation", "crash: panic: "+vm.panicText(p.val)+" ["+p.trace+"]")
}

func (vm *VM) panicText(v Value) string {
	if i, ok := v.o.(*Iface); ok {
		if types.Identical(i.ti.t, vm.P.rtErrType) {
			return "runtime error: " + strOf(i.v.o.(Agg)[0]).s
		}
		if i.ti.kind == kString {
			return vm.showVal(i.v)
		}
		if p, ok := i.v.o.(*Obj); ok && len(p.cells) > 0 {
			return i.ti.t.String() + " " + vm.showVal(p.cells[0])
		}
		return i.ti.t.String()
	}
	return "nil"
}

func (vm *VM) throwIn(g *G, v Value) {
	p := &panicRec{val: v, frame: g.top, trace: vm.where(g)}
	g.panics = append(g.panics, p)
	g.top.unwind = p
	g.top.running = false
	vm.afterDefer(g, g.top)
}

func (vm *VM) where(g *G) string {
	var s []string
	n := 0
	for f := g.top; f != nil && n < 6; f = f.caller {
		p := token.NoPos
		if f.pc >= 0 && f.pc < len(f.fn.code) {
			p = f.fn.code[f.pc].pos
		}
		loc := ""
		if p.IsValid() {
			q := vm.P.fset.Position(p)
			fn := q.Filename
			if i := strings.LastIndex(fn, "/"); i >= 0 {
				fn = fn[i+1:]
			}
			loc = fmt.Sprintf("@%s:%d", fn, q.Line)
		}
		nm := f.fn.name
		if i := strings.LastIndex(nm, "/"); i >= 0 {
			nm = nm[i+1:]
		}
		s = append(s, nm+loc)
		n++
	}
	return strings.Join(s, " < ")
}

// ---- scheduler ----

// runMain executes fn in a fresh main goroutine until it finishes.
func (vm *VM) runMain(fn *Fn) {
	main := vm.spawn(&Closure{fn: fn}, nil)
	vm.schedule(main)
}

func (vm *VM) schedule(main *G) {
	for {
		if main.st == gDone {
			return
		}
		// wake pollers
		var cand []*G
		for _, g := range vm.runq {
			if g.st == gRun {
				cand = append(cand, g)
			}
		}
		vm.runq = cand
		for _, g := range vm.gs {
			if g.st == gBlocked && g.poll != nil && g.poll() {
				vm.wake(g)
			}
		}
		if len(vm.runq) == 0 {
			if vm.fireTimer() {
				continue
			}
			if main.st == gDone {
				return
			}
			vm.end("violation", "deadlock: every goroutine is blocked ["+vm.blockedList()+"]")
		}
		k := 0
		if vm.sched.all && vm.sched.on {
			// every interleaving up to exchanges of independent transitions (sleep sets)
			var free []int
			for i, g := range vm.runq {
				if !vm.sleep[g] {
					free = append(free, i)
				}
			}
			if len(free) == 0 && !(vm.clockLeft > 0 && vm.timerActive()) {
				vm.end("pruned", "")
			}
			// a transition that touches nothing shared commutes with everything: run it first
			c := -1
			for j, i := range free {
				if vm.runq[i].pend == nil {
					c = j
				}
			}
			if c >= 0 {
				free = free[c : c+1]
				c = 0
			} else {
				for g := range vm.sleep {
					if g.st == gRun && g.pend == nil {
						vm.end("pruned", "") // what it does first commutes with everything, time included
					}
				}
				clock := vm.clockLeft > 0 && vm.timerActive()
				if len(free) > 1 && !clock {
					free = vm.persistent(free)
				}
				if clock {
					c = int(vm.choose(len(free) + 1))
					if c == len(free) {
						// time passes
						vm.clockLeft--
						vm.sleep = nil
						vm.fireTimer()
						continue
					}
				} else {
					c = int(vm.choose(len(free)))
				}
			}
			for _, i := range free[:c] {
				if vm.sleep == nil {
					vm.sleep = map[*G]bool{}
				}
				vm.sleep[vm.runq[i]] = true
			}
			k = free[c]
			for o := range vm.sleep {
				if o != vm.runq[k] && !vm.commute(vm.runq[k].pend, o.pend) {
					delete(vm.sleep, o)
				}
			}
		} else if vm.sched.on && len(vm.runq) > 1 {
			// if the goroutine that ran last can continue, switching away counts as a preemption
			last := -1
			for i, g := range vm.runq {
				if g == vm.cur {
					last = i
				}
			}
			if last >= 0 && vm.preempts >= vm.sched.bound {
				k = last
			} else {
				k = int(vm.choose(len(vm.runq)))
				if last >= 0 && k != last {
					vm.preempts++
				}
			}
		}
		g := vm.runq[k]
		vm.runq = append(vm.runq[:k:k], vm.runq[k+1:]...)
		vm.cur = g
		if schedDebug {
			fmt.Printf("  g%d %v\n", g.id, vm.where(g))
		}
		vm.runG(g)
		if g.st == gRun { // yielded
			vm.runq = append(vm.runq, g)
		}
	}
}

func (vm *VM) blockedList() string {
	var s []string
	for _, g := range vm.gs {
		if g.st == gBlocked {
			s = append(s, fmt.Sprintf("g%d %s at %s", g.id, g.why, vm.where(g)))
		}
	}
	if len(s) > 4 {
		s = s[:4]
	}
	return strings.Join(s, "; ")
}

func (vm *VM) timerActive() bool {
	for _, t := range vm.timers {
		if t.active {
			return true
		}
	}
	return false
}

func (vm *VM) fireTimer() bool {
	var best *timer
	for _, t := range vm.timers {
		if t.active && (best == nil || t.at < best.at || t.at == best.at && t.seq < best.seq) {
			best = t
		}
	}
	if best == nil {
		return false
	}
	if best.at > vm.now {
		vm.now = best.at
	}
	if best.period > 0 {
		best.at += best.period
		best.period *= 2 // tickers slow down so that idle loops end
		if best.at-vm.now > int64(3600e9) {
			best.active = false
		}
	} else {
		best.active = false
	}
	vm.timers = compactTimers(vm.timers)
	switch {
	case best.fn != nil:
		vm.spawn(best.fn, nil)
	case best.ch != nil:
		if len(best.ch.recvq) > 0 || len(best.ch.buf) < best.ch.cap {
			vm.chanSend(best.ch, vm.timeNow())
		}
	case best.wake != nil:
		best.wake()
	}
	return true
}

func compactTimers(ts []*timer) []*timer {
	out := ts[:0]
	for _, t := range ts {
		if t.active {
			out = append(out, t)
		}
	}
	return out
}

func (vm *VM) addTimer(d int64, t *timer) *timer {
	if d < 0 {
		d = 0
	}
	t.at = vm.now + d
	vm.tseq++
	t.seq = vm.tseq
	t.active = true
	vm.timers = append(vm.timers, t)
	return t
}

// runG runs g until it blocks, yields or ends, translating thrown panics.
func (vm *VM) runG(g *G) {
	if g.throw != nil {
		v := *g.throw
		g.throw = nil
		vm.throwSafe(g, v)
	}
	for g.st == gRun {
		if vm.runLoop(g) {
			return
		}
	}
}

func (vm *VM) throwSafe(g *G, v Value) {
	for {
		next, again := vm.tryThrow(g, v)
		if !again {
			return
		}
		v = next
	}
}

func (vm *VM) tryThrow(g *G, v Value) (nv Value, again bool) {
	defer func() {
		if r := recover(); r != nil {
			if t, ok := r.(throwSig); ok {
				nv, again = t.v, true
				return
			}
			panic(r)
		}
	}()
	vm.throwIn(g, v)
	return
}

func (vm *VM) runLoop(g *G) (stop bool) {
	defer func() {
		if r := recover(); r != nil {
			if t, ok := r.(throwSig); ok {
				vm.throwSafe(g, t.v)
				stop = false
				return
			}
			panic(r)
		}
	}()
	vm.exec(g)
	return true
}

// syncPoint is called before an operation that other goroutines can observe;
// it reports true when the goroutine should give way first.
func (vm *VM) syncPoint(g *G, o any, off int, w bool) bool {
	if !vm.sched.on {
		return false
	}
	if g.top.fn.quiet {
		g.yielded, g.pend = false, nil
		return false
	}
	if o == nil {
		return vm.syncPointAt(g, nil)
	}
	return vm.syncPointAt(g, &syncOp{ts: []touch{{o, off, w, 'm'}}, g: g})
}

// syncPointChan is syncPoint for a send, receive or close.
func (vm *VM) syncPointChan(g *G, o any, kind byte) bool {
	if !vm.sched.on {
		return false
	}
	if o == nil {
		return vm.syncPointAt(g, nil)
	}
	return vm.syncPointAt(g, &syncOp{ts: []touch{{o: o, kind: kind}}, g: g})
}

func (vm *VM) syncPointSel(g *G, fr *Frame, in *Instr) bool {
	if !vm.sched.on {
		return false
	}
	op := &syncOp{sel: true, block: in.block, g: g}
	for _, s := range in.sel {
		if c := fr.get(s.ch).o; c != nil {
			k := byte('r')
			if s.send {
				k = 's'
			}
			op.ts = append(op.ts, touch{o: c, kind: k})
		}
	}
	return vm.syncPointAt(g, op)
}

func (vm *VM) syncPointAt(g *G, op *syncOp) bool {
	if g.yielded {
		g.yielded = false
		g.pend = op
		return false
	}
	if vm.preempts >= vm.sched.bound && !vm.sched.all {
		return false
	}
	others := false
	for _, o := range vm.gs {
		if o != g && (o.st == gRun || o.st == gBlocked && o.poll != nil && o.poll()) {
			others = true
			break
		}
	}
	if !others {
		g.pend = op
		return false
	}
	g.yielded = true
	g.pend = op
	return true
}

func (vm *VM) exec(g *G) {
	for g.st == gRun {
		fr := g.top
		fn := fr.fn
		code := fn.code
		vm.steps++
		if vm.steps > vm.maxSteps {
			vm.end("violation", "hang: step limit reached at "+vm.where(g))
		}
		in := &code[fr.pc]
		switch in.op {
		case opMove:
			fr.regs[in.dst] = fr.get(in.a)
		case opAlloc:
			fr.regs[in.dst] = Value{o: vm.newObj(in.ti.size)}
		case opBin:
			x, y := fr.get(in.a), fr.get(in.b)
			if in.ti.kind == kInt && x.o == nil && y.o == nil {
				fr.regs[in.dst] = vm.intBin(in.tok, in.ti, in.ti2, x.n, y.n)
			} else {
				fr.regs[in.dst] = vm.binop(in.tok, in.ti, in.ti2, x, y)
			}
		case opNot:
			x := fr.get(in.a)
			if x.o == nil {
				fr.regs[in.dst] = Value{n: x.n ^ 1}
			} else {
				fr.regs[in.dst] = tv(vm.T.mkNot(x.o.(*Term)))
			}
		case opNeg:
			fr.regs[in.dst] = vm.neg(in.ti, fr.get(in.a))
		case opCompl:
			x := fr.get(in.a)
			if x.o == nil {
				fr.regs[in.dst] = Value{n: ^x.n & mask(in.ti.w)}
			} else {
				fr.regs[in.dst] = tv(vm.T.mkBin(OXor, x.o.(*Term), vm.T.mkConst(in.ti.w, mask(in.ti.w))))
			}
		case opLoad:
			fr.regs[in.dst] = vm.load(fr.get(in.a), in.ti)
		case opStore:
			vm.store(fr.get(in.a), fr.get(in.b), in.ti)
		case opIf:
			c := fr.get(in.a)
			var t bool
			if c.o == nil {
				t = c.n != 0
			} else {
				t = vm.branch(c.o.(*Term))
			}
			if t {
				vm.jump(fr, in.mv1)
				fr.pc = int(in.x)
			} else {
				vm.jump(fr, in.mv2)
				fr.pc = int(in.y)
			}
			fn.blkHit[fn.pcBlk[fr.pc]] = true
			continue
		case opJump:
			vm.jump(fr, in.mv1)
			fr.pc = int(in.x)
			fn.blkHit[fn.pcBlk[fr.pc]] = true
			continue
		case opCall:
			if !vm.call(g, fr, in) {
				return // blocked or yielded; pc not advanced
			}
			continue
		case opGo:
			if vm.syncPoint(g, nil, 0, false) {
				return
			}
			c, args, bi := vm.callee(fr, in)
			if bi != "" {
				panic(unsupported("go builtin"))
			}
			if c == nil {
				vm.runtimePanic("go of nil func value")
			}
			vm.spawn(c, args)
		case opDefer:
			c, args, bi := vm.callee(fr, in)
			fr.defers = append(fr.defers, deferred{fn: c, args: args, ci: in.call, bi: bi})
		case opRunDefers:
			fr.pc++
			if len(fr.defers) > 0 {
				fr.running = true
				vm.afterDefer(g, fr)
			}
			continue
		case opReturn:
			var v Value
			switch len(in.args) {
			case 0:
			case 1:
				v = fr.get(in.args[0])
			default:
				t := make(Tuple, len(in.args))
				for i, a := range in.args {
					t[i] = fr.get(a)
				}
				v = Value{o: t}
			}
			if fr.caller != nil && fr.deferOf == nil && fr.cont == nil {
				fr.caller.pc++
			}
			vm.popFrame(g, v)
			continue
		case opExtract:
			t, ok := fr.get(in.a).o.(Tuple)
			if !ok {
				panic(unsupported("extract from non tuple"))
			}
			fr.regs[in.dst] = t[in.x]
		case opField:
			a := fr.get(in.a).o.(Agg)
			if in.ti.agg {
				fr.regs[in.dst] = Value{o: a[in.x : int(in.x)+in.ti.size : int(in.x)+in.ti.size]}
			} else {
				fr.regs[in.dst] = a[in.x]
			}
		case opFieldAddr:
			p := fr.get(in.a)
			if p.o == nil {
				vm.runtimePanic("invalid memory address or nil pointer dereference")
			}
			p.n += uint64(in.x)
			fr.regs[in.dst] = p
		case opIndexAddr:
			fr.regs[in.dst] = vm.indexAddr(fr, in)
		case opIndex:
			fr.regs[in.dst] = vm.index(in, fr.get(in.a), fr.get(in.b))
		case opLookup:
			fr.regs[in.dst] = vm.lookup(in, fr.get(in.a), fr.get(in.b))
		case opMapUpdate:
			vm.mapUpdate(fr.get(in.a), fr.get(in.b), fr.get(in.c), in.ti)
		case opMakeMap:
			m := &MapObj{idx: map[string]int{}, ki: in.ti.key}
			if vm.inPath {
				m.epoch = 1
			}
			fr.regs[in.dst] = Value{o: m}
		case opMakeChan:
			n := fr.get(in.a)
			k := vm.concretize(n, 64)
			c := &ChanObj{cap: int(int64(k)), ti: in.ti.elem}
			if vm.inPath {
				c.epoch = 1
			}
			fr.regs[in.dst] = Value{o: c}
		case opMakeClosure:
			c := &Closure{fn: in.call.fn, binds: make([]Value, len(in.args))}
			for i, a := range in.args {
				c.binds[i] = fr.get(a)
			}
			fr.regs[in.dst] = Value{o: c}
		case opMakeIface:
			fr.regs[in.dst] = Value{o: &Iface{ti: in.ti, v: fr.get(in.a)}}
		case opMakeSlice:
			fr.regs[in.dst] = vm.makeSlice(in.ti, fr.get(in.a), fr.get(in.b), in.ti2)
		case opSlice:
			fr.regs[in.dst] = vm.slice(fr, in)
		case opSlice2Arr:
			s := sliceOf(fr.get(in.a))
			if s.len < in.ti.n {
				vm.runtimePanic("cannot convert slice to array pointer: length too short")
			}
			if fr.get(in.a).o == nil {
				fr.regs[in.dst] = Value{}
			} else {
				fr.regs[in.dst] = Value{n: uint64(s.off), o: s.obj}
			}
		case opConvert:
			fr.regs[in.dst] = vm.convert(in.ti, in.ti2, fr.get(in.a))
		case opTypeAssert:
			fr.regs[in.dst] = vm.typeAssert(in, fr.get(in.a))
		case opRange:
			x := fr.get(in.a)
			it := &mapIter{}
			if in.ti.kind == kString {
				it.str = strOf(x)
			} else if x.o != nil {
				it.m = x.o.(*MapObj)
				if vm.race {
					vm.raceMap(it.m, false)
				}
			}
			fr.regs[in.dst] = Value{o: it}
		case opNext:
			fr.regs[in.dst] = vm.next(in, fr.get(in.a).o.(*mapIter))
		case opPanic:
			v := fr.get(in.a)
			if v.o == nil {
				v = vm.mkRuntimeError("panic called with nil argument")
			}
			panic(throwSig{v})
		case opSend:
			if vm.syncPointChan(g, fr.get(in.a).o, 's') {
				return
			}
			if !vm.doSend(g, fr, fr.get(in.a), fr.get(in.b)) {
				return
			}
		case opRecv:
			if vm.syncPointChan(g, fr.get(in.a).o, 'r') {
				return
			}
			if !vm.doRecv(g, fr, in) {
				return
			}
		case opSelect:
			if vm.syncPointSel(g, fr, in) {
				return
			}
			if !vm.doSelect(g, fr, in) {
				return
			}
		default:
			panic(unsupported(fmt.Sprintf("op %d", in.op)))
		}
		fr.pc++
	}
}

func (vm *VM) jump(fr *Frame, mv []move) {
	switch len(mv) {
	case 0:
	case 1:
		fr.regs[mv[0].dst] = fr.get(mv[0].src)
	default:
		var buf [8]Value
		t := buf[:0]
		for _, m := range mv {
			t = append(t, fr.get(m.src))
		}
		for i, m := range mv {
			fr.regs[m.dst] = t[i]
		}
	}
}

// callee resolves the function and evaluates the arguments of a call.
func (vm *VM) callee(fr *Frame, in *Instr) (*Closure, []Value, string) {
	ci := in.call
	if ci.builtin != "" {
		args := make([]Value, len(in.args))
		for i, a := range in.args {
			args[i] = fr.get(a)
		}
		return nil, args, ci.builtin
	}
	if ci.method != nil {
		recv := fr.get(ci.fnReg)
		ifc, ok := recv.o.(*Iface)
		if !ok {
			vm.runtimePanic("invalid memory address or nil pointer dereference")
		}
		args := make([]Value, len(in.args)+1)
		args[0] = ifc.v
		for i, a := range in.args {
			args[i+1] = fr.get(a)
		}
		return &Closure{fn: vm.method(ifc.ti, ci.method)}, args, ""
	}
	args := make([]Value, len(in.args))
	for i, a := range in.args {
		args[i] = fr.get(a)
	}
	if ci.fn != nil {
		return &Closure{fn: ci.fn}, args, ""
	}
	switch f := fr.get(ci.fnReg).o.(type) {
	case nil:
		return nil, args, ""
	case *Closure:
		return f, args, ""
	case *Builtin:
		return nil, args, f.name
	default:
		panic(unsupported(fmt.Sprintf("call of %T", f)))
	}
}

func (vm *VM) method(t *TI, m *types.Func) *Fn {
	k := methKey{t.id, m}
	if f, ok := vm.methTab[k]; ok {
		return f
	}
	sel := vm.P.methodSet(t.t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		panic(unsupported("method " + m.Name() + " of " + t.t.String()))
	}
	f := vm.fnOf(vm.P.methodValue(sel))
	vm.methTab[k] = f
	return f
}

func (vm *VM) call(g *G, fr *Frame, in *Instr) bool {
	c, args, bi := vm.callee(fr, in)
	if bi == "close" && vm.syncPointChan(g, args[0].o, 'c') {
		return false
	}
	if bi != "" {
		v := vm.callBuiltin(g, fr, bi, args, in.call)
		fr.regs[in.dst] = v
		fr.pc++
		return true
	}
	if c == nil {
		vm.runtimePanic("invalid memory address or nil pointer dereference (call of nil function)")
	}
	if c.fn.intr != nil {
		pc := fr.pc
		v, ok := c.fn.intr(vm, g, c.fn, args, in.call)
		if !ok {
			return false
		}
		if g.top == fr && fr.pc == pc {
			if in.dst >= 0 {
				fr.regs[in.dst] = v
			}
			fr.pc++
		}
		return true
	}
	vm.pushFrame(g, c.fn, args, c.binds, in.dst)
	return true
}

// callSync runs a closure to completion from inside an intrinsic; it must not block.
func (vm *VM) block(g *G, why string, poll func() bool) {
	g.st = gBlocked
	g.why = why
	g.poll = poll
}

// ---- decisions ----

func (vm *VM) addPC(t *Term) {
	if t.op == OConst {
		if t.k == 0 {
			vm.end("infeasible", "")
		}
		return
	}
	if vm.pcSet[t] {
		return
	}
	vm.pcSet[t] = true
	vm.pc = append(vm.pc, t)
}

func (vm *VM) known(t *Term) (bool, bool) {
	if t.op == OConst {
		return t.k == 1, true
	}
	if vm.pcSet[t] {
		return true, true
	}
	if vm.pcSet[vm.T.mkNot(t)] {
		return false, true
	}
	return false, false
}

// maxDecisions is how many branches one path may leave open; a path beyond it is replayed natively.
const maxDecisions = 3000

func (vm *VM) branch(cond *Term) bool {
	if v, ok := vm.known(cond); ok {
		return v
	}
	i := len(vm.decs)
	if i < len(vm.prefix) {
		d := vm.prefix[i]
		if d.isVal {
			panic("internal: decision replay mismatch")
		}
		vm.decs = append(vm.decs, d)
		if !d.taken {
			cond = vm.T.mkNot(cond)
		}
		if d.implied {
			vm.pcSet[cond] = true
		} else {
			vm.addPC(cond)
		}
		return d.taken
	}
	if i-len(vm.prefix) > 100 && vm.inPath && vm.X != nil {
		vm.end("later", "")
	}
	if i > maxDecisions {
		vm.end("violation", "hang: too many open branches on one path, at "+vm.where(vm.cur))
	}
	if i&15 == 15 && vm.X != nil && vm.inPath && time.Now().After(vm.X.cutAt.Add(2*time.Second)) {
		vm.end("incomplete", "cut at the deadline")
	}
	v := vm.T.eval(cond) == 1
	pos, neg := cond, vm.T.mkNot(cond)
	if !v {
		pos, neg = neg, pos
	}
	d := dec{taken: v}
	res, m := vm.query(neg)
	switch res {
	case Unsat:
		d.implied = true
		vm.pcSet[pos] = true
	case Sat:
		vm.X.fork(vm, dec{taken: !v}, m)
		vm.addPC(pos)
	default:
		vm.note("solver could not decide a branch")
		vm.addPC(pos)
	}
	vm.decs = append(vm.decs, d)
	return v
}

func (vm *VM) query(extra *Term) (Result, []uint64) {
	r, m, err := vm.S.check(vm.pc, extra, vm.vars, vm.T.model)
	if err != nil {
		vm.note("solver: " + err.Error())
		vm.S.restart()
		return Unknown, nil
	}
	return r, m
}

// concretize forks over the feasible values of v.
func (vm *VM) concretize(v Value, w uint8) uint64 {
	t, ok := v.o.(*Term)
	if !ok {
		return v.n
	}
	return vm.fixTerm(t)
}

func (vm *VM) fixTerm(t *Term) uint64 {
	if t.op == OConst {
		return t.k
	}
	for {
		// a value that is already settled takes no decision, on replay as on first execution
		val := vm.T.eval(t)
		if v, ok := vm.known(vm.T.mkEq(t, vm.T.mkConst(t.w, val))); ok && v {
			return val
		}
		i := len(vm.decs)
		if i < len(vm.prefix) {
			d := vm.prefix[i]
			if !d.isVal {
				panic("internal: decision replay mismatch")
			}
			vm.decs = append(vm.decs, d)
			c := vm.T.mkEq(t, vm.T.mkConst(t.w, d.val))
			if d.taken {
				if d.implied {
					vm.pcSet[c] = true
				} else {
					vm.addPC(c)
				}
				return d.val
			}
			vm.addPC(vm.T.mkNot(c))
			continue
		}
		c := vm.T.mkEq(t, vm.T.mkConst(t.w, val))
		d := dec{taken: true, isVal: true, val: val}
		res, m := vm.query(vm.T.mkNot(c))
		switch res {
		case Unsat:
			d.implied = true
			vm.pcSet[c] = true
		case Sat:
			vm.X.fork(vm, dec{taken: false, isVal: true, val: val}, m)
			vm.addPC(c)
		default:
			vm.note("solver could not decide a value")
			vm.addPC(c)
		}
		vm.decs = append(vm.decs, d)
		return val
	}
}

// concretizeOne keeps one feasible value of t and drops the others, recorded as a cut.
func (vm *VM) concretizeOne(t *Term, why string) uint64 {
	if t.op == OConst {
		return t.k
	}
	vm.note(why)
	i := len(vm.decs)
	var val uint64
	if i < len(vm.prefix) {
		val = vm.prefix[i].val
		vm.decs = append(vm.decs, vm.prefix[i])
	} else {
		val = vm.T.eval(t)
		vm.decs = append(vm.decs, dec{taken: true, isVal: true, val: val})
	}
	vm.addPC(vm.T.mkEq(t, vm.T.mkConst(t.w, val)))
	return val
}

func (vm *VM) assume(c Value) {
	t, ok := c.o.(*Term)
	if !ok {
		if c.n == 0 {
			vm.end("assume", "")
		}
		return
	}
	if v, ok := vm.known(t); ok {
		if !v {
			vm.end("assume", "")
		}
		return
	}
	if vm.T.eval(t) == 1 {
		vm.addPC(t)
		return
	}
	res, m := vm.query(t)
	switch res {
	case Sat:
		vm.addPC(t)
		vm.setModel(m)
	case Unsat:
		vm.end("assume", "")
	default:
		vm.note("solver could not decide an assumption")
		vm.end("incomplete", "assumption undecided")
	}
}

func (vm *VM) setModel(m []uint64) { vm.T.setModel(m) }

func (vm *VM) assertT(c Value, msg string) {
	t, ok := c.o.(*Term)
	if !ok {
		vm.X.assertions.Add(1)
		if c.n == 0 {
			vm.end("violation", msg)
		}
		return
	}
	if v, ok := vm.known(t); ok {
		vm.X.assertions.Add(1)
		if !v {
			vm.end("violation", msg)
		}
		return
	}
	if len(vm.decs) < len(vm.prefix) {
		return // decided when the parent path passed here
	}
	vm.X.assertions.Add(1)
	if vm.T.eval(t) == 0 {
		vm.addPC(vm.T.mkNot(t))
		vm.end("violation", msg)
	}
	res, m := vm.query(vm.T.mkNot(t))
	switch res {
	case Unsat:
		vm.X.provedQ.Add(1)
	case Sat:
		vm.setModel(m)
		vm.addPC(vm.T.mkNot(t))
		vm.end("violation", msg)
	default:
		vm.note("solver could not decide an assertion")
	}
}

// choose returns a value in [0,n), all of them explored.
func (vm *VM) choose(n int) uint64 {
	if n <= 1 {
		return 0
	}
	return vm.fixFresh(vm.newVar(8, 0, uint64(n-1)), n)
}

// fixFresh forks over all values of a fresh variable with range [0,n); every
// value is feasible, so no query is needed.
func (vm *VM) fixFresh(t *Term, n int) uint64 {
	i := len(vm.decs)
	var val uint64
	if i < len(vm.prefix) {
		val = vm.prefix[i].val
		vm.decs = append(vm.decs, vm.prefix[i])
	} else {
		val = vm.T.eval(t)
		for k := n - 1; k >= 0; k-- {
			if uint64(k) == val {
				continue
			}
			m := make([]uint64, len(vm.vars))
			copy(m, vm.T.model)
			for j := len(vm.T.model); j < len(m); j++ {
				m[j] = vm.vars[j].k2
			}
			m[t.k] = uint64(k)
			vm.X.fork(vm, dec{taken: true, isVal: true, val: uint64(k)}, m)
		}
		vm.decs = append(vm.decs, dec{taken: true, isVal: true, val: val})
	}
	vm.addPC(vm.T.mkEq(t, vm.T.mkConst(t.w, val)))
	return val
}

func (vm *VM) newVar(w uint8, lo, hi uint64) *Term {
	t := vm.T.mkVar(w, len(vm.vars), lo, hi)
	vm.vars = append(vm.vars, t)
	if w > 0 && lo <= hi {
		c := func(x *Term) {
			if x.op != OConst {
				vm.addPC(x)
			}
		}
		// the declared range makes these trivially true as terms; assert them raw
		if lo > 0 {
			c(vm.T.intern(OUle, 0, vm.T.mkConst(w, lo), t, nil, 0, 0, 0, 0))
		}
		if hi < mask(w) {
			c(vm.T.intern(OUle, 0, t, vm.T.mkConst(w, hi), nil, 0, 0, 0, 0))
		}
	} else if w > 0 {
		vm.addPC(vm.T.intern(OSle, 0, vm.T.mkConst(w, lo), t, nil, 0, 0, 0, 0))
		vm.addPC(vm.T.intern(OSle, 0, t, vm.T.mkConst(w, hi), nil, 0, 0, 0, 0))
	}
	return t
}

func (vm *VM) note(s string) {
	vm.notes[s] = true
}

func sortedKeys(m map[string]bool) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}
