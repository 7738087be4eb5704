package main

import "fmt"

// Persistent sets: which goroutines have to be considered at a scheduling point. A set of
// goroutines is enough when nobody outside it can reach the objects its members are about to use
// (or wait for): whatever the others do first, they cannot interfere. Reachability is computed
// over stacks, captured variables, channel contents and the globals of the repository.

type reach struct {
	vm    *VM
	epoch uint32
	hits  map[any]uint64 // objects asked about: who reaches them (bit 63: a global)
	bit   uint64
}

func (r *reach) val(v Value) {
	switch x := v.o.(type) {
	case nil, *Term, *Str:
	case *Obj:
		r.obj(x)
	case *SliceV:
		r.obj(x.obj)
	case *Iface:
		r.val(x.v)
	case *Closure:
		r.closure(x)
	case Agg:
		r.vals(x)
	case Tuple:
		r.vals(x)
	case *MapObj:
		if x == nil || x.mark == r.epoch {
			return
		}
		x.mark = r.epoch
		for i := range x.ents {
			if x.ents[i].live {
				r.val(x.ents[i].k)
				r.val(x.ents[i].v)
			}
		}
	case *mapIter:
		r.val(Value{o: x.m})
	case *ChanObj:
		if x == nil {
			return
		}
		if _, ok := r.hits[x]; ok {
			r.hits[x] |= r.bit
		}
		if x.mark == r.epoch {
			return
		}
		x.mark = r.epoch
		r.vals(x.buf)
		for _, w := range x.sendq {
			r.val(w.val)
		}
	}
}

func (r *reach) vals(l []Value) {
	for i := range l {
		if l[i].o != nil {
			r.val(l[i])
		}
	}
}

func (r *reach) obj(x *Obj) {
	if x == nil || x.mark == r.epoch {
		return
	}
	x.mark = r.epoch
	if _, ok := r.hits[x]; ok {
		r.hits[x] |= r.bit
	}
	r.vals(x.cells)
}

func (r *reach) closure(c *Closure) {
	if c != nil {
		r.vals(c.binds)
	}
}

func (r *reach) goroutine(g *G) {
	for f := g.top; f != nil; f = f.caller {
		r.frame(f)
		if f.deferOf != nil {
			r.frame(f.deferOf)
		}
	}
	if g.throw != nil {
		r.val(*g.throw)
	}
	for _, p := range g.panics {
		r.val(p.val)
	}
}

func (r *reach) frame(f *Frame) {
	r.vals(f.regs)
	for _, d := range f.defers {
		r.closure(d.fn)
		r.vals(d.args)
	}
}

// persistent returns the runnable goroutines (indices into runq) worth scheduling next.
func (vm *VM) persistent(awake []int) []int {
	if len(vm.gs) > 60 || len(vm.runq) < 2 {
		return awake
	}
	r := &reach{vm: vm, hits: map[any]uint64{}}
	var alive []*G
	for _, g := range vm.gs {
		if g.st != gDone {
			alive = append(alive, g)
			if g.pend != nil {
				for _, t := range g.pend.ts {
					r.hits[t.o] = 0
				}
			}
		}
	}
	if len(alive) > 60 {
		return awake
	}
	next := func(b uint64) {
		vm.markEpoch++
		r.epoch, r.bit = vm.markEpoch, b
	}
	next(1 << 63)
	for _, o := range vm.pathGlobals {
		r.obj(o)
	}
	for _, v := range vm.side {
		switch x := v.(type) {
		case Value:
			r.val(x)
		case []Value:
			r.vals(x)
		case *Obj:
			r.obj(x)
		}
	}
	idx := map[*G]int{}
	for i, g := range alive {
		idx[g] = i
		next(1 << i)
		r.goroutine(g)
	}
	all := uint64(1)<<len(alive) - 1
	runnable := uint64(0)
	awakeBits := uint64(0)
	for _, g := range vm.runq {
		runnable |= 1 << idx[g]
	}
	for _, i := range awake {
		awakeBits |= 1 << idx[vm.runq[i]]
	}
	best, bestN := all, len(awake)+1
	for _, i := range awake {
		set := uint64(1) << idx[vm.runq[i]]
		done := uint64(0)
		for set != done && set != all {
			for j, g := range alive {
				b := uint64(1) << j
				if set&b == 0 || done&b != 0 {
					continue
				}
				done |= b
				if g.pend == nil {
					if g.st == gBlocked {
						set = all // waits for something not tracked here
					}
					continue
				}
				for _, t := range g.pend.ts {
					h := r.hits[t.o]
					if h>>63 != 0 {
						set = all
					} else {
						set |= h & all
					}
				}
			}
		}
		n := popcount(set & awakeBits)
		if n < bestN {
			best, bestN = set, n
		}
	}
	if schedDebug {
		for i, g := range alive {
			fmt.Printf("   alive %d g%d st %d awake %v %s", i, g.id, g.st, awakeBits>>i&1, vm.where(g))
			if g.pend != nil {
				for _, t := range g.pend.ts {
					fmt.Printf(" [%c %x]", t.kind, r.hits[t.o])
				}
			}
			fmt.Println()
		}
		fmt.Printf("   best %x of %x\n", best, awakeBits)
	}
	var out []int
	for _, i := range awake {
		if best&(1<<idx[vm.runq[i]]) != 0 {
			out = append(out, i)
		}
	}
	return out
}

func popcount(x uint64) (n int) {
	for ; x != 0; x &= x - 1 {
		n++
	}
	return
}
