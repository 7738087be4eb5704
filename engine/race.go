package main

import "fmt"

// Vector clocks: happens-before tracking of memory accesses (data races).

type vclock []uint32

func (v *vclock) grow(n int) {
	for len(*v) <= n {
		*v = append(*v, 0)
	}
}
func (v *vclock) tick(id int) {
	v.grow(id)
	(*v)[id]++
}
func (v *vclock) join(o vclock) {
	if len(o) > 0 {
		v.grow(len(o) - 1)
	}
	for i, c := range o {
		if c > (*v)[i] {
			(*v)[i] = c
		}
	}
}
func (v vclock) clone() vclock { return append(vclock(nil), v...) }
func (v vclock) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

type shadow struct {
	wg    int32
	wc    uint32
	rg    int32
	rc    uint32
	more  map[int32]uint32
	where string
}

func (vm *VM) raceCheck(s *shadow, write bool, what string) {
	g := vm.cur
	if g == nil {
		return
	}
	id := int32(g.id)
	now := g.vc.at(g.id)
	if s.wg != 0 && s.wg != id && s.wc > g.vc.at(int(s.wg)) {
		vm.end("violation", fmt.Sprintf("race: unsynchronised access to %s at %s and an earlier write", what, vm.where(g)))
	}
	if write {
		if s.rg != 0 && s.rg != id && s.rc > g.vc.at(int(s.rg)) {
			vm.end("violation", fmt.Sprintf("race: unsynchronised write to %s at %s and an earlier read", what, vm.where(g)))
		}
		for r, c := range s.more {
			if r != id && c > g.vc.at(int(r)) {
				vm.end("violation", fmt.Sprintf("race: unsynchronised write to %s at %s and an earlier read", what, vm.where(g)))
			}
		}
		s.wg, s.wc = id, now
		s.rg, s.rc, s.more = 0, 0, nil
		return
	}
	if s.rg == 0 || s.rg == id || s.rc <= g.vc.at(int(s.rg)) {
		s.rg, s.rc = id, now
		return
	}
	if s.more == nil {
		s.more = map[int32]uint32{}
	}
	s.more[id] = now
}

func (vm *VM) raceCells(o *Obj, off, n int, write bool) {
	if o.epoch == 0 && !vm.inPath || vm.cur == nil {
		return
	}
	if top := vm.cur.top; top == nil || !top.fn.repo {
		return
	}
	if len(o.shadow) < len(o.cells) {
		s := make([]shadow, len(o.cells))
		copy(s, o.shadow)
		o.shadow = s
		if o.epoch == 0 {
			vm.raceObjs = append(vm.raceObjs, o)
		}
	}
	for i := off; i < off+n; i++ {
		vm.raceCheck(&o.shadow[i], write, "memory")
	}
}

func (vm *VM) raceMap(m *MapObj, write bool) {
	if vm.cur == nil || m.epoch == 0 {
		return
	}
	vm.raceCheck(&m.sh, write, "a map")
}

func (vm *VM) syncEdge(key sideKey, acquire, release bool) {
	if !vm.race || vm.cur == nil {
		return
	}
	k := sideKey{key.o, key.off + 1<<40}
	vc, _ := vm.side[k].(*vclock)
	if vc == nil {
		vc = &vclock{}
		vm.side[k] = vc
	}
	if acquire {
		vm.cur.vc.join(*vc)
	}
	if release {
		vc.join(vm.cur.vc)
		vm.cur.vc.tick(vm.cur.id)
	}
}
