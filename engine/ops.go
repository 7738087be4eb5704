package main

import (
	"encoding/binary"
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"
)

func (vm *VM) intBin(tok token.Token, ti, ti2 *TI, x, y uint64) Value {
	m := mask(ti.w)
	switch tok {
	case token.ADD:
		return Value{n: (x + y) & m}
	case token.SUB:
		return Value{n: (x - y) & m}
	case token.MUL:
		return Value{n: (x * y) & m}
	case token.QUO, token.REM:
		if y == 0 {
			vm.runtimePanic("integer divide by zero")
		}
		if ti.signed {
			if tok == token.QUO {
				return Value{n: evalBin(OSDiv, ti.w, x, y)}
			}
			return Value{n: evalBin(OSRem, ti.w, x, y)}
		}
		if tok == token.QUO {
			return Value{n: x / y}
		}
		return Value{n: x % y}
	case token.AND:
		return Value{n: x & y}
	case token.OR:
		return Value{n: x | y}
	case token.XOR:
		return Value{n: x ^ y}
	case token.AND_NOT:
		return Value{n: x &^ y}
	case token.SHL, token.SHR:
		if ti2.signed && sx(y, ti2.w) < 0 {
			vm.runtimePanic("negative shift amount")
		}
		if y >= uint64(ti.w) {
			if tok == token.SHR && ti.signed && sx(x, ti.w) < 0 {
				return Value{n: m}
			}
			return Value{}
		}
		if tok == token.SHL {
			return Value{n: (x << y) & m}
		}
		if ti.signed {
			return Value{n: uint64(sx(x, ti.w)>>y) & m}
		}
		return Value{n: x >> y}
	case token.EQL:
		return bv(x == y)
	case token.NEQ:
		return bv(x != y)
	}
	if ti.signed {
		a, b := sx(x, ti.w), sx(y, ti.w)
		switch tok {
		case token.LSS:
			return bv(a < b)
		case token.LEQ:
			return bv(a <= b)
		case token.GTR:
			return bv(a > b)
		case token.GEQ:
			return bv(a >= b)
		}
	}
	switch tok {
	case token.LSS:
		return bv(x < y)
	case token.LEQ:
		return bv(x <= y)
	case token.GTR:
		return bv(x > y)
	case token.GEQ:
		return bv(x >= y)
	}
	panic(unsupported("int op " + tok.String()))
}

func (vm *VM) binop(tok token.Token, ti, ti2 *TI, x, y Value) Value {
	switch tok {
	case token.EQL:
		return vm.eq(ti, x, y)
	case token.NEQ:
		return vm.notV(vm.eq(ti, x, y))
	}
	switch ti.kind {
	case kInt:
		return vm.symInt(tok, ti, ti2, x, y)
	case kFloat:
		return vm.floatBin(tok, ti, x, y)
	case kString:
		return vm.strBin(tok, strOf(x), strOf(y))
	case kBool:
		a, b := vm.term(x, 0), vm.term(y, 0)
		switch tok {
		case token.AND:
			return tv(vm.T.mkBAnd(a, b))
		case token.OR:
			return tv(vm.T.mkBOr(a, b))
		case token.XOR:
			return tv(vm.T.mkNot(vm.T.mkEq(a, b)))
		}
	}
	panic(unsupported(fmt.Sprintf("binop %s on %s", tok, ti.t)))
}

func (vm *VM) notV(v Value) Value {
	if v.o == nil {
		return Value{n: v.n ^ 1}
	}
	return tv(vm.T.mkNot(v.o.(*Term)))
}

func (vm *VM) symInt(tok token.Token, ti, ti2 *TI, x, y Value) Value {
	T := vm.T
	a := vm.term(x, ti.w)
	switch tok {
	case token.SHL, token.SHR:
		c := vm.term(y, ti2.w)
		if ti2.signed {
			neg := T.mkBin(OSlt, c, T.mkConst(ti2.w, 0))
			if vm.branchT(neg) {
				vm.runtimePanic("negative shift amount")
			}
		}
		big := T.mkBin(OUle, T.mkConst(ti2.w, uint64(ti.w)), c)
		if ti2.w < 8 && ti.w > ti2.w {
			big = T.tFals
		}
		var cc *Term
		if ti2.w > ti.w {
			cc = T.mkTrunc(c, ti.w)
		} else {
			cc = T.mkExt(OZExt, c, ti.w)
		}
		op := OShl
		if tok == token.SHR {
			op = OLShr
			if ti.signed {
				op = OAShr
			}
		}
		r := T.mkBin(op, a, cc)
		ov := T.mkConst(ti.w, 0)
		if op == OAShr {
			ov = T.mkBin(OAShr, a, T.mkConst(ti.w, uint64(ti.w-1)))
		}
		return tv(T.mkIte(big, ov, r))
	}
	b := vm.term(y, ti.w)
	var op TOp
	switch tok {
	case token.ADD:
		op = OAdd
	case token.SUB:
		op = OSub
	case token.MUL:
		op = OMul
	case token.AND:
		op = OAnd
	case token.OR:
		op = OOr
	case token.XOR:
		op = OXor
	case token.AND_NOT:
		return tv(T.mkBin(OAnd, a, T.mkBin(OXor, b, T.mkConst(ti.w, mask(ti.w)))))
	case token.QUO, token.REM:
		if vm.branchT(T.mkEq(b, T.mkConst(ti.w, 0))) {
			vm.runtimePanic("integer divide by zero")
		}
		switch {
		case ti.signed && tok == token.QUO:
			op = OSDiv
		case ti.signed:
			op = OSRem
		case tok == token.QUO:
			op = OUDiv
		default:
			op = OURem
		}
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if tok == token.GTR || tok == token.GEQ {
			a, b = b, a
		}
		strict := tok == token.LSS || tok == token.GTR
		switch {
		case ti.signed && strict:
			op = OSlt
		case ti.signed:
			op = OSle
		case strict:
			op = OUlt
		default:
			op = OUle
		}
	default:
		panic(unsupported("int op " + tok.String()))
	}
	return tv(T.mkBin(op, a, b))
}

func (vm *VM) branchT(t *Term) bool {
	if t.op == OConst {
		return t.k == 1
	}
	return vm.branch(t)
}

func (vm *VM) branchV(v Value) bool {
	if v.o == nil {
		return v.n != 0
	}
	return vm.branch(v.o.(*Term))
}

func (vm *VM) floatBin(tok token.Token, ti *TI, x, y Value) Value {
	if x.o == nil && y.o == nil {
		if ti.w == 32 {
			a, b := math.Float32frombits(uint32(x.n)), math.Float32frombits(uint32(y.n))
			f := func(r float32) Value { return Value{n: uint64(math.Float32bits(r))} }
			switch tok {
			case token.ADD:
				return f(a + b)
			case token.SUB:
				return f(a - b)
			case token.MUL:
				return f(a * b)
			case token.QUO:
				return f(a / b)
			case token.LSS:
				return bv(a < b)
			case token.LEQ:
				return bv(a <= b)
			case token.GTR:
				return bv(a > b)
			case token.GEQ:
				return bv(a >= b)
			}
		}
		a, b := math.Float64frombits(x.n), math.Float64frombits(y.n)
		f := func(r float64) Value { return Value{n: math.Float64bits(r)} }
		switch tok {
		case token.ADD:
			return f(a + b)
		case token.SUB:
			return f(a - b)
		case token.MUL:
			return f(a * b)
		case token.QUO:
			return f(a / b)
		case token.LSS:
			return bv(a < b)
		case token.LEQ:
			return bv(a <= b)
		case token.GTR:
			return bv(a > b)
		case token.GEQ:
			return bv(a >= b)
		}
	}
	T := vm.T
	if ti.w == 32 { // computed at 64 bits and rounded, which gives the same for these operations
		wide := &TI{}
		*wide = *ti
		wide.w = 64
		r := vm.floatBin(tok, wide, tv(T.mkUn(OFFrom32, vm.term(x, 32))), tv(T.mkUn(OFFrom32, vm.term(y, 32))))
		switch tok {
		case token.ADD, token.SUB, token.MUL, token.QUO:
			return tv(T.mkUn(OFTo32, vm.term(r, 64)))
		}
		return r
	}
	a, b := vm.term(x, 64), vm.term(y, 64)
	switch tok {
	case token.ADD:
		return tv(T.mkBin(OFAdd, a, b))
	case token.SUB:
		return tv(T.mkBin(OFSub, a, b))
	case token.MUL:
		return tv(T.mkBin(OFMul, a, b))
	case token.QUO:
		return tv(T.mkBin(OFDiv, a, b))
	case token.LSS:
		return tv(T.mkBin(OFLt, a, b))
	case token.GTR:
		return tv(T.mkBin(OFLt, b, a))
	case token.LEQ:
		return tv(T.mkBin(OFLe, a, b))
	case token.GEQ:
		return tv(T.mkBin(OFLe, b, a))
	}
	panic(unsupported("float op " + tok.String()))
}

func (vm *VM) neg(ti *TI, x Value) Value {
	if ti.kind == kFloat {
		if x.o == nil {
			if ti.w == 32 {
				return Value{n: x.n ^ 1<<31}
			}
			return Value{n: x.n ^ 1<<63}
		}
		return tv(vm.T.mkBin(OXor, x.o.(*Term), vm.T.mkConst(64, 1<<63)))
	}
	if x.o == nil {
		return Value{n: -x.n & mask(ti.w)}
	}
	return tv(vm.T.mkBin(OSub, vm.T.mkConst(ti.w, 0), x.o.(*Term)))
}

// ---- strings ----

func (vm *VM) strBin(tok token.Token, a, b *Str) Value {
	switch tok {
	case token.ADD:
		if a.c == nil && b.c == nil {
			return mkStr(a.s + b.s)
		}
		if a.len() == 0 {
			return Value{o: b}
		}
		if b.len() == 0 {
			return Value{o: a}
		}
		c := make([]Value, 0, a.len()+b.len())
		c = append(c, a.cells()...)
		c = append(c, b.cells()...)
		return Value{o: &Str{c: c}}
	case token.LSS:
		return vm.strLess(a, b, false)
	case token.GTR:
		return vm.strLess(b, a, false)
	case token.LEQ:
		return vm.strLess(a, b, true)
	case token.GEQ:
		return vm.strLess(b, a, true)
	}
	panic(unsupported("string op " + tok.String()))
}

func (vm *VM) strEq(a, b *Str) Value {
	if a == b {
		return bv(true)
	}
	if a.c == nil && b.c == nil {
		return bv(a.s == b.s)
	}
	if r, ok := vm.txtEq(a, b); ok {
		return r
	}
	if r, ok := vm.txtEq(b, a); ok {
		return r
	}
	n := a.len()
	if n != b.len() {
		return bv(false)
	}
	r := vm.T.tTrue
	for i := n - 1; i >= 0; i-- {
		x, y := a.at(i), b.at(i)
		if x.o == nil && y.o == nil {
			if x.n != y.n {
				return bv(false)
			}
			continue
		}
		e := vm.T.mkEq(vm.term(x, 8), vm.term(y, 8))
		if e == vm.T.tFals {
			return bv(false)
		}
		r = vm.T.mkBAnd(e, r)
	}
	return tv(r)
}

func (vm *VM) strLess(a, b *Str, orEq bool) Value {
	if a.c == nil && b.c == nil {
		if orEq {
			return bv(a.s <= b.s)
		}
		return bv(a.s < b.s)
	}
	n := a.len()
	if b.len() < n {
		n = b.len()
	}
	var r *Term
	if orEq {
		r = vm.T.mkBool(a.len() <= b.len())
	} else {
		r = vm.T.mkBool(a.len() < b.len())
	}
	if vm.hasTxt(a) || vm.hasTxt(b) {
		vm.note("cut: lexicographic comparison of number text is approximated")
	}
	for i := n - 1; i >= 0; i-- {
		x, y := vm.term(a.at(i), 8), vm.term(b.at(i), 8)
		r = vm.T.mkBOr(vm.T.mkBin(OUlt, x, y), vm.T.mkBAnd(vm.T.mkEq(x, y), r))
	}
	return tv(r)
}

func (vm *VM) hasTxt(s *Str) bool {
	for _, c := range s.c {
		if t, ok := c.o.(*Term); ok && t.txt != 0 {
			return true
		}
	}
	return false
}

// ---- equality ----

func (vm *VM) eq(ti *TI, x, y Value) Value {
	switch ti.kind {
	case kInt, kBool:
		if x.o == nil && y.o == nil {
			return bv(x.n == y.n)
		}
		return tv(vm.T.mkEq(vm.term(x, ti.w), vm.term(y, ti.w)))
	case kFloat:
		if x.o == nil && y.o == nil {
			if ti.w == 32 {
				return bv(math.Float32frombits(uint32(x.n)) == math.Float32frombits(uint32(y.n)))
			}
			return bv(math.Float64frombits(x.n) == math.Float64frombits(y.n))
		}
		if ti.w == 32 {
			return tv(vm.T.mkBin(OFEq, vm.T.mkUn(OFFrom32, vm.term(x, 32)), vm.T.mkUn(OFFrom32, vm.term(y, 32))))
		}
		return tv(vm.T.mkBin(OFEq, vm.term(x, 64), vm.term(y, 64)))
	case kString:
		return vm.strEq(strOf(x), strOf(y))
	case kPtr, kChan, kMap, kUnsafe, kSlice, kFunc:
		if ti.kind == kSlice || ti.kind == kFunc {
			return bv(x.o == nil && y.o == nil)
		}
		return bv(x.o == y.o && x.n == y.n)
	case kIface:
		a, ok1 := x.o.(*Iface)
		b, ok2 := y.o.(*Iface)
		if !ok1 || !ok2 {
			return bv(ok1 == ok2)
		}
		if a.ti != b.ti {
			return bv(false)
		}
		switch a.ti.kind {
		case kSlice, kMap, kFunc:
			vm.runtimePanic("comparing uncomparable type " + a.ti.t.String())
		}
		return vm.eq(a.ti, a.v, b.v)
	case kStruct:
		a, b := x.o.(Agg), y.o.(Agg)
		r := bv(true)
		for i, f := range ti.fields {
			r = vm.andV(r, vm.eq(f, aggPart(a, ti.offs[i], f), aggPart(b, ti.offs[i], f)))
		}
		return r
	case kArray:
		a, b := x.o.(Agg), y.o.(Agg)
		r := bv(true)
		for i := 0; i < ti.n; i++ {
			r = vm.andV(r, vm.eq(ti.elem, aggPart(a, i*ti.elem.size, ti.elem), aggPart(b, i*ti.elem.size, ti.elem)))
		}
		return r
	}
	panic(unsupported("comparison of " + ti.t.String()))
}

func aggPart(a Agg, off int, ti *TI) Value {
	if ti.agg {
		return Value{o: a[off : off+ti.size : off+ti.size]}
	}
	return a[off]
}

func (vm *VM) andV(a, b Value) Value {
	if a.o == nil {
		if a.n == 0 {
			return a
		}
		return b
	}
	if b.o == nil {
		if b.n == 0 {
			return b
		}
		return a
	}
	return tv(vm.T.mkBAnd(a.o.(*Term), b.o.(*Term)))
}

// ---- memory ----

func (vm *VM) load(p Value, ti *TI) Value {
	o, ok := p.o.(*Obj)
	if !ok {
		if sp, ok := p.o.(*symPtr); ok {
			return vm.loadSym(sp, ti)
		}
		if p.o == nil {
			vm.runtimePanic("invalid memory address or nil pointer dereference")
		}
		panic(unsupported(fmt.Sprintf("load through %T", p.o)))
	}
	off := int(p.n)
	if off+ti.size > len(o.cells) {
		if ti.size == 0 {
			return ti.zero()
		}
		panic(unsupported("load outside object (unsafe code)"))
	}
	if vm.race {
		vm.raceCells(o, off, ti.size, false)
	}
	if ti.agg {
		a := make(Agg, ti.size)
		copy(a, o.cells[off:off+ti.size])
		return Value{o: a}
	}
	return o.cells[off]
}

func (vm *VM) store(p, v Value, ti *TI) {
	o, ok := p.o.(*Obj)
	if !ok {
		if sp, ok := p.o.(*symPtr); ok {
			p = vm.fixPtr(sp)
			o = p.o.(*Obj)
		} else {
			if p.o == nil {
				vm.runtimePanic("invalid memory address or nil pointer dereference")
			}
			panic(unsupported(fmt.Sprintf("store through %T", p.o)))
		}
	}
	off := int(p.n)
	if off+ti.size > len(o.cells) {
		panic(unsupported("store outside object (unsafe code)"))
	}
	if vm.race {
		vm.raceCells(o, off, ti.size, true)
	}
	if o.epoch == 0 && vm.inPath {
		for i := 0; i < ti.size; i++ {
			vm.undo = append(vm.undo, undoRec{o, off + i, o.cells[off+i]})
		}
	}
	if ti.agg {
		copy(o.cells[off:off+ti.size], v.o.(Agg))
		return
	}
	o.cells[off] = v
}

// setCell writes a cell from library models.
func (vm *VM) setCell(o *Obj, off int, v Value) {
	if o.epoch == 0 && vm.inPath {
		vm.undo = append(vm.undo, undoRec{o, off, o.cells[off]})
	}
	o.cells[off] = v
}

// symPtr is the address of an element of a slice of scalars at a symbolic index.
type symPtr struct {
	o    *Obj
	off  int
	n    int
	idx  *Term
	elem *TI
}

func (vm *VM) loadSym(sp *symPtr, ti *TI) Value {
	return vm.tableLoad(sp.o.cells[sp.off:sp.off+sp.n], sp.idx, ti)
}

func (vm *VM) tableLoad(cells []Value, idx *Term, ti *TI) Value {
	w := ti.w
	T := vm.T
	// balanced selection over the index keeps the term shallow
	var build func(lo, hi int) *Term
	build = func(lo, hi int) *Term {
		same := true
		for i := lo + 1; i < hi; i++ {
			if cells[i] != cells[lo] {
				same = false
				break
			}
		}
		if same {
			return vm.term(cells[lo], w)
		}
		mid := (lo + hi) / 2
		return T.mkIte(T.mkBin(OUlt, idx, T.mkConst(idx.w, uint64(mid))), build(lo, mid), build(mid, hi))
	}
	lo, hi := 0, len(cells)
	if idx.ulo < uint64(hi) {
		lo = int(idx.ulo)
	}
	if idx.uhi < uint64(hi) {
		hi = int(idx.uhi) + 1
	}
	return tv(build(lo, hi))
}

func (vm *VM) fixPtr(sp *symPtr) Value {
	i := vm.fixTerm(sp.idx)
	return Value{n: uint64(sp.off) + i, o: sp.o}
}

// boundIdx checks 0 <= idx < n and returns the index (concrete, or a term).
func (vm *VM) boundIdx(v Value, ti *TI, n int) (int, *Term) {
	if v.o == nil {
		i := sx(v.n, ti.w)
		if !ti.signed && ti.w == 64 {
			i = int64(v.n)
		} else if !ti.signed {
			i = int64(v.n)
		}
		if i < 0 || i >= int64(n) {
			vm.runtimePanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	}
	t := v.o.(*Term)
	var in *Term
	if ti.w < 64 {
		op := OZExt
		if ti.signed {
			op = OSExt
		}
		t = vm.T.mkExt(op, t, 64)
	}
	in = vm.T.mkBin(OUlt, t, vm.T.mkConst(64, uint64(n)))
	if !vm.branchT(in) {
		vm.runtimePanic(fmt.Sprintf("index out of range with length %d", n))
	}
	return 0, t
}

func scalar(ti *TI) bool {
	return ti.kind == kInt || ti.kind == kBool || ti.kind == kFloat && ti.w == 64
}

func (vm *VM) indexAddr(fr *Frame, in *Instr) Value {
	x := fr.get(in.a)
	var o *Obj
	var off, n int
	var elem *TI
	if in.x == 1 { // pointer to array
		if x.o == nil {
			vm.runtimePanic("invalid memory address or nil pointer dereference")
		}
		var ok bool
		o, ok = x.o.(*Obj)
		if !ok {
			panic(unsupported("index through symbolic pointer"))
		}
		off, n = int(x.n), in.ti.n
		elem = in.ti.elem
	} else {
		s := sliceOf(x)
		o, off, n = s.obj, s.off, s.len
		elem = in.ti.elem
	}
	i, t := vm.boundIdx(fr.get(in.b), in.ti2, n)
	if t == nil {
		return Value{n: uint64(off + i*elem.size), o: o}
	}
	if scalar(elem) && n <= 1024 {
		return Value{o: &symPtr{o: o, off: off, n: n, idx: t, elem: elem}}
	}
	i = int(vm.fixTerm(t))
	return Value{n: uint64(off + i*elem.size), o: o}
}

func (vm *VM) index(in *Instr, x, iv Value) Value {
	if in.ti.kind == kString {
		s := strOf(x)
		i, t := vm.boundIdx(iv, in.ti2, s.len())
		if t == nil {
			return s.at(i)
		}
		if s.len() <= 1024 {
			return vm.tableLoad(s.cells(), t, &TI{w: 8})
		}
		return s.at(int(vm.fixTerm(t)))
	}
	a := x.o.(Agg)
	i, t := vm.boundIdx(iv, in.ti2, in.ti.n)
	if t != nil {
		if scalar(in.ti.elem) && in.ti.n <= 1024 {
			return vm.tableLoad(a, t, in.ti.elem)
		}
		i = int(vm.fixTerm(t))
	}
	return aggPart(a, i*in.ti.elem.size, in.ti.elem)
}

const makeCap = 1 << 16

func (vm *VM) makeSlice(ti *TI, ln, cp Value, lti *TI) Value {
	eb := 8 * ti.elem.size
	if (ti.elem.kind == kInt || ti.elem.kind == kBool) && ti.elem.w < 64 {
		eb = int(ti.elem.w+7) / 8
	}
	if eb == 0 {
		eb = 1
	}
	big := uint64(1<<31) / uint64(eb)
	n := vm.sizeArg(ln, lti, big)
	c := n
	if cp != ln {
		c = vm.sizeArg(cp, vm.ti(types.Typ[types.Int]), big)
	}
	if n < 0 || int64(n) > 1<<46 {
		vm.runtimePanic("makeslice: len out of range")
	}
	if c < n || int64(c) > 1<<46 {
		vm.runtimePanic("makeslice: cap out of range")
	}
	if c*ti.elem.size > 1<<22 {
		if uint64(c) >= big {
			vm.end("violation", fmt.Sprintf("memory: allocation of %d elements", c))
		}
		vm.note(fmt.Sprintf("cut: allocation of more than %d elements not followed", 1<<22))
		vm.end("incomplete", "large allocation")
	}
	return Value{o: &SliceV{obj: vm.newObj(c * ti.elem.size), len: n, cap: c, esz: ti.elem.size}}
}

// sizeArg fixes a make size: small values each, one representative of the rest.
func (vm *VM) sizeArg(v Value, ti *TI, big uint64) int {
	t, ok := v.o.(*Term)
	if !ok {
		return int(sx(v.n, ti.w))
	}
	t = vm.T.mkExt(OSExt, t, 64)
	// sizes that must not be requested at all
	if vm.branchT(vm.T.mkBin(OSlt, t, vm.T.mkConst(64, 0))) {
		return -1
	}
	if vm.branchT(vm.T.mkBin(OSle, vm.T.mkConst(64, big), t)) {
		return int(vm.concretizeOne(t, "one representative of allocation sizes of 2 GiB and more"))
	}
	if vm.branchT(vm.T.mkBin(OSlt, vm.T.mkConst(64, 16), t)) {
		return int(vm.concretizeOne(t, "cut: one representative of allocation sizes of more than 16 elements"))
	}
	return int(vm.fixTerm(t))
}

func (vm *VM) optInt(fr *Frame, r int32, def int) int64 {
	if r == noOp {
		return int64(def)
	}
	v := fr.get(r)
	if v.o == nil {
		return int64(v.n)
	}
	// keep the out-of-range side as one path
	t := v.o.(*Term)
	if t.w < 64 {
		t = vm.T.mkExt(OZExt, t, 64)
	}
	if vm.branchT(vm.T.mkBin(OUle, t, vm.T.mkConst(64, 16))) {
		return int64(vm.fixTerm(t))
	}
	if vm.branchT(vm.T.mkBin(OUle, t, vm.T.mkConst(64, 1<<20))) {
		return int64(vm.concretizeOne(t, "cut: one representative of symbolic slice bounds above 16"))
	}
	return -1
}

func (vm *VM) slice(fr *Frame, in *Instr) Value {
	x := fr.get(in.a)
	switch in.ti.kind {
	case kString:
		s := strOf(x)
		lo := vm.optInt(fr, in.args[0], 0)
		hi := vm.optInt(fr, in.args[1], s.len())
		if lo < 0 || hi < lo || hi > int64(s.len()) {
			vm.runtimePanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, s.len()))
		}
		return s.slice(int(lo), int(hi))
	case kSlice:
		s := sliceOf(x)
		lo := vm.optInt(fr, in.args[0], 0)
		hi := vm.optInt(fr, in.args[1], s.len)
		mx := vm.optInt(fr, in.args[2], s.cap)
		if lo < 0 || hi < lo || mx < hi || mx > int64(s.cap) {
			vm.runtimePanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", lo, hi, s.cap))
		}
		if x.o == nil {
			return Value{}
		}
		return Value{o: &SliceV{obj: s.obj, off: s.off + int(lo)*s.esz, len: int(hi - lo), cap: int(mx - lo), esz: s.esz}}
	case kPtr:
		if x.o == nil {
			vm.runtimePanic("invalid memory address or nil pointer dereference")
		}
		n := in.ti2.n
		lo := vm.optInt(fr, in.args[0], 0)
		hi := vm.optInt(fr, in.args[1], n)
		mx := vm.optInt(fr, in.args[2], n)
		if lo < 0 || hi < lo || mx < hi || mx > int64(n) {
			vm.runtimePanic("slice bounds out of range")
		}
		e := in.ti2.elem.size
		return Value{o: &SliceV{obj: x.o.(*Obj), off: int(x.n) + int(lo)*e, len: int(hi - lo), cap: int(mx - lo), esz: e}}
	}
	panic(unsupported("slice of " + in.ti.t.String()))
}

// ---- maps ----

// keyBytes serialises a concrete key; ok is false when it is symbolic.
func (vm *VM) keyBytes(b []byte, ti *TI, v Value) ([]byte, bool) {
	switch ti.kind {
	case kInt, kBool:
		if v.o != nil {
			return b, false
		}
		return binary.LittleEndian.AppendUint64(b, v.n), true
	case kFloat:
		if v.o != nil {
			return b, false
		}
		n := v.n
		if n == 1<<63 {
			n = 0
		}
		return binary.LittleEndian.AppendUint64(b, n), true
	case kString:
		s := strOf(v)
		if s.c != nil {
			return b, false
		}
		b = binary.LittleEndian.AppendUint32(b, uint32(len(s.s)))
		return append(b, s.s...), true
	case kPtr, kChan, kMap, kUnsafe:
		return append(b, fmt.Sprintf("%p+%d", v.o, v.n)...), true
	case kIface:
		i, ok := v.o.(*Iface)
		if !ok {
			return append(b, 0), true
		}
		switch i.ti.kind {
		case kSlice, kMap, kFunc:
			vm.runtimePanic("hash of unhashable type " + i.ti.t.String())
		}
		b = binary.LittleEndian.AppendUint32(append(b, 1), uint32(i.ti.id))
		return vm.keyBytes(b, i.ti, i.v)
	case kStruct:
		ok := true
		for k, f := range ti.fields {
			var o bool
			b, o = vm.keyBytes(b, f, aggPart(v.o.(Agg), ti.offs[k], f))
			ok = ok && o
		}
		return b, ok
	case kArray:
		ok := true
		for k := 0; k < ti.n; k++ {
			var o bool
			b, o = vm.keyBytes(b, ti.elem, aggPart(v.o.(Agg), k*ti.elem.size, ti.elem))
			ok = ok && o
		}
		return b, ok
	}
	panic(unsupported("map key of type " + ti.t.String()))
}

// mapFind returns the index of the entry for key, or -1.
func (vm *VM) mapFind(m *MapObj, key Value) (int, string, bool) {
	kb, conc := vm.keyBytes(nil, m.ki, key)
	ks := string(kb)
	if conc {
		if i, ok := m.idx[ks]; ok {
			return i, ks, true
		}
		if m.nsym == 0 {
			return -1, ks, true
		}
	}
	var cands []int
	var conds []*Term
	for i := range m.ents {
		e := &m.ents[i]
		if !e.live || conc && !e.sym {
			continue
		}
		c := vm.eq(m.ki, key, e.k)
		if c.o == nil {
			if c.n == 1 {
				return i, ks, conc
			}
			continue
		}
		t := c.o.(*Term)
		if v, ok := vm.known(t); ok {
			if v {
				return i, ks, conc
			}
			continue
		}
		cands = append(cands, i)
		conds = append(conds, t)
	}
	for k, i := range cands {
		if vm.branch(conds[k]) {
			return i, ks, conc
		}
	}
	return -1, ks, conc
}

func (vm *VM) mapTouch(m *MapObj) {
	if m.epoch == 0 && vm.inPath && !vm.saved[m] {
		vm.saved[m] = true
		vm.undoMaps = append(vm.undoMaps, undoMap{m, append([]mapEnt(nil), m.ents...), m.n, m.nsym})
	}
}

func (vm *VM) mapSet(m *MapObj, key, val Value) {
	if vm.race {
		vm.raceMap(m, true)
	}
	vm.mapTouch(m)
	i, ks, conc := vm.mapFind(m, key)
	if i >= 0 {
		m.ents[i].v = val
		return
	}
	m.ents = append(m.ents, mapEnt{k: key, v: val, live: true, sym: !conc})
	if conc {
		m.idx[ks] = len(m.ents) - 1
	} else {
		m.nsym++
	}
	m.n++
}

func (vm *VM) mapDelete(m *MapObj, key Value) {
	if vm.race {
		vm.raceMap(m, true)
	}
	i, _, _ := vm.mapFind(m, key)
	if i < 0 {
		return
	}
	vm.mapTouch(m)
	e := &m.ents[i]
	if e.sym {
		m.nsym--
	} else {
		kb, _ := vm.keyBytes(nil, m.ki, e.k)
		delete(m.idx, string(kb))
	}
	e.live = false
	e.v, e.k = Value{}, Value{}
	m.n--
}

func (vm *VM) mapUpdate(mv, k, v Value, ti *TI) {
	if mv.o == nil {
		vm.runtimePanic("assignment to entry in nil map")
	}
	vm.mapSet(mv.o.(*MapObj), k, v)
}

func (vm *VM) lookup(in *Instr, x, k Value) Value {
	if in.ti.kind == kString {
		return vm.index(in, x, k)
	}
	found := false
	v := Value{}
	if m, ok := x.o.(*MapObj); ok {
		if vm.race {
			vm.raceMap(m, false)
		}
		if i, _, _ := vm.mapFind(m, k); i >= 0 {
			found = true
			v = m.ents[i].v
		}
	} else if in.ti.key != nil && in.ti.key.kind == kIface {
		vm.keyBytes(nil, in.ti.key, k)
	}
	if !found {
		v = in.ti.elem.zero()
	}
	if in.commaOk {
		return Value{o: Tuple{v, bv(found)}}
	}
	return v
}

func (vm *VM) next(in *Instr, it *mapIter) Value {
	if in.commaOk { // string
		s := it.str
		if it.pos >= s.len() {
			return Value{o: Tuple{bv(false), Value{}, Value{}}}
		}
		r, n := vm.decodeRune(s, it.pos)
		p := it.pos
		it.pos += n
		return Value{o: Tuple{bv(true), Value{n: uint64(p)}, r}}
	}
	kt, vt := in.ti.fields[1], in.ti.fields[2]
	z := func(t *TI) Value {
		if t.kind == kOther || t.t == types.Typ[types.Invalid] {
			return Value{}
		}
		return t.zero()
	}
	if it.m == nil {
		return Value{o: Tuple{bv(false), z(kt), z(vt)}}
	}
	m := it.m
	if !it.init {
		it.init = true
		// iteration order is unspecified: start anywhere, as the runtime does
		if m.n > 1 && vm.inPath && vm.mapLeft > 0 {
			vm.mapLeft--
			vm.mapUsed = true
			k := int(vm.choose(m.n))
			if k > 0 {
				for i := range m.ents {
					if m.ents[i].live {
						if k == 0 {
							it.start = i
							break
						}
						k--
					}
				}
			}
		}
		it.pos = it.start
	}
	for {
		if it.pos >= len(m.ents) && it.start > 0 && it.seen == 0 {
			it.seen, it.pos = 1, 0
		}
		if it.pos >= len(m.ents) || it.seen == 1 && it.pos >= it.start {
			return Value{o: Tuple{bv(false), z(kt), z(vt)}}
		}
		e := &m.ents[it.pos]
		it.pos++
		if e.live {
			return Value{o: Tuple{bv(true), e.k, e.v}}
		}
	}
}

// decodeRune decodes one UTF-8 sequence, forking on symbolic bytes.
func (vm *VM) decodeRune(s *Str, pos int) (Value, int) {
	b0 := s.at(pos)
	if b0.o == nil && b0.n < 0x80 {
		return b0, 1
	}
	if s.c == nil {
		r, n := utf8.DecodeRuneInString(s.s[pos:])
		return Value{n: uint64(uint32(r))}, n
	}
	T := vm.T
	in := func(v Value, lo, hi uint64) bool {
		t := vm.term(v, 8)
		return vm.branchT(T.mkBAnd(T.mkBin(OUle, T.mkConst(8, lo), t), T.mkBin(OUle, t, T.mkConst(8, hi))))
	}
	ext := func(v Value) *Term { return T.mkExt(OZExt, vm.term(v, 8), 32) }
	c := func(k uint64) *Term { return T.mkConst(32, k) }
	if in(b0, 0, 0x7f) {
		return tv(ext(b0)), 1
	}
	bad := Value{n: 0xfffd}
	at := func(k int) (Value, bool) {
		if pos+k >= s.len() {
			return Value{}, false
		}
		return s.at(pos + k), true
	}
	low6 := func(v Value) *Term { return T.mkBin(OAnd, ext(v), c(0x3f)) }
	if in(b0, 0xc2, 0xdf) {
		b1, ok := at(1)
		if !ok || !in(b1, 0x80, 0xbf) {
			return bad, 1
		}
		return tv(T.mkBin(OOr, T.mkBin(OShl, T.mkBin(OAnd, ext(b0), c(0x1f)), c(6)), low6(b1))), 2
	}
	if in(b0, 0xe0, 0xef) {
		lo, hi := uint64(0x80), uint64(0xbf)
		if in(b0, 0xe0, 0xe0) {
			lo = 0xa0
		} else if in(b0, 0xed, 0xed) {
			hi = 0x9f
		}
		b1, ok := at(1)
		if !ok || !in(b1, lo, hi) {
			return bad, 1
		}
		b2, ok := at(2)
		if !ok || !in(b2, 0x80, 0xbf) {
			return bad, 1
		}
		r := T.mkBin(OShl, T.mkBin(OAnd, ext(b0), c(0xf)), c(12))
		r = T.mkBin(OOr, r, T.mkBin(OShl, low6(b1), c(6)))
		return tv(T.mkBin(OOr, r, low6(b2))), 3
	}
	if in(b0, 0xf0, 0xf4) {
		lo, hi := uint64(0x80), uint64(0xbf)
		if in(b0, 0xf0, 0xf0) {
			lo = 0x90
		} else if in(b0, 0xf4, 0xf4) {
			hi = 0x8f
		}
		b1, ok := at(1)
		if !ok || !in(b1, lo, hi) {
			return bad, 1
		}
		b2, ok := at(2)
		if !ok || !in(b2, 0x80, 0xbf) {
			return bad, 1
		}
		b3, ok := at(3)
		if !ok || !in(b3, 0x80, 0xbf) {
			return bad, 1
		}
		r := T.mkBin(OShl, T.mkBin(OAnd, ext(b0), c(7)), c(18))
		r = T.mkBin(OOr, r, T.mkBin(OShl, low6(b1), c(12)))
		r = T.mkBin(OOr, r, T.mkBin(OShl, low6(b2), c(6)))
		return tv(T.mkBin(OOr, r, low6(b3))), 4
	}
	return bad, 1
}

// ---- conversions ----

func (vm *VM) convert(from, to *TI, v Value) Value {
	T := vm.T
	switch {
	case from.kind == kInt && to.kind == kInt:
		if v.o == nil {
			n := v.n
			if from.signed {
				n = uint64(sx(n, from.w))
			}
			return Value{n: n & mask(to.w)}
		}
		t := v.o.(*Term)
		if to.w <= from.w {
			return tv(T.mkTrunc(t, to.w))
		}
		if from.signed {
			return tv(T.mkExt(OSExt, t, to.w))
		}
		return tv(T.mkExt(OZExt, t, to.w))
	case from.kind == kInt && to.kind == kFloat:
		if v.o == nil {
			var f float64
			if from.signed {
				i := sx(v.n, from.w)
				if to.w == 32 {
					return Value{n: uint64(math.Float32bits(float32(i)))}
				}
				f = float64(i)
			} else {
				if to.w == 32 {
					return Value{n: uint64(math.Float32bits(float32(v.n)))}
				}
				f = float64(v.n)
			}
			return Value{n: math.Float64bits(f)}
		}
		if to.w == 32 {
			panic(unsupported("symbolic float32"))
		}
		t := v.o.(*Term)
		if from.signed {
			return tv(T.mkUn(OSToF, T.mkExt(OSExt, t, 64)))
		}
		return tv(T.mkUn(OUToF, T.mkExt(OZExt, t, 64)))
	case from.kind == kFloat && to.kind == kInt:
		if v.o == nil {
			var f float64
			if from.w == 32 {
				f = float64(math.Float32frombits(uint32(v.n)))
			} else {
				f = math.Float64frombits(v.n)
			}
			if to.signed {
				return Value{n: uint64(int64(f)) & mask(to.w)}
			}
			return Value{n: uint64(f) & mask(to.w)}
		}
		t := v.o.(*Term)
		if from.w == 32 {
			t = T.mkUn(OFFrom32, t)
		}
		fc := func(f float64) *Term { return T.mkConst(64, math.Float64bits(f)) }
		ok := T.mkBAnd(T.mkBin(OFLe, fc(-9223372036854775808.0), t), T.mkBin(OFLt, t, fc(9223372036854775808.0)))
		if !to.signed && to.w == 64 {
			panic(unsupported("symbolic float to uint64"))
		}
		r := T.mkIte(ok, T.mkUn(OFToS, t), T.mkConst(64, 1<<63))
		return tv(T.mkTrunc(r, to.w))
	case from.kind == kFloat && to.kind == kFloat:
		if from.w == to.w {
			return v
		}
		if v.o != nil {
			if to.w == 32 {
				return tv(T.mkUn(OFTo32, v.o.(*Term)))
			}
			return tv(T.mkUn(OFFrom32, v.o.(*Term)))
		}
		if to.w == 32 {
			return Value{n: uint64(math.Float32bits(float32(math.Float64frombits(v.n))))}
		}
		return Value{n: math.Float64bits(float64(math.Float32frombits(uint32(v.n))))}
	case from.kind == kString && to.kind == kString:
		return v
	case from.kind == kString && to.kind == kSlice:
		s := strOf(v)
		if to.elem.w == 8 {
			c := append([]Value(nil), s.cells()...)
			o := vm.newObj(0)
			o.cells = c
			return Value{o: &SliceV{obj: o, len: len(c), cap: len(c), esz: 1}}
		}
		var c []Value
		for p := 0; p < s.len(); {
			r, n := vm.decodeRune(s, p)
			c = append(c, r)
			p += n
		}
		o := vm.newObj(0)
		o.cells = c
		return Value{o: &SliceV{obj: o, len: len(c), cap: len(c), esz: 1}}
	case from.kind == kSlice && to.kind == kString:
		s := sliceOf(v)
		if from.elem.w == 8 {
			if vm.race && s.len > 0 {
				vm.raceCells(s.obj, s.off, s.len, false)
			}
			return mkStrCells(append([]Value(nil), s.cellsView()...))
		}
		var c []Value
		for _, r := range s.cellsView() {
			c = append(c, vm.encodeRune(r)...)
		}
		return mkStrCells(c)
	case from.kind == kInt && to.kind == kString:
		x := v
		if x.o == nil {
			n := sx(x.n, from.w)
			if n < 0 || n > utf8.MaxRune {
				n = utf8.RuneError
			}
			return mkStr(string(rune(n)))
		}
		t := x.o.(*Term)
		if t.w > 32 {
			t = T.mkTrunc(t, 32)
		} else {
			t = T.mkExt(OZExt, t, 32)
		}
		return mkStrCells(vm.encodeRune(tv(t)))
	case (from.kind == kPtr || from.kind == kUnsafe) && (to.kind == kPtr || to.kind == kUnsafe):
		return v
	case from.kind == kUnsafe && to.kind == kInt:
		panic(unsupported("pointer to integer conversion"))
	case from.kind == to.kind:
		return v
	}
	panic(unsupported(fmt.Sprintf("conversion %s to %s", from.t, to.t)))
}

func (vm *VM) encodeRune(r Value) []Value {
	if r.o == nil {
		var c []Value
		for _, b := range []byte(string(rune(int32(r.n)))) {
			c = append(c, Value{n: uint64(b)})
		}
		return c
	}
	T := vm.T
	t := r.o.(*Term)
	lt := func(k uint64) bool { return vm.branchT(T.mkBin(OUlt, t, T.mkConst(32, k))) }
	b := func(sh, m, or uint64) Value {
		x := T.mkBin(OAnd, T.mkBin(OLShr, t, T.mkConst(32, sh)), T.mkConst(32, m))
		return tv(T.mkTrunc(T.mkBin(OOr, x, T.mkConst(32, or)), 8))
	}
	if lt(0x80) {
		return []Value{tv(T.mkTrunc(t, 8))}
	}
	if lt(0x800) {
		return []Value{b(6, 0x1f, 0xc0), b(0, 0x3f, 0x80)}
	}
	if lt(0xd800) || !lt(0xe000) && lt(0x10000) {
		return []Value{b(12, 0xf, 0xe0), b(6, 0x3f, 0x80), b(0, 0x3f, 0x80)}
	}
	if !lt(0x10000) && lt(0x110000) {
		return []Value{b(18, 7, 0xf0), b(12, 0x3f, 0x80), b(6, 0x3f, 0x80), b(0, 0x3f, 0x80)}
	}
	return []Value{{n: 0xef}, {n: 0xbf}, {n: 0xbd}}
}

// ---- type assertions ----

func (vm *VM) implements(t, iface *TI) bool {
	k := [2]int{t.id, iface.id}
	if r, ok := vm.implTab[k]; ok {
		return r
	}
	r := types.Implements(t.t, iface.t.Underlying().(*types.Interface))
	vm.implTab[k] = r
	return r
}

func (vm *VM) typeAssert(in *Instr, x Value) Value {
	i, ok := x.o.(*Iface)
	good := false
	var v Value
	if ok {
		if in.ti.kind == kIface {
			good = vm.implements(i.ti, in.ti)
			v = x
		} else {
			good = i.ti == in.ti
			v = i.v
		}
	}
	if in.commaOk {
		if !good {
			v = in.ti.zero()
		}
		return Value{o: Tuple{v, bv(good)}}
	}
	if !good {
		d := "nil"
		if ok {
			d = i.ti.t.String()
		}
		vm.runtimePanic("interface conversion: interface is " + d + ", not " + in.ti.t.String())
	}
	return v
}

// ---- channels ----

func (vm *VM) deliver(w *waiter, v Value, ok bool) {
	// complete w.g's blocked receive
	g := w.g
	fr := g.top
	in := &fr.fn.code[fr.pc]
	if w.sel != nil {
		w.sel.done = true
		vm.selResult(fr, in, w.idx, v, ok)
	} else {
		if in.commaOk {
			fr.regs[in.dst] = Value{o: Tuple{v, bv(ok)}}
		} else {
			fr.regs[in.dst] = v
		}
	}
	fr.pc++
	vm.wake(g)
}

func (vm *VM) completeSend(w *waiter) {
	g := w.g
	fr := g.top
	if w.sel != nil {
		w.sel.done = true
		vm.selResult(fr, &fr.fn.code[fr.pc], w.idx, Value{}, false)
	}
	fr.pc++
	vm.wake(g)
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.dead || w.sel != nil && w.sel.done {
			continue
		}
		return w
	}
	return nil
}

func hasWaiter(q []*waiter, self *G) bool {
	for _, w := range q {
		if !w.dead && !(w.sel != nil && w.sel.done) && w.g != self {
			return true
		}
	}
	return false
}

// Clocks of a buffered channel: every element carries its sender's clock, and every free slot the
// clock of the receive that freed it.
func (c *ChanObj) clocks() {
	for len(c.vcs) < len(c.buf) {
		c.vcs = append(c.vcs, nil)
	}
	for len(c.free)+len(c.buf) < c.cap {
		c.free = append(c.free, nil)
	}
}

// intoSlot is g sending into a free slot.
func (c *ChanObj) intoSlot(g *G) {
	if len(c.free) > 0 {
		g.vc.join(c.free[0])
		c.free = c.free[1:]
	}
	c.vcs = append(c.vcs, g.vc.clone())
	g.vc.tick(g.id)
}

// outOfSlot is g receiving the oldest element.
func (c *ChanObj) outOfSlot(g *G) {
	g.vc.join(c.vcs[0])
	c.vcs = c.vcs[1:]
	c.free = append(c.free, g.vc.clone())
	g.vc.tick(g.id)
}

func meet(a, b *G) {
	v := a.vc.clone()
	a.vc.join(b.vc)
	b.vc.join(v)
	a.vc.tick(a.id)
	b.vc.tick(b.id)
}

// chanSend performs a send that is known not to block.
func (vm *VM) chanSend(c *ChanObj, v Value) {
	race := vm.race && vm.cur != nil
	if race {
		c.clocks()
	}
	if w := popWaiter(&c.recvq); w != nil {
		if race && c.cap == 0 {
			meet(vm.cur, w.g)
		} else if race {
			c.intoSlot(vm.cur)
			c.outOfSlot(w.g)
		}
		vm.deliver(w, v, true)
		return
	}
	if race {
		c.intoSlot(vm.cur)
	}
	c.buf = append(c.buf, v)
}

func (vm *VM) canSend(c *ChanObj, g *G) bool {
	return c.closed || len(c.buf) < c.cap || hasWaiter(c.recvq, g)
}

func (vm *VM) canRecv(c *ChanObj, g *G) bool {
	return c.closed || len(c.buf) > 0 || hasWaiter(c.sendq, g)
}

func (vm *VM) chanRecv(c *ChanObj, g *G) (Value, bool) {
	if vm.race {
		c.clocks()
	}
	if len(c.buf) > 0 {
		if vm.race {
			c.outOfSlot(g)
		}
		v := c.buf[0]
		c.buf = append([]Value(nil), c.buf[1:]...)
		if w := popWaiter(&c.sendq); w != nil {
			if vm.race {
				c.intoSlot(w.g)
			}
			c.buf = append(c.buf, w.val)
			vm.completeSend(w)
		}
		return v, true
	}
	if w := popWaiter(&c.sendq); w != nil {
		if vm.race {
			meet(g, w.g)
		}
		v := w.val
		vm.completeSend(w)
		return v, true
	}
	if vm.race {
		g.vc.join(c.vc) // closed
	}
	return c.ti.zero(), false
}

func (vm *VM) doSend(g *G, fr *Frame, cv, v Value) bool {
	if cv.o == nil {
		vm.block(g, "send on nil channel", nil)
		return false
	}
	c := cv.o.(*ChanObj)
	if c.closed {
		vm.throwPlain("send on closed channel")
	}
	if vm.canSend(c, g) {
		vm.chanSend(c, v)
		return true
	}
	c.sendq = append(c.sendq, &waiter{g: g, val: v})
	vm.block(g, "chan send", nil)
	return false
}

func (vm *VM) throwPlain(msg string) { vm.runtimePanic(msg) }

func (vm *VM) doRecv(g *G, fr *Frame, in *Instr) bool {
	cv := fr.get(in.a)
	if cv.o == nil {
		vm.block(g, "receive from nil channel", nil)
		return false
	}
	c := cv.o.(*ChanObj)
	if vm.canRecv(c, g) {
		v, ok := vm.chanRecv(c, g)
		if in.commaOk {
			fr.regs[in.dst] = Value{o: Tuple{v, bv(ok)}}
		} else {
			fr.regs[in.dst] = v
		}
		return true
	}
	c.recvq = append(c.recvq, &waiter{g: g})
	vm.block(g, "chan receive", nil)
	return false
}

func (vm *VM) selResult(fr *Frame, in *Instr, idx int, v Value, ok bool) {
	t := Tuple{Value{n: uint64(idx)}, bv(ok)}
	for i, s := range in.sel {
		if s.send {
			continue
		}
		if i == idx {
			t = append(t, v)
		} else {
			t = append(t, s.ti.zero())
		}
	}
	if idx < 0 {
		t[0].n = ^uint64(0)
	}
	fr.regs[in.dst] = Value{o: t}
}

func (vm *VM) doSelect(g *G, fr *Frame, in *Instr) bool {
	var ready []int
	for i, s := range in.sel {
		cv := fr.get(s.ch)
		if cv.o == nil {
			continue
		}
		c := cv.o.(*ChanObj)
		if s.send && vm.canSend(c, g) || !s.send && vm.canRecv(c, g) {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		k := ready[0]
		if len(ready) > 1 {
			k = ready[vm.choose(len(ready))]
		}
		s := in.sel[k]
		c := fr.get(s.ch).o.(*ChanObj)
		if s.send {
			if c.closed {
				vm.throwPlain("send on closed channel")
			}
			vm.chanSend(c, fr.get(s.val))
			vm.selResult(fr, in, k, Value{}, false)
		} else {
			v, ok := vm.chanRecv(c, g)
			vm.selResult(fr, in, k, v, ok)
		}
		return true
	}
	if !in.block {
		vm.selResult(fr, in, -1, Value{}, false)
		return true
	}
	st := &selState{in: in, fr: fr}
	for i, s := range in.sel {
		cv := fr.get(s.ch)
		if cv.o == nil {
			continue
		}
		c := cv.o.(*ChanObj)
		w := &waiter{g: g, sel: st, idx: i}
		if s.send {
			w.val = fr.get(s.val)
			c.sendq = append(c.sendq, w)
		} else {
			c.recvq = append(c.recvq, w)
		}
	}
	vm.block(g, "select", nil)
	return false
}

func (vm *VM) closeChan(g *G, cv Value) {
	if cv.o == nil {
		vm.runtimePanic("close of nil channel")
	}
	c := cv.o.(*ChanObj)
	if c.closed {
		vm.runtimePanic("close of closed channel")
	}
	if vm.race {
		c.vc.join(g.vc)
		g.vc.tick(g.id)
	}
	c.closed = true
	for {
		w := popWaiter(&c.recvq)
		if w == nil {
			break
		}
		if vm.race {
			w.g.vc.join(c.vc)
		}
		vm.deliver(w, c.ti.zero(), false)
	}
	for {
		w := popWaiter(&c.sendq)
		if w == nil {
			break
		}
		if w.sel != nil {
			w.sel.done = true
		}
		e := vm.mkRuntimeError("send on closed channel")
		w.g.throw = &e
		vm.wake(w.g)
	}
}

// ---- builtins ----

func (vm *VM) callBuiltin(g *G, fr *Frame, name string, a []Value, ci *callInfo) Value {
	switch name {
	case "len":
		switch x := a[0].o.(type) {
		case nil:
			return Value{}
		case *Str:
			return Value{n: uint64(x.len())}
		case *SliceV:
			return Value{n: uint64(x.len)}
		case *MapObj:
			if vm.race {
				vm.raceMap(x, false)
			}
			return Value{n: uint64(x.n)}
		case *ChanObj:
			return Value{n: uint64(len(x.buf))}
		case Agg:
			return Value{n: uint64(ci.argTIs[0].n)}
		case *Obj:
			return Value{n: uint64(vm.ti(ptrElem(ci.argTIs[0].t)).n)}
		}
	case "cap":
		switch x := a[0].o.(type) {
		case nil:
			return Value{}
		case *SliceV:
			return Value{n: uint64(x.cap)}
		case *ChanObj:
			return Value{n: uint64(x.cap)}
		case Agg:
			return Value{n: uint64(ci.argTIs[0].n)}
		}
	case "append":
		return vm.appendB(a[0], a[1], ci)
	case "copy":
		return vm.copyB(a[0], a[1])
	case "delete":
		if m, ok := a[0].o.(*MapObj); ok {
			vm.mapDelete(m, a[1])
		}
		return Value{}
	case "close":
		vm.closeChan(g, a[0])
		return Value{}
	case "recover":
		if d := fr.deferOf; d != nil && d.unwind != nil && !d.unwind.recovered {
			d.unwind.recovered = true
			return d.unwind.val
		}
		return Value{}
	case "panic":
		panic(throwSig{a[0]})
	case "print", "println":
		return Value{}
	case "min", "max":
		r := a[0]
		ti := ci.argTIs[0]
		for _, x := range a[1:] {
			tok := token.LSS
			if name == "max" {
				tok = token.GTR
			}
			c := vm.binop(tok, ti, ti, x, r)
			if x.o == nil && r.o == nil && ti.kind == kInt {
				c = vm.intBin(tok, ti, ti, x.n, r.n)
			}
			if c.o == nil {
				if c.n == 1 {
					r = x
				}
			} else if ti.kind == kInt {
				r = tv(vm.T.mkIte(c.o.(*Term), vm.term(x, ti.w), vm.term(r, ti.w)))
			} else if vm.branchV(c) {
				r = x
			}
		}
		return r
	case "clear":
		switch x := a[0].o.(type) {
		case *MapObj:
			if vm.race {
				vm.raceMap(x, true)
			}
			vm.mapTouch(x)
			for i := range x.ents {
				x.ents[i] = mapEnt{}
			}
			x.idx = map[string]int{}
			x.n, x.nsym = 0, 0
		case *SliceV:
			for i := 0; i < x.len*x.esz; i++ {
				vm.setCell(x.obj, x.off+i, Value{})
			}
		}
		return Value{}
	case "ssa:wrapnilchk":
		if a[0].o == nil {
			vm.runtimePanic("value method called using nil pointer")
		}
		return a[0]
	case "String": // unsafe.String
		n := int(vm.concretize(a[1], 64))
		if n == 0 {
			return Value{}
		}
		o := a[0].o.(*Obj)
		return mkStrCells(append([]Value(nil), o.cells[a[0].n:int(a[0].n)+n]...))
	case "StringData":
		s := strOf(a[0])
		if s.len() == 0 {
			return Value{}
		}
		o := vm.newObj(0)
		o.cells = append([]Value(nil), s.cells()...)
		return Value{o: o}
	case "SliceData":
		s := sliceOf(a[0])
		if a[0].o == nil {
			return Value{}
		}
		return Value{n: uint64(s.off), o: s.obj}
	case "Slice":
		n := int(vm.concretize(a[1], 64))
		if a[0].o == nil {
			return Value{}
		}
		es := vm.ti(ptrElem(ci.argTIs[0].t)).size
		return Value{o: &SliceV{obj: a[0].o.(*Obj), off: int(a[0].n), len: n, cap: n, esz: es}}
	}
	panic(unsupported("builtin " + name))
}

func growCap(old, need int) int {
	c := old * 2
	if old > 256 {
		c = old + old/4 + 192
	}
	if c < need {
		c = need
	}
	return c
}

func (vm *VM) appendB(x, y Value, ci *callInfo) Value {
	s := sliceOf(x)
	var add []Value
	esz := ci.argTIs[0].elem.size
	var yn int
	switch v := y.o.(type) {
	case nil:
	case *Str:
		add = v.cells()
		yn = len(add)
	case *SliceV:
		add = v.cellsView()
		yn = v.len
		if vm.race && len(add) > 0 {
			vm.raceCells(v.obj, v.off, len(add), false)
		}
	}
	if yn == 0 {
		return x
	}
	n := s.len + yn
	if n*esz > 1<<24 {
		vm.end("violation", "memory: slice grows beyond 2^24 cells")
	}
	if x.o != nil && n <= s.cap {
		if vm.race {
			vm.raceCells(s.obj, s.off+s.len*esz, len(add), true)
		}
		if s.obj.epoch == 0 && vm.inPath {
			for i := range add {
				vm.undo = append(vm.undo, undoRec{s.obj, s.off + s.len*esz + i, s.obj.cells[s.off+s.len*esz+i]})
			}
		}
		copy(s.obj.cells[s.off+s.len*esz:], add)
		return Value{o: &SliceV{obj: s.obj, off: s.off, len: n, cap: s.cap, esz: esz}}
	}
	c := growCap(s.cap, n)
	o := vm.newObj(c * esz)
	if x.o != nil {
		if vm.race && s.len > 0 {
			vm.raceCells(s.obj, s.off, s.len*esz, false)
		}
		copy(o.cells, s.cellsView())
	}
	copy(o.cells[s.len*esz:], add)
	return Value{o: &SliceV{obj: o, len: n, cap: c, esz: esz}}
}

func (vm *VM) copyB(x, y Value) Value {
	d := sliceOf(x)
	var src []Value
	switch v := y.o.(type) {
	case *Str:
		src = v.cells()
	case *SliceV:
		src = v.cellsView()
		if vm.race && len(src) > 0 {
			vm.raceCells(v.obj, v.off, len(src), false)
		}
	}
	if x.o == nil {
		return Value{}
	}
	m := d.len * d.esz
	if len(src) < m {
		m = len(src)
	}
	if m == 0 {
		return Value{}
	}
	if vm.race {
		vm.raceCells(d.obj, d.off, m, true)
	}
	if d.obj.epoch == 0 && vm.inPath {
		for i := 0; i < m; i++ {
			vm.undo = append(vm.undo, undoRec{d.obj, d.off + i, d.obj.cells[d.off+i]})
		}
	}
	copy(d.obj.cells[d.off:d.off+m], src[:m])
	return Value{n: uint64(m / d.esz)}
}
