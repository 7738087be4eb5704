package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	opNop uint8 = iota
	opAlloc
	opAllocL
	opBin
	opNot
	opNeg
	opCompl
	opLoad
	opRecv
	opCall
	opGo
	opDefer
	opMove
	opConvert
	opExtract
	opField
	opFieldAddr
	opIf
	opIndex
	opIndexAddr
	opJump
	opLookup
	opMakeChan
	opMakeClosure
	opMakeIface
	opMakeMap
	opMakeSlice
	opMapUpdate
	opNext
	opPanic
	opRange
	opReturn
	opRunDefers
	opSelect
	opSend
	opSlice
	opSlice2Arr
	opStore
	opTypeAssert
)

type move struct{ dst, src int32 }

type Instr struct {
	op      uint8
	commaOk bool
	block   bool
	tok     token.Token
	dst     int32
	a, b, c int32
	x, y    int32 // immediates: offsets, jump targets
	ti, ti2 *TI
	args    []int32
	mv1     []move
	mv2     []move
	call    *callInfo
	sel     []selCase
	pos     token.Pos
}

type selCase struct {
	send bool
	ch   int32
	val  int32
	ti   *TI
}

type callInfo struct {
	fn      *Fn
	builtin string
	method  *types.Func
	fnReg   int32
	argTIs  []*TI
	resTI   *TI
	instr   ssa.CallInstruction
}

type Fn struct {
	name    string
	ssa     *ssa.Function
	nregs   int
	nparams int
	nfree   int
	consts  []Value
	code    []Instr
	built   bool
	recover int32 // pc of recover block, or -1
	results []*TI
	intr    intrinsic
	repo    bool
	quiet   bool // its synchronisation is not a point where the schedule branches
	hit     bool
	blkHit  []bool
	pcBlk   []int32
	pure    bool
	bad     string
}

type intrinsic func(vm *VM, g *G, fn *Fn, args []Value, ci *callInfo) (Value, bool)

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return o.String()
	}
	return f.String()
}

func (vm *VM) fnOf(f *ssa.Function) *Fn {
	if x, ok := vm.fns[f]; ok {
		return x
	}
	x := &Fn{name: fnName(f), ssa: f, recover: -1}
	vm.fns[f] = x
	if in, ok := intrinsics[x.name]; ok {
		x.intr = in
	} else if m, ok := modelFuncs[x.name]; ok {
		mf := vm.P.modelFn(m)
		if mf == nil {
			panic("missing model function " + m)
		}
		y := vm.fnOf(mf)
		vm.fns[f] = y
		return y
	} else if f.Pkg != nil && noopPkgs[f.Pkg.Pkg.Path()] {
		x.intr = intrNoop
	} else if f.Pkg != nil && f.Synthetic == "package initializer" && !initAllowed(f.Pkg.Pkg.Path()) {
		x.intr = intrNoop
	}
	x.nparams = len(f.Params)
	x.nfree = len(f.FreeVars)
	sig := f.Signature
	for i := 0; i < sig.Results().Len(); i++ {
		x.results = append(x.results, vm.ti(sig.Results().At(i).Type()))
	}
	if p := f.Package(); p != nil {
		x.repo = isRepoPkg(p.Pkg.Path())
		x.quiet = p.Pkg.Path() == "context" || p.Pkg.Path() == "time"
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		x.repo = isRepoPkg(f.Object().Pkg().Path())
	}
	return x
}

func isRepoPkg(p string) bool {
	return (p == repoModule || strings.HasPrefix(p, repoModule+"/")) && !strings.HasPrefix(p, repoModule+"/zzverif")
}

func (vm *VM) build(x *Fn) {
	if x.built {
		if x.bad != "" {
			panic(unsupported(x.bad))
		}
		return
	}
	x.built = true
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupported)
			if !ok {
				panic(r)
			}
			x.bad = string(u)
			x.code = nil
			panic(r)
		}
	}()
	f := x.ssa
	if p := f.Package(); p != nil {
		vm.P.ensure(p)
	} else if o := f.Origin(); o != nil && o.Package() != nil {
		vm.P.ensure(o.Package())
	}
	if f.Blocks == nil {
		return
	}
	b := &fnBuilder{vm: vm, x: x, regs: map[ssa.Value]int32{}, cmap: map[ssa.Value]int32{}}
	n := int32(0)
	for _, p := range f.Params {
		b.regs[p] = n
		n++
	}
	for _, p := range f.FreeVars {
		b.regs[p] = n
		n++
	}
	for _, blk := range f.Blocks {
		for _, in := range blk.Instrs {
			if v, ok := in.(ssa.Value); ok {
				b.regs[v] = n
				n++
			}
		}
	}
	starts := make([]int32, len(f.Blocks))
	var fix []int
	for _, blk := range f.Blocks {
		starts[blk.Index] = int32(len(x.code))
		for _, in := range blk.Instrs {
			switch in := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			case *ssa.If:
				x.code = append(x.code, Instr{op: opIf, a: b.opnd(in.Cond), x: int32(blk.Succs[0].Index), y: int32(blk.Succs[1].Index),
					mv1: b.moves(blk, 0), mv2: b.moves(blk, 1), pos: in.Pos()})
				fix = append(fix, len(x.code)-1)
			case *ssa.Jump:
				x.code = append(x.code, Instr{op: opJump, x: int32(blk.Succs[0].Index), mv1: b.moves(blk, 0), pos: in.Pos()})
				fix = append(fix, len(x.code)-1)
			default:
				i := b.instr(in)
				i.pos = in.Pos()
				x.code = append(x.code, i)
			}
		}
		for len(x.pcBlk) < len(x.code) {
			x.pcBlk = append(x.pcBlk, int32(blk.Index))
		}
	}
	for _, i := range fix {
		x.code[i].x = starts[x.code[i].x]
		if x.code[i].op == opIf {
			x.code[i].y = starts[x.code[i].y]
		}
	}
	if f.Recover != nil {
		x.recover = starts[f.Recover.Index]
	}
	x.blkHit = make([]bool, len(f.Blocks))
	x.nregs = int(n)
}

type fnBuilder struct {
	vm   *VM
	x    *Fn
	regs map[ssa.Value]int32
	cmap map[ssa.Value]int32
}

func (b *fnBuilder) moves(blk *ssa.BasicBlock, succ int) []move {
	to := blk.Succs[succ]
	// position of this edge among preds (a block may appear twice)
	k := 0
	for i := 0; i < succ; i++ {
		if blk.Succs[i] == to {
			k++
		}
	}
	idx := -1
	for i, p := range to.Preds {
		if p == blk {
			if k == 0 {
				idx = i
				break
			}
			k--
		}
	}
	var mv []move
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		mv = append(mv, move{b.regs[phi], b.opnd(phi.Edges[idx])})
	}
	return mv
}

func (b *fnBuilder) opnd(v ssa.Value) int32 {
	if r, ok := b.regs[v]; ok {
		return r
	}
	if c, ok := b.cmap[v]; ok {
		return c
	}
	var val Value
	switch v := v.(type) {
	case *ssa.Const:
		val = b.vm.constVal(v)
	case *ssa.Global:
		val = Value{o: b.vm.globalObj(v)}
	case *ssa.Function:
		val = Value{o: &Closure{fn: b.vm.fnOf(v)}}
	case *ssa.Builtin:
		val = Value{o: &Builtin{v.Name()}}
	default:
		panic(fmt.Sprintf("operand %T", v))
	}
	b.x.consts = append(b.x.consts, val)
	i := int32(-len(b.x.consts))
	b.cmap[v] = i
	return i
}

func (vm *VM) globalObj(g *ssa.Global) *Obj {
	if o, ok := vm.globals[g]; ok {
		return o
	}
	ti := vm.ti(ptrElem(g.Type()))
	o := &Obj{cells: make([]Value, ti.size)}
	vm.globals[g] = o
	if g.Pkg != nil && vm.P.pathInit[g.Pkg] {
		vm.pathGlobals = append(vm.pathGlobals, o)
		o.epoch = 1
	}
	return o
}

func (vm *VM) constVal(c *ssa.Const) Value {
	ti := vm.ti(c.Type())
	if c.Value == nil {
		return ti.zero()
	}
	switch ti.kind {
	case kBool:
		return bv(constant.BoolVal(c.Value))
	case kInt:
		if ti.signed {
			n, ok := constant.Int64Val(constant.ToInt(c.Value))
			if !ok {
				u, _ := constant.Uint64Val(constant.ToInt(c.Value))
				n = int64(u)
			}
			return Value{n: uint64(n) & mask(ti.w)}
		}
		u, ok := constant.Uint64Val(constant.ToInt(c.Value))
		if !ok {
			n, _ := constant.Int64Val(constant.ToInt(c.Value))
			u = uint64(n)
		}
		return Value{n: u & mask(ti.w)}
	case kFloat:
		f, _ := constant.Float64Val(c.Value)
		if ti.w == 32 {
			return Value{n: uint64(math.Float32bits(float32(f)))}
		}
		return Value{n: math.Float64bits(f)}
	case kString:
		return mkStr(constant.StringVal(c.Value))
	case kUnsafe, kPtr:
		return Value{}
	case kIface:
		// constant converted to a type parameter's core type; not expected
	}
	panic(unsupported("constant of type " + c.Type().String()))
}

func (b *fnBuilder) callInfo(in ssa.CallInstruction, i *Instr) {
	c := in.Common()
	ci := &callInfo{instr: in}
	i.call = ci
	if c.IsInvoke() {
		ci.method = c.Method
		ci.fnReg = b.opnd(c.Value)
	} else {
		switch v := c.Value.(type) {
		case *ssa.Builtin:
			ci.builtin = v.Name()
		case *ssa.Function:
			ci.fn = b.vm.fnOf(v)
		default:
			ci.fnReg = b.opnd(v)
		}
	}
	for _, a := range c.Args {
		i.args = append(i.args, b.opnd(a))
		ci.argTIs = append(ci.argTIs, b.vm.ti(a.Type()))
	}
	if v := in.Value(); v != nil {
		ci.resTI = b.vm.ti(v.Type())
	}
}

func (b *fnBuilder) instr(in ssa.Instruction) Instr {
	vm := b.vm
	var i Instr
	if v, ok := in.(ssa.Value); ok {
		i.dst = b.regs[v]
	} else {
		i.dst = -1
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		i.op = opAlloc
		i.ti = vm.ti(ptrElem(in.Type()))
	case *ssa.BinOp:
		i.op, i.tok = opBin, in.Op
		i.a, i.b = b.opnd(in.X), b.opnd(in.Y)
		i.ti, i.ti2 = vm.ti(in.X.Type()), vm.ti(in.Y.Type())
		// comparison of interface with concrete operand does not occur in SSA (operands are converted)
	case *ssa.UnOp:
		i.a = b.opnd(in.X)
		i.commaOk = in.CommaOk
		switch in.Op {
		case token.NOT:
			i.op = opNot
		case token.SUB:
			i.op = opNeg
			i.ti = vm.ti(in.X.Type())
		case token.XOR:
			i.op = opCompl
			i.ti = vm.ti(in.X.Type())
		case token.MUL:
			i.op = opLoad
			i.ti = vm.ti(in.Type())
		case token.ARROW:
			i.op = opRecv
			i.ti = vm.ti(in.X.Type()).elem
			if i.ti == nil {
				i.ti = vm.ti(in.X.Type().Underlying().(*types.Chan).Elem())
			}
		}
	case *ssa.Call:
		i.op = opCall
		b.callInfo(in, &i)
	case *ssa.Go:
		i.op = opGo
		b.callInfo(in, &i)
	case *ssa.Defer:
		i.op = opDefer
		b.callInfo(in, &i)
		if in.DeferStack != nil {
			panic(unsupported("defer stack"))
		}
	case *ssa.ChangeInterface:
		i.op, i.a = opMove, b.opnd(in.X)
	case *ssa.ChangeType:
		i.op, i.a = opMove, b.opnd(in.X)
	case *ssa.Convert:
		i.op, i.a = opConvert, b.opnd(in.X)
		i.ti, i.ti2 = vm.ti(in.X.Type()), vm.ti(in.Type())
	case *ssa.MultiConvert:
		i.op, i.a = opConvert, b.opnd(in.X)
		i.ti, i.ti2 = vm.ti(in.X.Type()), vm.ti(in.Type())
	case *ssa.Extract:
		i.op, i.a, i.x = opExtract, b.opnd(in.Tuple), int32(in.Index)
	case *ssa.Field:
		i.op, i.a = opField, b.opnd(in.X)
		st := vm.ti(in.X.Type())
		i.x = int32(st.offs[in.Field])
		i.ti = st.fields[in.Field]
	case *ssa.FieldAddr:
		i.op, i.a = opFieldAddr, b.opnd(in.X)
		st := vm.ti(ptrElem(in.X.Type()))
		i.x = int32(st.offs[in.Field])
	case *ssa.Index:
		i.op, i.a, i.b = opIndex, b.opnd(in.X), b.opnd(in.Index)
		i.ti, i.ti2 = vm.ti(in.X.Type()), vm.ti(in.Index.Type())
	case *ssa.IndexAddr:
		i.op, i.a, i.b = opIndexAddr, b.opnd(in.X), b.opnd(in.Index)
		i.ti, i.ti2 = vm.ti(in.X.Type()), vm.ti(in.Index.Type())
		if i.ti.kind == kPtr {
			i.ti = vm.ti(ptrElem(in.X.Type()))
			i.x = 1
		}
	case *ssa.Lookup:
		i.op, i.a, i.b = opLookup, b.opnd(in.X), b.opnd(in.Index)
		i.commaOk = in.CommaOk
		i.ti, i.ti2 = vm.ti(in.X.Type()), vm.ti(in.Index.Type())
	case *ssa.MakeChan:
		i.op, i.a = opMakeChan, b.opnd(in.Size)
		i.ti = vm.ti(in.Type())
	case *ssa.MakeClosure:
		i.op = opMakeClosure
		i.call = &callInfo{fn: vm.fnOf(in.Fn.(*ssa.Function))}
		for _, x := range in.Bindings {
			i.args = append(i.args, b.opnd(x))
		}
	case *ssa.MakeInterface:
		i.op, i.a = opMakeIface, b.opnd(in.X)
		i.ti = vm.ti(in.X.Type())
	case *ssa.MakeMap:
		i.op = opMakeMap
		i.ti = vm.ti(in.Type())
	case *ssa.MakeSlice:
		i.op, i.a, i.b = opMakeSlice, b.opnd(in.Len), b.opnd(in.Cap)
		i.ti = vm.ti(in.Type())
		i.ti2 = vm.ti(in.Len.Type())
	case *ssa.MapUpdate:
		i.op, i.a, i.b, i.c = opMapUpdate, b.opnd(in.Map), b.opnd(in.Key), b.opnd(in.Value)
		i.ti = vm.ti(in.Map.Type())
	case *ssa.Next:
		i.op, i.a = opNext, b.opnd(in.Iter)
		i.commaOk = in.IsString
		i.ti = vm.ti(in.Type())
	case *ssa.Panic:
		i.op, i.a = opPanic, b.opnd(in.X)
	case *ssa.Range:
		i.op, i.a = opRange, b.opnd(in.X)
		i.ti = vm.ti(in.X.Type())
	case *ssa.Return:
		i.op = opReturn
		for _, x := range in.Results {
			i.args = append(i.args, b.opnd(x))
		}
	case *ssa.RunDefers:
		i.op = opRunDefers
	case *ssa.Select:
		i.op = opSelect
		i.block = in.Blocking
		for _, s := range in.States {
			c := selCase{send: s.Dir == types.SendOnly, ch: b.opnd(s.Chan), ti: vm.ti(s.Chan.Type().Underlying().(*types.Chan).Elem())}
			if c.send {
				c.val = b.opnd(s.Send)
			}
			i.sel = append(i.sel, c)
		}
	case *ssa.Send:
		i.op, i.a, i.b = opSend, b.opnd(in.Chan), b.opnd(in.X)
	case *ssa.Slice:
		i.op, i.a = opSlice, b.opnd(in.X)
		i.ti = vm.ti(in.X.Type())
		if i.ti.kind == kPtr {
			i.ti2 = vm.ti(ptrElem(in.X.Type()))
		}
		i.args = []int32{noOp, noOp, noOp}
		for k, x := range []ssa.Value{in.Low, in.High, in.Max} {
			if x != nil {
				i.args[k] = b.opnd(x)
			}
		}
	case *ssa.SliceToArrayPointer:
		i.op, i.a = opSlice2Arr, b.opnd(in.X)
		i.ti = vm.ti(ptrElem(in.Type()))
	case *ssa.Store:
		i.op, i.a, i.b = opStore, b.opnd(in.Addr), b.opnd(in.Val)
		i.ti = vm.ti(in.Val.Type())
	case *ssa.TypeAssert:
		i.op, i.a = opTypeAssert, b.opnd(in.X)
		i.ti = vm.ti(in.AssertedType)
		i.commaOk = in.CommaOk
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", in)))
	}
	return i
}

const noOp = int32(math.MinInt32)
