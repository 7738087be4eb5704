package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Value is one machine value. Scalars keep their bits (zero extended) in n, or a
// *Term in o when symbolic. The zero Value is the zero value of every leaf type.
type Value struct {
	n uint64
	o any
}

// Str is an immutable string; c is non-nil when some byte is symbolic.
type Str struct {
	s string
	c []Value
}

// Obj is an allocated memory block of flattened cells.
type Obj struct {
	cells  []Value
	epoch  int32 // 0: created while the process was initialising
	id     int32
	mark   uint32
	shadow []shadow
}

type SliceV struct {
	obj           *Obj
	off, len, cap int // in elements relative to off cells; off in cells
	esz           int
}

type Iface struct {
	ti *TI
	v  Value
}

type Closure struct {
	fn    *Fn
	binds []Value
}

type Builtin struct{ name string }

type Agg []Value   // struct or array value, flattened
type Tuple []Value // multiple results

type mapEnt struct {
	k, v Value
	live bool
	sym  bool
}

type MapObj struct {
	ents  []mapEnt
	idx   map[string]int
	n     int
	nsym  int
	epoch int32
	mark  uint32
	sh    shadow
	ki    *TI
}

type mapIter struct {
	m     *MapObj
	pos   int
	start int
	seen  int
	str   *Str
	init  bool
}

type waiter struct {
	g    *G
	sel  *selState
	idx  int
	val  Value
	dead bool
}

type selState struct {
	done bool
	in   *Instr
	fr   *Frame
}

type ChanObj struct {
	buf    []Value
	cap    int
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	ti     *TI
	vcs    []vclock // of the buffered elements
	free   []vclock // of the free slots
	vc     vclock
	epoch  int32
	mark   uint32
}

// ---- type information ----

type Kind uint8

const (
	kBool Kind = iota
	kInt
	kFloat
	kString
	kPtr
	kSlice
	kIface
	kFunc
	kMap
	kChan
	kStruct
	kArray
	kTuple
	kUnsafe
	kComplex
	kOther
)

type TI struct {
	t      types.Type
	id     int
	kind   Kind
	w      uint8
	signed bool
	size   int
	agg    bool
	elem   *TI
	key    *TI
	fields []*TI
	offs   []int
	n      int
	named  *types.Named
}

func (vm *VM) ti(t types.Type) *TI {
	if x, ok := vm.tiPtr[t]; ok {
		return x
	}
	if x := vm.tiMap.At(t); x != nil {
		vm.tiPtr[t] = x.(*TI)
		return x.(*TI)
	}
	x := &TI{t: t, id: vm.tiMap.Len() + 1, size: 1}
	vm.tiMap.Set(t, x)
	vm.tiPtr[t] = x
	if n, ok := types.Unalias(t).(*types.Named); ok {
		x.named = n
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			x.kind = kBool
		case types.String, types.UntypedString:
			x.kind = kString
		case types.UnsafePointer:
			x.kind = kUnsafe
		case types.UntypedNil:
			x.kind = kPtr
		case types.Float64, types.UntypedFloat:
			x.kind, x.w = kFloat, 64
		case types.Float32:
			x.kind, x.w = kFloat, 32
		case types.Complex64, types.Complex128, types.UntypedComplex:
			x.kind = kComplex
		default:
			x.kind = kInt
			x.signed = u.Info()&types.IsUnsigned == 0
			switch u.Kind() {
			case types.Int8, types.Uint8:
				x.w = 8
			case types.Int16, types.Uint16:
				x.w = 16
			case types.Int32, types.Uint32, types.UntypedRune:
				x.w = 32
			default:
				x.w = 64
			}
		}
	case *types.Pointer:
		x.kind = kPtr
	case *types.Slice:
		x.kind = kSlice
		x.elem = vm.ti(u.Elem())
	case *types.Interface:
		x.kind = kIface
	case *types.Signature:
		x.kind = kFunc
	case *types.Map:
		x.kind = kMap
		x.key, x.elem = vm.ti(u.Key()), vm.ti(u.Elem())
	case *types.Chan:
		x.kind = kChan
		x.elem = vm.ti(u.Elem())
	case *types.Struct:
		x.kind, x.agg = kStruct, true
		x.size = 0
		for i := 0; i < u.NumFields(); i++ {
			f := vm.ti(u.Field(i).Type())
			x.fields = append(x.fields, f)
			x.offs = append(x.offs, x.size)
			x.size += f.size
		}
	case *types.Array:
		x.kind, x.agg = kArray, true
		x.elem = vm.ti(u.Elem())
		x.n = int(u.Len())
		x.size = x.n * x.elem.size
	case *types.Tuple:
		x.kind = kTuple
		for i := 0; i < u.Len(); i++ {
			x.fields = append(x.fields, vm.ti(u.At(i).Type()))
		}
	default:
		x.kind = kOther
	}
	return x
}

func (x *TI) zero() Value {
	if x.agg {
		return Value{o: make(Agg, x.size)}
	}
	if x.kind == kTuple {
		t := make(Tuple, len(x.fields))
		for i, f := range x.fields {
			t[i] = f.zero()
		}
		return Value{o: t}
	}
	return Value{}
}

func ptrElem(t types.Type) types.Type {
	return t.Underlying().(*types.Pointer).Elem()
}

// ---- helpers ----

func isSym(v Value) bool {
	_, ok := v.o.(*Term)
	return ok
}

func mkStr(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{o: &Str{s: s}}
}

func mkStrCells(c []Value) Value {
	if len(c) == 0 {
		return Value{}
	}
	for i := range c {
		if c[i].o != nil {
			return Value{o: &Str{c: c}}
		}
	}
	b := make([]byte, len(c))
	for i := range c {
		b[i] = byte(c[i].n)
	}
	return Value{o: &Str{s: string(b)}}
}

func strOf(v Value) *Str {
	if v.o == nil {
		return emptyStr
	}
	if s, ok := v.o.(*Str); ok {
		return s
	}
	if sl, ok := v.o.(*SliceV); ok { // unsafe reinterpretation of a byte slice header
		return strOf(mkStrCells(append([]Value(nil), sl.cellsView()...)))
	}
	panic(unsupported(fmt.Sprintf("string value %T", v.o)))
}

var emptyStr = &Str{}

func (s *Str) len() int {
	if s.c != nil {
		return len(s.c)
	}
	return len(s.s)
}

func (s *Str) at(i int) Value {
	if s.c != nil {
		return s.c[i]
	}
	return Value{n: uint64(s.s[i])}
}

func (s *Str) cells() []Value {
	if s.c != nil {
		return s.c
	}
	c := make([]Value, len(s.s))
	for i := 0; i < len(s.s); i++ {
		c[i].n = uint64(s.s[i])
	}
	return c
}

func (s *Str) slice(lo, hi int) Value {
	if lo == hi {
		return Value{}
	}
	if s.c != nil {
		if lo == 0 && hi == len(s.c) {
			return Value{o: s}
		}
		return mkStrCells(s.c[lo:hi:hi])
	}
	return mkStr(s.s[lo:hi])
}

func (s *SliceV) cellsView() []Value {
	return s.obj.cells[s.off : s.off+s.len*s.esz]
}

func sliceOf(v Value) *SliceV {
	if v.o == nil {
		return nilSlice
	}
	switch s := v.o.(type) {
	case *SliceV:
		return s
	case *Str:
		c := append([]Value(nil), s.cells()...)
		return &SliceV{obj: &Obj{cells: c, epoch: 1}, len: len(c), cap: len(c), esz: 1}
	}
	panic(unsupported(fmt.Sprintf("slice value %T", v.o)))
}

var nilSlice = &SliceV{obj: &Obj{}, esz: 1}

type unsupported string

func (vm *VM) term(v Value, w uint8) *Term {
	if v.o == nil {
		return vm.T.mkConst(w, v.n)
	}
	if t, ok := v.o.(*Term); ok {
		return t
	}
	panic(unsupported(fmt.Sprintf("scalar expected, have %T", v.o)))
}

func tv(t *Term) Value {
	if t.op == OConst {
		return Value{n: t.k}
	}
	return Value{o: t}
}

func bv(b bool) Value {
	if b {
		return Value{n: 1}
	}
	return Value{}
}

func (vm *VM) showVal(v Value) string {
	switch x := v.o.(type) {
	case nil:
		return fmt.Sprint(v.n)
	case *Str:
		if x.c == nil {
			return fmt.Sprintf("%q", x.s)
		}
		var sb strings.Builder
		for _, c := range x.c {
			if c.o == nil {
				sb.WriteByte(byte(c.n))
			} else {
				fmt.Fprintf(&sb, "<%s>", vm.termStr(c.o.(*Term), 3))
			}
		}
		return fmt.Sprintf("%q", sb.String())
	case *Term:
		return vm.termStr(x, 4)
	case *Iface:
		return fmt.Sprintf("%v(%s)", x.ti.t, vm.showVal(x.v))
	}
	return fmt.Sprintf("%T", v.o)
}

func (vm *VM) termStr(t *Term, depth int) string {
	if t == nil {
		return ""
	}
	switch t.op {
	case OConst:
		return fmt.Sprint(t.k)
	case OVar:
		return fmt.Sprintf("v%d", t.k)
	}
	if depth == 0 {
		return "..."
	}
	s := opName[t.op] + "(" + vm.termStr(t.a, depth-1)
	if t.b != nil {
		s += "," + vm.termStr(t.b, depth-1)
	}
	if t.c != nil {
		s += "," + vm.termStr(t.c, depth-1)
	}
	return s + ")"
}
