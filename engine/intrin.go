package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"reflect"
	"strconv"
	"strings"
)

const repoModule = "github.com/yusank/godis"
const vhPkg = repoModule + "/zzverif/vh."

// packages whose functions have no effect the properties can observe
var noopPkgs = map[string]bool{
	"log": true, "os": true, "internal/godebug": true, "internal/race": true, "internal/msan": true, "internal/asan": true,
	"internal/testlog": true, "runtime/debug": true, "log/slog": true,
	"go.uber.org/zap": true, "github.com/panjf2000/gnet/logging": true, "github.com/panjf2000/gnet/pkg/logging": true,
}

// library functions replaced by Go models in zzverif/model
var modelFuncs = map[string]string{
	"fmt.Sprintf": "Sprintf", "fmt.Sprint": "Sprint", "fmt.Sprintln": "Sprintln", "fmt.Errorf": "Errorf",
	"fmt.Fprintf": "Fprintf", "fmt.Fprint": "Fprint", "fmt.Fprintln": "Fprintln", "fmt.Appendf": "Appendf",
	"gopkg.in/yaml.v3.NewDecoder": "YamlNewDecoder", "(*gopkg.in/yaml.v3.Decoder).Decode": "YamlDecode",
	"(*gopkg.in/yaml.v3.Decoder).KnownFields": "YamlKnownFields", "gopkg.in/yaml.v3.Unmarshal": "YamlUnmarshal",
	"os.Open": "OsOpen", "os.Create": "OsCreate", "os.OpenFile": "OsOpenFile", "os.ReadFile": "OsReadFile", "os.WriteFile": "OsWriteFile",
	"os.MkdirTemp": "OsMkdirTemp", "os.CreateTemp": "OsCreateTemp", "os.Mkdir": "OsMkdir", "os.MkdirAll": "OsMkdir", "os.Remove": "OsRemove",
	"os.RemoveAll": "OsRemoveAll", "os.Rename": "OsRename", "(*os.File).Read": "FileRead", "(*os.File).Write": "FileWrite",
	"(*os.File).WriteString": "FileWriteString", "(*os.File).ReadFrom": "FileReadFrom", "(*os.File).WriteTo": "FileWriteTo",
	"(*os.File).Close": "FileClose", "(*os.File).Name": "FileName", "(*os.File).Sync": "FileSync", "(*os.File).Chmod": "FileChmod",
	"(*os.File).Truncate": "FileTruncate", "(*os.File).Seek": "FileSeek",
	"io/ioutil.ReadFile": "OsReadFile", "io/ioutil.WriteFile": "OsWriteFile",
	"text/template.New": "TemplateNew", "text/template.Must": "TemplateMust", "(*text/template.Template).Parse": "TemplateParse",
	"(*text/template.Template).Execute": "TemplateExecute", "(*text/template.Template).Name": "TemplateName",
	"errors.Is": "ErrorsIs", "errors.As": "ErrorsAs",
	"math.Max": "MathMax", "math.Min": "MathMin",
	"(*sync/atomic.Value).CompareAndSwap":         "ValueCas",
	"(*github.com/panjf2000/ants/v2.Pool).Submit": "PoolSubmit",
	"sort.Slice": "SortSlice", "sort.SliceStable": "SortSlice",
	"(*sync.Pool).Get": "SyncPoolGet", "(*sync.Pool).Put": "SyncPoolPut",
	"(*sync.Map).Load": "MapLoad", "(*sync.Map).Store": "MapStore", "(*sync.Map).LoadOrStore": "MapLoadOrStore",
	"(*sync.Map).LoadAndDelete": "MapLoadAndDelete", "(*sync.Map).Delete": "MapDelete", "(*sync.Map).Range": "MapRange",
}

var intrinsics map[string]intrinsic

func zeroRes(fn *Fn) Value {
	switch len(fn.results) {
	case 0:
		return Value{}
	case 1:
		return fn.results[0].zero()
	}
	t := make(Tuple, len(fn.results))
	for i, r := range fn.results {
		t[i] = r.zero()
	}
	return Value{o: t}
}

func intrNoop(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
	if strings.Contains(fn.name, "log.Fatal") || fn.name == "os.Exit" {
		vm.end("violation", "crash: process exit by "+fn.name)
	}
	if strings.Contains(fn.name, "log.Panic") {
		vm.runtimePanic("log.Panic")
	}
	return zeroRes(fn), true
}

// body runs the real body of a function that also has an intrinsic.
func (vm *VM) body(g *G, fn *Fn, args []Value) (Value, bool) {
	fr := g.top
	dst := int32(-1)
	if fr != nil {
		dst = fr.fn.code[fr.pc].dst
	}
	vm.pushFrame(g, fn, args, nil, dst)
	return Value{}, true
}

func concrete(a []Value) bool {
	for _, v := range a {
		if v.o != nil {
			return false
		}
	}
	return true
}

func tup(v ...Value) Value { return Value{o: Tuple(v)} }

// rnd logs a random draw so that a replay can repeat it.
func (vm *VM) rnd(t *Term, v Value) Value {
	vm.rands = append(vm.rands, t)
	return v
}

// splitmix is the next draw of a seeded random sequence.
func (vm *VM) splitmix() uint64 {
	vm.randSeed += 0x9e3779b97f4a7c15
	z := vm.randSeed
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

func nInt(i int) Value { return Value{n: uint64(int64(i))} }

func (vm *VM) timeNow() Value {
	return Value{o: Agg{{n: uint64(vm.now % 1e9)}, {n: uint64(63800000000 + vm.now/1e9)}, {}}}
}

func init() {
	I := map[string]intrinsic{}
	intrinsics = I
	type fn = intrinsic
	noop := []string{
		"fmt.Println", "fmt.Printf", "fmt.Print", "math/rand.Seed", "(*math/rand.Rand).Seed", "runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer",
		"runtime.NumGoroutine", "runtime.Stack", "runtime.Caller", "runtime.Callers",
		"math/rand.NewSource", "runtime.LockOSThread", "runtime.UnlockOSThread", "os/signal.Notify", "os/signal.Stop",
		"internal/runtime/sys.Prefetch",
	}
	for _, n := range noop {
		I[n] = intrNoop
	}
	I["runtime.GOMAXPROCS"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) { return Value{n: 8}, true }
	I["runtime.NumCPU"] = I["runtime.GOMAXPROCS"]
	I["runtime.Gosched"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		if vm.sched.on {
			return Value{}, !vm.syncPoint(g, nil, 0, false)
		}
		return Value{}, !vm.yield(g)
	}
	I["internal/reflectlite.TypeOf"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		t := vm.P.model.Type("RType").Type()
		return Value{o: &Iface{ti: vm.ti(t), v: vm.ti(t).zero()}}, true
	}
	I["math/rand.New"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		return Value{o: vm.newObj(8)}, true
	}
	newDummy := func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		return Value{o: vm.newObj(64)}, true
	}
	I["github.com/panjf2000/gnet/pkg/pool/goroutine.Default"] = newDummy
	I["github.com/panjf2000/gnet.Stop"] = intrNoop
	I["github.com/panjf2000/gnet.Serve"] = intrNoop
	id := func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) { return a[0], true }
	for _, n := range []string{"math.Float64bits", "math.Float64frombits", "math.Float32bits", "math.Float32frombits", "internal/abi.NoEscape", "internal/abi.Escape", "strings.Clone", "internal/stringslite.Clone"} {
		I[n] = id
	}
	// ---- verification API ----
	vh := func(name string, f fn) { I[vhPkg+name] = f }
	vh("Choice", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		n := int(int64(vm.concretize(a[0], 64)))
		if n <= 1 {
			return Value{}, true
		}
		t := vm.newVar(16, 0, uint64(n-1))
		vm.srcs = append(vm.srcs, srcVal{kind: "choice", t: t})
		return Value{n: vm.fixFresh(t, n)}, true
	})
	vh("Int", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		lo, hi := int64(a[0].n), int64(a[1].n)
		if lo > hi {
			vm.end("assume", "")
		}
		if lo == hi {
			return a[0], true
		}
		var t *Term
		t = vm.newVar(64, uint64(lo), uint64(hi))
		vm.srcs = append(vm.srcs, srcVal{kind: "int", t: t})
		return tv(t), true
	})
	vh("I64", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		t := vm.newVar(64, 0, ^uint64(0))
		vm.srcs = append(vm.srcs, srcVal{kind: "int", t: t})
		return tv(t), true
	})
	vh("F64", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		t := vm.newVar(64, 0, ^uint64(0))
		vm.srcs = append(vm.srcs, srcVal{kind: "float", t: t})
		return tv(t), true
	})
	vh("Byte", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		t := vm.newVar(8, 0, 255)
		vm.srcs = append(vm.srcs, srcVal{kind: "byte", t: t})
		return tv(t), true
	})
	vh("Bool", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		t := vm.newVar(8, 0, 1)
		vm.srcs = append(vm.srcs, srcVal{kind: "byte", t: t})
		return tv(vm.T.mkEq(t, vm.T.mkConst(8, 1))), true
	})
	vh("Str", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		n := int(vm.concretize(a[0], 64))
		c := make([]Value, n)
		for i := range c {
			t := vm.newVar(8, 0, 255)
			vm.srcs = append(vm.srcs, srcVal{kind: "byte", t: t})
			c[i] = tv(t)
		}
		return mkStrCells(c), true
	})
	vh("StrIn", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		n := int(vm.concretize(a[0], 64))
		c := make([]Value, n)
		for i := range c {
			t := vm.newVar(8, a[1].n, a[2].n)
			vm.srcs = append(vm.srcs, srcVal{kind: "byte", t: t})
			c[i] = tv(t)
		}
		return mkStrCells(c), true
	})
	vh("Assume", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		vm.assume(a[0])
		return Value{}, true
	})
	vh("Assert", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		vm.assertT(a[0], strOf(a[1]).s)
		return Value{}, true
	})
	vh("Reach", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		vm.reached = append(vm.reached, strOf(a[0]).s)
		return Value{}, true
	})
	vh("ObsStr", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		vm.obs = append(vm.obs, obsRec{label: strOf(a[0]).s, v: a[1], ti: vm.ti(types.Typ[types.String])})
		return Value{}, true
	})
	vh("ObsInt", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		vm.obs = append(vm.obs, obsRec{label: strOf(a[0]).s, v: a[1], ti: vm.ti(types.Typ[types.Int64])})
		return Value{}, true
	})
	vh("Native", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) { return bv(false), true })
	vh("Thorough", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		return bv(vm.X.thorough), true
	})
	vh("Sched", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		vm.sched = schedCfg{on: a[0].n > 0, bound: int(a[0].n) - 1, all: a[0].n >= 50}
		vm.preempts = 0
		vm.sleep = nil
		vm.wasSched = vm.wasSched || vm.sched.on
		return Value{}, true
	})
	vh("Clock", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		vm.clockLeft = int(a[0].n)
		vm.wasClock = vm.wasClock || vm.clockLeft > 0
		return Value{}, true
	})
	vh("Race", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		vm.race = true
		for _, h := range vm.gs {
			h.vc = vclock{}
			h.vc.tick(h.id)
		}
		return Value{}, true
	})
	vh("RandBudget", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		vm.randLeft = int(a[0].n)
		return Value{}, true
	})
	vh("RandSeed", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		vm.randSeed = a[0].n
		return Value{}, true
	})
	vh("MapOrder", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		vm.mapLeft = int(a[0].n)
		return Value{}, true
	})
	vh("Concrete", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		return Value{n: vm.concretize(a[0], 64)}, true
	})
	vh("And", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		return vm.andV(a[0], a[1]), true
	})
	vh("Or", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		return vm.notV(vm.andV(vm.notV(a[0]), vm.notV(a[1]))), true
	})
	vh("IteInt", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		if a[0].o == nil {
			if a[0].n == 1 {
				return a[1], true
			}
			return a[2], true
		}
		return tv(vm.T.mkIte(a[0].o.(*Term), vm.term(a[1], 64), vm.term(a[2], 64))), true
	})
	vh("StrEq", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		return vm.strEq(strOf(a[0]), strOf(a[1])), true
	})
	vh("StrLess", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		return vm.strLess(strOf(a[0]), strOf(a[1]), false), true
	})
	vh("Quiesce", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		// let every other goroutine run until none can continue
		for _, o := range vm.gs {
			if o != g && (o.st == gRun || o.st == gBlocked && o.poll != nil && o.poll()) {
				vm.block(g, "quiesce", func() bool {
					for _, o := range vm.gs {
						if o != g && (o.st == gRun || o.st == gBlocked && o.poll != nil && o.poll()) {
							return false
						}
					}
					return true
				})
				return Value{}, false
			}
		}
		return Value{}, true
	})
	vh("Fail", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		vm.end("violation", strOf(a[0]).s)
		return Value{}, true
	})
	vh("StopPath", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		vm.end("done", "")
		return Value{}, true
	})
	// ---- sync ----
	lockKey := func(a []Value) sideKey { return sideKey{a[0].o.(*Obj), int(a[0].n)} }
	nilchk := func(vm *VM, v Value) *Obj {
		o, ok := v.o.(*Obj)
		if !ok {
			vm.runtimePanic("invalid memory address or nil pointer dereference")
		}
		return o
	}
	I["(*sync.Mutex).Lock"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		o, off := nilchk(vm, a[0]), int(a[0].n)
		if vm.syncPoint(g, o, int(a[0].n), true) {
			return Value{}, false
		}
		if o.cells[off].n != 0 {
			g.yielded = vm.sched.on
			vm.block(g, "mutex lock", func() bool { return o.cells[off].n == 0 })
			return Value{}, false
		}
		vm.setCell(o, off, Value{n: 1})
		vm.syncEdge(lockKey(a), true, false)
		return Value{}, true
	}
	I["(*sync.Mutex).TryLock"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		o, off := nilchk(vm, a[0]), int(a[0].n)
		if vm.syncPoint(g, o, int(a[0].n), true) {
			return Value{}, false
		}
		if o.cells[off].n != 0 {
			return bv(false), true
		}
		vm.setCell(o, off, Value{n: 1})
		vm.syncEdge(lockKey(a), true, false)
		return bv(true), true
	}
	I["(*sync.Mutex).Unlock"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		o, off := nilchk(vm, a[0]), int(a[0].n)
		if vm.syncPoint(g, o, off, true) {
			return Value{}, false
		}
		if o.cells[off].n == 0 {
			vm.end("violation", "crash: unlock of unlocked mutex")
		}
		vm.setCell(o, off, Value{})
		vm.syncEdge(lockKey(a), false, true)
		return Value{}, true
	}
	I["(*sync.RWMutex).Lock"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		o, off := nilchk(vm, a[0]), int(a[0].n)
		if vm.syncPoint(g, o, int(a[0].n), true) {
			return Value{}, false
		}
		if o.cells[off].n != 0 || o.cells[off+1].n != 0 {
			g.yielded = vm.sched.on
			vm.block(g, "rwmutex lock", func() bool { return o.cells[off].n == 0 && o.cells[off+1].n == 0 })
			return Value{}, false
		}
		vm.setCell(o, off, Value{n: 1})
		vm.syncEdge(lockKey(a), true, false)
		return Value{}, true
	}
	I["(*sync.RWMutex).Unlock"] = I["(*sync.Mutex).Unlock"]
	I["(*sync.RWMutex).RLock"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		o, off := nilchk(vm, a[0]), int(a[0].n)
		if vm.syncPoint(g, o, int(a[0].n), false) {
			return Value{}, false
		}
		if o.cells[off].n != 0 {
			g.yielded = vm.sched.on
			vm.block(g, "rwmutex rlock", func() bool { return o.cells[off].n == 0 })
			return Value{}, false
		}
		vm.setCell(o, off+1, Value{n: o.cells[off+1].n + 1})
		vm.syncEdge(lockKey(a), true, false)
		return Value{}, true
	}
	I["(*sync.RWMutex).RUnlock"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		o, off := nilchk(vm, a[0]), int(a[0].n)
		if vm.syncPoint(g, o, off, false) {
			return Value{}, false
		}
		if o.cells[off+1].n == 0 {
			vm.end("violation", "crash: RUnlock of unlocked RWMutex")
		}
		vm.setCell(o, off+1, Value{n: o.cells[off+1].n - 1})
		vm.syncEdge(lockKey(a), false, true)
		return Value{}, true
	}
	I["(*sync.WaitGroup).Add"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		o, off := nilchk(vm, a[0]), int(a[0].n)
		if vm.syncPoint(g, o, off, true) {
			return Value{}, false
		}
		n := int64(o.cells[off].n) + int64(vm.concretize(a[1], 64))
		if n < 0 {
			vm.runtimePanic("sync: negative WaitGroup counter")
		}
		vm.syncEdge(lockKey(a), false, true)
		vm.setCell(o, off, Value{n: uint64(n)})
		return Value{}, true
	}
	I["(*sync.WaitGroup).Done"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		return I["(*sync.WaitGroup).Add"](vm, g, fn, []Value{a[0], {n: ^uint64(0)}}, ci)
	}
	I["(*sync.WaitGroup).Wait"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		o, off := nilchk(vm, a[0]), int(a[0].n)
		if vm.syncPoint(g, o, off, true) {
			return Value{}, false
		}
		if o.cells[off].n != 0 {
			g.yielded = vm.sched.on
			vm.block(g, "WaitGroup.Wait", func() bool { return o.cells[off].n == 0 })
			return Value{}, false
		}
		vm.syncEdge(lockKey(a), true, false)
		return Value{}, true
	}
	I["sync.runtime_registerPoolCleanup"] = intrNoop
	I["(*sync.RWMutex).TryLock"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		o, off := nilchk(vm, a[0]), int(a[0].n)
		if vm.syncPoint(g, o, off, true) {
			return Value{}, false
		}
		if o.cells[off].n != 0 || o.cells[off+1].n != 0 {
			return bv(false), true
		}
		vm.setCell(o, off, Value{n: 1})
		vm.syncEdge(lockKey(a), true, false)
		return bv(true), true
	}
	I["(*sync.RWMutex).TryRLock"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		o, off := nilchk(vm, a[0]), int(a[0].n)
		if vm.syncPoint(g, o, off, false) {
			return Value{}, false
		}
		if o.cells[off].n != 0 {
			return bv(false), true
		}
		vm.setCell(o, off+1, Value{n: o.cells[off+1].n + 1})
		vm.syncEdge(lockKey(a), true, false)
		return bv(true), true
	}
	// condition variables: tickets, handed out in order (wait, notify are the first fields of notifyList)
	I["(*sync.copyChecker).check"] = intrNoop
	I["sync.runtime_notifyListCheck"] = intrNoop
	I["sync.runtime_notifyListAdd"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		o, off := nilchk(vm, a[0]), int(a[0].n)
		if vm.syncPoint(g, o, off, true) {
			return Value{}, false
		}
		t := o.cells[off]
		vm.setCell(o, off, Value{n: t.n + 1})
		return t, true
	}
	I["sync.runtime_notifyListWait"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		o, off, t := nilchk(vm, a[0]), int(a[0].n), a[1].n
		if vm.syncPoint(g, o, off, true) {
			return Value{}, false
		}
		if o.cells[off+1].n <= t {
			g.yielded = vm.sched.on
			vm.block(g, "Cond.Wait", func() bool { return o.cells[off+1].n > t })
			return Value{}, false
		}
		vm.syncEdge(lockKey(a), true, false)
		return Value{}, true
	}
	I["sync.runtime_notifyListNotifyAll"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		o, off := nilchk(vm, a[0]), int(a[0].n)
		if vm.syncPoint(g, o, off, true) {
			return Value{}, false
		}
		vm.syncEdge(lockKey(a), false, true)
		vm.setCell(o, off+1, o.cells[off])
		return Value{}, true
	}
	I["sync.runtime_notifyListNotifyOne"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		o, off := nilchk(vm, a[0]), int(a[0].n)
		if vm.syncPoint(g, o, off, true) {
			return Value{}, false
		}
		vm.syncEdge(lockKey(a), false, true)
		if o.cells[off+1].n < o.cells[off].n {
			vm.setCell(o, off+1, Value{n: o.cells[off+1].n + 1})
		}
		return Value{}, true
	}
	I["sync.fatal"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		vm.end("violation", "crash: fatal error: "+strOf(a[0]).s)
		return Value{}, true
	}
	// ---- atomics ----
	widths := map[string]uint8{"Int32": 32, "Int64": 64, "Uint32": 32, "Uint64": 64, "Uintptr": 64, "Pointer": 0}
	for nm, w := range widths {
		w := w
		pre := "sync/atomic."
		I[pre+"Load"+nm] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
			o := nilchk(vm, a[0])
			if vm.syncPoint(g, o, int(a[0].n), false) {
				return Value{}, false
			}
			vm.syncEdge(lockKey(a), true, false)
			return o.cells[a[0].n], true
		}
		I[pre+"Store"+nm] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
			o := nilchk(vm, a[0])
			if vm.syncPoint(g, o, int(a[0].n), true) {
				return Value{}, false
			}
			vm.syncEdge(lockKey(a), true, true)
			vm.setCell(o, int(a[0].n), a[1])
			return Value{}, true
		}
		I[pre+"Swap"+nm] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
			o := nilchk(vm, a[0])
			if vm.syncPoint(g, o, int(a[0].n), true) {
				return Value{}, false
			}
			vm.syncEdge(lockKey(a), true, true)
			old := o.cells[a[0].n]
			vm.setCell(o, int(a[0].n), a[1])
			return old, true
		}
		I[pre+"CompareAndSwap"+nm] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
			o := nilchk(vm, a[0])
			if vm.syncPoint(g, o, int(a[0].n), true) {
				return Value{}, false
			}
			vm.syncEdge(lockKey(a), true, true)
			old := o.cells[a[0].n]
			var same bool
			if w == 0 {
				same = old.o == a[1].o && old.n == a[1].n
			} else {
				same = vm.branchT(vm.T.mkEq(vm.term(old, w), vm.term(a[1], w)))
			}
			if same {
				vm.setCell(o, int(a[0].n), a[2])
			}
			return bv(same), true
		}
		if w > 0 {
			I[pre+"Add"+nm] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
				o := nilchk(vm, a[0])
				if vm.syncPoint(g, o, int(a[0].n), true) {
					return Value{}, false
				}
				vm.syncEdge(lockKey(a), true, true)
				v := tv(vm.T.mkBin(OAdd, vm.term(o.cells[a[0].n], w), vm.term(a[1], w)))
				vm.setCell(o, int(a[0].n), v)
				return v, true
			}
			for bn, op := range map[string]TOp{"And": OAnd, "Or": OOr} {
				op := op
				I[pre+bn+nm] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
					o := nilchk(vm, a[0])
					if vm.syncPoint(g, o, int(a[0].n), true) {
						return Value{}, false
					}
					vm.syncEdge(lockKey(a), true, true)
					old := o.cells[a[0].n]
					vm.setCell(o, int(a[0].n), tv(vm.T.mkBin(op, vm.term(old, w), vm.term(a[1], w))))
					return old, true
				}
			}
		}
	}
	I["(*sync/atomic.Value).Load"] = I["sync/atomic.LoadPointer"]
	I["(*sync/atomic.Value).Store"] = I["sync/atomic.StorePointer"]
	I["(*sync/atomic.Value).Swap"] = I["sync/atomic.SwapPointer"]
	// ---- time ----
	I["time.Now"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) { return vm.timeNow(), true }
	I["time.runtimeNano"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		return Value{n: uint64(vm.now)}, true
	}
	I["time.Sleep"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		d := int64(vm.concretize(a[0], 64))
		k := sideKey{nil, g.id}
		if t, ok := vm.side[k].(*timer); ok {
			if t.active {
				vm.block(g, "sleep", func() bool { return !t.active })
				return Value{}, false
			}
			delete(vm.side, k)
			return Value{}, true
		}
		t := vm.addTimer(d, &timer{})
		vm.side[k] = t
		vm.block(g, "sleep", func() bool { return !t.active })
		return Value{}, false
	}
	I["time.AfterFunc"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		o := vm.newObj(4)
		t := vm.addTimer(int64(vm.concretize(a[0], 64)), &timer{fn: a[1].o.(*Closure), obj: o})
		vm.side[sideKey{o, 0}] = t
		return Value{o: o}, true
	}
	mkTimer := func(vm *VM, d int64, period int64) (*Obj, *ChanObj) {
		o := vm.newObj(4)
		c := &ChanObj{cap: 1, ti: vm.ti(vm.P.timeType), epoch: 1}
		o.cells[0] = Value{o: c}
		t := vm.addTimer(d, &timer{ch: c, obj: o, period: period})
		vm.side[sideKey{o, 0}] = t
		return o, c
	}
	I["time.NewTimer"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		o, _ := mkTimer(vm, int64(vm.concretize(a[0], 64)), 0)
		return Value{o: o}, true
	}
	I["time.NewTicker"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		d := int64(vm.concretize(a[0], 64))
		o, _ := mkTimer(vm, d, d)
		return Value{o: o}, true
	}
	I["time.After"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		_, c := mkTimer(vm, int64(vm.concretize(a[0], 64)), 0)
		return Value{o: c}, true
	}
	stop := func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		o := nilchk(vm, a[0])
		t, _ := vm.side[sideKey{o, 0}].(*timer)
		was := t != nil && t.active
		if t != nil {
			t.active = false
		}
		return bv(was), true
	}
	reset := func(period bool) fn {
		return func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
			o := nilchk(vm, a[0])
			t, _ := vm.side[sideKey{o, 0}].(*timer)
			if t == nil {
				vm.runtimePanic("time: Reset called on uninitialized Timer")
			}
			was := t.active
			t.active = false
			n := &timer{fn: t.fn, ch: t.ch, obj: o}
			d := int64(vm.concretize(a[1], 64))
			if period {
				n.period = d
			}
			if t.ch != nil && len(t.ch.buf) > 0 {
				t.ch.buf = nil // as since Go 1.23: no stale value after Reset
			}
			vm.side[sideKey{o, 0}] = vm.addTimer(d, n)
			return bv(was), true
		}
	}
	I["(*time.Timer).Reset"] = reset(false)
	I["(*time.Ticker).Reset"] = reset(true)
	I["(*time.Timer).Stop"] = stop
	I["(*time.Ticker).Stop"] = stop
	// ---- random numbers: any value ----
	rnd := func(w uint8, resW uint8, end uint64) fn {
		return func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
			if vm.randLeft <= 0 {
				c := end
				if vm.randSeed != 0 {
					c = vm.splitmix() & mask(w)
				}
				return vm.rnd(vm.T.mkConst(resW, c), Value{n: c}), true
			}
			vm.randLeft--
			t := vm.newVar(resW, 0, mask(w))
			return vm.rnd(t, tv(t)), true
		}
	}
	rndN := func(resW uint8) fn {
		return func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
			n := vm.concretize(a[len(a)-1], resW)
			if sx(n, resW) <= 0 {
				vm.runtimePanic("invalid argument to Intn")
			}
			if vm.randLeft <= 0 || n == 1 {
				c := uint64(0)
				if vm.randSeed != 0 {
					c = vm.splitmix() % n
				}
				return vm.rnd(vm.T.mkConst(resW, c), Value{n: c}), true
			}
			vm.randLeft--
			t := vm.newVar(resW, 0, n-1)
			return vm.rnd(t, tv(t)), true
		}
	}
	rf := func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		if vm.randLeft <= 0 {
			c := math.Float64bits(0.9999)
			if vm.randSeed != 0 {
				c = math.Float64bits(float64(vm.splitmix()>>11) / (1 << 53))
			}
			return vm.rnd(vm.T.mkConst(64, c), Value{n: c}), true
		}
		vm.randLeft--
		t := vm.newVar(64, 0, math.Float64bits(1)-1)
		return vm.rnd(t, tv(t)), true
	}
	for _, p := range []string{"math/rand.", "(*math/rand.Rand).", "math/rand/v2.", "(*math/rand/v2.Rand)."} {
		I[p+"Int"] = rnd(63, 64, 1<<63-1)
		I[p+"Int63"] = rnd(63, 64, 1<<63-1)
		I[p+"Int64"] = rnd(63, 64, 1<<63-1)
		I[p+"Int31"] = rnd(31, 32, 1<<31-1)
		I[p+"Int32"] = rnd(31, 32, 1<<31-1)
		I[p+"Uint32"] = rnd(32, 32, 1<<32-1)
		I[p+"Uint64"] = rnd(64, 64, 1<<64-1)
		I[p+"Intn"] = rndN(64)
		I[p+"IntN"] = rndN(64)
		I[p+"Int63n"] = rndN(64)
		I[p+"Int64N"] = rndN(64)
		I[p+"Int31n"] = rndN(32)
		I[p+"Int32N"] = rndN(32)
		I[p+"Float64"] = rf
	}
	// ---- math ----
	f1 := func(f func(float64) float64) fn {
		return func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
			if a[0].o != nil {
				return Value{n: math.Float64bits(f(math.Float64frombits(vm.concretizeOne(a[0].o.(*Term), "cut: one value of a symbolic float passed to "+fn.name))))}, true
			}
			return Value{n: math.Float64bits(f(math.Float64frombits(a[0].n)))}, true
		}
	}
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt, "Log": math.Log, "Log2": math.Log2, "Log10": math.Log10, "Exp": math.Exp, "Round": math.Round} {
		I["math."+n] = f1(f)
	}
	I["math.archHypot"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		if !concrete(a) {
			panic(unsupported("math.Hypot of symbolic"))
		}
		return Value{n: math.Float64bits(math.Hypot(math.Float64frombits(a[0].n), math.Float64frombits(a[1].n)))}, true
	}
	I["math.Pow"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		if !concrete(a) {
			panic(unsupported("math.Pow of symbolic"))
		}
		return Value{n: math.Float64bits(math.Pow(math.Float64frombits(a[0].n), math.Float64frombits(a[1].n)))}, true
	}
	bit1 := func(name string, f func(uint64) int) {
		I["math/bits."+name] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
			if a[0].o == nil {
				return nInt(f(a[0].n)), true
			}
			return vm.body(g, fn, a)
		}
	}
	bit1("Len64", bits.Len64)
	bit1("Len", bits.Len64)
	bit1("Len32", bits.Len64)
	bit1("Len8", bits.Len64)
	bit1("LeadingZeros64", func(x uint64) int { return bits.LeadingZeros64(x) })
	bit1("TrailingZeros64", bits.TrailingZeros64)
	bit1("TrailingZeros", bits.TrailingZeros64)
	bit1("OnesCount64", bits.OnesCount64)
	I["math/bits.Mul64"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		if !concrete(a) {
			return vm.body(g, fn, a)
		}
		h, l := bits.Mul64(a[0].n, a[1].n)
		return tup(Value{n: h}, Value{n: l}), true
	}
	// ---- byte algorithms ----
	bytesOf := func(v Value) []Value {
		switch x := v.o.(type) {
		case nil:
			return nil
		case *Str:
			return x.cells()
		case *SliceV:
			return x.cellsView()
		}
		panic(unsupported("bytes"))
	}
	conc := func(c []Value) (string, bool) {
		b := make([]byte, len(c))
		for i := range c {
			if c[i].o != nil {
				return "", false
			}
			b[i] = byte(c[i].n)
		}
		return string(b), true
	}
	idxByte := func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		c := bytesOf(a[0])
		if a[1].o == nil {
			if s, ok := a[0].o.(*Str); ok && s.c == nil {
				return nInt(strings.IndexByte(s.s, byte(a[1].n))), true
			}
		}
		b := vm.term(a[1], 8)
		for i := range c {
			if c[i].o == nil && a[1].o == nil {
				if c[i].n == a[1].n {
					return nInt(i), true
				}
				continue
			}
			if vm.branchT(vm.T.mkEq(vm.term(c[i], 8), b)) {
				return nInt(i), true
			}
		}
		return nInt(-1), true
	}
	I["internal/bytealg.IndexByte"] = idxByte
	I["internal/bytealg.IndexByteString"] = idxByte
	lastIdx := func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		c := bytesOf(a[0])
		b := vm.term(a[1], 8)
		for i := len(c) - 1; i >= 0; i-- {
			if vm.branchT(vm.T.mkEq(vm.term(c[i], 8), b)) {
				return nInt(i), true
			}
		}
		return nInt(-1), true
	}
	I["internal/bytealg.LastIndexByte"] = lastIdx
	I["internal/bytealg.LastIndexByteString"] = lastIdx
	count := func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		c := bytesOf(a[0])
		b := vm.term(a[1], 8)
		n := 0
		for i := range c {
			if vm.branchT(vm.T.mkEq(vm.term(c[i], 8), b)) {
				n++
			}
		}
		return nInt(n), true
	}
	I["internal/bytealg.Count"] = count
	I["internal/bytealg.CountString"] = count
	asStr := func(v Value) *Str {
		if v.o == nil {
			return emptyStr
		}
		if s, ok := v.o.(*Str); ok {
			return s
		}
		return strOf(mkStrCells(append([]Value(nil), bytesOf(v)...)))
	}
	eqf := func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		return vm.strEq(asStr(a[0]), asStr(a[1])), true
	}
	I["internal/bytealg.Equal"] = eqf
	I["bytes.Equal"] = eqf
	cmp := func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		x, y := asStr(a[0]), asStr(a[1])
		if x.c == nil && y.c == nil {
			return nInt(strings.Compare(x.s, y.s)), true
		}
		lt := vm.strLess(x, y, false)
		e := vm.strEq(x, y)
		r := vm.T.mkIte(vm.term(lt, 0), vm.T.mkConst(64, ^uint64(0)), vm.T.mkIte(vm.term(e, 0), vm.T.mkConst(64, 0), vm.T.mkConst(64, 1)))
		return tv(r), true
	}
	I["internal/bytealg.Compare"] = cmp
	I["internal/bytealg.CompareString"] = cmp
	I["bytes.Compare"] = cmp
	I["strings.Compare"] = cmp
	idxStr := func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		x, y := bytesOf(a[0]), bytesOf(a[1])
		cx, ok1 := conc(x)
		cy, ok2 := conc(y)
		if ok1 && ok2 {
			return nInt(strings.Index(cx, cy)), true
		}
		sx, sy := asStr(a[0]), asStr(a[1])
		n := sy.len()
		for i := 0; i+n <= sx.len(); i++ {
			if vm.branchV(vm.strEq(strOf(sx.slice(i, i+n)), sy)) {
				return nInt(i), true
			}
		}
		return nInt(-1), true
	}
	for _, n := range []string{"internal/bytealg.Index", "internal/bytealg.IndexString", "strings.Index", "bytes.Index", "internal/stringslite.Index"} {
		I[n] = idxStr
	}
	I["internal/bytealg.MakeNoZero"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		n := vm.sizeArg(a[0], vm.ti(types.Typ[types.Int]), 1<<31)
		if n < 0 || n > 1<<22 {
			vm.runtimePanic("makeslice: len out of range")
		}
		return Value{o: &SliceV{obj: vm.newObj(n), len: n, cap: n, esz: 1}}, true
	}
	lower := func(f func(string) string, upper bool) fn {
		return func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
			s := strOf(a[0])
			if s.c == nil {
				return mkStr(f(s.s)), true
			}
			// ASCII strings are mapped without forking
			T := vm.T
			c := make([]Value, len(s.c))
			lo, hi := uint64('A'), uint64('Z')
			d := uint64(32)
			if upper {
				lo, hi, d = 'a', 'z', 224
			}
			for i, v := range s.c {
				t := vm.term(v, 8)
				if !vm.branchT(T.mkBin(OUlt, t, T.mkConst(8, 0x80))) {
					return vm.body(g, fn, a)
				}
				in := T.mkBAnd(T.mkBin(OUle, T.mkConst(8, lo), t), T.mkBin(OUle, t, T.mkConst(8, hi)))
				c[i] = tv(T.mkIte(in, T.mkBin(OAdd, t, T.mkConst(8, d)), t))
			}
			return mkStrCells(c), true
		}
	}
	I["strings.ToLower"] = lower(strings.ToLower, false)
	I["strings.ToUpper"] = lower(strings.ToUpper, true)
	// ---- numbers and text ----
	I["strconv.FormatInt"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		base := vm.concretize(a[1], 64)
		if a[0].o == nil {
			if base < 2 || base > 36 {
				return vm.body(g, fn, a)
			}
			return mkStr(strconv.FormatInt(int64(a[0].n), int(base))), true
		}
		if base != 10 {
			return vm.body(g, fn, a)
		}
		return vm.intText(a[0].o.(*Term)), true
	}
	I["strconv.Itoa"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		return I["strconv.FormatInt"](vm, g, fn, []Value{a[0], {n: 10}}, ci)
	}
	I["strconv.FormatUint"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		base := vm.concretize(a[1], 64)
		if a[0].o == nil && base >= 2 && base <= 36 {
			return mkStr(strconv.FormatUint(a[0].n, int(base))), true
		}
		if base == 10 && a[0].o.(*Term).uhi <= 1<<63-1 {
			return vm.intText(a[0].o.(*Term)), true
		}
		return vm.body(g, fn, a)
	}
	appendStr := func(vm *VM, dst Value, s Value) Value {
		bt := vm.ti(types.NewSlice(types.Typ[types.Byte]))
		return vm.appendB(dst, s, &callInfo{argTIs: []*TI{bt}})
	}
	I["strconv.AppendInt"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		if vm.concretize(a[2], 64) != 10 {
			return vm.body(g, fn, a)
		}
		s, _ := I["strconv.FormatInt"](vm, g, fn, []Value{a[1], {n: 10}}, ci)
		return appendStr(vm, a[0], s), true
	}
	I["strconv.FormatFloat"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		f, p, b := byte(a[1].n), int(int64(a[2].n)), int(a[3].n)
		if a[0].o == nil {
			return mkStr(strconv.FormatFloat(math.Float64frombits(a[0].n), f, p, b)), true
		}
		t := a[0].o.(*Term)
		if p != -1 || b != 64 || f != 'g' && f != 'f' && f != 'G' {
			vm.prefer(t)
			v := vm.concretizeOne(t, "cut: one value of a symbolic float formatted with a fixed precision")
			return mkStr(strconv.FormatFloat(math.Float64frombits(v), f, p, b)), true
		}
		if f == 'g' && vm.floatTags(t) != nil {
			return vm.body(g, vm.fnOf(vm.P.modelFn("FormatTagged")), a[:1])
		}
		return vm.floatText(t, f), true
	}
	I["strconv.AppendFloat"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		if t, ok := a[1].o.(*Term); ok && vm.floatTags(t) != nil {
			return appendStr(vm, a[0], vm.floatText(t, byte(a[2].n))), true
		}
		s, _ := I["strconv.FormatFloat"](vm, g, fn, a[1:], ci)
		return appendStr(vm, a[0], s), true
	}
	I["strconv.ParseInt"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		s := strOf(a[0])
		if s.c == nil {
			if a[1].o == nil && a[2].o == nil {
				if v, err := strconv.ParseInt(s.s, int(int64(a[1].n)), int(int64(a[2].n))); err == nil {
					return tup(Value{n: uint64(v)}, Value{}), true
				}
			}
			return vm.body(g, fn, a)
		}
		if src, k := vm.wholeTxt(s); src != nil && k == txtInt && a[1].n == 10 {
			if bs := a[2].n; bs == 0 || bs == 64 {
				return tup(tv(src), Value{}), true
			} else if bs < 64 {
				lim := int64(1) << (bs - 1)
				in := vm.T.mkBAnd(vm.T.mkBin(OSle, vm.T.mkConst(64, uint64(-lim)), src), vm.T.mkBin(OSlt, src, vm.T.mkConst(64, uint64(lim))))
				if vm.branchT(in) {
					return tup(tv(src), Value{}), true
				}
			}
		}
		a[0] = vm.fixTxt(s)
		return vm.body(g, fn, a)
	}
	I["strconv.ParseUint"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		s := strOf(a[0])
		if s.c == nil {
			if a[1].o == nil && a[2].o == nil {
				if v, err := strconv.ParseUint(s.s, int(int64(a[1].n)), int(int64(a[2].n))); err == nil {
					return tup(Value{n: v}, Value{}), true
				}
			}
			return vm.body(g, fn, a)
		}
		if src, k := vm.wholeTxt(s); src != nil && k == txtInt && a[1].n == 10 && a[2].n == 64 {
			if vm.branchT(vm.T.mkBin(OSle, vm.T.mkConst(64, 0), src)) {
				return tup(tv(src), Value{}), true
			}
		}
		a[0] = vm.fixTxt(s)
		return vm.body(g, fn, a)
	}
	I["strconv.Atoi"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		s := strOf(a[0])
		if s.c == nil {
			if v, err := strconv.Atoi(s.s); err == nil {
				return tup(nInt(v), Value{}), true
			}
			return vm.body(g, fn, a)
		}
		if src, k := vm.wholeTxt(s); src != nil && k == txtInt {
			return tup(tv(src), Value{}), true
		}
		a[0] = vm.fixTxt(s)
		return vm.body(g, fn, a)
	}
	I["strconv.ParseFloat"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		s := strOf(a[0])
		if s.c == nil {
			if a[1].o == nil {
				if v, err := strconv.ParseFloat(s.s, int(int64(a[1].n))); err == nil {
					return tup(Value{n: math.Float64bits(v)}, Value{}), true
				}
			}
			return vm.body(g, fn, a)
		}
		if src, k := vm.wholeTxt(s); src != nil && a[1].o == nil {
			if k == txtInt {
				src = vm.T.mkUn(OSToF, src)
			}
			if a[1].n != 32 {
				return tup(tv(src), Value{}), true
			}
			// rounded twice, which may differ in the last bit; a violation must show natively anyway
			r := vm.T.mkUn(OFFrom32, vm.T.mkUn(OFTo32, src))
			inf := func(x *Term) *Term {
				return vm.T.mkBOr(vm.T.mkEq(x, vm.T.mkConst(64, 0x7ff<<52)), vm.T.mkEq(x, vm.T.mkConst(64, 0xfff<<52)))
			}
			if vm.branch(vm.T.mkBAnd(inf(r), vm.T.mkNot(inf(src)))) {
				a[0] = vm.fixTxt(s) // out of range
				return vm.body(g, fn, a)
			}
			return tup(tv(r), Value{}), true
		}
		a[0] = vm.fixTxt(s)
		if a[1].o == nil && a[1].n == 64 && strOf(a[0]).c != nil {
			vm.parseFloatFn = fn
			return vm.body(g, vm.fnOf(vm.P.modelFn("ParseFloatText")), a)
		}
		return vm.body(g, fn, a)
	}
	// ---- helpers of the model package ----
	md := func(name string, f fn) { I[repoModule+"/zzverif/model."+name] = f }
	md("parseFloatBody", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		return vm.body(g, vm.parseFloatFn, a)
	})
	md("tagFloat", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		if t, ok := a[0].o.(*Term); ok {
			k := sideKey{nil, fltTagKey - int(t.id)}
			l, _ := vm.side[k].([]*Str)
			vm.side[k] = append(append([]*Str(nil), l...), strOf(a[1]))
		}
		return Value{}, true
	})
	md("floatTagN", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		return nInt(len(vm.floatTags(a[0].o.(*Term)))), true
	})
	md("floatTag", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		return Value{o: vm.floatTags(a[0].o.(*Term))[a[1].n]}, true
	})
	md("floatText", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		return vm.mkText(a[0].o.(*Term), txtFlt), true
	})
	md("sliceLen", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		return nInt(sliceOf(a[0].o.(*Iface).v).len), true
	})
	md("sliceSwap", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		s := sliceOf(a[0].o.(*Iface).v)
		i, j := int(a[1].n), int(a[2].n)
		for k := 0; k < s.esz; k++ {
			x, y := s.obj.cells[s.off+i*s.esz+k], s.obj.cells[s.off+j*s.esz+k]
			vm.setCell(s.obj, s.off+i*s.esz+k, y)
			vm.setCell(s.obj, s.off+j*s.esz+k, x)
		}
		return Value{}, true
	})
	md("poolNew", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		o := a[0].o.(*Obj)
		size := len(o.cells)
		if sp := vm.P.prog.ImportedPackage("sync"); sp != nil {
			size = vm.ti(sp.Type("Pool").Type()).size
		}
		return o.cells[int(a[0].n)+size-1], true
	})
	md("side", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		k := sideKey{a[0].o.(*Obj), int(a[0].n)}
		o, ok := vm.side[k].(*Obj)
		if !ok {
			o = vm.newObj(vm.ti(vm.P.model.Type("state").Type()).size)
			vm.side[k] = o
		}
		return Value{o: o}, true
	})
	md("asTarget", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		e, p := a[0].o.(*Iface), a[1].o.(*Iface)
		if p.ti.kind != kPtr || p.v.o == nil {
			vm.runtimePanic("errors: target must be a non-nil pointer")
		}
		el := vm.ti(ptrElem(p.ti.t))
		switch {
		case el.kind == kIface && vm.implements(e.ti, el):
			vm.store(p.v, a[0], el)
		case el == e.ti:
			vm.store(p.v, e.v, el)
		default:
			return bv(false), true
		}
		return bv(true), true
	})
	I["reflect.DeepEqual"] = func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		return bv(vm.deepEq(nil, Value{o: a[0].o}, Value{o: a[1].o}, 0)), true
	}
	md("valLen", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		i, ok := a[0].o.(*Iface)
		if !ok || i.ti.kind != kSlice {
			return nInt(-1), true
		}
		if i.v.o == nil {
			return nInt(0), true
		}
		return nInt(sliceOf(i.v).len), true
	})
	md("valIndex", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		i := a[0].o.(*Iface)
		s := sliceOf(i.v)
		v := vm.load(Value{o: s.obj, n: uint64(s.off + int(a[1].n)*s.esz)}, i.ti.elem)
		if i.ti.elem.kind == kIface {
			return v, true
		}
		return Value{o: &Iface{i.ti.elem, v}}, true
	})
	md("valField", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		i, ok := a[0].o.(*Iface)
		if !ok {
			return tup(Value{}, nInt(2)), true
		}
		name := strOf(a[1]).s
		t, ptr := i.ti.t, false
		if i.ti.kind == kPtr && i.v.o != nil {
			t, ptr = ptrElem(i.ti.t), true
		}
		if o, _, _ := types.LookupFieldOrMethod(i.ti.t, true, nil, name); o != nil {
			if _, ok := o.(*types.Func); ok {
				return tup(Value{}, nInt(2)), true
			}
		}
		ti := vm.ti(t)
		if ti.kind != kStruct {
			return tup(Value{}, nInt(2)), true
		}
		st := t.Underlying().(*types.Struct)
		for k := 0; k < st.NumFields(); k++ {
			f := st.Field(k)
			if f.Embedded() {
				return tup(Value{}, nInt(2)), true
			}
			if f.Name() != name || !f.Exported() {
				continue
			}
			fi := vm.ti(f.Type())
			var v Value
			if ptr {
				v = vm.load(Value{o: i.v.o, n: i.v.n + uint64(ti.offs[k])}, fi)
			} else {
				v = i.v
				if o := ti.offs[k]; fi.agg {
					v = Value{o: i.v.o.(Agg)[o : o+fi.size : o+fi.size]}
				} else {
					v = i.v.o.(Agg)[o]
				}
			}
			if fi.kind == kIface {
				return tup(v, nInt(1)), true
			}
			return tup(Value{o: &Iface{fi, v}}, nInt(1)), true
		}
		return tup(Value{}, nInt(0)), true
	})
	md("structFieldN", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		i, ok := a[0].o.(*Iface)
		if !ok || i.ti.kind != kPtr || i.v.o == nil || vm.ti(ptrElem(i.ti.t)).kind != kStruct {
			panic(unsupported("decoding into something other than a pointer to a struct"))
		}
		return nInt(len(vm.ti(ptrElem(i.ti.t)).fields)), true
	})
	md("structFieldKey", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		st := ptrElem(a[0].o.(*Iface).ti.t).Underlying().(*types.Struct)
		f := st.Field(int(a[1].n))
		if f.Embedded() {
			panic(unsupported("decoding into an embedded field"))
		}
		if !f.Exported() {
			return mkStr(""), true
		}
		key := strings.ToLower(f.Name())
		if tag, ok := reflect.StructTag(st.Tag(int(a[1].n))).Lookup("yaml"); ok {
			name, opts, _ := strings.Cut(tag, ",")
			if strings.Contains(opts, "inline") {
				panic(unsupported("decoding into an inline field"))
			}
			if name == "-" {
				return mkStr(""), true
			}
			if name != "" {
				key = name
			}
		}
		return mkStr(key), true
	})
	md("structFieldPtr", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		i := a[0].o.(*Iface)
		ti := vm.ti(ptrElem(i.ti.t))
		k := int(a[1].n)
		ft := ti.t.Underlying().(*types.Struct).Field(k).Type()
		return Value{o: &Iface{vm.ti(types.NewPointer(ft)), Value{o: i.v.o, n: i.v.n + uint64(ti.offs[k])}}}, true
	})
	md("setField", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		p, v := a[0].o.(*Iface), a[1].o.(*Iface)
		el := vm.ti(ptrElem(p.ti.t))
		if el.kind != v.ti.kind || el.w != v.ti.w {
			panic(unsupported("decoding into a field of type " + el.t.String()))
		}
		vm.store(p.v, v.v, el)
		return Value{}, true
	})
	md("pointee", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		el := vm.ti(ptrElem(a[0].o.(*Iface).ti.t))
		return mkStr(el.t.String()), true
	})
	md("yamlTypeError", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		t := vm.P.prog.ImportedPackage("gopkg.in/yaml.v3").Type("TypeError").Type()
		return Value{o: &Iface{vm.ti(types.NewPointer(t)), Value{o: vm.newObj(vm.ti(t).size)}}}, true
	})
	md("cannot", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		panic(unsupported(strOf(a[0]).s))
	})
	md("typeName", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		if i, ok := a[0].o.(*Iface); ok {
			return mkStr(i.ti.t.String()), true
		}
		return mkStr("<nil>"), true
	})
	md("kindOf", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		// 0 other, 1 signed, 2 unsigned, 3 float, 4 string, 5 bool, 6 bytes, 7 string slice, 8 nil, 9 slice of any
		i, ok := a[0].o.(*Iface)
		if !ok {
			return nInt(8), true
		}
		switch i.ti.kind {
		case kInt:
			if i.ti.signed {
				return nInt(1), true
			}
			return nInt(2), true
		case kFloat:
			return nInt(3), true
		case kString:
			return nInt(4), true
		case kBool:
			return nInt(5), true
		case kSlice:
			switch {
			case i.ti.elem.kind == kInt && i.ti.elem.w == 8:
				return nInt(6), true
			case i.ti.elem.kind == kString:
				return nInt(7), true
			case i.ti.elem.kind == kIface:
				return nInt(9), true
			}
		}
		return nInt(0), true
	})
	md("rawInt", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		i := a[0].o.(*Iface)
		if i.v.o == nil {
			if i.ti.signed {
				return Value{n: uint64(sx(i.v.n, i.ti.w))}, true
			}
			return i.v, true
		}
		op := OZExt
		if i.ti.signed {
			op = OSExt
		}
		return tv(vm.T.mkExt(op, vm.term(i.v, i.ti.w), 64)), true
	})
	raw := func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) { return a[0].o.(*Iface).v, true }
	for _, n := range []string{"rawStr", "rawBool", "rawBytes", "rawStrs", "rawAnys"} {
		md(n, raw)
	}
	md("rawFloat", func(vm *VM, g *G, fn *Fn, a []Value, ci *callInfo) (Value, bool) {
		i := a[0].o.(*Iface)
		if i.ti.w == 32 && i.v.o != nil {
			return tv(vm.T.mkUn(OFFrom32, vm.term(i.v, 32))), true
		}
		if i.ti.w == 32 {
			return Value{n: math.Float64bits(float64(math.Float32frombits(uint32(i.v.n))))}, true
		}
		return i.v, true
	})
	_ = token.ADD
	_ = fmt.Sprint
}

// yield lets the other runnable goroutines go first, once; it reports whether the call is to be repeated.
func (vm *VM) yield(g *G) bool {
	k := sideKey{nil, goschedKey - g.id}
	if _, ok := vm.side[k]; ok {
		delete(vm.side, k)
		return false
	}
	for _, o := range vm.gs {
		if o != g && (o.st == gRun || o.st == gBlocked && o.poll != nil && o.poll()) {
			vm.side[k] = true
			return true
		}
	}
	return false
}

// deepEq is reflect.DeepEqual; ti nil stands for an interface.
func (vm *VM) deepEq(ti *TI, x, y Value, depth int) bool {
	if depth > 50 {
		panic(unsupported("reflect.DeepEqual of deep values"))
	}
	if ti == nil || ti.kind == kIface {
		a, _ := x.o.(*Iface)
		b, _ := y.o.(*Iface)
		if a == nil || b == nil {
			return a == b
		}
		return a.ti == b.ti && vm.deepEq(a.ti, a.v, b.v, depth+1)
	}
	switch ti.kind {
	case kSlice:
		if x.o == nil || y.o == nil {
			return x.o == nil && y.o == nil
		}
		a, b := sliceOf(x), sliceOf(y)
		if a.len != b.len {
			return false
		}
		for i := 0; i < a.len; i++ {
			u := vm.load(Value{o: a.obj, n: uint64(a.off + i*a.esz)}, ti.elem)
			v := vm.load(Value{o: b.obj, n: uint64(b.off + i*b.esz)}, ti.elem)
			if !vm.deepEq(ti.elem, u, v, depth+1) {
				return false
			}
		}
		return true
	case kInt, kBool, kFloat, kString:
		return vm.branchV(vm.eq(ti, x, y))
	case kPtr:
		if x.o == y.o && x.n == y.n {
			return true
		}
		if x.o == nil || y.o == nil {
			return false
		}
		el := vm.ti(ptrElem(ti.t))
		return vm.deepEq(el, vm.load(x, el), vm.load(y, el), depth+1)
	}
	panic(unsupported("reflect.DeepEqual of " + ti.t.String()))
}

const goschedKey = -1 << 40

// ---- decimal text of symbolic numbers ----

const (
	txtInt   = 1
	txtFlt   = 2
	txtFltF  = 3
	txtCells = 3
)

func (vm *VM) mkText(src *Term, kind int) Value {
	k := sideKey{nil, -int(src.id)*4 - kind}
	if v, ok := vm.side[k].(*Str); ok {
		return Value{o: v}
	}
	c := make([]Value, txtCells)
	for i := range c {
		t := vm.T.mkTxt(src, kind, i, len(vm.vars))
		vm.vars = append(vm.vars, t)
		for _, p := range []*Term{vm.T.intern(OUle, 0, vm.T.mkConst(8, '-'), t, nil, 0, 0, 0, 0),
			vm.T.intern(OUle, 0, t, vm.T.mkConst(8, '9'), nil, 0, 0, 0, 0)} {
			p.lazy = true
			vm.addPC(p)
		}
		c[i] = Value{o: t}
	}
	// equal numbers of one kind have the same text
	for _, o := range vm.texts {
		if o.kind != kind || o.src == src {
			continue
		}
		eq := vm.T.mkEq(o.src, src)
		if eq == vm.T.tFals {
			continue
		}
		same := vm.T.tTrue
		for i := range c {
			// not mkEq, which reads a cell comparison as one of the numbers
			x, y := o.cells[i].o.(*Term), c[i].o.(*Term)
			same = vm.T.mkBAnd(same, vm.T.mkNot(vm.T.mkBOr(vm.T.mkBin(OUlt, x, y), vm.T.mkBin(OUlt, y, x))))
		}
		link := vm.T.mkBOr(vm.T.mkNot(eq), same)
		link.lazy = true
		vm.addPC(link)
	}
	vm.texts = append(vm.texts, numTexts{src, kind, c})
	s := &Str{c: c}
	vm.side[k] = s
	return Value{o: s}
}

type numTexts struct {
	src   *Term
	kind  int
	cells []Value
}

func (vm *VM) intText(t *Term) Value {
	lo, hi := vm.T.signedRange(t)
	if lo >= 0 && hi <= 99 {
		d := func(x *Term) Value { return tv(vm.T.mkTrunc(vm.T.mkBin(OAdd, x, vm.T.mkConst(64, '0')), 8)) }
		ten := vm.T.mkConst(64, 10)
		if hi <= 9 || vm.branchT(vm.T.mkBin(OUlt, t, ten)) {
			return mkStrCells([]Value{d(t)})
		}
		return mkStrCells([]Value{d(vm.T.mkBin(OUDiv, t, ten)), d(vm.T.mkBin(OURem, t, ten))})
	}
	return vm.mkText(t, txtInt)
}

const fltTagKey = -1 << 40

// floatTags are the texts t was parsed from.
func (vm *VM) floatTags(t *Term) []*Str {
	l, _ := vm.side[sideKey{nil, fltTagKey - int(t.id)}].([]*Str)
	return l
}

func (vm *VM) floatText(t *Term, f byte) Value {
	T := vm.T
	abs := T.mkBin(OAnd, t, T.mkConst(64, 1<<63-1))
	inf := T.mkConst(64, 0x7ff0000000000000)
	if vm.branchT(T.mkBin(OUlt, inf, abs)) {
		return mkStr("NaN")
	}
	if vm.branchT(T.mkEq(abs, inf)) {
		if vm.branchT(T.mkEq(t, inf)) {
			return mkStr("+Inf")
		}
		return mkStr("-Inf")
	}
	if f == 'f' {
		return vm.mkText(t, txtFltF)
	}
	return vm.mkText(t, txtFlt)
}

// wholeTxt returns the number a string is the decimal text of.
func (vm *VM) wholeTxt(s *Str) (*Term, int) {
	if len(s.c) != txtCells {
		return nil, 0
	}
	var src *Term
	kind := 0
	for i, c := range s.c {
		t, ok := c.o.(*Term)
		if !ok || t.txt == 0 || int(t.txt&0xff) != i {
			return nil, 0
		}
		if i == 0 {
			src, kind = t.a, int(t.txt>>8)
		} else if t.a != src || int(t.txt>>8) != kind {
			return nil, 0
		}
	}
	return src, kind
}

// fixTxt replaces number text by the digits of one feasible value.
func (vm *VM) fixTxt(s *Str) Value {
	if !vm.hasTxt(s) {
		return Value{o: s}
	}
	var out []Value
	for i := 0; i < len(s.c); i++ {
		t, ok := s.c[i].o.(*Term)
		if !ok || t.txt == 0 {
			out = append(out, s.c[i])
			continue
		}
		v := vm.concretizeOne(t.a, "cut: one value of a symbolic number whose text is parsed piecemeal")
		txt := numText(v, int(t.txt>>8))
		k := int(t.txt & 0xff)
		j := i
		for j < len(s.c) {
			u, ok := s.c[j].o.(*Term)
			if !ok || u.txt == 0 || u.a != t.a || int(u.txt&0xff) != k+j-i {
				break
			}
			j++
		}
		if k == 0 && j-i == txtCells {
			for _, b := range []byte(txt) {
				out = append(out, Value{n: uint64(b)})
			}
		} else { // a fragment
			vm.end("incomplete", "fragment of number text")
		}
		i = j - 1
	}
	return mkStrCells(out)
}

func numText(v uint64, kind int) string {
	switch kind {
	case txtInt:
		return strconv.FormatInt(int64(v), 10)
	case txtFlt:
		return strconv.FormatFloat(math.Float64frombits(v), 'g', -1, 64)
	}
	return strconv.FormatFloat(math.Float64frombits(v), 'f', -1, 64)
}

// txtEq compares number text with a concrete string or other number text as a whole.
func (vm *VM) txtEq(a, b *Str) (Value, bool) {
	src, kind := vm.wholeTxt(a)
	if src == nil {
		return Value{}, false
	}
	if b.c == nil {
		if kind == txtInt {
			n, err := strconv.ParseInt(b.s, 10, 64)
			if err != nil || strconv.FormatInt(n, 10) != b.s {
				return bv(false), true
			}
			return tv(vm.T.mkEq(src, vm.T.mkConst(64, uint64(n)))), true
		}
		f, err := strconv.ParseFloat(b.s, 64)
		if err != nil || numText(math.Float64bits(f), kind) != b.s {
			return bv(false), true
		}
		return tv(vm.T.mkEq(src, vm.T.mkConst(64, math.Float64bits(f)))), true
	}
	if src2, kind2 := vm.wholeTxt(b); src2 != nil && kind2 == kind {
		return tv(vm.T.mkEq(src, src2)), true
	}
	if !vm.hasTxt(b) && kind == txtInt {
		return tv(vm.canonEq(src, b)), true
	}
	if kind != txtInt {
		for _, tag := range vm.floatTags(src) {
			if vm.strEq(tag, b) == bv(true) {
				return bv(false), true // b is not in canonical form, see FormatTagged
			}
		}
	}
	vm.note("cut: number text compared with other text byte by byte")
	return Value{}, false
}

// canonEq says that the bytes of b are the canonical decimal text of src.
func (vm *VM) canonEq(src *Term, b *Str) *Term {
	T := vm.T
	n := len(b.c)
	c64 := func(k uint64) *Term { return T.mkConst(64, k) }
	c8 := func(k byte) *Term { return T.mkConst(8, uint64(k)) }
	// digits from..n-1 in canonical form with value v (exact below 20 digits)
	digits := func(from int) (ok, v *Term) {
		if n-from < 1 || n-from > 18 {
			return T.tFals, c64(0)
		}
		ok, v = T.tTrue, c64(0)
		for i := from; i < n; i++ {
			x := vm.term(b.c[i], 8)
			ok = T.mkBAnd(ok, T.mkBAnd(T.mkBin(OUle, c8('0'), x), T.mkBin(OUle, x, c8('9'))))
			d := T.mkExt(OZExt, T.mkBin(OAdd, x, T.mkConst(8, 256-'0')), 64)
			v = T.mkBin(OAdd, T.mkBin(OMul, v, c64(10)), d)
		}
		if n-from > 1 {
			ok = T.mkBAnd(ok, T.mkNot(T.mkEq(vm.term(b.c[from], 8), c8('0'))))
		}
		return ok, v
	}
	if n > 18 {
		vm.note("cut: number text compared with more than 18 symbolic digits")
	}
	ok, v := digits(0)
	pos := T.mkBAnd(ok, T.mkEq(src, v))
	if n < 2 {
		return pos
	}
	ok, v = digits(1)
	neg := T.mkBAnd(T.mkEq(vm.term(b.c[0], 8), c8('-')), T.mkBAnd(ok, T.mkNot(T.mkEq(v, c64(0)))))
	neg = T.mkBAnd(neg, T.mkEq(T.mkBin(OAdd, src, v), c64(0)))
	return T.mkBOr(pos, neg)
}

// evalStr is the text of s under the current model.
func (vm *VM) evalStr(s *Str) string {
	if s.c == nil {
		return s.s
	}
	var b []byte
	for i := 0; i < len(s.c); i++ {
		t, ok := s.c[i].o.(*Term)
		if !ok {
			b = append(b, byte(s.c[i].n))
			continue
		}
		if t.txt != 0 && t.txt&0xff == 0 {
			b = append(b, numText(vm.T.eval(t.a), int(t.txt>>8))...)
			i += txtCells - 1
			continue
		}
		b = append(b, byte(vm.T.eval(t)))
	}
	return string(b)
}

// repairTexts gives the text of equal numbers equal bytes in the model m.
func (vm *VM) repairTexts(m []uint64) {
	at := func(c Value) *uint64 {
		if t, ok := c.o.(*Term); ok && t.op == OVar && int(t.k) < len(m) {
			return &m[t.k]
		}
		return nil
	}
	for i, x := range vm.texts {
		for _, y := range vm.texts[:i] {
			if x.kind != y.kind || vm.T.eval(x.src) != vm.T.eval(y.src) {
				continue
			}
			for j := range x.cells {
				if p, q := at(x.cells[j]), at(y.cells[j]); p != nil && q != nil {
					*p = *q
				}
			}
			break
		}
	}
}

// prefer moves the model to one where the float t uses all its digits, if the path allows one.
func (vm *VM) prefer(t *Term) {
	if len(vm.decs) < len(vm.prefix) || t.op == OConst {
		return
	}
	T := vm.T
	abs := T.mkBin(OAnd, t, T.mkConst(64, 1<<63-1))
	c := T.mkBAnd(T.mkEq(T.mkBin(OAnd, t, T.mkConst(64, 15)), T.mkConst(64, 5)),
		T.mkBAnd(T.mkBin(OUlt, T.mkConst(64, 0x3fa0000000000000), abs), T.mkBin(OUlt, abs, T.mkConst(64, 0x4080000000000000))))
	if vm.T.eval(c) == 1 {
		return
	}
	if res, m := vm.query(c); res == Sat {
		vm.setModel(m)
	}
}
