// Package vh is the interface between the harnesses and the symbolic executor.
// The executor replaces these functions; this file is what runs when a solver
// assignment is replayed against the natively compiled code.
package vh

import (
	"math"
	"os"
	"strconv"
	"strings"
)

var (
	vals     []uint64
	pos      int
	out      []string
	thorough bool
	randSeed int64
)

// Main runs the harness named in the file VH_FILE with the values listed there.
func Main(hs map[string]func()) {
	b, err := os.ReadFile(os.Getenv("VH_FILE"))
	if err != nil {
		os.Stderr.WriteString("VH_FILE: " + err.Error() + "\n")
		os.Exit(3)
	}
	lines := strings.Fields(string(b))
	thorough = os.Getenv("VH_TIER") == "thorough"
	for _, l := range lines[1:] {
		v, _ := strconv.ParseUint(l, 10, 64)
		vals = append(vals, v)
	}
	h := hs[lines[0]]
	if h == nil {
		os.Stderr.WriteString("no harness " + lines[0] + "\n")
		os.Exit(3)
	}
	h()
	finish("done", "")
}

func finish(kind, msg string) {
	s := kind + "\n" + strconv.Quote(msg) + "\n" + strings.Join(out, "\n") + "\n"
	os.WriteFile(os.Getenv("VH_OUT"), []byte(s), 0o644)
	os.Exit(0)
}

func next() uint64 {
	if pos < len(vals) {
		pos++
		return vals[pos-1]
	}
	pos++
	return 0
}

// Choice is any of 0..n-1; each value is explored separately.
func Choice(n int) int {
	if n <= 1 {
		return 0
	}
	return int(next())
}

// Int is any value in lo..hi.
func Int(lo, hi int) int {
	if lo > hi {
		finish("assume", "")
	}
	if lo == hi {
		return lo
	}
	return int(next())
}

// I64 is any 64-bit integer.
func I64() int64 { return int64(next()) }

// F64 is any float64 bit pattern.
func F64() float64 { return math.Float64frombits(next()) }

// Byte is any byte.
func Byte() byte { return byte(next()) }

// Bool is either value.
func Bool() bool { return next() == 1 }

// Str is any string of exactly n bytes.
func Str(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next())
	}
	return string(b)
}

// StrIn is any string of exactly n bytes, each in lo..hi.
func StrIn(n int, lo, hi byte) string { return Str(n) }

// Assume restricts what follows to executions where c holds.
func Assume(c bool) {
	if !c {
		finish("assume", "")
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		finish("assert", msg)
	}
}

// Fail reports a violation unconditionally.
func Fail(msg string) { finish("assert", msg) }

// StopPath ends this execution without a verdict beyond what was asserted.
func StopPath() { finish("done", "") }

// Reach marks that this point was reached (vacuity guard).
func Reach(label string) {}

// ObsStr and ObsInt record observations that must agree between the symbolic and the native run.
func ObsStr(label, v string) { out = append(out, label+" "+strconv.Quote(v)) }
func ObsInt(label string, v int64) {
	out = append(out, label+" "+strconv.Quote(strconv.FormatInt(v, 10)))
}

// Thorough tells whether the deeper bounds are wanted.
func Thorough() bool { return thorough }

// Sched explores interleavings with at most n-1 preemptions, from 50 on all of them; 0 turns exploration off.
func Sched(n int) {
	if schedHook != nil {
		schedHook(n)
	}
}

var schedHook, clockHook func(int)

// Clock lets up to n timers fire at any point of a schedule, 0 turns that off; otherwise time passes
// only when nothing else can happen.
func Clock(n int) {
	if clockHook != nil {
		clockHook(n)
	}
}

// Race turns on the tracking of unsynchronised accesses.
func Race() {}

// RandBudget sets how many random draws are arbitrary from here on.
func RandBudget(n int) {}

// RandSeed makes the draws beyond the budget those of a fixed sequence instead of all being the last value; 0 undoes that.
func RandSeed(n int) {}

// MapOrder sets for how many map iterations the starting point is arbitrary.
func MapOrder(n int) {}

// Concrete forks until v has one value on each path.
func Concrete(v int) int { return v }

// And and Or do not fork.
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }

// StrEq, StrLess and IteInt do not fork.
func StrEq(a, b string) bool   { return a == b }
func StrLess(a, b string) bool { return a < b }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Native tells whether this is the compiled program rather than the symbolic executor.
// Only for scaling resource limits.
func Native() bool { return true }
