package main

import (
	"github.com/yusank/godis/zzverif/kit"
	"github.com/yusank/godis/zzverif/vh"
)

var l []string

func push(n int) {
	left := vh.Choice(2) == 0
	args := []string{"rpush", "k"}
	if left {
		args[0] = "lpush"
	}
	for i := 0; i < n; i++ {
		v := vh.Str(1)
		args = append(args, v)
		if left {
			l = append([]string{v}, l...)
		} else {
			l = append(l, v)
		}
	}
	kit.Do(args...).Int(int64(len(l)), "push")
}

func take(left bool, n int) (out []string) {
	for i := 0; i < n && len(l) > 0; i++ {
		if left {
			out = append(out, l[0])
			l = append([]string(nil), l[1:]...)
		} else {
			out = append(out, l[len(l)-1])
			l = append([]string(nil), l[:len(l)-1]...)
		}
	}
	return out
}

// pop with no count (0) or any positive count (1)
func pop(counted int) {
	left := vh.Choice(2) == 0
	args := []string{"rpop", "k"}
	if left {
		args[0] = "lpop"
	}
	n := 1
	if counted == 1 {
		c := vh.I64()
		vh.Assume(c > 0)
		args = append(args, kit.I64(c))
		for n = 0; n < len(l) && int64(n) < c; n++ {
		}
	}
	kit.Do(args...).Popped(take(left, n), "pop")
}

// popBad: a count that is not positive pops nothing.
func popBad() {
	name := []string{"lpop", "rpop"}[vh.Choice(2)]
	c := vh.I64()
	vh.Assume(c <= 0)
	r := kit.Do(name, "k", kit.I64(c))
	vh.Assert(r.IsErr() || r.IsNil() || r.K == '*' && len(r.A) == 0, "a pop count that is not positive returned something")
}

func step(rich bool) {
	n := 4
	if rich {
		n = 5
	}
	switch vh.Choice(n) {
	case 0:
		push(1)
	case 1:
		push(2)
	case 2:
		pop(0)
	case 3:
		pop(1)
	case 4:
		popBad()
	}
	kit.Do("llen", "k").Int(int64(len(l)), "LLEN")
	kit.Do("lrange", "k", "0", "-1").List(l, "LRANGE")
	vh.Reach("step")
}

func drain() {
	left := vh.Choice(2) == 0
	for len(l) > 0 {
		name := "rpop"
		if left {
			name = "lpop"
		}
		kit.Do(name, "k").Popped(take(left, 1), "draining pop")
	}
	r := kit.Do([]string{"lpop", "rpop"}[vh.Choice(2)], "k")
	vh.Assert(r.IsNil() || r.K == '*' && len(r.A) == 0, "a pop from an empty list returned something")
	kit.Do("llen", "k").Int(0, "LLEN of the drained list")
	v := vh.Str(1)
	kit.Do("rpush", "k", v).Int(1, "push after draining")
	kit.Do("lrange", "k", "0", "-1").List([]string{v}, "LRANGE after draining")
}

// History: any pushes and pops starting from a missing key.
func History() {
	n := 3
	if vh.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		step(true)
	}
	drain()
}

// Filled: the same starting from a list of three.
func Filled() {
	for i := 0; i < 3; i++ {
		v := vh.Str(1)
		l = append(l, v)
	}
	kit.Do("rpush", "k", l[0], l[1], l[2])
	n := 2
	if vh.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		step(false)
	}
	drain()
}

// Big: a longer list popped by any count from either end.
func Big() {
	size := 20
	if vh.Thorough() {
		size = 70
	}
	args := []string{"rpush", "k"}
	for i := 0; i < size; i++ {
		v := "v" + kit.Itoa(i)
		args = append(args, v)
		l = append(l, v)
	}
	kit.Do(args...).Int(int64(size), "push")
	pop(1)
	same("after a pop")
	push(1)
	pop(0)
	same("after a pop and a push")
}

// Bytes: values are binary safe and may be empty.
func Bytes() {
	a, b := vh.Str(vh.Choice(4)), vh.Str(vh.Choice(4))
	l = []string{b, a}
	kit.Do("lpush", "k", a, b).Int(2, "push")
	kit.Do("lrange", "k", "0", "-1").List(l, "LRANGE")
	kit.Do("rpop", "k").Popped(take(false, 1), "RPOP")
	kit.Do("lpop", "k").Popped(take(true, 1), "LPOP")
	vh.Reach("end")
}

func same(msg string) {
	kit.Do("llen", "k").Int(int64(len(l)), "LLEN "+msg)
	kit.Do("lrange", "k", "0", "-1").List(l, "LRANGE "+msg)
}

// LongValues: long values pushed and popped at both ends.
func LongValues() {
	a, b := kit.Long()
	kit.Do("rpush", "l", a, b).Int(2, "RPUSH")
	kit.Do("lpush", "l", b, a).Int(4, "LPUSH")
	kit.Do("lrange", "l", "0", "-1").List([]string{a, b, a, b}, "LRANGE")
	kit.Do("rpop", "l").Popped([]string{b}, "RPOP")
	kit.Do("lpop", "l", "2").Popped([]string{a, b}, "LPOP")
	kit.Do("lrange", "l", "0", "-1").List([]string{a}, "LRANGE")
	vh.Reach("end")
}
