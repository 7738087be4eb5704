package main

import (
	"github.com/yusank/godis/zzverif/kit"
	"github.com/yusank/godis/zzverif/vh"
)

func build(max int) []string {
	n := vh.Choice(max + 1)
	l := make([]string, n)
	for i := range l {
		l[i] = vh.Str(1)
	}
	if n > 0 {
		if vh.Choice(2) == 0 {
			kit.Do(append([]string{"rpush", "k"}, l...)...)
		} else {
			for i := n - 1; i >= 0; i-- {
				kit.Do("lpush", "k", l[i])
			}
		}
	}
	return l
}

// works asserts that the list at k is l and still works from both ends.
func works(l []string) {
	kit.CheckList("k", l, "list after the edit")
	switch vh.Choice(3) {
	case 0:
		l = append(append([]string(nil), l...), "R")
		kit.Do("rpush", "k", "R").Int(int64(len(l)), "RPUSH after the edit")
	case 1:
		l = append([]string{"L"}, l...)
		kit.Do("lpush", "k", "L").Int(int64(len(l)), "LPUSH after the edit")
	}
	kit.CheckList("k", l, "list after the edit and a push")
	left := vh.Choice(2) == 0
	for len(l) > 0 {
		if left {
			kit.Do("lpop", "k").Popped(l[:1], "LPOP after the edit")
			l = l[1:]
		} else {
			kit.Do("rpop", "k").Popped(l[len(l)-1:], "RPOP after the edit")
			l = l[:len(l)-1]
		}
	}
	kit.Do("llen", "k").Int(0, "LLEN of the drained list")
}

// remove is the reference for LREM.
func remove(l []string, count int64, v string) (out []string, n int) {
	keep := make([]bool, len(l))
	if count >= 0 {
		for i := range l {
			if vh.Or(count == 0, int64(n) < count) && l[i] == v {
				n++
			} else {
				keep[i] = true
			}
		}
	} else {
		for i := len(l) - 1; i >= 0; i-- {
			if int64(-n) > count && l[i] == v {
				n++
			} else {
				keep[i] = true
			}
		}
	}
	for i := range l {
		if keep[i] {
			out = append(out, l[i])
		}
	}
	return out, n
}

// Rem: LREM of any value with any 64-bit count.
func Rem() {
	max := 3
	if vh.Thorough() {
		max = 4
	}
	l := build(max)
	v := vh.Str(1)
	c := vh.I64()
	r := kit.Do("lrem", "k", kit.I64(c), v)
	want, n := remove(l, c, v)
	r.Int(int64(n), "LREM")
	vh.Reach("removed " + kit.Itoa(n))
	works(want)
}

// RemTwice: two removals in a row on a longer list of two different values.
func RemTwice() {
	n := 5
	if vh.Thorough() {
		n = 6
	}
	l := make([]string, n)
	args := []string{"rpush", "k"}
	for i := range l {
		l[i] = []string{"a", "b"}[vh.Choice(2)]
		args = append(args, l[i])
	}
	kit.Do(args...)
	for i := 0; i < 2; i++ {
		v := []string{"a", "b"}[i]
		c := int64(vh.Int(-2, 2))
		r := kit.Do("lrem", "k", kit.I64(c), v)
		var k int
		l, k = remove(l, c, v)
		r.Int(int64(k), "LREM")
		kit.CheckList("k", l, "list after LREM")
	}
	vh.Reach("end")
}

// Insert: LINSERT before or after any pivot.
func Insert() {
	max := 3
	if vh.Thorough() {
		max = 5
	}
	l := build(max)
	p, v := vh.Str(1), vh.Str(vh.Choice(2))
	where := []string{"before", "AFTER", "Before", "after"}[vh.Choice(4)]
	r := kit.Do("linsert", "k", where, p, v)
	at := -1
	for i := range l {
		if at < 0 && l[i] == p {
			at = i
		}
	}
	if at < 0 {
		vh.Reach("absent")
		vh.Assert(r.IsErr() || r.K == ':' && r.N <= 0, "LINSERT at an absent pivot succeeded")
		works(l)
		return
	}
	vh.Reach("inserted")
	if where == "after" || where == "AFTER" {
		at++
	}
	want := append([]string(nil), l[:at]...)
	want = append(want, v)
	want = append(want, l[at:]...)
	r.Int(int64(len(want)), "LINSERT")
	works(want)
}

// Chain: an insertion followed by a removal.
func Chain() {
	l := []string{"a", "b", "a"}
	kit.Do("rpush", "k", "a", "b", "a")
	for i := 0; i < 2; i++ {
		p := []string{"a", "b"}[vh.Choice(2)]
		v := []string{"a", "c"}[vh.Choice(2)]
		after := vh.Choice(2)
		r := kit.Do("linsert", "k", []string{"before", "after"}[after], p, v)
		for j := range l {
			if l[j] == p {
				l = append(append(append([]string(nil), l[:j+after]...), v), l[j+after:]...)
				break
			}
		}
		r.Int(int64(len(l)), "LINSERT")
		kit.CheckList("k", l, "list after LINSERT")
	}
	c := int64(vh.Int(-3, 3))
	v := []string{"a", "b", "c"}[vh.Choice(3)]
	r := kit.Do("lrem", "k", kit.I64(c), v)
	l, n := remove(l, c, v)
	r.Int(int64(n), "LREM")
	works(l)
	vh.Reach("end")
}

// Long: removals and an insertion in a list of 33 elements over three values, any count.
func Long() {
	n := 33
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, []string{"a", "b", "c"}[i*i%7%3])
	}
	kit.Do(append([]string{"rpush", "k"}, l...)...).Int(int64(n), "RPUSH")
	v := []string{"a", "b", "c"}[vh.Choice(3)]
	c := vh.I64()
	r := kit.Do("lrem", "k", kit.I64(c), v)
	l, k := remove(l, c, v)
	r.Int(int64(k), "LREM")
	kit.CheckList("k", l, "a long list after LREM")
	l = append(append([]string(nil), l...), "z")
	kit.Do("rpush", "k", "z").Int(int64(len(l)), "RPUSH")
	if vh.Choice(2) == 0 {
		l = append(append([]string(nil), l[:len(l)-1]...), "y", "z")
		kit.Do("linsert", "k", "before", "z", "y").Int(int64(len(l)), "LINSERT")
	} else {
		l = append(l, "y")
		kit.Do("linsert", "k", "after", "z", "y").Int(int64(len(l)), "LINSERT")
	}
	kit.CheckList("k", l, "a long list after LINSERT")
	works(l)
	vh.Reach("end")
}

// LongValues: pivots and values that are long and differ in one byte or in length.
func LongValues() {
	a, b := kit.Long()
	kit.Do("rpush", "l", a, b, a, b, b).Int(5, "RPUSH")
	kit.Do("linsert", "l", "before", b, "n").Int(6, "LINSERT")
	kit.Do("lrange", "l", "0", "-1").List([]string{a, "n", b, a, b, b}, "LRANGE after LINSERT")
	kit.Do("lrem", "l", "-1", a).Int(1, "LREM")
	kit.Do("lrange", "l", "0", "-1").List([]string{a, "n", b, b, b}, "LRANGE after LREM")
	kit.Do("lrem", "l", "2", b).Int(2, "LREM")
	kit.Do("lrange", "l", "0", "-1").List([]string{a, "n", b}, "LRANGE after LREM")
	vh.Reach("end")
}
