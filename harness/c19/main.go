package main

import (
	"github.com/yusank/godis/zzverif/kit"
	"github.com/yusank/godis/zzverif/vh"
)

var univ = []string{"a", "b", "c", "d", "e"}

func build(n, tall int) *kit.ZSet {
	z := &kit.ZSet{Key: "z"}
	for i := 0; i < n; i++ {
		z.Add(univ[i], kit.Score(true), tall)
	}
	return z
}

// popped asserts that r holds the n lowest (or highest) members of the sorted z and takes them out of it.
func popped(z *kit.ZSet, r kit.Rep, n int, max bool) {
	if n == 0 {
		vh.Assert(r.IsNil() || r.K == '*' && len(r.A) == 0, "a pop of nothing")
		return
	}
	vh.Assert(r.K == '*', "pop: not an array")
	vh.Assert(len(r.A) == 2*n, "pop: wrong number of elements")
	for i := 0; i < n; i++ {
		at := 0
		if max {
			at = len(z.M) - 1
		}
		r.A[2*i].Bulk(z.M[at], "popped member")
		r.A[2*i+1].Float(z.S[at], "popped score")
		z.Del(z.M[at])
	}
}

func pop(z *kit.ZSet, withCount bool) {
	max := vh.Choice(2) == 1
	args := []string{"zpopmin", "z"}
	if max {
		args[0] = "zpopmax"
	}
	n := 1
	if withCount {
		c := vh.I64()
		args = append(args, kit.I64(c))
		vh.Assume(c >= 0)
		n = len(z.M)
		if c < int64(n) {
			n = vh.Concrete(int(c))
		}
	} else if len(z.M) == 0 {
		n = 0
	}
	popped(z, kit.Do(args...), n, max)
}

// gone asserts that what z lost is seen nowhere and that the rest is complete, also from the other end and by score.
func gone(z *kit.ZSet) {
	z.Check(univ[:3], "after a removal")
	r := kit.Do("zrevrange", "z", "0", "-1")
	vh.Assert(r.K == '*' || len(z.M) == 0 && r.IsNil(), "ZREVRANGE: not an array")
	vh.Assert(len(r.A) == len(z.M), "ZREVRANGE: wrong number of members")
	for i := range r.A {
		r.A[i].Bulk(z.M[len(z.M)-1-i], "ZREVRANGE")
	}
	kit.Do("zcount", "z", "-inf", "+inf").Int(int64(len(z.M)), "ZCOUNT")
}

// Pop: one pop from sets of any scores in any shape.
func Pop() {
	z := build(vh.Choice(4), 1)
	z.Sort()
	pop(z, vh.Choice(2) == 1)
	gone(z)
	vh.Reach("end")
}

// Pops: pops in a row until nothing is left, then the key is new again.
func Pops() {
	tall := 0
	if vh.Thorough() {
		tall = 1
	}
	z := build(3, tall)
	z.Sort()
	pop(z, false)
	pop(z, true)
	gone(z)
	m := univ[vh.Choice(3)]
	if z.Find(m) < 0 {
		z.Add(m, kit.Score(true), 1)
		z.Sort()
	}
	kit.Do("zscore", "z", m).Float(z.S[z.Find(m)], "ZSCORE of a member added again")
	kit.Do("zcard", "z").Int(int64(len(z.M)), "ZCARD after adding again")
	r := kit.Do("zrange", "z", "0", "-1")
	vh.Assert(len(r.A) == len(z.M), "ZRANGE after adding again")
	z.Order(r.A, "ZRANGE after adding again")
	vh.Reach("end")
}

// Rem: ZREM of one or two names, present or not, the same twice.
func Rem() {
	z := build(vh.Choice(4), 1)
	args := []string{"zrem", "z"}
	n := vh.Choice(2) + 1
	k := int64(0)
	var names []string
	for i := 0; i < n; i++ {
		names = append(names, univ[vh.Choice(4)])
	}
	r := kit.Do(append(args, names...)...)
	for _, m := range names {
		if z.Del(m) {
			k++
		}
	}
	r.Int(k, "ZREM")
	z.Sort()
	gone(z)
	vh.Reach("end")
}

// Again: removed, added again with any score, popped.
func Again() {
	z := build(2, 1)
	m := univ[vh.Choice(2)]
	kit.Do("zrem", "z", m).Int(1, "ZREM")
	z.Del(m)
	z.Add(m, kit.Score(true), 1)
	z.Sort()
	gone(z)
	pop(z, false)
	gone(z)
	vh.Reach("end")
}

// Shapes: five members, any heights, pops and removals.
func Shapes() {
	z := &kit.ZSet{Key: "z"}
	order := [][]int{{0, 1, 2, 3, 4}, {4, 3, 2, 1, 0}, {2, 4, 0, 3, 1}}[vh.Choice(3)]
	for _, i := range order {
		z.Add(univ[i], []float64{-1.5, 0, 2, 2, 1e9}[i], 1)
	}
	z.Sort()
	if vh.Choice(2) == 0 {
		m := univ[vh.Choice(5)]
		kit.Do("zrem", "z", m).Int(1, "ZREM")
		z.Del(m)
	} else {
		pop(z, true)
	}
	gone(z)
	kit.Do("zadd", "z", "2", "e").Ok("ZADD")
	z.Put("e", 2)
	z.Sort()
	gone(z)
	pop(z, false)
	gone(z)
	vh.Reach("end")
}

// Counts: counts that are no integers are refused and remove nothing.
func Counts() {
	z := build(vh.Choice(2)+1, 0)
	s := []string{"", "x", "1.5", "9223372036854775808", "+"}[vh.Choice(5)]
	kit.Do([]string{"zpopmin", "zpopmax"}[vh.Choice(2)], "z", s).Err("a count that is not an integer")
	z.Sort()
	gone(z)
	vh.Reach("end")
}

// Large: 33 members in fixed random shapes, a pop by any count, a removal of several, another pop.
func Large() {
	z := &kit.ZSet{Key: "z"}
	n, shapes := 33, 2
	if vh.Thorough() {
		n, shapes = 41, 8
	}
	kit.Large(z, n, shapes)
	pop(z, true)
	gone(z)
	args := []string{"zrem", "z"}
	k := int64(0)
	for i := 0; i < n; i += 3 {
		m := "m" + kit.Itoa(i)
		args = append(args, m)
		if z.Del(m) {
			k++
		}
	}
	kit.Do(args...).Int(k, "ZREM of many members")
	gone(z)
	vh.RandSeed(77)
	z.Add("m5", 2.5, 0)
	z.Sort()
	max := vh.Choice(2) == 1
	c := 4
	if c > len(z.M) {
		c = len(z.M)
	}
	popped(z, kit.Do([]string{"zpopmin", "zpopmax"}[vh.IteInt(max, 1, 0)], "z", "4"), c, max)
	gone(z)
	vh.Reach("end")
}
