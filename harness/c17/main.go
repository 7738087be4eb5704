package main

import (
	"github.com/yusank/godis/zzverif/kit"
	"github.com/yusank/godis/zzverif/vh"
)

var univ = []string{"a", "b", "c", "d"}

// slice is what the positions from..to select of n elements.
func slice(n int, from, to int64) (lo, hi int) {
	l := int64(n)
	if from < 0 {
		from += l
		if from < 0 {
			from = 0
		}
	}
	if to < 0 {
		to += l
	}
	if to >= l {
		to = l - 1
	}
	if from > to {
		return 0, -1
	}
	return vh.Concrete(int(from)), vh.Concrete(int(to))
}

// look asks for a slice of the sorted z in one of the forms and compares.
func look(z *kit.ZSet, from, to int64) {
	with := vh.Choice(3)
	rev := vh.Choice(2) == 1
	cmd := "zrange"
	if rev {
		cmd = "zrevrange"
	}
	args := []string{cmd, z.Key, kit.I64(from), kit.I64(to)}
	if with > 0 {
		args = append(args, []string{"", "withscores", "WithScores"}[with])
	}
	r := kit.Do(args...)
	lo, hi := slice(len(z.M), from, to)
	n := hi - lo + 1
	if n <= 0 {
		vh.Reach("empty")
		vh.Assert(r.IsNil() || r.K == '*' && len(r.A) == 0, cmd+" of nothing")
		return
	}
	vh.Reach(cmd)
	step := 1
	if with > 0 {
		step = 2
	}
	vh.Assert(r.K == '*', cmd+": not an array")
	vh.Assert(len(r.A) == n*step, cmd+": wrong number of elements")
	for i := 0; i < n; i++ {
		at := lo + i
		if rev {
			at = len(z.M) - 1 - at
		}
		r.A[i*step].Bulk(z.M[at], cmd)
		if with > 0 {
			r.A[i*step+1].Float(z.S[at], cmd+" WITHSCORES")
		}
	}
}

func build(n, tall int) *kit.ZSet {
	z := &kit.ZSet{Key: "z"}
	for i := 0; i < n; i++ {
		z.Add(univ[i], kit.Score(true), tall)
	}
	return z
}

// Any: members of any scores, any positions.
func Any() {
	n := 2
	if vh.Thorough() {
		n = 3
	}
	z := build(vh.Choice(n+1), 1)
	z.Sort()
	look(z, vh.I64(), vh.I64())
}

// Three: three members of any scores in any shape, all of them or one end cut off.
func Three() {
	z := build(3, 1)
	z.Sort()
	from, to := vh.Int(-3, 1), vh.Int(-2, 2)
	vh.Assume(vh.Or(vh.Or(from == 0, from == -3), vh.Or(to == -1, to == 2)))
	look(z, int64(from), int64(to))
}

// Shapes: five members, any heights, any positions.
func Shapes() {
	z := &kit.ZSet{Key: "z"}
	order := [][]int{{0, 1, 2, 3, 4}, {4, 3, 2, 1, 0}, {2, 4, 0, 3, 1}}[vh.Choice(3)]
	for _, i := range order {
		z.Add([]string{"e", "a", "d", "b", "c"}[i], []float64{-1.5, 0, 2, 2.25, 1e9}[i], 1)
	}
	z.Sort()
	look(z, vh.I64(), vh.I64())
}

// Changed: positions in a set that was changed before.
func Changed() {
	z := &kit.ZSet{Key: "z"}
	m := []string{"a", "b", "c"}
	for i := range m {
		z.Add(m[i], []float64{1, 2, 3}[i], 1)
	}
	i := vh.Choice(3)
	if vh.Choice(2) == 0 {
		kit.Do("zrem", "z", m[i]).Int(1, "ZREM")
		z.Del(m[i])
	} else {
		z.Add(m[i], kit.Score(true), 1)
	}
	z.Sort()
	from, to := vh.Int(-3, 2), vh.Int(-3, 2)
	look(z, int64(from), int64(to))
}

// Texts: positions that are not integers are refused, a missing key is empty.
func Texts() {
	z := build(vh.Choice(2), 0)
	s := []string{"", "x", "1.5", "(1", "-", "9223372036854775808", "1 "}[vh.Choice(7)]
	cmd := []string{"zrange", "zrevrange"}[vh.Choice(2)]
	if len(z.M) == 0 {
		r := kit.Do(cmd, "z", "0", "-1")
		vh.Assert(r.IsNil() || r.K == '*' && len(r.A) == 0, cmd+" of a missing key")
		vh.Reach("missing")
		return
	}
	if vh.Choice(2) == 0 {
		kit.Do(cmd, "z", s, "-1").Err(cmd + " from something that is not an integer")
	} else {
		kit.Do(cmd, "z", "0", s).Err(cmd + " to something that is not an integer")
	}
	vh.Reach("refused")
}

// Large: 33 members in fixed random shapes, one end of the range any 64-bit number.
func Large() {
	z := &kit.ZSet{Key: "z"}
	n, shapes := 33, 2
	if vh.Thorough() {
		n, shapes = 41, 8
	}
	kit.Large(z, n, shapes)
	fixed := []int64{0, -1, 5, int64(-n), 20}[vh.Choice(5)]
	if vh.Choice(2) == 0 {
		look(z, fixed, vh.I64())
	} else {
		look(z, vh.I64(), fixed)
	}
}
