package main

import (
	"math"

	"github.com/yusank/godis/zzverif/kit"
	"github.com/yusank/godis/zzverif/vh"
)

var univ = []string{"b", "a", "d", "c", "e"}

// bound is one end of an interval.
type bound struct {
	text string
	v    float64
	open bool
}

// anyBound is any end: open or closed, any number or infinity.
func anyBound() (b bound) {
	b.open = vh.Choice(2) == 1
	if b.open {
		b.text = "("
	}
	switch k := vh.Choice(8); k {
	case 0, 1, 2:
		b.text += []string{"-inf", "-Inf", "-INF"}[k]
		b.v = math.Inf(-1)
	case 3, 4, 5, 6:
		b.text += []string{"+inf", "inf", "+INF", "Infinity"}[k-3]
		b.v = math.Inf(1)
	case 7:
		b.v = kit.Score(false)
		b.text += kit.FText(b.v)
	}
	return b
}

// number is any finite end.
func number() (b bound) {
	b.open = vh.Choice(2) == 1
	b.v = kit.Score(false)
	b.text = kit.FText(b.v)
	if b.open {
		b.text = "(" + b.text
	}
	return b
}

// inside tells without forking whether a score lies in the interval.
func inside(s float64, lo, hi bound) bool {
	var l, h bool
	if lo.open {
		l = s > lo.v
	} else {
		l = s >= lo.v
	}
	if hi.open {
		h = s < hi.v
	} else {
		h = s <= hi.v
	}
	return vh.And(l, h)
}

func compare(z *kit.ZSet, lo, hi bound) {
	n := 0
	for _, s := range z.S {
		n += vh.IteInt(inside(s, lo, hi), 1, 0)
	}
	step := 1
	var r kit.Rep
	how := vh.Choice(4)
	switch how {
	case 0:
		kit.Do("zcount", "z", lo.text, hi.text).Int(int64(n), "ZCOUNT")
		vh.Reach("count")
		return
	case 1:
		r = kit.Do("zrangebyscore", "z", lo.text, hi.text)
	case 2:
		r = kit.Do("zrange", "z", lo.text, hi.text, "ByScore")
	case 3:
		r = kit.Do("zrange", "z", lo.text, hi.text, "byscore", "withscores")
		step = 2
	}
	vh.Reach("list")
	vh.Assert(r.K == '*' || r.IsNil(), "not an array")
	vh.Assert(len(r.A) == n*step, "wrong number of members in the interval")
	var ms []kit.Rep
	for i := 0; i < len(r.A); i += step {
		ms = append(ms, r.A[i])
	}
	for k, i := range z.Order(ms, "by score") {
		vh.Assert(inside(z.S[i], lo, hi), "a member outside the interval")
		if step == 2 {
			r.A[2*k+1].Float(z.S[i], "BYSCORE WITHSCORES")
		}
	}
}

func build(n, tall int) *kit.ZSet {
	z := &kit.ZSet{Key: "z"}
	for i := 0; i < n; i++ {
		z.Add(univ[i], kit.Score(true), tall)
	}
	return z
}

// Any: members of any scores in any shape, interval of any two numbers.
func Any() {
	n := 2
	if vh.Thorough() {
		n = 3
	}
	z := build(vh.Choice(n)+1, 1)
	compare(z, number(), number())
}

// Ends: infinite ends in all spellings.
func Ends() {
	z := build(vh.Choice(2)+1, 0)
	compare(z, anyBound(), anyBound())
}

// Patterns: five members with ties and gaps, any heights, interval of any two numbers.
func Patterns() {
	z := &kit.ZSet{Key: "z"}
	scores := [][]float64{{1, 2, 3, 5, 8}, {1, 1, 3, 3, 3}, {2, 2, 2, 2, 2}, {-1, 0, 0, 7, 7.5}, {1, 4, 4, 4, 9}}
	s := scores[vh.Choice(len(scores))]
	for i, m := range univ {
		z.Add(m, s[i], 1)
	}
	if vh.Choice(2) == 0 {
		compare(z, number(), bound{text: "+inf", v: math.Inf(1)})
	} else {
		compare(z, bound{text: "-inf", v: math.Inf(-1)}, number())
	}
}

// Both: the same sets, both ends numbers.
func Both() {
	z := &kit.ZSet{Key: "z"}
	scores := [][]float64{{1, 2, 4}, {1, 3, 3}, {2, 2, 2}, {2, 2, 9}}
	s := scores[vh.Choice(len(scores))]
	for i, x := range s {
		z.Add(univ[i], x, 1)
	}
	compare(z, number(), number())
}

// Texts: ends that are not numbers.
func Texts() {
	build(1, 0)
	bad := []string{"", "x", "(", "nan", "(nan", "NaN", "((1", "1)", "[1", "1,5", "infinit", "(x"}[vh.Choice(12)]
	cmd := []string{"zcount", "zrangebyscore", "zrange"}[vh.Choice(3)]
	args := []string{cmd, "z", bad, bad}
	if vh.Choice(3) < 2 {
		args[2+vh.Choice(2)] = kit.FText(kit.Score(true))
	}
	if cmd == "zrange" {
		args = append(args, "byscore")
	}
	kit.Do(args...).Err("an end that is not a number")
	vh.Reach("refused")
}

// Missing: nothing is found in a key that does not exist.
func Missing() {
	lo, hi := number(), number()
	kit.Do("zcount", "z", lo.text, hi.text).Int(0, "ZCOUNT of a missing key")
	r := kit.Do("zrangebyscore", "z", lo.text, hi.text)
	vh.Assert(r.IsNil() || r.K == '*' && len(r.A) == 0, "ZRANGEBYSCORE of a missing key")
	vh.Reach("end")
}

// Large: 33 members in fixed random shapes, one end of the interval any number.
func Large() {
	z := &kit.ZSet{Key: "z"}
	n, shapes := 33, 2
	if vh.Thorough() {
		n, shapes = 41, 8
	}
	kit.Large(z, n, shapes)
	v := []float64{math.Inf(-1), math.Inf(1), -1, 5}[vh.Choice(4)]
	fixed := bound{text: kit.FText(v), v: v}
	if vh.Choice(2) == 0 {
		fixed.open = true
		fixed.text = "(" + fixed.text
	}
	if vh.Choice(2) == 0 {
		compare(z, fixed, number())
	} else {
		compare(z, number(), fixed)
	}
}
