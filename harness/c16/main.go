package main

import (
	"github.com/yusank/godis/zzverif/kit"
	"github.com/yusank/godis/zzverif/vh"
)

var univ = []string{"a", "b", "c", "d"}

// build adds n members, all shapes of up to 1+tall levels, any scores.
func build(n, tall int) *kit.ZSet {
	z := &kit.ZSet{Key: "z"}
	for i := 0; i < n; i++ {
		z.Add(univ[i], kit.Score(true), tall)
	}
	return z
}

// Build: three members with any scores in any shape.
func Build() {
	z := build(3, 2)
	z.Check(univ, "after ZADD")
	vh.Reach("end")
}

// Many: members in rising or mixed order of small scores.
func Many() {
	z := &kit.ZSet{Key: "z"}
	scores := [][]float64{{1, 2, 3, 4, 5}, {5, 4, 3, 2, 1}, {3, 1, 4, 1, 5}, {2, 2, 2, 2, 2}, {-1, 3, -1, 0, 3}}
	s := scores[vh.Choice(len(scores))]
	for i, m := range []string{"c", "a", "e", "b", "d"} {
		z.Add(m, s[i], 1)
	}
	i := vh.Choice(5)
	z.Check(nil, "after ZADD")
	if vh.Choice(2) == 0 {
		kit.Do("zrem", "z", z.M[i]).Int(1, "ZREM")
		z.Del(z.M[i])
	} else {
		z.Add(z.M[i], kit.Score(false), 1)
	}
	z.Check([]string{"a", "b", "c", "d", "e"}, "after the change")
	vh.Reach("end")
}

// finite keeps sums away from overflow and NaN.
func small() float64 {
	f := vh.F64()
	vh.Assume(vh.And(f <= 1e150, f >= -1e150))
	return f
}

func step(z *kit.ZSet, tall int, incr bool) {
	m := univ[vh.Choice(3)]
	had := z.Find(m)
	old := 0.0
	if had >= 0 {
		old = z.S[had]
	}
	k := 0
	var s float64
	if incr {
		s = small()
		k = 4 + vh.Choice(4)
	} else {
		k = vh.Choice(4)
		if k < 3 {
			s = kit.Score(true)
		}
	}
	vh.RandBudget(tall)
	switch k {
	case 0:
		kit.Do("zadd", "z", kit.FText(s), m).Ok("ZADD")
		z.Put(m, s)
	case 1:
		kit.Do("zadd", "z", "NX", kit.FText(s), m).Ok("ZADD NX")
		if had < 0 {
			z.Put(m, s)
		}
	case 2:
		kit.Do("zadd", "z", "xx", kit.FText(s), m).Ok("ZADD XX")
		if had >= 0 {
			z.Put(m, s)
		}
	case 3:
		r := kit.Do("zrem", "z", m)
		if z.Del(m) {
			r.Int(1, "ZREM")
		} else {
			r.Int(0, "ZREM of something that is not a member")
		}
	case 4:
		kit.Do("zadd", "z", "incr", kit.FText(s), m).Ok("ZADD INCR")
		if had >= 0 {
			s = old + s
		}
		z.Put(m, s)
	case 5:
		r := kit.Do("zincr", "z", kit.FText(s), m).Ok("ZINCR")
		if had >= 0 {
			s = old + s
		}
		z.Put(m, s)
		r.Float(s, "ZINCR")
	case 6:
		if vh.Choice(2) == 0 {
			kit.Do("zadd", "z", "xx", "incr", kit.FText(s), m).Ok("ZADD XX INCR")
		} else {
			kit.Do("zadd", "z", "INCR", "XX", kit.FText(s), m).Ok("ZADD INCR XX")
		}
		if had >= 0 {
			z.Put(m, old+s)
		}
	case 7:
		kit.Do("zadd", "z", "nx", "incr", kit.FText(s), m).Ok("ZADD NX INCR")
		if had < 0 {
			z.Put(m, s)
		}
	}
}

// History: any change of a set of up to three members of any scores and shape.
func History() {
	z := &kit.ZSet{Key: "z"}
	n := vh.Choice(4)
	tall := 1
	if n == 3 && !vh.Thorough() {
		tall = 0
	}
	for i := 0; i < n; i++ {
		z.Add(univ[i], kit.Score(true), tall)
	}
	k := 1
	if vh.Thorough() {
		k = 2
	}
	for i := 0; i < k; i++ {
		step(z, 1, false)
	}
	z.Check(univ[:3], "after a change")
	vh.Reach("end")
}

// Incr: an increment in a set of up to two members of any scores.
func Incr() {
	z := &kit.ZSet{Key: "z"}
	n := vh.Choice(3)
	for i := 0; i < n; i++ {
		z.Add(univ[i], small(), 0)
	}
	step(z, 1, true)
	z.Check(univ[:3], "after an increment")
	vh.Reach("end")
}

// Moves: an increment moves a member past others, in any shape.
func Moves() {
	z := &kit.ZSet{Key: "z"}
	for i, m := range univ {
		z.Add(m, float64(10*i), 1)
	}
	m := univ[vh.Choice(4)]
	i := z.Find(m)
	d := small()
	vh.RandBudget(1)
	sum := z.S[i] + d
	kit.Do("zincr", "z", kit.FText(d), m).Float(sum, "ZINCR")
	z.Put(m, sum)
	z.Check(nil, "after ZINCR")
	vh.Reach("end")
}

// Steps: changes in a row from nothing.
func Steps() {
	z := &kit.ZSet{Key: "z"}
	k := 3
	if vh.Thorough() {
		k = 4
	}
	for i := 0; i < k; i++ {
		step(z, 0, false)
	}
	z.Check(univ[:3], "after the changes")
	vh.Reach("end")
}

// Several: one command naming several members, also the same one twice.
func Several() {
	z := build(vh.Choice(3), 0)
	flag := vh.Choice(3)
	args := []string{"zadd", "z"}
	if flag > 0 {
		args = append(args, []string{"", "nx", "xx"}[flag])
	}
	type pair struct {
		m string
		s float64
	}
	var ps []pair
	for i := 0; i < 2; i++ {
		p := pair{univ[vh.Choice(3)], kit.Score(true)}
		ps = append(ps, p)
		args = append(args, kit.FText(p.s), p.m)
	}
	vh.RandBudget(1)
	kit.Do(args...).Ok("ZADD")
	for _, p := range ps {
		has := z.Find(p.m) >= 0
		if flag == 1 && has || flag == 2 && !has {
			continue
		}
		z.Put(p.m, p.s)
	}
	z.Check(univ[:3], "after ZADD of several members")
	kit.Do("zrem", "z", univ[0], univ[3], univ[1], univ[0])
	z.Del(univ[0])
	z.Del(univ[1])
	z.Check(univ, "after ZREM of several members")
	vh.Reach("end")
}

// Members: arbitrary member bytes.
func Members() {
	z := &kit.ZSet{Key: "z"}
	a, b := vh.Str(vh.Choice(3)), vh.Str(vh.Choice(2))
	vh.Assume(a != b)
	s, t := kit.Score(true), kit.Score(true)
	z.Add(a, s, 0)
	z.Add(b, t, 0)
	kit.Do("zscore", "z", a).Float(s, "ZSCORE")
	kit.Do("zscore", "z", b).Float(t, "ZSCORE")
	kit.Do("zcard", "z").Int(2, "ZCARD")
	r := kit.Do("zrange", "z", "0", "-1")
	vh.Assert(r.K == '*' && len(r.A) == 2, "ZRANGE of two members")
	if r.A[0].S == a {
		vh.Reach("first")
		r.A[1].Bulk(b, "ZRANGE")
		vh.Assert(vh.Or(s < t, vh.And(s == t, a < b)), "ZRANGE order")
		kit.Do("zrank", "z", a).Int(0, "ZRANK")
		kit.Do("zrank", "z", b).Int(1, "ZRANK")
	} else {
		vh.Reach("second")
		r.A[0].Bulk(b, "ZRANGE")
		r.A[1].Bulk(a, "ZRANGE")
		vh.Assert(vh.Or(t < s, vh.And(s == t, b < a)), "ZRANGE order")
		kit.Do("zrank", "z", a).Int(1, "ZRANK")
		kit.Do("zrank", "z", b).Int(0, "ZRANK")
	}
}

// NotScore: texts that are no scores, and sums that are none, change nothing.
func NotScore() {
	z := build(vh.Choice(3), 1)
	bad := []string{"", "x", "nan", "NaN", "-nan", "1e", "(1", "1,5", "1.5.5", "--1", "1 "}[vh.Choice(11)]
	switch vh.Choice(4) {
	case 0:
		kit.Do("zadd", "z", bad, "a").Err("ZADD with a bad score")
	case 1:
		kit.Do("zadd", "z", "1", "c", bad, "a").Err("ZADD with a bad score")
	case 2:
		kit.Do("zincr", "z", bad, "a").Err("ZINCR by something that is not a number")
	case 3:
		kit.Do("zadd", "z", "incr", bad, "a").Err("ZADD INCR by something that is not a number")
	}
	z.Check(univ, "after a refusal")
	kit.Do("zcard", "z").Int(int64(len(z.M)), "ZCARD after a refusal")
	vh.Reach("end")
}

// Infinite: adding opposite infinities is not a score.
func Infinite() {
	z := &kit.ZSet{Key: "z"}
	z.Add("a", 1, 0)
	inf := []string{"+inf", "-inf", "Inf", "infinity"}
	i, j := vh.Choice(4), vh.Choice(4)
	kit.Do("zadd", "z", inf[i], "b").Ok("ZADD")
	opp := (i == 1) != (j == 1)
	var r kit.Rep
	if vh.Choice(2) == 0 {
		r = kit.Do("zincr", "z", inf[j], "b")
	} else {
		r = kit.Do("zadd", "z", "incr", inf[j], "b")
	}
	if opp {
		r.Err("a sum that is not a number")
	} else {
		r.Ok("adding an infinity")
	}
	kit.Do("zcard", "z").Int(2, "ZCARD")
	one := 1 - i%2
	if i >= 2 {
		one = 1
	}
	if one == 1 {
		kit.Do("zrank", "z", "b").Int(1, "ZRANK of an infinite score")
	} else {
		kit.Do("zrank", "z", "b").Int(0, "ZRANK of an infinite score")
	}
	vh.Reach("end")
}

// Tall: one member of any tower height up to the limit (and draws beyond it) among others, then moved or
// removed and added again.
func Tall() {
	z := &kit.ZSet{Key: "z"}
	at := vh.Choice(3)
	for i := 0; i < 3; i++ {
		tall := 1
		if i == at {
			tall = 40
		}
		z.Add(univ[i], float64(i), tall)
	}
	z.Check(nil, "with a tall member")
	m := univ[at]
	if vh.Choice(2) == 0 {
		kit.Do("zrem", "z", m).Int(1, "ZREM")
		z.Del(m)
		z.Check(nil, "without the tall member")
		z.Add(m, 7, 2)
	} else {
		z.Add(m, 1.5, 2)
	}
	z.Check(nil, "after the tall member's change")
	vh.Reach("end")
}

// Large: 33 members in fixed random shapes; one is removed or given any score, others are changed.
func Large() {
	z := &kit.ZSet{Key: "z"}
	n, shapes := 33, 2
	if vh.Thorough() {
		n, shapes = 41, 8
	}
	kit.Large(z, n, shapes)
	z.Check(nil, "a large set")
	m := "m" + kit.Itoa([]int{0, 1, 13, 16, n - 2, n - 1}[vh.Choice(6)])
	switch vh.Choice(3) {
	case 0:
		kit.Do("zrem", "z", m).Int(1, "ZREM")
		z.Del(m)
	case 1:
		z.Add(m, kit.Score(true), 0)
	case 2:
		args := []string{"zrem", "z"}
		for i := 1; i < n; i += 2 {
			args = append(args, "m"+kit.Itoa(i))
			z.Del("m" + kit.Itoa(i))
		}
		kit.Do(args...).Int(int64(n/2), "ZREM")
		args = []string{"zadd", "z"}
		for i := 0; i < n; i += 3 {
			args = append(args, kit.Itoa(n-i), "m"+kit.Itoa(i))
			z.Put("m"+kit.Itoa(i), float64(n-i))
		}
		kit.Do(args...).Ok("ZADD of many members")
	}
	z.Check(kit.LargeUniv(n), "a large set after a change")
	vh.Reach("end")
}

// LongMembers: two long members that differ in one byte or in length, with equal or different scores.
func LongMembers() {
	a, b := kit.Long()
	z := &kit.ZSet{Key: "z"}
	z.Add("m", 1, 0)
	z.Add(a, 1, 1)
	kit.Do("zscore", "z", b).Nil("ZSCORE of something that is not a member")
	s := float64(1 + vh.Choice(2))
	z.Add(b, s, 1)
	z.Check(nil, "with long members")
	z.Add(a, 3-s, 0)
	z.Check(nil, "after a long member's change")
	kit.Do("zrem", "z", b).Int(1, "ZREM")
	z.Del(b)
	z.Check([]string{b}, "without a long member")
	vh.Reach("end")
}
