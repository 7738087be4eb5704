package main

import (
	"github.com/yusank/godis/zzverif/kit"
	"github.com/yusank/godis/zzverif/vh"
)

// "a" and "A" fall into the same shard, "b" into another.
var univ = []string{"a", "A", "b"}
var keys = []string{"s", "t"}

var has [2][3]bool

func members(k int) (l []string) {
	for m, in := range has[k] {
		if in {
			l = append(l, univ[m])
		}
	}
	return l
}

func size(k int) int64 { return int64(len(members(k))) }

func check() {
	for k := range keys {
		kit.Do("scard", keys[k]).Int(size(k), "SCARD")
		kit.Do("smembers", keys[k]).Set(members(k), "SMEMBERS")
		for m := range univ {
			n := int64(0)
			if has[k][m] {
				n = 1
			}
			kit.Do("sismember", keys[k], univ[m]).Int(n, "SISMEMBER")
		}
	}
}

func start() {
	for k := range keys {
		for m := range univ {
			if vh.Bool() {
				has[k][m] = true
				kit.Do("sadd", keys[k], univ[m]).Int(1, "SADD")
			}
		}
	}
}

func some() (args []string) {
	n := vh.Choice(2) + 1
	for i := 0; i < n; i++ {
		args = append(args, kit.Pick(univ...))
	}
	return args
}

func step() {
	switch vh.Choice(4) {
	case 0:
		k := vh.Choice(2)
		args := some()
		r := kit.Do(append([]string{"sadd", keys[k]}, args...)...)
		n := int64(0)
		for _, a := range args {
			if m := kit.Find(univ, a); !has[k][m] {
				n++
				has[k][m] = true
			}
		}
		r.Int(n, "SADD")
	case 1:
		k := vh.Choice(2)
		args := some()
		r := kit.Do(append([]string{"srem", keys[k]}, args...)...)
		n := int64(0)
		for _, a := range args {
			if m := kit.Find(univ, a); has[k][m] {
				n++
				has[k][m] = false
			}
		}
		r.Int(n, "SREM")
	case 2:
		pop(0)
	case 3:
		move()
	}
	vh.Reach("step")
	check()
}

// pop with no count, any positive 64-bit count, or any count <= 0.
func pop(k int) {
	args := []string{"spop", keys[k]}
	want := size(k)
	kind := vh.Choice(3)
	switch kind {
	case 0:
		if want > 1 {
			want = 1
		}
	case 1:
		c := vh.I64()
		vh.Assume(c > 0)
		args = append(args, kit.I64(c))
		for want = 0; want < size(k) && want < c; want++ {
		}
	case 2:
		c := vh.I64()
		vh.Assume(c <= 0)
		args = append(args, kit.I64(c))
		want = 0
	}
	r := kit.Do(args...)
	var got []string
	switch {
	case r.K == '$' && kind == 0:
		got = []string{r.S}
	case r.K == '*':
		for _, e := range r.A {
			vh.Assert(e.K == '$', "SPOP returned something that is not a member")
			got = append(got, e.S)
		}
	case r.IsErr():
		vh.Assert(kind == 2 || size(k) == 0, "SPOP refused")
	}
	vh.Assert(int64(len(got)) == want, "SPOP returned the wrong number of members")
	for _, g := range got {
		found := false
		for m := range univ {
			if has[k][m] && g == univ[m] {
				has[k][m] = false
				found = true
			}
		}
		vh.Assert(found, "SPOP returned something that is not a current member, or a member twice")
	}
}

func move() {
	src, dst, a := vh.Choice(2), vh.Choice(2), kit.Pick(univ...)
	r := kit.Do("smove", keys[src], keys[dst], a)
	m := kit.Find(univ, a)
	if !has[src][m] {
		vh.Assert(r.IsErr() || r.K == ':' && r.N == 0, "SMOVE of something that is not a member")
		return
	}
	r.Ok("SMOVE")
	if !has[dst][m] || src == dst {
		r.Int(1, "SMOVE")
	}
	has[src][m] = false
	has[dst][m] = true
}

// History: any start over two sets and three members, then any commands.
func History() {
	vh.MapOrder(8)
	start()
	n := 1
	if vh.Thorough() {
		n = 2
	}
	for i := 0; i < n; i++ {
		step()
	}
}

// Fresh: longer histories from missing keys.
func Fresh() {
	vh.MapOrder(8)
	n := 2
	if vh.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		step()
	}
}

// Pops: repeated pops until the set is empty, then refilled.
func Pops() {
	vh.MapOrder(12)
	for m := range univ {
		if vh.Bool() {
			has[0][m] = true
			kit.Do("sadd", "s", univ[m]).Int(1, "SADD")
		}
	}
	n := 2
	if vh.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		pop(0)
		check()
	}
	for has[0][0] || has[0][1] || has[0][2] {
		n := size(0)
		pop(0)
		if size(0) == n {
			return // a count <= 0
		}
	}
	kit.Do("sadd", "s", "b").Int(1, "SADD after popping all")
	has[0][2] = true
	check()
	vh.Reach("end")
}

// Members: arbitrary different members of 0..2 bytes.
func Members() {
	a, b := vh.Str(vh.Choice(3)), vh.Str(vh.Choice(3))
	vh.Assume(!vh.StrEq(a, b))
	kit.Do("sadd", "s", a, a).Int(1, "SADD")
	kit.Do("sismember", "s", b).Int(0, "SISMEMBER of an absent member")
	kit.Do("sadd", "s", b, a).Int(1, "SADD")
	kit.Do("smembers", "s").Set([]string{a, b}, "SMEMBERS")
	kit.Do("srem", "s", a).Int(1, "SREM")
	kit.Do("sismember", "s", a).Int(0, "SISMEMBER of a removed member")
	kit.Do("sismember", "s", b).Int(1, "SISMEMBER")
	kit.Do("smembers", "s").Set([]string{b}, "SMEMBERS")
	kit.Do("scard", "s").Int(1, "SCARD")
	vh.Reach("end")
}

// Big: a set spread over all shards.
func Big() {
	n := 40
	var l []string
	args := []string{"sadd", "s"}
	for i := 0; i < n; i++ {
		l = append(l, "m"+kit.Itoa(i))
	}
	kit.Do(append(args, l...)...).Int(int64(n), "SADD")
	kit.Do("scard", "s").Int(int64(n), "SCARD")
	kit.Do("smembers", "s").Set(l, "SMEMBERS")
	c := vh.I64()
	vh.Assume(c > 0)
	r := kit.Do("spop", "s", kit.I64(c))
	want := 0
	for want < n && int64(want) < c {
		want++
	}
	vh.Assert(r.K == '*' && len(r.A) == want, "SPOP returned the wrong number of members")
	left := map[string]bool{}
	for _, m := range l {
		left[m] = true
	}
	for _, e := range r.A {
		vh.Assert(left[e.S], "SPOP returned something that is not a current member, or a member twice")
		delete(left, e.S)
	}
	kit.Do("scard", "s").Int(int64(len(left)), "SCARD after SPOP")
	var rest []string
	for _, m := range l {
		if left[m] {
			rest = append(rest, m)
		}
	}
	kit.Do("smembers", "s").Set(rest, "SMEMBERS after SPOP")
	vh.Reach("end")
}

// Long: one SADD of many members, some twice, one SREM of many, SMOVEs of some.
func Long() {
	n := 36
	args, rem := []string{"sadd", "s"}, []string{"srem", "s", "none"}
	var s, t []string
	for i := 0; i < n; i++ {
		m := "m" + kit.Itoa(i)
		args = append(args, m, "m"+kit.Itoa(i/2))
		switch {
		case i%3 == 0:
			rem = append(rem, m, m)
		default:
			s = append(s, m)
		}
	}
	kit.Do(args...).Int(int64(n), "SADD of many members")
	kit.Do(rem...).Int(int64(n/3), "SREM of many members")
	kit.Do("smembers", "s").Set(s, "SMEMBERS")
	a := vh.Str(1)
	kit.Do("sadd", "t", a).Int(1, "SADD")
	t = append(t, a)
	k := vh.Choice(len(s))
	for i := 0; i < 3; i++ {
		k = k % len(s)
		kit.Do("smove", "s", "t", s[k]).Int(1, "SMOVE")
		t = append(t, s[k])
		s = append(append([]string(nil), s[:k]...), s[k+1:]...)
	}
	kit.Do("scard", "s").Int(int64(len(s)), "SCARD of the source")
	kit.Do("scard", "t").Int(int64(len(t)), "SCARD of the destination")
	kit.Do("smembers", "s").Set(s, "SMEMBERS of the source")
	kit.Do("smembers", "t").Set(t, "SMEMBERS of the destination")
	vh.Reach("end")
}

// LongMembers: two long members that differ in one byte or in length.
func LongMembers() {
	a, b := kit.Long()
	kit.Do("sadd", "s", a, a).Int(1, "SADD")
	kit.Do("sismember", "s", b).Int(0, "SISMEMBER of something that is not a member")
	kit.Do("sadd", "s", b).Int(1, "SADD")
	kit.Do("smembers", "s").Set([]string{a, b}, "SMEMBERS")
	kit.Do("smove", "s", "t", a).Ok("SMOVE")
	kit.Do("smembers", "s").Set([]string{b}, "SMEMBERS of the source")
	kit.Do("smembers", "t").Set([]string{a}, "SMEMBERS of the destination")
	kit.Do("srem", "t", b).Int(0, "SREM of something that is not a member")
	kit.Do("srem", "s", b).Int(1, "SREM")
	kit.Do("scard", "t").Int(1, "SCARD")
	vh.Reach("end")
}
