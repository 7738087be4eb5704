package main

import (
	"github.com/yusank/godis/zzverif/kit"
	"github.com/yusank/godis/zzverif/vh"
)

var univ = []string{"a", "A", "b"}
var keys = []string{"s", "t", "u"}

var has [3][3]bool

// two leaves two members, in one shard or in different ones.
func two() {
	if vh.Thorough() {
		return
	}
	univ = [][]string{{"a", "A"}, {"a", "b"}}[vh.Choice(2)]
}

func list(h [3]bool) (l []string) {
	for m, in := range h {
		if in {
			l = append(l, univ[m])
		}
	}
	return l
}

func start(n int) {
	for k := 0; k < n; k++ {
		args := []string{"sadd", keys[k]}
		for m := range univ {
			if vh.Bool() {
				has[k][m] = true
				args = append(args, univ[m])
			}
		}
		if len(args) > 2 {
			kit.Do(args...).Int(int64(len(args)-2), "SADD")
		}
	}
}

func check() {
	for k := range keys {
		for m := range univ {
			n := int64(0)
			if has[k][m] {
				n = 1
			}
			kit.Do("sismember", keys[k], univ[m]).Int(n, "members of "+keys[k])
		}
		kit.Do("smembers", keys[k]).Set(list(has[k]), "SMEMBERS of "+keys[k])
		kit.Do("scard", keys[k]).Int(int64(len(list(has[k]))), "SCARD of "+keys[k])
	}
}

func apply(op int, srcs []int) (h [3]bool) {
	for m := range univ {
		h[m] = has[srcs[0]][m]
		for _, s := range srcs[1:] {
			switch op {
			case 0:
				h[m] = h[m] && !has[s][m]
			case 1:
				h[m] = h[m] && has[s][m]
			case 2:
				h[m] = h[m] || has[s][m]
			}
		}
	}
	return h
}

var ops = []string{"sdiff", "sinter", "sunion"}

func sources(nkeys, max int) (srcs []int, args []string) {
	n := vh.Choice(max) + 1
	for i := 0; i < n; i++ {
		s := vh.Choice(nkeys)
		srcs = append(srcs, s)
		args = append(args, keys[s])
	}
	return srcs, args
}

// Query: the algebra over 1..3 keys, present or missing.
func Query() {
	two()
	start(3)
	op := vh.Choice(3)
	srcs, args := sources(3, 3)
	kit.Do(append([]string{ops[op]}, args...)...).Set(list(apply(op, srcs)), ops[op])
	vh.Reach("query")
	check()
}

func store(op, dst int, srcs []int, args []string) {
	h := apply(op, srcs)
	kit.Do(append([]string{ops[op] + "store", keys[dst]}, args...)...).Int(int64(len(list(h))), ops[op]+"store")
	has[dst] = h
	check()
}

// Store: a stored result, then a change to one set.
func Store() {
	two()
	start(2)
	op := vh.Choice(3)
	srcs, args := sources(2, 2)
	store(op, vh.Choice(3), srcs, args)
	vh.Reach("stored")
	change()
}

func change() {
	k, a := vh.Choice(3), kit.Pick(univ...)
	n := int64(0)
	if vh.Choice(2) == 0 {
		r := kit.Do("sadd", keys[k], a)
		m := kit.Find(univ, a)
		if !has[k][m] {
			n = 1
		}
		has[k][m] = true
		r.Int(n, "SADD after a store")
	} else {
		r := kit.Do("srem", keys[k], a)
		m := kit.Find(univ, a)
		if has[k][m] {
			n = 1
		}
		has[k][m] = false
		r.Int(n, "SREM after a store")
	}
	check()
	vh.Reach("changed")
}

// Three: a result over three sources, onto any of them.
func Three() {
	start(3)
	op := vh.Choice(3)
	store(op, vh.Choice(3), []int{0, 1, 2}, keys)
}

// Again: results of results.
func Again() {
	two()
	start(2)
	for i := 0; i < 2; i++ {
		op := vh.Choice(3)
		a, b := 0, 1
		if i == 1 || vh.Thorough() {
			a, b = vh.Choice(3), vh.Choice(3)
		}
		store(op, vh.Choice(3), []int{a, b}, []string{keys[a], keys[b]})
	}
	vh.Reach("again")
}

// Other: the destination may hold a value of another kind before.
func Other() {
	start(2)
	kind := vh.Choice(4)
	switch kind {
	case 0:
		kit.Do("set", "u", "x")
	case 1:
		kit.Do("rpush", "u", "x")
	case 2:
		kit.Do("zadd", "u", "1", "x")
	case 3:
		kit.Do("hset", "u", "f", "x")
	}
	op := vh.Choice(3)
	srcs, args := sources(2, 2)
	r := kit.Do(append([]string{ops[op] + "store", "u"}, args...)...)
	h := apply(op, srcs)
	r.Int(int64(len(list(h))), ops[op]+"store onto another kind")
	has[2] = h
	check()
	vh.Reach("end")
}

// Big: sets spread over all shards.
func Big() {
	n := 40
	cut1, cut2 := vh.Concrete(vh.Int(0, n)), vh.Concrete(vh.Int(0, n))
	var s, t []string
	for i := 0; i < n; i++ {
		m := "m" + kit.Itoa(i)
		if i >= cut1 {
			s = append(s, m)
		}
		if i < cut2 {
			t = append(t, m)
		}
	}
	if len(s) > 0 {
		kit.Do(append([]string{"sadd", "s"}, s...)...)
	}
	if len(t) > 0 {
		kit.Do(append([]string{"sadd", "t"}, t...)...)
	}
	var d, in, un []string
	for i := 0; i < n; i++ {
		m := "m" + kit.Itoa(i)
		a, b := i >= cut1, i < cut2
		if a && !b {
			d = append(d, m)
		}
		if a && b {
			in = append(in, m)
		}
		if a || b {
			un = append(un, m)
		}
	}
	kit.Do("sdiff", "s", "t").Set(d, "SDIFF")
	kit.Do("sinter", "s", "t").Set(in, "SINTER")
	kit.Do("sunion", "s", "t").Set(un, "SUNION")
	vh.Reach("end")
}

// Members: arbitrary members.
func Members() {
	a, b := vh.Str(1), vh.Str(1)
	kit.Do("sadd", "s", a, "x")
	kit.Do("sadd", "t", b)
	in := kit.Do("sinter", "s", "t")
	d := kit.Do("sdiff", "s", "t")
	u := kit.Do("sunionstore", "u", "s", "t")
	sa := []string{a}
	if a != "x" {
		sa = append(sa, "x")
	}
	var wi, wd, wu []string
	for _, m := range sa {
		if m == b {
			wi = append(wi, m)
		} else {
			wd = append(wd, m)
		}
		wu = append(wu, m)
	}
	if len(wi) == 0 {
		wu = append(wu, b)
	}
	in.Set(wi, "SINTER")
	d.Set(wd, "SDIFF")
	u.Int(int64(len(wu)), "SUNIONSTORE")
	kit.Do("smembers", "u").Set(wu, "SMEMBERS of the union")
	vh.Reach("end")
}

// Five: five sources, one member in any of them and five others in fixed ones.
func Five() {
	var in [6][5]bool
	ms := []string{vh.Str(1), "m1", "m2", "m3", "m4", "m5"}
	var srcs []string
	for k := 0; k < 5; k++ {
		srcs = append(srcs, "k"+kit.Itoa(k))
		args := []string{"sadd", srcs[k]}
		in[0][k] = vh.Bool()
		for m := range ms {
			if m > 0 {
				in[m][k] = (k+m)%5 < m
			}
			if in[m][k] {
				args = append(args, ms[m])
			}
		}
		if len(args) > 2 {
			kit.Do(args...).Int(int64(len(args)-2), "SADD")
		}
	}
	op := vh.Choice(3)
	var want []string
	for m := range ms {
		n := 0
		for _, i := range in[m] {
			if i {
				n++
			}
		}
		if op == 0 && in[m][0] && n == 1 || op == 1 && n == 5 || op == 2 && n > 0 {
			want = append(want, ms[m])
		}
	}
	if vh.Choice(2) == 0 {
		kit.Do(append([]string{ops[op]}, srcs...)...).Set(want, ops[op]+" of five sets")
	} else {
		dst := []string{"new", "k0", "k2", "k4"}[vh.Choice(4)]
		kit.Do(append([]string{ops[op] + "store", dst}, srcs...)...).Int(int64(len(want)), ops[op]+"store of five sets")
		kit.Do("smembers", dst).Set(want, "the stored result of five sets")
	}
	vh.Reach("end")
}

// LongMembers: sets of long members that differ in one byte or in length.
func LongMembers() {
	a, b := kit.Long()
	kit.Do("sadd", "p", a)
	kit.Do("sadd", "q", b)
	kit.Do("sunion", "p", "q").Set([]string{a, b}, "SUNION")
	vh.Assert(len(kit.Do("sinter", "p", "q").A) == 0, "SINTER of different members")
	kit.Do("sdiff", "p", "q").Set([]string{a}, "SDIFF")
	kit.Do("sunionstore", "q", "p", "q").Int(2, "SUNIONSTORE")
	kit.Do("sdiff", "q", "p").Set([]string{b}, "SDIFF")
	kit.Do("sinter", "q", "p").Set([]string{a}, "SINTER")
	vh.Reach("end")
}
