package main

import (
	"github.com/yusank/godis/zzverif/kit"
	"github.com/yusank/godis/zzverif/vh"
)

// "a" and "A" fall into the same shard, "b" into another.
var univ = []string{"a", "A", "b"}

var has [3]bool
var val [3]string

func count() (n int64) {
	for _, h := range has {
		if h {
			n++
		}
	}
	return n
}

func check() {
	var ks, vs []string
	for f, name := range univ {
		r := kit.Do("hget", "h", name)
		n := int64(0)
		if has[f] {
			n = 1
			r.Bulk(val[f], "HGET")
			ks = append(ks, name)
			vs = append(vs, val[f])
		} else {
			r.Nil("HGET of an absent field")
		}
		kit.Do("hexists", "h", name).Int(n, "HEXISTS")
	}
	kit.Do("hlen", "h").Int(count(), "HLEN")
	kit.Do("hkeys", "h").Set(ks, "HKEYS")
	bag(kit.Do("hvals", "h"), vs)
	all(kit.Do("hgetall", "h"))
	r := kit.Do("hmget", "h", "b", "a", "b", "A")
	vh.Assert(r.K == '*' && len(r.A) == 4, "HMGET: not one element per field")
	for i, f := range []int{2, 0, 2, 1} {
		if has[f] {
			r.A[i].Bulk(val[f], "HMGET")
		} else {
			r.A[i].Nil("HMGET of an absent field")
		}
	}
}

// bag asserts that the reply holds the values vs in any order.
func bag(r kit.Rep, vs []string) {
	if len(vs) == 0 && r.IsNil() {
		return
	}
	vh.Assert(r.K == '*' && len(r.A) == len(vs), "HVALS: wrong number of values")
	ok := len(vs) == 0
	perms := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	for _, p := range perms {
		same, valid := true, true
		for i, j := range p {
			if i >= len(vs) {
				continue
			}
			if j >= len(vs) {
				valid = false
				break
			}
			same = vh.And(same, vh.StrEq(r.A[i].S, vs[j]))
			valid = valid && r.A[i].K == '$'
		}
		if valid {
			ok = vh.Or(ok, same)
		}
	}
	vh.Assert(ok, "HVALS: wrong values")
}

func all(r kit.Rep) {
	n := int(count())
	if n == 0 {
		vh.Assert(r.IsNil() || r.K == '*' && len(r.A) == 0, "HGETALL of an empty hash is not empty")
		return
	}
	vh.Assert(r.K == '*' && len(r.A) == 2*n, "HGETALL: wrong number of elements")
	var seen [3]bool
	for i := 0; i < n; i++ {
		vh.Assert(r.A[2*i].K == '$', "HGETALL: a field is not a bulk string")
		f := kit.Find(univ, r.A[2*i].S)
		vh.Assert(f >= 0 && has[f] && !seen[f], "HGETALL: a field that is absent or was listed before")
		seen[f] = true
		r.A[2*i+1].Bulk(val[f], "HGETALL")
	}
}

// value is a letter or a number.
func value() string {
	if vh.Choice(2) == 0 {
		return vh.StrIn(1, 'p', 'w')
	}
	return kit.I64(vh.I64())
}

func step() {
	switch vh.Choice(4) {
	case 0, 1:
		n := vh.Choice(2) + 1
		args := []string{"hset", "h"}
		if vh.Choice(2) == 1 {
			args[0] = "hmset"
		}
		var fs, vs []string
		for i := 0; i < n; i++ {
			f, v := kit.Pick(univ...), value()
			if n == 2 {
				v = vh.StrIn(1, 'p', 'w')
			}
			fs, vs = append(fs, f), append(vs, v)
			args = append(args, f, v)
		}
		kit.Do(args...).Ok(args[0])
		for i := range fs {
			f := kit.Find(univ, fs[i])
			has[f], val[f] = true, vs[i]
		}
	case 2:
		a, v := kit.Pick(univ...), value()
		r := kit.Do("hsetnx", "h", a, v)
		f := kit.Find(univ, a)
		if has[f] {
			r.Int(0, "HSETNX of a present field")
		} else {
			r.Int(1, "HSETNX of an absent field")
			has[f], val[f] = true, v
		}
	case 3:
		n := vh.Choice(2) + 1
		args := []string{"hdel", "h"}
		for i := 0; i < n; i++ {
			args = append(args, kit.Pick(univ...))
		}
		r := kit.Do(args...)
		k := int64(0)
		for _, a := range args[2:] {
			f := kit.Find(univ, a)
			if has[f] {
				has[f] = false
				k++
			}
		}
		r.Int(k, "HDEL")
	}
	vh.Reach("step")
	check()
}

// Fresh: any history from a missing key.
func Fresh() {
	n := 2
	if vh.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		step()
	}
}

// Filled: any step from any subset of three fields.
func Filled() {
	for f := range univ {
		if vh.Bool() {
			has[f], val[f] = true, "v"+kit.Itoa(f)
			kit.Do("hset", "h", univ[f], val[f])
		}
	}
	n := 1
	if vh.Thorough() {
		n = 2
	}
	for i := 0; i < n; i++ {
		step()
	}
}

// Value: one value of arbitrary bytes, through each command.
func Value() {
	max := 3
	if vh.Thorough() {
		max = 4
	}
	v := vh.Str(vh.Choice(max + 1))
	text(v)
}

// Texts: values that look like numbers.
func Texts() {
	d := vh.StrIn(1, '0', '9')
	ts := []string{"-0." + d, "0" + d + ".5", d + ".00", d + "e" + d, "1" + d + "E+2", "+" + d + "." + d, "0x1" + d, "0x1p" + d, "nan", "NaN", "inf", "-Inf", "+Inf", "Infinity", "1_" + d + "00",
		"922337203685477580" + d, "-922337203685477580" + d, "1844674407370955161" + d, "00000000000000000000" + d, "0.1000000000000000" + d, "1e400", "-1e-400", "true", "null"}
	text(ts[vh.Choice(len(ts))])
}

func text(v string) {
	switch vh.Choice(3) {
	case 0:
		kit.Do("hset", "h", "a", v).Ok("HSET")
	case 1:
		kit.Do("hmset", "h", "a", v).Ok("HMSET")
	case 2:
		kit.Do("hsetnx", "h", "a", v).Int(1, "HSETNX")
	}
	has[0], val[0] = true, v
	kit.Do("hget", "h", "a").Bulk(v, "HGET")
	r := kit.Do("hmget", "h", "a", "b")
	vh.Assert(r.K == '*' && len(r.A) == 2, "HMGET: not one element per field")
	r.A[0].Bulk(v, "HMGET")
	r.A[1].Nil("HMGET of an absent field")
	kit.Do("hvals", "h").List([]string{v}, "HVALS")
	kit.Do("hgetall", "h").List([]string{"a", v}, "HGETALL")
	vh.Reach("text")
}

// Fields: arbitrary different fields of 0..2 bytes.
func Fields() {
	a, b := vh.Str(vh.Choice(3)), vh.Str(vh.Choice(3))
	vh.Assume(!vh.StrEq(a, b))
	kit.Do("hset", "h", a, "x").Ok("HSET")
	kit.Do("hget", "h", b).Nil("HGET of an absent field")
	kit.Do("hexists", "h", b).Int(0, "HEXISTS of an absent field")
	kit.Do("hset", "h", b, "y").Ok("HSET")
	kit.Do("hget", "h", a).Bulk("x", "HGET")
	kit.Do("hget", "h", b).Bulk("y", "HGET")
	kit.Do("hkeys", "h").Set([]string{a, b}, "HKEYS")
	kit.Do("hlen", "h").Int(2, "HLEN")
	kit.Do("hdel", "h", a).Int(1, "HDEL")
	kit.Do("hget", "h", a).Nil("HGET of a removed field")
	kit.Do("hget", "h", b).Bulk("y", "HGET")
	kit.Do("hlen", "h").Int(1, "HLEN")
	vh.Reach("end")
}

// Big: many fields over all shards.
func Big() {
	n := 40
	var ks, args []string
	for i := 0; i < n; i++ {
		ks = append(ks, "f"+kit.Itoa(i))
		args = append(args, ks[i], "v"+kit.Itoa(i))
	}
	kit.Do(append([]string{"hset", "h"}, args...)...).Ok("HSET")
	kit.Do("hlen", "h").Int(int64(n), "HLEN")
	kit.Do("hkeys", "h").Set(ks, "HKEYS")
	d := vh.Concrete(vh.Int(0, n-1))
	kit.Do("hdel", "h", ks[d]).Int(1, "HDEL")
	r := kit.Do(append([]string{"hmget", "h"}, ks...)...)
	vh.Assert(r.K == '*' && len(r.A) == n, "HMGET: not one element per field")
	for i := range ks {
		if i == d {
			r.A[i].Nil("HMGET of a removed field")
		} else {
			r.A[i].Bulk("v"+kit.Itoa(i), "HMGET")
		}
	}
	g := kit.Do("hgetall", "h")
	vh.Assert(g.K == '*' && len(g.A) == 2*n-2, "HGETALL: wrong number of elements")
	for i := 0; i+1 < len(g.A); i += 2 {
		f := g.A[i].S
		g.A[i+1].Bulk("v"+f[1:], "HGETALL")
	}
	vh.Reach("end")
}

// Long: one HMSET of many fields, one of them twice, then changes of many at once.
func Long() {
	n := 18
	m := map[string]string{}
	var ks []string
	args := []string{[]string{"hmset", "hset"}[vh.Choice(2)], "h"}
	for i := 0; i < n; i++ {
		f, v := "f"+kit.Itoa(i), "v"+kit.Itoa(i)
		ks = append(ks, f)
		args = append(args, f, v)
		m[f] = v
	}
	again, v := ks[vh.Choice(n)], vh.Str(1)
	args = append(args, again, v)
	m[again] = v
	kit.Do(args...).Ok("HMSET of many fields")
	del := []string{"hdel", "h", "none"}
	gone := int64(0)
	for i := 0; i < n; i += 4 {
		del = append(del, ks[i])
		delete(m, ks[i])
		gone++
	}
	kit.Do(del...).Int(gone, "HDEL of many fields")
	kit.Do("hsetnx", "h", again, "late").Int(int64(vh.IteInt(m[again] == "", 1, 0)), "HSETNX")
	if m[again] == "" {
		m[again] = "late"
	}
	kit.Do("hlen", "h").Int(int64(len(m)), "HLEN")
	r := kit.Do(append([]string{"hmget", "h", "none"}, ks...)...)
	vh.Assert(r.K == '*' && len(r.A) == n+1, "HMGET: not one element per field")
	r.A[0].Nil("HMGET of an absent field")
	for i, f := range ks {
		if m[f] == "" {
			r.A[i+1].Nil("HMGET of a removed field")
		} else {
			r.A[i+1].Bulk(m[f], "HMGET")
		}
	}
	g := kit.Do("hgetall", "h")
	vh.Assert(g.K == '*' && len(g.A) == 2*len(m), "HGETALL: wrong number of elements")
	for i := 0; i+1 < len(g.A); i += 2 {
		g.A[i+1].Bulk(m[g.A[i].S], "HGETALL")
	}
	vh.Reach("end")
}

// LongFields: two long fields that differ in one byte or in length, each the other's value.
func LongFields() {
	a, b := kit.Long()
	kit.Do("hset", "h", a, b).Ok("HSET")
	kit.Do("hget", "h", b).Nil("HGET of an absent field")
	kit.Do("hsetnx", "h", b, a).Int(1, "HSETNX")
	kit.Do("hlen", "h").Int(2, "HLEN")
	kit.Do("hget", "h", a).Bulk(b, "HGET")
	r := kit.Do("hmget", "h", b, a)
	vh.Assert(r.K == '*' && len(r.A) == 2, "HMGET: not one element per field")
	r.A[0].Bulk(a, "HMGET")
	r.A[1].Bulk(b, "HMGET")
	kit.Do("hkeys", "h").Set([]string{a, b}, "HKEYS")
	kit.Do("hvals", "h").Set([]string{a, b}, "HVALS")
	kit.Do("hdel", "h", a).Int(1, "HDEL")
	kit.Do("hexists", "h", a).Int(0, "HEXISTS")
	kit.Do("hget", "h", b).Bulk(a, "HGET")
	vh.Reach("end")
}
