package main

import (
	"github.com/yusank/godis/zzverif/kit"
	"github.com/yusank/godis/zzverif/vh"
)

type ref struct {
	has [3]bool
	val [3]string
}

var names = []string{"a", "b", "c"}

func val(max int) string { return vh.Str(vh.Choice(max + 1)) }

func (m *ref) set(k int, v string) { m.has[k], m.val[k] = true, v }

func (m *ref) get(k int) {
	r := kit.Do("get", names[k])
	if !m.has[k] {
		r.Nil("GET of an absent key")
		return
	}
	r.Bulk(m.val[k], "GET")
	vh.ObsStr("get", r.S)
}

func (m *ref) mget(ks ...int) {
	args := []string{"mget"}
	for _, k := range ks {
		args = append(args, names[k])
	}
	r := kit.Do(args...)
	vh.Assert(r.K == '*' && len(r.A) == len(ks), "MGET: not one element per key")
	for i, k := range ks {
		if m.has[k] {
			r.A[i].Bulk(m.val[k], "MGET")
		} else {
			r.A[i].Nil("MGET of an absent key")
		}
	}
}

func (m *ref) all() {
	for k := range names {
		m.get(k)
	}
	m.mget(2, 0, 1, 0)
}

func (m *ref) step(max int) {
	k := vh.Choice(2)
	switch vh.Choice(4) {
	case 0:
		v := val(max)
		r := kit.Do("set", names[k], v)
		vh.Assert(r.K == '+' && r.S == "OK", "SET: not OK")
		m.set(k, v)
	case 1:
		v := val(max)
		r := kit.Do("append", names[k], v)
		if !m.has[k] {
			m.set(k, v)
		} else {
			m.val[k] += v
		}
		r.Int(int64(len(m.val[k])), "APPEND")
	case 2:
		k2 := vh.Choice(3)
		v, v2 := val(1), val(1)
		r := kit.Do("mset", names[k], v, names[k2], v2)
		vh.Assert(r.K == '+' && r.S == "OK", "MSET: not OK")
		m.set(k, v)
		m.set(k2, v2)
	case 3:
		kit.Do("del", names[k])
		m.has[k] = false
	}
}

// History: any history of writes, read back after every step.
func History() {
	m := &ref{}
	n := 2
	if vh.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		m.step(2)
		m.all()
		vh.Reach("step")
	}
}

// Names: two arbitrary different key names never share a value.
func Names() {
	k1, k2 := vh.Str(vh.Choice(3)), vh.Str(vh.Choice(3))
	vh.Assume(!vh.StrEq(k1, k2))
	v1, v2, v3 := vh.Str(1), vh.Str(2), vh.Str(1)
	kit.Do("set", k1, v1)
	kit.Do("get", k2).Nil("GET of an absent key")
	kit.Do("set", k2, v2)
	kit.Do("append", k1, v3).Int(2, "APPEND")
	kit.Do("get", k1).Bulk(v1+v3, "GET of the first key")
	kit.Do("get", k2).Bulk(v2, "GET of the second key")
	vh.Reach("end")
}

// OddMSet: MSET with an odd number of arguments is refused and stores nothing.
func OddMSet() {
	n := []int{1, 3, 5}[vh.Choice(3)]
	pre := vh.Bool()
	if pre {
		kit.Do("set", "a", "old")
	}
	args := []string{"mset"}
	for i := 0; i < n; i++ {
		if i%2 == 0 {
			args = append(args, names[vh.Choice(3)])
		} else {
			args = append(args, vh.Str(1))
		}
	}
	kit.Do(args...).Err("MSET with an odd number of arguments")
	if pre {
		kit.Do("get", "a").Bulk("old", "GET after a refused MSET")
	} else {
		kit.Do("get", "a").Nil("GET after a refused MSET")
	}
	kit.Do("get", "b").Nil("GET after a refused MSET")
	kit.Do("get", "c").Nil("GET after a refused MSET")
	kit.Do("mset").Err("MSET without arguments")
	vh.Reach("end")
}

// Wide: MGET and MSET with many keys stay positional; long values keep every byte.
func Wide() {
	n := []int{8, 33, 70}[vh.Choice(3)]
	var args, keys, vals []string
	hole := vh.Int(0, n-1)
	hole = vh.Concrete(hole)
	for i := 0; i < n; i++ {
		k := "key" + kit.Itoa(i)
		keys = append(keys, k)
		v := "v" + kit.Itoa(i)
		if i%16 == 3 {
			v = vh.Str(2)
		}
		vals = append(vals, v)
		if i != hole {
			args = append(args, k, v)
		}
	}
	kit.Do(append([]string{"mset"}, args...)...).Ok("MSET")
	r := kit.Do(append([]string{"mget"}, keys...)...)
	vh.Assert(r.K == '*' && len(r.A) == n, "MGET: not one element per key")
	for i := range keys {
		if i == hole {
			r.A[i].Nil("MGET of an absent key")
		} else {
			r.A[i].Bulk(vals[i], "MGET")
		}
	}
	vh.Reach("end")
}

// Long: a long value comes back byte for byte, also after APPEND.
func Long() {
	n := []int{63, 64, 512, 4096}[vh.Choice(4)]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%26)
	}
	b[0], b[n/2], b[n-1] = vh.Byte(), vh.Byte(), vh.Byte()
	v := string(b)
	kit.Do("set", "a", v)
	kit.Do("get", "a").Bulk(v, "GET")
	w := vh.Str(1)
	kit.Do("append", "a", w).Int(int64(n+1), "APPEND")
	kit.Do("append", "a", v).Int(int64(2*n+1), "APPEND")
	kit.Do("get", "a").Bulk(v+w+v, "GET after APPEND")
	vh.Reach("end")
}

// LongValues: long values under two keys, replaced, appended to and read back.
func LongValues() {
	v, w := kit.Long()
	kit.Do("set", "a", v).Ok("SET")
	kit.Do("mset", "b", w, "c", v).Ok("MSET")
	kit.Do("get", "a").Bulk(v, "GET")
	r := kit.Do("mget", "c", "b", "a")
	r.A[0].Bulk(v, "MGET")
	r.A[1].Bulk(w, "MGET")
	kit.Do("append", "a", w).Int(int64(len(v)+len(w)), "APPEND")
	kit.Do("get", "a").Bulk(v+w, "GET after APPEND")
	kit.Do("append", "a", v).Int(int64(len(v)*2+len(w)), "APPEND")
	kit.Do("get", "a").Bulk(v+w+v, "GET after APPEND")
	kit.Do("get", "c").Bulk(v, "GET of another key")
	kit.Do("append", "d", w).Int(int64(len(w)), "APPEND to an absent key")
	kit.Do("set", "a", w).Ok("SET")
	kit.Do("get", "a").Bulk(w, "GET after SET")
	kit.Do("get", "d").Bulk(w, "GET")
	vh.Reach("end")
}
