package main

import (
	"github.com/yusank/godis/zzverif/kit"
	"github.com/yusank/godis/zzverif/vh"
)

// build makes a list of n different values in one of several ways and returns them.
func build(n int) []string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, "v"+kit.Itoa(i))
	}
	switch vh.Choice(3) {
	case 0:
		if n > 0 {
			kit.Do(append([]string{"rpush", "k"}, l...)...)
		}
	case 1: // from the middle outwards
		m := n / 2
		for i := m; i < n; i++ {
			kit.Do("rpush", "k", l[i])
		}
		for i := m - 1; i >= 0; i-- {
			kit.Do("lpush", "k", l[i])
		}
	case 2: // with elements popped again
		kit.Do("rpush", "k", "x", "y")
		if n > 0 {
			kit.Do(append([]string{"rpush", "k"}, l...)...)
		}
		kit.Do("rpush", "k", "z")
		kit.Do("lpop", "k", "2")
		kit.Do("rpop", "k")
	}
	return l
}

func size() int {
	if vh.Thorough() {
		return []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 25}[vh.Choice(12)]
	}
	return []int{0, 1, 2, 3, 4, 5, 7, 11}[vh.Choice(8)]
}

// at returns the element at position i.
func at(l []string, i int64) (int, bool) {
	n := int64(len(l))
	for p := int64(0); p < n; p++ {
		if vh.Or(i == p, i == p-n) {
			return int(p), true
		}
	}
	return 0, false
}

// Index: LINDEX at any 64-bit position.
func Index() {
	l := build(size())
	i := vh.I64()
	r := kit.Do("lindex", "k", kit.I64(i))
	if p, ok := at(l, i); ok {
		vh.Reach("inside")
		r.Bulk(l[p], "LINDEX")
	} else {
		vh.Reach("outside")
		r.Nil("LINDEX outside the list")
	}
	kit.Do("lrange", "k", "0", "-1").List(l, "list after LINDEX")
}

// Range: LRANGE between any two 64-bit positions.
func Range() {
	l := build(size())
	a, b := vh.I64(), vh.I64()
	r := kit.Do("lrange", "k", kit.I64(a), kit.I64(b))
	n := int64(len(l))
	vh.Assert(r.IsNil() || r.K == '*', "LRANGE is not an array")
	lo, hi := a, b
	if lo < 0 {
		lo += n
	}
	if hi < 0 {
		hi += n
	}
	if lo < 0 {
		lo = 0
	}
	if hi >= n {
		hi = n - 1
	}
	// number of elements and each element, without enumerating the positions again
	cnt := int64(len(r.A))
	if vh.Or(lo > hi, lo >= n) {
		vh.Reach("nothing")
		vh.Assert(cnt == 0, "LRANGE of an empty range is not empty")
		return
	}
	vh.Reach("something")
	vh.Assert(cnt == hi-lo+1, "LRANGE has the wrong number of elements")
	for i := range r.A {
		for p := range l {
			vh.Assert(vh.Or(lo+int64(i) != int64(p), vh.StrEq(r.A[i].S, l[p])), "LRANGE has a wrong element")
		}
	}
}

// Set: LSET at any 64-bit position.
func Set() {
	l := build(size())
	i := vh.I64()
	v := vh.Str(vh.Choice(3))
	r := kit.Do("lset", "k", kit.I64(i), v)
	if p, ok := at(l, i); ok {
		vh.Reach("inside")
		vh.Assert(r.K == '+' && r.S == "OK", "LSET is not OK")
		l[p] = v
	} else {
		vh.Reach("outside")
		r.Err("LSET outside the list")
	}
	if len(l) == 0 {
		return
	}
	kit.CheckList("k", l, "list after LSET")
}

// NotANumber: positions that are not decimal integers are errors.
func NotANumber() {
	s := vh.Str(vh.Choice(3))
	digits := len(s) > 0
	for i := 0; i < len(s); i++ {
		ok := vh.And(s[i] >= '0', s[i] <= '9')
		if i == 0 && len(s) > 1 {
			ok = vh.Or(ok, vh.Or(s[i] == '-', s[i] == '+'))
		}
		digits = vh.And(digits, ok)
	}
	vh.Assume(!digits)
	l := []string{"a", "b", "c"}
	kit.Do("rpush", "k", "a", "b", "c")
	switch vh.Choice(4) {
	case 0:
		kit.Do("lindex", "k", s).Err("LINDEX with a position that is not a number")
	case 1:
		kit.Do("lrange", "k", s, "1").Err("LRANGE with a position that is not a number")
	case 2:
		kit.Do("lrange", "k", "0", s).Err("LRANGE with a position that is not a number")
	case 3:
		kit.Do("lset", "k", s, "v").Err("LSET with a position that is not a number")
	}
	kit.CheckList("k", l, "list after an error")
	vh.Reach("end")
}
