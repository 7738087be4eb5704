package main

import (
	"strconv"

	"github.com/yusank/godis/zzverif/kit"
	"github.com/yusank/godis/zzverif/vh"
)

func fmt64(n int64) string { return strconv.FormatInt(n, 10) }

// add returns a+b and whether it fits.
func add(a, b int64) (int64, bool) {
	s := a + b
	over := vh.Or(vh.And(vh.And(a >= 0, b >= 0), s < 0), vh.And(vh.And(a < 0, b < 0), s >= 0))
	return s, !over
}

func sub(a, b int64) (int64, bool) {
	s := a - b
	over := vh.Or(vh.And(vh.And(a >= 0, b < 0), s < 0), vh.And(vh.And(a < 0, b >= 0), s >= 0))
	return s, !over
}

// stored asserts that the key's text is the decimal text of n.
func stored(n int64, msg string) {
	r := kit.Do("get", "k")
	vh.Assert(r.K == '$', msg+": no value stored")
	vh.Assert(vh.StrEq(r.S, fmt64(n)), msg+": wrong text stored")
}

func step(cur *int64, has *bool) {
	var r kit.Rep
	var want int64
	fits := true
	switch vh.Choice(4) {
	case 0:
		r = kit.Do("incr", "k")
		want, fits = add(*cur, 1)
	case 1:
		r = kit.Do("decr", "k")
		want, fits = sub(*cur, 1)
	case 2:
		n := vh.I64()
		r = kit.Do("incrby", "k", fmt64(n))
		want, fits = add(*cur, n)
	case 3:
		n := vh.I64()
		r = kit.Do("decrby", "k", fmt64(n))
		want, fits = sub(*cur, n)
	}
	if fits {
		r.Int(want, "counter")
		*cur, *has = want, true
	} else {
		vh.Reach("overflow")
		r.Err("counter overflow")
	}
	if *has {
		stored(*cur, "counter")
	} else {
		kit.Do("get", "k").Nil("counter refused on a missing key")
	}
	vh.Reach("step")
}

// History: any counter operations with any 64-bit amounts, from any stored number or a missing key.
func History() {
	var cur int64
	has := vh.Bool()
	if has {
		cur = vh.I64()
		kit.Do("set", "k", fmt64(cur))
	}
	n := 2
	if vh.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		step(&cur, &has)
	}
}

// decimal classifies a text: canonical decimal integers must be accepted, texts that are not
// [+-]?[0-9]+ must be refused, the rest (leading zeros, plus sign) may be either.
func decimal(s string) (must, may bool, v int64) {
	i := 0
	neg := false
	if len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		i = 1
	}
	if i == len(s) {
		return false, false, 0
	}
	must = len(s) == i+1 || s[i] != '0'
	if i == 1 && (s[0] == '+' || s[1] == '0') {
		must = false
	}
	for ; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false, false, 0
		}
		v = v*10 + int64(s[i]-'0')
	}
	if neg {
		v = -v
	}
	return must, true, v
}

// Texts: stored text of arbitrary bytes.
func Texts() {
	max := 3
	if vh.Thorough() {
		max = 4
	}
	s := vh.Str(vh.Choice(max + 1))
	kit.Do("set", "k", s)
	var r kit.Rep
	var d int64
	switch vh.Choice(4) {
	case 0:
		r, d = kit.Do("incr", "k"), 1
	case 1:
		r, d = kit.Do("decr", "k"), -1
	case 2:
		r, d = kit.Do("incrby", "k", "7"), 7
	case 3:
		r, d = kit.Do("decrby", "k", "7"), -7
	}
	check(r, s, d, true)
}

func check(r kit.Rep, s string, d int64, isStored bool) {
	must, may, v := decimal(s)
	if r.IsErr() {
		vh.Reach("refused")
		vh.Assert(!must, "a decimal integer was refused")
		if isStored {
			kit.Do("get", "k").Bulk(s, "stored text after a refusal")
		} else {
			kit.Do("get", "k").Bulk("100", "stored text after a refusal")
		}
		return
	}
	vh.Reach("accepted")
	vh.Assert(may, "a text that is not a decimal integer was accepted")
	r.Int(v+d, "counter")
	stored(v+d, "counter")
}

// Amounts: amount text of arbitrary bytes.
func Amounts() {
	max := 3
	if vh.Thorough() {
		max = 4
	}
	s := vh.Str(vh.Choice(max + 1))
	kit.Do("set", "k", "100")
	if vh.Choice(2) == 0 {
		check(kit.Do("incrby", "k", s), s, 100, false)
		return
	}
	r := kit.Do("decrby", "k", s)
	must, may, v := decimal(s)
	if r.IsErr() {
		vh.Assert(!must, "a decimal integer was refused")
		kit.Do("get", "k").Bulk("100", "stored text after a refusal")
		return
	}
	vh.Assert(may, "a text that is not a decimal integer was accepted")
	r.Int(100-v, "counter")
	stored(100-v, "counter")
}

// Digits: long digit texts around the limits of 64 bits, stored or as the amount.
func Digits() {
	pre := []string{"9223372036854775", "922337203685477580", "1844674407370955161", "9999999999999999999", "00000000000000000000"}[vh.Choice(5)]
	tail := vh.StrIn(vh.Choice(3)+1, '0', '9')
	neg := vh.Choice(2) == 1
	s := pre + tail
	// exact value by comparison with the limit's text
	digits := s
	for len(digits) > 1 && digits[0] == '0' {
		digits = digits[1:]
	}
	lim := "9223372036854775807"
	if neg {
		lim = "9223372036854775808"
	}
	fits := len(digits) < 19 || len(digits) == 19 && !vh.StrLess(lim, digits)
	if neg {
		s = "-" + s
	}
	var r kit.Rep
	amount := vh.Choice(2) == 1
	if amount {
		kit.Do("set", "k", "0")
		r = kit.Do("incrby", "k", s)
	} else {
		kit.Do("set", "k", s)
		r = kit.Do("incrby", "k", "0")
	}
	if !fits {
		vh.Reach("too long")
		r.Err("a number beyond 64 bits")
		if amount {
			kit.Do("get", "k").Bulk("0", "stored text after a refusal")
		} else {
			kit.Do("get", "k").Bulk(s, "stored text after a refusal")
		}
		return
	}
	vh.Reach("fits")
	if pre[0] == '0' && r.IsErr() {
		return // leading zeros
	}
	var v uint64
	for i := 0; i < len(digits); i++ {
		v = v*10 + uint64(digits[i]-'0')
	}
	if neg {
		v = -v
	}
	r.Int(int64(v), "counter")
	stored(int64(v), "counter")
}

// Kinds: counters on keys of other kinds are refused.
func Kinds() {
	kit.Do("rpush", "k", "5")
	switch vh.Choice(4) {
	case 0:
		kit.Do("incr", "k").Err("INCR of a list")
	case 1:
		kit.Do("decr", "k").Err("DECR of a list")
	case 2:
		kit.Do("incrby", "k", fmt64(vh.I64())).Err("INCRBY of a list")
	case 3:
		kit.Do("decrby", "k", fmt64(vh.I64())).Err("DECRBY of a list")
	}
	kit.Do("lrange", "k", "0", "-1").List([]string{"5"}, "list after a refused counter operation")
	vh.Reach("end")
}
