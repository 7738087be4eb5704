package main

import (
	"math"
	"strconv"

	"github.com/yusank/godis/zzverif/kit"
	"github.com/yusank/godis/zzverif/vh"
)

// start leaves field f absent (with or without the key) or holding any integer.
func start() (cur int64, has bool) {
	switch vh.Choice(4) {
	case 0:
	case 1:
		kit.Do("hset", "h", "g", "other")
	case 2:
		cur, has = vh.I64(), true
		kit.Do("hset", "h", "f", kit.I64(cur)).Ok("HSET")
	case 3:
		cur, has = vh.I64(), true
		kit.Do("hincrby", "h", "f", kit.I64(cur)).Int(cur, "HINCRBY of an absent field")
	}
	return cur, has
}

func number(n int64, msg string) {
	r := kit.Do("hget", "h", "f")
	vh.Assert(r.K == '$', msg+": nothing stored")
	vh.Assert(vh.StrEq(r.S, kit.I64(n)), msg+": wrong text stored")
}

// Ints: any integers added in a row.
func Ints() {
	cur, has := start()
	n := 3
	if vh.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		d := vh.I64()
		r := kit.Do("hincrby", "h", "f", kit.I64(d))
		sum := cur + d
		over := vh.Or(vh.And(vh.And(cur >= 0, d >= 0), sum < 0), vh.And(vh.And(cur < 0, d < 0), sum >= 0))
		if over {
			vh.Reach("overflow")
			r.Err("HINCRBY overflow")
		} else {
			vh.Reach("added")
			r.Int(sum, "HINCRBY")
			cur, has = sum, true
		}
		if has {
			number(cur, "HINCRBY")
		}
	}
}

// Others: neighbours of the field stay, the field is counted.
func Others() {
	g := kit.I64(vh.I64())
	kit.Do("hset", "h", "g", g, "F", "text")
	d := vh.I64()
	kit.Do("hincrby", "h", "f", kit.I64(d)).Int(d, "HINCRBY of an absent field")
	kit.Do("hincrby", "i", "f", kit.I64(d)).Int(d, "HINCRBY of an absent key")
	kit.Do("hget", "h", "g").Bulk(g, "HGET of another field")
	kit.Do("hget", "h", "F").Bulk("text", "HGET of another field")
	kit.Do("hlen", "h").Int(3, "HLEN")
	kit.Do("hlen", "i").Int(1, "HLEN of the new key")
	kit.Do("hget", "i", "f").Bulk(kit.I64(d), "HGET of the new key")
	kit.Do("hexists", "h", "f").Int(1, "HEXISTS")
	vh.Reach("end")
}

func integerText(s string) (must, may bool) {
	i := 0
	if len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		i = 1
	}
	if i == len(s) {
		return false, false
	}
	must = len(s) == i+1 || s[i] != '0'
	if i == 1 && (s[0] == '+' || s[1] == '0') {
		must = false
	}
	for ; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false, false
		}
	}
	return must, true
}

// Text: a field or an amount of arbitrary bytes.
func Text() {
	s := vh.Str(vh.Choice(4))
	field := vh.Choice(2) == 0
	var r kit.Rep
	d := vh.Int(-3, 300)
	if field {
		kit.Do("hset", "h", "f", s).Ok("HSET")
		r = kit.Do("hincrby", "h", "f", kit.Itoa(d))
	} else {
		kit.Do("hset", "h", "f", kit.Itoa(d))
		r = kit.Do("hincrby", "h", "f", s)
	}
	must, may := integerText(s)
	if r.IsErr() {
		vh.Reach("refused")
		vh.Assert(!must, "an integer was refused")
		if field {
			kit.Do("hget", "h", "f").Bulk(s, "field after a refusal")
		} else {
			number(int64(d), "field after a refusal")
		}
		return
	}
	vh.Reach("accepted")
	vh.Assert(may, "a text that is not an integer was accepted")
	n, _ := strconv.Atoi(s)
	r.Int(int64(n+d), "HINCRBY")
	number(int64(n+d), "HINCRBY")
}

func finite(f float64) bool {
	return vh.And(f == f, vh.And(f <= math.MaxFloat64, f >= -math.MaxFloat64))
}

func ftext(f float64) string { return strconv.FormatFloat(f, 'g', -1, 64) }

func is(r kit.Rep, want float64, msg string) {
	vh.Assert(r.K == '$', msg+": reply is not a bulk string")
	got, err := strconv.ParseFloat(r.S, 64)
	vh.Assert(err == nil, msg+": reply is not a number")
	vh.Assert(vh.Or(got == want, vh.And(got != got, want != want)), msg+": wrong number")
}

// Floats: any finite floats added in a row to an absent field.
func Floats() {
	if vh.Choice(2) == 1 {
		kit.Do("hset", "h", "g", "other")
	}
	cur := 0.0
	n := 2
	if vh.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		d := vh.F64()
		vh.Assume(vh.And(d <= 1e150, d >= -1e150))
		r := kit.Do("hincrbyfloat", "h", "f", ftext(d))
		sum := cur + d
		if i == 0 {
			sum = d
		}
		is(r, sum, "HINCRBYFLOAT")
		is(kit.Do("hget", "h", "f"), sum, "HGET after HINCRBYFLOAT")
		cur = sum
		vh.Reach("added")
	}
}

// FloatTexts: fields and amounts written in the usual ways.
func FloatTexts() {
	texts := []string{"1.5", "-0.25", "3.0", "1e3", ".5", "1.", "1e-3", "123456.75", "12345678.5", "-2.50", "1E2", "1e+21"}
	vals := []float64{1.5, -0.25, 3, 1000, .5, 1, 1e-3, 123456.75, 12345678.5, -2.5, 100, 1e21}
	i, j := vh.Choice(len(texts)), vh.Choice(len(texts))
	kit.Do("hset", "h", "f", texts[i], "g", "other")
	is(kit.Do("hincrbyfloat", "h", "f", texts[j]), vals[i]+vals[j], "HINCRBYFLOAT")
	is(kit.Do("hget", "h", "f"), vals[i]+vals[j], "HGET after HINCRBYFLOAT")
	if i == 0 || j == 0 {
		d := vh.F64()
		vh.Assume(vh.And(d <= 1e150, d >= -1e150))
		want := vals[i] + vals[j] + d
		is(kit.Do("hincrbyfloat", "h", "f", ftext(d)), want, "second HINCRBYFLOAT")
		is(kit.Do("hget", "h", "f"), want, "HGET after HINCRBYFLOAT")
	}
	kit.Do("hget", "h", "g").Bulk("other", "HGET of another field")
	vh.Reach("end")
}

// NotFloat: fields or amounts that are not numbers.
func NotFloat() {
	s := []string{"", "abc", "1.5x", " 1.5", "1,5", "--1", "1e", "e5", ".", "0x", "1.2.3"}[vh.Choice(11)]
	if vh.Choice(2) == 0 {
		kit.Do("hset", "h", "f", s)
		d := vh.F64()
		vh.Assume(finite(d))
		kit.Do("hincrbyfloat", "h", "f", ftext(d)).Err("HINCRBYFLOAT of a field that is not a number")
		kit.Do("hincrby", "h", "f", kit.I64(vh.I64())).Err("HINCRBY of a field that is not a number")
		kit.Do("hget", "h", "f").Bulk(s, "field after a refusal")
	} else {
		kit.Do("hset", "h", "f", "1.5")
		kit.Do("hincrbyfloat", "h", "f", s).Err("HINCRBYFLOAT by something that is not a number")
		kit.Do("hincrby", "h", "f", "1").Err("HINCRBY of a float")
		kit.Do("hget", "h", "f").Bulk("1.5", "field after a refusal")
		kit.Do("hincrbyfloat", "x", "f", s).Err("HINCRBYFLOAT by something that is not a number")
		kit.Do("exists", "x").Int(0, "key after a refusal")
	}
	vh.Reach("end")
}

// Reads: every command that shows a field shows the number.
func Reads() {
	float := vh.Choice(2) == 1
	var i int64
	var f float64
	if vh.Choice(2) == 1 {
		kit.Do("hset", "h", "f", "0")
		if float {
			kit.Do("hdel", "h", "f")
		}
	}
	if float {
		f = vh.F64()
		vh.Assume(finite(f))
		is(kit.Do("hincrbyfloat", "h", "f", ftext(f)), f, "HINCRBYFLOAT")
	} else {
		i = vh.I64()
		kit.Do("hincrby", "h", "f", kit.I64(i)).Int(i, "HINCRBY")
	}
	var r kit.Rep
	switch vh.Choice(4) {
	case 0:
		r = kit.Do("hget", "h", "f")
	case 1:
		r = kit.Do("hmget", "h", "x", "f")
		vh.Assert(r.K == '*' && len(r.A) == 2, "HMGET of two fields")
		vh.Assert(r.A[0].IsNil(), "HMGET of an absent field")
		r = r.A[1]
	case 2:
		r = kit.Do("hvals", "h")
		vh.Assert(r.K == '*' && len(r.A) == 1, "HVALS of one field")
		r = r.A[0]
	case 3:
		r = kit.Do("hgetall", "h")
		vh.Assert(r.K == '*' && len(r.A) == 2, "HGETALL of one field")
		r.A[0].Bulk("f", "HGETALL")
		r = r.A[1]
	}
	if float {
		is(r, f, "reading a float field")
		vh.Reach("float")
	} else {
		r.Bulk(kit.I64(i), "reading an integer field")
		vh.Reach("integer")
	}
}
