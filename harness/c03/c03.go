package main

import (
	"errors"

	"github.com/yusank/godis/protocol"
	"github.com/yusank/godis/zzverif/kit"
	"github.com/yusank/godis/zzverif/vh"
)

// want describes the value that was put into a reply.
type want struct {
	k byte
	s string
	n int64
}

func text(n int) string {
	s := vh.Str(n)
	for i := 0; i < n; i++ {
		vh.Assume(vh.And(s[i] != '\r', s[i] != '\n'))
	}
	return s
}

func long() string {
	ls := []int{9, 10, 11, 99, 100, 101, 999, 1000, 4096, 9999, 10000, 65535, 65536, 100000}
	b := make([]byte, ls[vh.Choice(len(ls))])
	for i := range b {
		b[i] = byte('a' + i%7)
	}
	b[0], b[len(b)-1], b[len(b)/2] = vh.Byte(), vh.Byte(), vh.Byte()
	return string(b)
}

func item(kinds int, max int) (*protocol.ResponseItem, want) {
	switch vh.Choice(kinds) {
	case 0:
		s := vh.Str(vh.Choice(max))
		return &protocol.ResponseItem{Value: s, Type: protocol.TypeBulkStrings}, want{k: '$', s: s}
	case 1:
		return &protocol.ResponseItem{Value: nil, Type: protocol.TypeBulkStrings}, want{k: '_'}
	case 2:
		n := vh.I64()
		return &protocol.ResponseItem{Value: n, Type: protocol.TypeIntegers}, want{k: ':', n: n}
	case 3:
		s := text(vh.Choice(max))
		return &protocol.ResponseItem{Value: s, Type: protocol.TypeSimpleStrings}, want{k: '+', s: s}
	default:
		s := text(vh.Choice(max))
		return &protocol.ResponseItem{Value: errors.New(s), Type: protocol.TypeErrors}, want{k: '-', s: s}
	}
}

func same(r kit.Rep, w want) {
	vh.Assert(r.K == w.k, "the kind of the value changed")
	switch w.k {
	case '$', '+', '-':
		vh.Assert(len(r.S) == len(w.s), "the text has another length")
		vh.Assert(vh.StrEq(r.S, w.s), "the text changed")
		vh.ObsStr("text", r.S)
	case ':':
		vh.Assert(r.N == w.n, "the integer changed")
		vh.ObsInt("int", r.N)
	}
}

func parse(r *protocol.Response) kit.Rep {
	v, ok := kit.ParseAll(r.Encode())
	vh.Assert(ok, "the encoding is not exactly one RESP value")
	vh.Reach("encoded")
	return v
}

// Single: every kind of single value, through the constructors the commands use.
func Single() {
	switch vh.Choice(8) {
	case 0:
		s := vh.Str(vh.Choice(6))
		same(parse(protocol.NewResponseWithBulkString(s)), want{k: '$', s: s})
	case 1:
		same(parse(protocol.NewResponseWithNilBulk()), want{k: '_'})
	case 2:
		n := vh.I64()
		same(parse(protocol.NewResponseWithInteger(n)), want{k: ':', n: n})
	case 3:
		s := text(vh.Choice(5))
		same(parse(protocol.NewResponseWithSimpleString(s)), want{k: '+', s: s})
	case 4:
		s := text(vh.Choice(5))
		same(parse(protocol.NewResponseWithError(errors.New(s))), want{k: '-', s: s})
	case 5:
		v := parse(protocol.NewResponseWithEmptyArray())
		vh.Assert(v.K == '*' && len(v.A) == 0, "the empty array is not an empty array")
	case 6:
		s := long()
		same(parse(protocol.NewResponseWithBulkString(s)), want{k: '$', s: s})
	default:
		it, w := item(5, 4)
		same(parse(&protocol.Response{Items: []*protocol.ResponseItem{it}}), w)
	}
}

// Array: arrays of 1..3 values of any kind.
func Array() {
	n := 1 + vh.Choice(3)
	r := protocol.NewResponse(true)
	var ws []want
	for i := 0; i < n; i++ {
		it, w := item(5, 3)
		r.Items = append(r.Items, it)
		ws = append(ws, w)
	}
	check(parse(r), ws)
}

func check(v kit.Rep, ws []want) {
	vh.Assert(v.K == '*', "an array is not encoded as an array")
	vh.Assert(len(v.A) == len(ws), "the array has another number of elements")
	for i, w := range ws {
		same(v.A[i], w)
	}
}

// Bulks: arrays built from strings and from values with nil elements, including large ones.
func Bulks() {
	var n int
	switch vh.Choice(2) {
	case 0:
		n = vh.Choice(5)
	default:
		ls := []int{9, 10, 11, 99, 100, 101, 1000, 4096, 10000}
		n = ls[vh.Choice(len(ls))]
	}
	ss := make([]string, n)
	is := make([]interface{}, n)
	ws := make([]want, n)
	nilAt := vh.Choice(3)
	for i := range ss {
		if n < 6 || i == 0 || i == n-1 {
			ss[i] = vh.Str(vh.Choice(2))
		} else {
			ss[i] = kit.Itoa(i)
		}
		ws[i] = want{k: '$', s: ss[i]}
		is[i] = ss[i]
	}
	var r *protocol.Response
	if vh.Choice(2) == 0 {
		r = protocol.NewResponse(true).AppendBulkStrings(ss...)
	} else {
		if nilAt > 0 && n > 0 {
			k := (nilAt - 1) * (n - 1)
			is[k], ws[k] = nil, want{k: '_'}
		}
		r = protocol.NewResponse(true).AppendBulkInterfaces(is...)
	}
	check(parse(r), ws)
}
