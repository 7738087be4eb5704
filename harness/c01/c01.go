package main

import (
	"io"

	"github.com/yusank/godis/protocol"
	"github.com/yusank/godis/zzverif/kit"
	"github.com/yusank/godis/zzverif/vh"
)

// splitReader hands out its data in arbitrary pieces, as a connection may.
type splitReader struct {
	data string
	pos  int
	left int // how many more reads may be split
	odd  int // 1: one read in between gives no bytes; 2: the last bytes come together with the end of the stream
}

func (r *splitReader) ReadBytes(delim byte) ([]byte, error) {
	for i := r.pos; i < len(r.data); i++ {
		if r.data[i] == delim {
			b := []byte(r.data[r.pos : i+1])
			r.pos = i + 1
			return b, nil
		}
	}
	b := []byte(r.data[r.pos:])
	r.pos = len(r.data)
	return b, io.EOF
}

func (r *splitReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.pos >= len(r.data) {
		return 0, io.EOF
	}
	n := len(r.data) - r.pos
	if n > len(p) {
		n = len(p)
	}
	if r.left > 0 && n > 1 {
		r.left--
		n = 1 + vh.Choice(n)
	}
	if r.odd == 1 && vh.Choice(2) == 1 {
		r.odd = 0
		return 0, nil
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.odd == 2 && r.pos == len(r.data) {
		return n, io.EOF
	}
	return n, nil
}

func check(reqs [][]string, splits int) { checkOdd(reqs, splits, 0) }

func checkOdd(reqs [][]string, splits, odd int) {
	var data string
	for _, q := range reqs {
		data += kit.Frame(q...)
	}
	r := &splitReader{data: data, left: splits, odd: odd}
	used := 0
	for _, q := range reqs {
		rec, err := protocol.DecodeFromReader(r)
		used += len(kit.Frame(q...))
		vh.Assert(err == nil && rec != nil, "a well-formed request is refused")
		vh.Assert(len(rec.Elements) == len(q), "number of arguments differs")
		for i := range q {
			vh.Assert(vh.StrEq(rec.Elements[i], q[i]), "argument bytes differ")
			vh.ObsStr("arg", rec.Elements[i])
		}
		vh.Assert(r.pos == used, "request bytes left over or too many consumed")
	}
	vh.Reach("decoded")
}

// TwoRequests: any two requests, each of 0..2 arguments of 0..3 arbitrary bytes, one split read.
func TwoRequests() {
	var reqs [][]string
	for k := 0; k < 2; k++ {
		n := vh.Choice(3)
		q := []string{}
		for i := 0; i < n; i++ {
			q = append(q, vh.Str(vh.Choice(4)))
		}
		reqs = append(reqs, q)
	}
	check(reqs, 0)
}

func Split() {
	n := 1 + vh.Choice(2)
	q := []string{}
	for i := 0; i < n; i++ {
		q = append(q, vh.Str(vh.Choice(4)))
	}
	check([][]string{q, {"X"}}, 2)
}

// Odd: a reader that at some point gives no bytes, or its last ones together with the end of the stream.
func Odd() {
	n := 1 + vh.Choice(2)
	q := []string{}
	for i := 0; i < n; i++ {
		q = append(q, vh.Str(vh.Choice(3)))
	}
	checkOdd([][]string{{"X"}, q}, 1, 1+vh.Choice(2))
}

// Long: arguments around the sizes where the length field or a buffer changes.
func Long() {
	ls := []int{9, 10, 11, 99, 100, 101, 511, 512, 513, 4095, 4096, 4097, 16384, 65535, 65536, 131073, 1048576}
	n := ls[vh.Choice(len(ls))]
	at := vh.Int(0, 3)
	pad := make([]byte, n)
	for i := range pad {
		pad[i] = byte('a' + i%23)
	}
	k := []int{0, 1, n / 2, n - 2}[vh.Concrete(at)]
	pad[k], pad[k+1] = vh.Byte(), vh.Byte()
	check([][]string{{"SET", string(pad), vh.Str(1)}, {"X"}}, 1)
}

// Many: many arguments.
func Many() {
	ns := []int{9, 10, 11, 99, 100, 101, 1000, 1025, 4097}
	n := ns[vh.Choice(len(ns))]
	q := []string{}
	for i := 0; i < n; i++ {
		if n < 2000 && (i == 0 || i == n-1) {
			q = append(q, vh.Str(vh.Choice(3)))
		} else {
			q = append(q, kit.Itoa(i))
		}
	}
	check([][]string{q, {"X"}}, 0)
}
