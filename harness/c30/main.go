package main

import (
	"bytes"

	"github.com/yusank/godis/protocol"
	"github.com/yusank/godis/zzverif/kit"
	"github.com/yusank/godis/zzverif/vh"
)

// record decodes a stream of requests; each must carry exactly its own bytes.
func record(data string) {
	buf := bytes.NewBuffer([]byte(data))
	pos := 0
	for {
		rec, err := protocol.DecodeFromReader(buf)
		if err != nil {
			vh.Reach("end")
			return
		}
		end := len(data) - buf.Len()
		vh.Assert(len(rec.OrgStr) == end-pos, "the recorded text is not as long as the request")
		vh.Assert(vh.StrEq(rec.OrgStr, data[pos:end]), "the recorded text is not the request's bytes")
		vh.ObsStr("org", rec.OrgStr)
		if pos == end {
			vh.Fail("a request of no bytes")
		}
		pos = end
		vh.Reach("recorded")
	}
}

// Requests: two requests as clients send them, of arbitrary bytes.
func Requests() {
	var data string
	for k := 0; k < 2; k++ {
		n := vh.Choice(3)
		q := []string{}
		for i := 0; i < n; i++ {
			q = append(q, vh.Str(vh.Choice(4)))
		}
		data += kit.Frame(q...)
	}
	record(data)
}

// Bytes: arbitrary bytes.
func Bytes() {
	n := 9
	if vh.Thorough() {
		n = 11
	}
	record(vh.Str(vh.Choice(n)))
}

func value(depth int) string {
	k := 6
	if depth == 0 {
		k = 5
	}
	switch v := vh.Choice(k); v {
	case 0:
		s := vh.Str(vh.Choice(3))
		return "$" + kit.Itoa(len(s)) + "\r\n" + s + "\r\n"
	case 1, 2, 3:
		return []string{"+ok", "-", ":1\r"}[v-1] + "\r\n"
	case 4:
		return "PING\r\n"
	default:
		s := ""
		n := vh.Choice(3)
		for i := 0; i < n; i++ {
			s += value(depth - 1)
		}
		return "*" + kit.Itoa(n) + "\r\n" + s
	}
}

// Values: a value of any kind, arrays nested twice, then a request.
func Values() {
	record(value(2) + kit.Frame("GET", vh.Str(1)))
}

// Long: large and many arguments.
func Long() {
	a, b := kit.Long()
	q := []string{"MSET", a, b}
	n := []int{0, 100, 1000}[vh.Choice(3)]
	for i := 0; i < n; i++ {
		q = append(q, kit.Itoa(i))
	}
	record(kit.Frame(q...) + kit.Frame(b) + kit.Frame("GET", a))
}
