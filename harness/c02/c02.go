package main

import (
	"bytes"

	"github.com/yusank/godis/protocol"
	"github.com/yusank/godis/zzverif/kit"
	"github.com/yusank/godis/zzverif/vh"
)

// occurs tells whether e is somewhere in data, as one formula.
func occurs(data, e string) bool {
	if len(e) > len(data) {
		return false
	}
	found := len(e) == 0
	for o := 0; o+len(e) <= len(data); o++ {
		found = vh.Or(found, vh.StrEq(data[o:o+len(e)], e))
	}
	return found
}

// verdicts of the reference decoder
const (
	refuse = iota // malformed or cut short: an error
	accept        // a request as the protocol has it
	either        // no request a client sends, but not nonsense: an error or exactly these arguments
	tooDeep       // not looked at
)

// reference decodes one request at pos. RESP: a line is ended by CR LF; "+-:" carry their argument in the
// line, "$n" is followed by n bytes and CR LF, "*n" by n values.
func reference(data string, pos, depth int) (elems []string, end, verdict int) {
	if depth > 100 {
		return nil, 0, tooDeep
	}
	lf := pos
	for lf < len(data) && data[lf] != '\n' {
		lf++
	}
	if lf == len(data) || lf < pos+2 || data[lf-1] != '\r' {
		return nil, 0, refuse
	}
	line := data[pos : lf-1]
	pos = lf + 1
	switch line[0] {
	case '+', '-', ':':
		verdict = accept
		if line[0] == ':' || vh.Or(len(line) == 1, depth > 0) {
			verdict = either
		}
		for i := 1; i < len(line); i++ {
			if line[i] == '\r' {
				verdict = either
			}
		}
		return []string{line[1:]}, pos, verdict
	case '$', '*':
		verdict = accept
		if len(line) == 1 {
			return nil, 0, refuse
		}
		for i := 1; i < len(line); i++ {
			if line[i] < '0' || line[i] > '9' {
				return nil, 0, refuse
			}
		}
		digits := line[1:]
		zeros := true
		for i := 0; i+3 < len(digits); i++ {
			zeros = vh.And(zeros, digits[i] == '0')
		}
		if !zeros {
			return nil, 0, longer(data)
		}
		if len(digits) > 3 {
			digits = digits[len(digits)-3:]
		}
		n := 0
		for i := range digits {
			n = n*10 + int(digits[i]-'0')
		}
		if n > len(data) {
			return nil, 0, refuse
		}
		n = vh.Concrete(n)
		if line[1] == '0' && len(line) > 2 {
			verdict = either
		}
		if line[0] == '$' {
			if pos+n+2 > len(data) || data[pos+n] != '\r' || data[pos+n+1] != '\n' {
				return nil, 0, refuse
			}
			return []string{data[pos : pos+n]}, pos + n + 2, verdict
		}
		if depth > 0 {
			verdict = either // requests are flat
		}
		for k := 0; k < n; k++ {
			e, p, v := reference(data, pos, depth+1)
			if v == refuse || v == tooDeep {
				return nil, 0, v
			}
			if v == either {
				verdict = either
			}
			elems, pos = append(elems, e...), p
		}
		return elems, pos, verdict
	}
	if vh.StrEq(line, "PING") {
		return []string{"PING"}, pos, either
	}
	return nil, 0, refuse
}

// longer is the verdict on a length of four digits or more.
func longer(data string) int {
	if len(data) < 1000 {
		return refuse
	}
	return tooDeep
}

// decodeAll decodes the stream until an error, as a server does.
func decodeAll(data string) {
	buf := bytes.NewBuffer([]byte(data))
	pos := 0
	for k := 0; k < 8; k++ {
		want, end, verdict := reference(data, pos, 0)
		rec, err := protocol.DecodeFromReader(buf)
		if err != nil {
			vh.Assert(verdict != accept, "a well-formed request is refused")
			vh.ObsStr("end", "error")
			vh.Reach("refused")
			return
		}
		vh.Assert(rec != nil, "neither a request nor an error")
		for _, e := range rec.Elements {
			vh.Assert(len(e) <= len(data), "an argument is longer than everything the peer sent")
			vh.Assert(occurs(data, e), "an argument contains bytes the peer did not send")
			vh.ObsStr("arg", e)
		}
		if verdict == tooDeep {
			return
		}
		vh.Assert(verdict != refuse, "a malformed request is accepted")
		vh.Assert(len(rec.Elements) == len(want), "not the arguments the peer sent")
		for i, e := range rec.Elements {
			vh.Assert(vh.StrEq(e, want[i]), "not the arguments the peer sent")
		}
		pos = end
		vh.Assert(buf.Len() == len(data)-pos, "not exactly the request's bytes are consumed")
		vh.Reach("accepted")
	}
}

// Bytes: arbitrary bytes.
func Bytes() {
	n := 9
	if vh.Thorough() {
		n = 12
	}
	decodeAll(vh.Str(vh.Choice(n)))
}

// Bulk: one bulk string with an arbitrary length field.
func Bulk() {
	n := 4
	if vh.Thorough() {
		n = 6
	}
	decodeAll("$" + vh.Str(1+vh.Choice(n)) + "\r\n" + vh.Str(vh.Choice(4)) + "\r\n")
}

// BulkDigits: a length field of decimal digits, up to lengths that overflow.
func BulkDigits() {
	l := digits([]int{1, 2, 9, 10, 18, 19, 20, 21}[vh.Choice(8)])
	decodeAll(pick("$", "*1\r\n$") + l + "\r\n" + vh.Str(vh.Choice(3)) + "\r\n")
}

func digits(n int) string { return vh.StrIn(n, '0', '9') }

func pick(s ...string) string { return s[vh.Choice(len(s))] }

// ArrayDigits: an array length field of decimal digits.
func ArrayDigits() {
	l := digits([]int{1, 2, 7, 10, 19, 20, 21}[vh.Choice(7)])
	decodeAll("*" + l + "\r\n" + pick("", "$1\r\nA\r\n", "*1\r\n$1\r\nB\r\n", "+ok\r\n", "\n", "$-1\r\n"))
}

// Array: an array header with an arbitrary length field and element header.
func Array() {
	n := 3
	if vh.Thorough() {
		n = 5
	}
	decodeAll("*" + vh.Str(1+vh.Choice(n)) + "\r\n$1\r\nA\r\n$1\r\nB\r\n")
}

// Element: an array whose element header is arbitrary.
func Element() {
	n := 5
	if vh.Thorough() {
		n = 7
	}
	decodeAll("*2\r\n$1\r\nA\r\n" + vh.Str(vh.Choice(n)) + pick("", "\r\n", "\r\nABC\r\n"))
}

// Nested: arrays nested to a great depth.
func Nested() {
	d := []int{1, 2, 3, 60}[vh.Choice(4)]
	s := ""
	for i := 0; i < d; i++ {
		s += "*1\r\n"
	}
	decodeAll(s + "$" + vh.Str(1) + "\r\nA\r\n")
}

// Deep: far deeper nesting than any client uses must not exhaust the stack.
func Deep() {
	n := 40000
	if vh.Native() {
		n = 16000000
	}
	s := make([]byte, 0, 4*n)
	for i := 0; i < n; i++ {
		s = append(s, "*1\r\n"...)
	}
	decodeAll(string(s))
}

// Truncated: a valid request cut short at any point is an error, whatever its bytes.
func Truncated() {
	n := 1 + vh.Choice(2)
	var q []string
	for i := 0; i < n; i++ {
		q = append(q, vh.Str(vh.Choice(4)))
	}
	f := kit.Frame(q...)
	cut := vh.Choice(len(f))
	rec, err := protocol.DecodeFromReader(bytes.NewBuffer([]byte(f[:cut])))
	vh.Assert(err != nil, "a request that was cut short is accepted")
	vh.Assert(rec == nil || err != nil, "a request is returned together with an error")
	vh.ObsStr("end", "error")
	vh.Reach("cut")
}

// Values: an array of arbitrary values in well-formed lines, then another request.
func Values() {
	n := 1 + vh.Choice(2)
	s := "*" + kit.Itoa(n) + "\r\n"
	for i := 0; i < n; i++ {
		switch v := vh.Str(vh.Choice(4)); vh.Choice(4) {
		case 0:
			s += "$" + kit.Itoa(len(v)) + "\r\n" + v + "\r\n"
		case 1:
			s += "+" + v + "\r\n"
		case 2:
			s += ":" + v + "\r\n"
		case 3:
			s += "-" + v + "\r\n"
		}
	}
	decodeAll(s + "$1\r\nX\r\n")
}

// Unended: a value of the length given, but two arbitrary bytes where its end should be.
func Unended() {
	v := vh.Str(vh.Choice(3))
	s := "$" + kit.Itoa(len(v)) + "\r\n" + v + vh.Str(2)
	decodeAll(pick("", "*1\r\n", "*2\r\n") + s + pick("", "\r\n", "$1\r\nX\r\n"))
}
