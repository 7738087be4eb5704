// Package kit holds what the harnesses share: a RESP parser, a way to run
// commands, and reference models.
package kit

import (
	"strconv"

	"github.com/yusank/godis/event"
	"github.com/yusank/godis/protocol"
	"github.com/yusank/godis/zzverif/vh"
)

// Rep is a parsed RESP value.
type Rep struct {
	K byte // '+', '-', ':', '$', '*', '_' (nil bulk), '~' (nil array), 0 (no reply at all)
	S string
	N int64
	A []Rep
}

func line(b string, pos int) (string, int, bool) {
	for i := pos; i+1 < len(b); i++ {
		if b[i] == '\r' {
			if b[i+1] != '\n' {
				return "", 0, false
			}
			return b[pos:i], i + 2, true
		}
		if b[i] == '\n' {
			return "", 0, false
		}
	}
	return "", 0, false
}

// Parse reads one RESP value at pos.
func Parse(b string, pos int) (r Rep, end int, ok bool) {
	if pos >= len(b) {
		return r, pos, false
	}
	r.K = b[pos]
	l, p, ok := line(b, pos+1)
	if !ok {
		return r, p, false
	}
	switch r.K {
	case '+', '-':
		r.S = l
		return r, p, true
	case ':':
		n, err := strconv.ParseInt(l, 10, 64)
		r.N = n
		return r, p, err == nil
	case '$':
		n, err := strconv.Atoi(l)
		if err != nil || n < -1 {
			return r, p, false
		}
		if n == -1 {
			r.K = '_'
			return r, p, true
		}
		if p+n+2 > len(b) || b[p+n] != '\r' || b[p+n+1] != '\n' {
			return r, p, false
		}
		r.S = b[p : p+n]
		return r, p + n + 2, true
	case '*':
		n, err := strconv.Atoi(l)
		if err != nil || n < -1 {
			return r, p, false
		}
		if n == -1 {
			r.K = '~'
			return r, p, true
		}
		for i := 0; i < n; i++ {
			var e Rep
			e, p, ok = Parse(b, p)
			if !ok {
				return r, p, false
			}
			r.A = append(r.A, e)
		}
		return r, p, true
	}
	return r, p, false
}

// ParseAll parses a reply that must be exactly one RESP value.
func ParseAll(b []byte) (Rep, bool) {
	r, end, ok := Parse(string(b), 0)
	return r, ok && end == len(b)
}

// Raw runs one command and returns the reply bytes.
func Raw(args ...string) []byte {
	return event.HandleRequest(&protocol.Receive{Elements: append([]string(nil), args...)})
}

// Do runs one command and parses its reply.
func Do(args ...string) Rep {
	b := Raw(args...)
	if len(b) == 0 {
		vh.Fail("no reply")
	}
	r, ok := ParseAll(b)
	if !ok {
		vh.Fail("reply is not exactly one RESP value")
	}
	observe(r)
	return r
}

// observe records what must be the same in the symbolic and the native run; the order of
// elements is left out because it may depend on map iteration.
func observe(r Rep) {
	switch r.K {
	case ':':
		vh.ObsInt("reply", r.N)
	case '$', '+', '-':
		vh.ObsStr("reply"+string(r.K), r.S)
	case '*':
		vh.ObsInt("array", int64(len(r.A)))
	default:
		vh.ObsStr("reply", string(r.K))
	}
}

// Itoa is decimal text of a small or symbolic integer.
func Itoa(n int) string { return strconv.Itoa(n) }

// Frame encodes a request as an array of bulk strings.
func Frame(args ...string) string {
	s := "*" + strconv.Itoa(len(args)) + "\r\n"
	for _, a := range args {
		s += "$" + strconv.Itoa(len(a)) + "\r\n" + a + "\r\n"
	}
	return s
}

// IsErr tells whether the reply is an error.
func (r Rep) IsErr() bool { return r.K == '-' }

// IsNil tells whether the reply is nil (bulk or array).
func (r Rep) IsNil() bool { return r.K == '_' || r.K == '~' }

// Ok asserts that the reply is not an error.
func (r Rep) Ok(msg string) Rep {
	vh.Assert(r.K != '-', msg+": refused")
	return r
}

// Err asserts that the reply is an error.
func (r Rep) Err(msg string) { vh.Assert(r.K == '-', msg+": not refused") }

// Int asserts that the reply is the integer n.
func (r Rep) Int(n int64, msg string) {
	vh.Assert(r.K == ':', msg+": reply is not an integer")
	vh.Assert(r.N == n, msg+": wrong number")
}

// Nil asserts that the reply is nil.
func (r Rep) Nil(msg string) { vh.Assert(r.IsNil(), msg+": reply is not nil") }

// Bulk asserts that the reply is exactly the bulk string s.
func (r Rep) Bulk(s, msg string) {
	vh.Assert(r.K == '$', msg+": reply is not a bulk string")
	vh.Assert(vh.StrEq(r.S, s), msg+": wrong bytes")
}

// List asserts that the reply is the array of bulk strings l (nil also stands for the empty array).
func (r Rep) List(l []string, msg string) {
	if len(l) == 0 && r.IsNil() {
		return
	}
	vh.Assert(r.K == '*', msg+": reply is not an array")
	vh.Assert(len(r.A) == len(l), msg+": wrong number of elements")
	for i := range l {
		r.A[i].Bulk(l[i], msg+": element "+strconv.Itoa(i))
	}
}

// Set asserts that the reply is an array of exactly the bulk strings of l (pairwise different) in any order.
func (r Rep) Set(l []string, msg string) {
	if len(l) == 0 && r.IsNil() {
		return
	}
	vh.Assert(r.K == '*', msg+": reply is not an array")
	vh.Assert(len(r.A) == len(l), msg+": wrong number of members")
	for _, x := range l {
		n := 0
		for _, e := range r.A {
			vh.Assert(e.K == '$', msg+": a member is not a bulk string")
			n += vh.IteInt(e.S == x, 1, 0)
		}
		vh.Assert(n == 1, msg+": a member is missing or repeated")
	}
}

// I64 is the decimal text of n.
func I64(n int64) string { return strconv.FormatInt(n, 10) }

// Popped asserts that a pop returned exactly the values want, in order.
func (r Rep) Popped(want []string, msg string) {
	if len(want) == 1 && r.K == '$' {
		r.Bulk(want[0], msg)
		return
	}
	r.List(want, msg)
}

// CheckList asserts that the list at key is exactly want, seen from the head, from the tail and by length.
func CheckList(key string, want []string, msg string) {
	Do("llen", key).Int(int64(len(want)), msg+": LLEN")
	Do("lrange", key, "0", "-1").List(want, msg+": LRANGE")
	for i := range want {
		Do("lindex", key, Itoa(-1-i)).Bulk(want[len(want)-1-i], msg+": LINDEX from the tail")
	}
}

// Pick is any one of the given different strings of one length, as symbolic bytes.
func Pick(from ...string) string {
	s := vh.Str(len(from[0]))
	ok := false
	for _, f := range from {
		ok = vh.Or(ok, vh.StrEq(s, f))
	}
	vh.Assume(ok)
	return s
}

// Find returns which of l the string is (-1: none).
func Find(l []string, s string) int {
	for i := range l {
		if l[i] == s {
			return i
		}
	}
	return -1
}

// Long are two different texts of great length: the same up to their first, middle or last byte, or
// one the beginning of the other.
func Long() (a, b string) {
	ls := []int{15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1024, 4096}
	n := ls[vh.Choice(len(ls))]
	p := make([]byte, n)
	for i := range p {
		p[i] = byte('a' + i%23)
	}
	q := append([]byte(nil), p...)
	switch vh.Choice(4) {
	case 0:
		p[0], q[0] = 'P', 'Q'
	case 1:
		p[n/2], q[n/2] = 0, '\n'
	case 2:
		p[n-1], q[n-1] = 0, 255
	case 3:
		q = append(q, 'z')
	}
	if vh.Choice(2) == 0 {
		return string(p), string(q)
	}
	return string(q), string(p)
}
