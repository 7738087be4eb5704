// Package model holds small Go models of library functions, executed symbolically
// in place of the originals.
package model

import (
	"errors"
	"io"
	"strconv"
	"sync"
)

// RuntimeError is the value of runtime panics.
type RuntimeError struct{ Msg string }

func (e RuntimeError) Error() string { return "runtime error: " + e.Msg }
func (e RuntimeError) RuntimeError() {}

func kindOf(v interface{}) int            { return 0 }
func rawInt(v interface{}) int64          { return 0 }
func rawStr(v interface{}) string         { return "" }
func rawBool(v interface{}) bool          { return false }
func rawFloat(v interface{}) float64      { return 0 }
func rawBytes(v interface{}) []byte       { return nil }
func rawStrs(v interface{}) []string      { return nil }
func rawAnys(v interface{}) []interface{} { return nil }
func typeName(v interface{}) string       { return "" }
func sliceLen(v interface{}) int          { return 0 }
func sliceSwap(v interface{}, i, j int)   {}
func poolNew(p *int) func() interface{}   { return nil }
func side(p *int) *state                  { return nil }

func str(v interface{}, verb byte) string {
	switch x := v.(type) {
	case error:
		if verb == 'v' || verb == 's' || verb == 'w' || verb == 'q' {
			if x == nil {
				return "<nil>"
			}
			return x.Error()
		}
	case interface{ String() string }:
		if verb == 'v' || verb == 's' {
			return x.String()
		}
	}
	switch kindOf(v) {
	case 1:
		if verb == 'c' {
			return string(rune(rawInt(v)))
		}
		return strconv.FormatInt(rawInt(v), 10)
	case 2:
		return strconv.FormatUint(uint64(rawInt(v)), 10)
	case 3:
		if verb == 'f' {
			return strconv.FormatFloat(rawFloat(v), 'f', 6, 64)
		}
		return strconv.FormatFloat(rawFloat(v), 'g', -1, 64)
	case 4:
		if verb == 'q' {
			return strconv.Quote(rawStr(v))
		}
		return rawStr(v)
	case 5:
		if rawBool(v) {
			return "true"
		}
		return "false"
	case 6:
		if verb == 's' {
			return string(rawBytes(v))
		}
		s := "["
		for i, b := range rawBytes(v) {
			if i > 0 {
				s += " "
			}
			s += strconv.Itoa(int(b))
		}
		return s + "]"
	case 7:
		s := "["
		for i, b := range rawStrs(v) {
			if i > 0 {
				s += " "
			}
			s += b
		}
		return s + "]"
	case 8:
		return "<nil>"
	case 9:
		s := "["
		for i, b := range rawAnys(v) {
			if i > 0 {
				s += " "
			}
			s += str(b, verb)
		}
		return s + "]"
	}
	return "{" + typeName(v) + "}"
}

func Sprintf(format string, args ...interface{}) string {
	var out []byte
	n := 0
	for i := 0; i < len(format); i++ {
		c := format[i]
		if c != '%' {
			out = append(out, c)
			continue
		}
		i++
		prec, width, left, zero, plus := -1, 0, false, false, false
		for ; i < len(format) && (format[i] == '+' || format[i] == '-' || format[i] == '#' || format[i] == ' ' || format[i] == '0'); i++ {
			left = left || format[i] == '-'
			zero = zero || format[i] == '0'
			plus = plus || format[i] == '+'
		}
		for ; i < len(format) && format[i] >= '0' && format[i] <= '9'; i++ {
			width = width*10 + int(format[i]-'0')
		}
		if i < len(format) && format[i] == '*' && n < len(args) && kindOf(args[n]) == 1 {
			i++
			width = int(rawInt(args[n]))
			n++
			if width < 0 {
				left, width = true, -width
			}
		}
		if i < len(format) && format[i] == '.' {
			i++
			prec = 0
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				prec = prec*10 + int(format[i]-'0')
				i++
			}
		}
		if i >= len(format) {
			out = append(out, "%!(NOVERB)"...)
			break
		}
		verb := format[i]
		if verb == '%' {
			out = append(out, '%')
			continue
		}
		if n >= len(args) {
			out = append(out, "%!"...)
			out = append(out, verb)
			out = append(out, "(MISSING)"...)
			continue
		}
		a := args[n]
		n++
		text := ""
		k := kindOf(a)
		switch {
		case k == 3 && (prec >= 0 || verb != 'v' && verb != 'f'):
			f := verb
			if f == 'v' {
				f = 'g'
			}
			if prec < 0 && (f == 'e' || f == 'E') {
				prec = 6
			}
			text = strconv.FormatFloat(rawFloat(a), f, prec, 64)
		case verb == 'T':
			text = typeName(a)
		case (verb == 'x' || verb == 'X') && (k == 1 || k == 2):
			text = strconv.FormatInt(rawInt(a), 16)
			if verb == 'X' {
				text = upper(text)
			}
		case (verb == 'x' || verb == 'X') && (k == 4 || k == 6):
			b := ""
			if k == 4 {
				b = rawStr(a)
			} else {
				b = string(rawBytes(a))
			}
			digits := "0123456789abcdef"
			if verb == 'X' {
				digits = "0123456789ABCDEF"
			}
			h := make([]byte, 0, 2*len(b))
			for j := 0; j < len(b); j++ {
				h = append(h, digits[b[j]>>4], digits[b[j]&15])
			}
			text = string(h)
		case (verb == 'b' || verb == 'o') && k == 1:
			base := 2
			if verb == 'o' {
				base = 8
			}
			text = strconv.FormatInt(rawInt(a), base)
		default:
			text = str(a, verb)
		}
		if prec >= 0 && (verb == 's' || verb == 'v') && k == 4 && len(text) > prec {
			text = text[:prec]
		}
		if plus && (k == 1 && rawInt(a) >= 0 || k == 3 && rawFloat(a) >= 0) {
			text = "+" + text
		}
		pad := width - len(text)
		if pad > 0 && left {
			text += spaces(pad)
		} else if pad > 0 && zero && (k == 1 || k == 2 || k == 3) {
			sign := ""
			if len(text) > 0 && (text[0] == '-' || text[0] == '+') {
				sign, text = text[:1], text[1:]
			}
			z := make([]byte, pad)
			for j := range z {
				z[j] = '0'
			}
			text = sign + string(z) + text
		} else if pad > 0 {
			text = spaces(pad) + text
		}
		out = append(out, text...)
	}
	return string(out)
}

func spaces(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = ' '
	}
	return string(b)
}

func upper(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' {
			b[i] = c - 32
		}
	}
	return string(b)
}

func Sprint(args ...interface{}) string {
	s := ""
	for i, a := range args {
		if i > 0 && kindOf(a) != 4 && kindOf(args[i-1]) != 4 {
			s += " "
		}
		s += str(a, 'v')
	}
	return s
}

func Sprintln(args ...interface{}) string {
	s := ""
	for i, a := range args {
		if i > 0 {
			s += " "
		}
		s += str(a, 'v')
	}
	return s + "\n"
}

func Appendf(b []byte, format string, args ...interface{}) []byte {
	return append(b, Sprintf(format, args...)...)
}

type wrapError struct {
	msg string
	err error
}

func (e *wrapError) Error() string { return e.msg }
func (e *wrapError) Unwrap() error { return e.err }

func Errorf(format string, args ...interface{}) error {
	msg := Sprintf(format, args...)
	for i := 0; i+1 < len(format); i++ {
		if format[i] == '%' && format[i+1] == 'w' {
			for _, a := range args {
				if e, ok := a.(error); ok {
					return &wrapError{msg, e}
				}
			}
		}
	}
	return errors.New(msg)
}

func Fprintf(w io.Writer, format string, args ...interface{}) (int, error) {
	return w.Write([]byte(Sprintf(format, args...)))
}
func Fprint(w io.Writer, args ...interface{}) (int, error) { return w.Write([]byte(Sprint(args...))) }
func Fprintln(w io.Writer, args ...interface{}) (int, error) {
	return w.Write([]byte(Sprintln(args...)))
}

func asTarget(err error, target interface{}) bool { return false }

func ErrorsAs(err error, target interface{}) bool {
	if target == nil {
		panic("errors: target cannot be nil")
	}
	for err != nil {
		if asTarget(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(interface{}) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if e != nil && ErrorsAs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

func MathMax(x, y float64) float64 {
	switch {
	case x != x:
		return x
	case y != y:
		return y
	case x > y:
		return x
	case y > x:
		return y
	case x == 0 && 1/x < 0:
		return y
	}
	return x
}

func MathMin(x, y float64) float64 {
	switch {
	case x != x:
		return x
	case y != y:
		return y
	case x < y:
		return x
	case y < x:
		return y
	case x == 0 && 1/y < 0:
		return y
	}
	return x
}

// ValueCas is (*atomic.Value).CompareAndSwap without interleavings inside.
func ValueCas(p *interface{}, old, v interface{}) bool {
	if *p != old {
		return false
	}
	*p = v
	return true
}

func ErrorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if ErrorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return target == nil
}

// PoolSubmit models the goroutine pool of ants: the task runs in some goroutine,
// panics in it are contained, submission never blocks.
func PoolSubmit(p *int, f func()) error {
	go func() {
		defer func() { recover() }()
		f()
	}()
	return nil
}

func SortSlice(x interface{}, less func(i, j int) bool) {
	n := sliceLen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			sliceSwap(x, j, j-1)
		}
	}
}

// state stands for the inside of a sync.Pool or sync.Map; its operations are synchronised with each other.
type state struct {
	mu sync.Mutex
	m  map[interface{}]interface{}
	l  []interface{}
}

func locked(p *int) *state {
	s := side(p)
	s.mu.Lock()
	if s.m == nil {
		s.m = map[interface{}]interface{}{}
	}
	return s
}

// SyncPoolGet returns what was put last, which is what most often happens.
func SyncPoolGet(p *int) interface{} {
	s := locked(p)
	if n := len(s.l); n > 0 {
		x := s.l[n-1]
		s.l = s.l[:n-1]
		s.mu.Unlock()
		return x
	}
	s.mu.Unlock()
	f := poolNew(p)
	if f == nil {
		return nil
	}
	return f()
}
func SyncPoolPut(p *int, x interface{}) {
	if x == nil {
		return
	}
	s := locked(p)
	s.l = append(s.l, x)
	s.mu.Unlock()
}

func MapLoad(p *int, k interface{}) (interface{}, bool) {
	s := locked(p)
	v, ok := s.m[k]
	s.mu.Unlock()
	return v, ok
}
func MapStore(p *int, k, v interface{}) {
	s := locked(p)
	s.m[k] = v
	s.mu.Unlock()
}
func MapDelete(p *int, k interface{}) {
	s := locked(p)
	delete(s.m, k)
	s.mu.Unlock()
}
func MapLoadOrStore(p *int, k, v interface{}) (interface{}, bool) {
	s := locked(p)
	o, ok := s.m[k]
	if !ok {
		o = v
		s.m[k] = v
	}
	s.mu.Unlock()
	return o, ok
}
func MapLoadAndDelete(p *int, k interface{}) (interface{}, bool) {
	s := locked(p)
	v, ok := s.m[k]
	delete(s.m, k)
	s.mu.Unlock()
	return v, ok
}
func MapRange(p *int, f func(k, v interface{}) bool) {
	s := locked(p)
	var l []interface{}
	for k := range s.m {
		l = append(l, k)
	}
	s.mu.Unlock()
	for _, k := range l {
		if v, ok := MapLoad(p, k); ok && !f(k, v) {
			return
		}
	}
}

// RType stands for a reflected type in library initialisers.
type RType struct{}

func (RType) Elem() interface{} { return nil }
func (RType) Comparable() bool  { return true }
func (RType) String() string    { return "T" }

func parseFloatBody(s string, bits int) (float64, error) { return 0, nil }
func tagFloat(f float64, s string)                       {}
func floatTagN(f float64) int                            { return 0 }
func floatTag(f float64, i int) string                   { return "" }
func floatText(f float64) string                         { return "" }

// ParseFloatText remembers which text a finite float came from.
func ParseFloatText(s string, bits int) (float64, error) {
	f, err := parseFloatBody(s, bits)
	if err == nil {
		for i := 0; i < len(s); i++ {
			if s[i] == 'n' || s[i] == 'N' {
				return f, nil
			}
		}
		tagFloat(f, s)
	}
	return f, err
}

// FormatTagged formats a float that was parsed from known texts.
func FormatTagged(f float64) string {
	n := floatTagN(f)
	for i := 0; i < n; i++ {
		if s := floatTag(f, i); canonFloat(s) {
			return s
		}
	}
	return floatText(f)
}

// canonFloat tells whether a text that parses as a finite float is what formatting it ('g', -1) gives.
func canonFloat(s string) bool {
	if len(s) > 0 && s[0] == '-' {
		s = s[1:]
	}
	n := len(s)
	i := 0
	for i < n && s[i] >= '0' && s[i] <= '9' {
		i++
	}
	ints := i
	if ints == 0 || ints > 1 && s[0] == '0' {
		return false
	}
	frac := 0
	if i < n && s[i] == '.' {
		i++
		for i < n && s[i] >= '0' && s[i] <= '9' {
			i++
			frac++
		}
		if frac == 0 || s[i-1] == '0' {
			return false
		}
	}
	if ints+frac > 15 {
		return false
	}
	if i == n {
		if ints > 6 {
			return false
		}
		if s[0] != '0' || frac == 0 {
			return true
		}
		for z := 0; z < 4; z++ {
			if s[2+z] != '0' {
				return true
			}
		}
		return false
	}
	if s[i] != 'e' || ints != 1 || s[0] == '0' {
		return false
	}
	i++
	if i >= n || s[i] != '+' && s[i] != '-' {
		return false
	}
	neg := s[i] == '-'
	i++
	e := 0
	if n-i < 2 || n-i > 3 || n-i == 3 && s[i] == '0' {
		return false
	}
	for ; i < n; i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
		e = e*10 + int(s[i]-'0')
	}
	if neg {
		return e >= 5 && e < 300
	}
	return e >= 6
}
