package main

import (
	"errors"
	"io"
	"time"

	"github.com/yusank/godis/config"
	"github.com/yusank/godis/zzverif/vh"
)

const byDefault = 5 * time.Second

// reader delivers the document in the given way: 0 at once, 1 byte by byte, 2 the end with the last
// bytes, 3 failing after the first n bytes.
type reader struct {
	doc string
	how int
	n   int
}

func (r *reader) Read(p []byte) (int, error) {
	if r.how == 3 && r.n == 0 {
		return 0, errors.New("broken")
	}
	if len(r.doc) == 0 {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	if r.how == 1 {
		p = p[:1]
	}
	if r.how == 3 && len(p) > r.n {
		p = p[:r.n]
	}
	n := copy(p, r.doc)
	r.doc = r.doc[n:]
	if r.how == 3 {
		r.n -= n
	}
	if r.how == 2 && len(r.doc) == 0 {
		return n, io.EOF
	}
	return n, nil
}

// number is any number of n digits and its value.
func number(n int) (s string, v uint64) {
	for i := 0; i < n; i++ {
		c := vh.Byte()
		vh.Assume(c >= '0')
		vh.Assume(c <= '9')
		s += string([]byte{c})
		v = v*10 + uint64(c) - '0'
	}
	return s, v
}

var units = []struct {
	s string
	d time.Duration
}{{"ns", time.Nanosecond}, {"us", time.Microsecond}, {"ms", time.Millisecond}, {"s", time.Second}, {"m", time.Minute}, {"h", time.Hour}}

// timeout is any positive duration of the form described in the bounds.
func timeout(digits int) (s string, d time.Duration) {
	k := vh.Choice(len(units))
	u := units[k]
	s, v := number(digits)
	d = time.Duration(v) * u.d
	switch vh.Choice(3) {
	case 1:
		if k == 0 {
			break
		}
		c, f := number(1)
		s += "." + c
		d += time.Duration(f) * (u.d / 10)
	case 2:
		if k == 0 {
			break
		}
		w := units[k-1]
		c, f := number(1)
		s += u.s + c
		d += time.Duration(f) * w.d
		vh.Assume(d > 0)
		return s + w.s, d
	}
	vh.Assume(d > 0)
	return s + u.s, d
}

func effective(want time.Duration, when string) {
	vh.ObsInt("timeout", int64(config.GetDefaultTimeout()))
	vh.Assert(config.GetDefaultTimeout() == want, "the effective default timeout is wrong "+when)
}

func load(doc string, how, n int) error {
	return config.InitConfig(&reader{doc, how, n})
}

// layouts of a document with one timeout.
var layouts = []string{
	"default_timeout: %\n",
	"default_timeout: %",
	"default_timeout: \"%\"\n",
	"default_timeout: '%'\npersistence: aof\n",
	"persistence: /var/lib/godis\ndefault_timeout: %\n",
	"# godis\n---\n\ndefault_timeout:   %   # how long to wait\n",
	"default_timeout: %\r\npersistence: \"rdb\"\r\n",
	"other: 12\ndefault_timeout: %\nmore: true\n",
}

func fill(layout, v string) (s string) {
	for i := 0; i < len(layout); i++ {
		if layout[i] == '%' {
			s += v
		} else {
			s += layout[i : i+1]
		}
	}
	return s
}

// Value loads one configuration: its timeout becomes effective.
func Value() {
	effective(byDefault, "before any configuration")
	l := layouts[vh.Choice(len(layouts))]
	s, d := timeout(1 + vh.Choice(3))
	vh.Reach("loaded")
	vh.Assert(load(fill(l, s), 0, 0) == nil, "a well-formed configuration was refused")
	effective(d, "after loading it")
	effective(d, "when asked again")
}

// malformed documents: none of them may become effective, not even in part.
var malformed = []string{
	"default_timeout: 9x\n",
	"default_timeout: 17\n",
	"default_timeout: soon\n",
	"default_timeout: true\n",
	"default_timeout: [1s, 2s]\n",
	"default_timeout: [1s\n",
	"default_timeout: \"17s\n",
	"default_timeout: 17s: 18s\n",
	"default_timeout: 17s\npersistence\n",
	"default_timeout: 17s\npersistence: [a, b]\n",
	"default_timeout: 17s\ndefault_timeout: 18s\n",
	"default_timeout: 17s\n\t\tpersistence: x\n",
	"just words\n",
	"default_timeout: @17s\n",
}

// doc loads one document of some kind and returns the timeout that is effective then.
func doc(now time.Duration, when string) time.Duration {
	switch vh.Choice(4) {
	case 0:
		s, d := timeout(1)
		vh.Assert(load(fill(layouts[vh.Choice(2)*3], s), 0, 0) == nil, "a well-formed configuration was refused")
		now = d
	case 1:
		vh.Assert(load("persistence: aof\n", 0, 0) == nil, "a well-formed configuration was refused")
		now = byDefault
	case 2:
		m := malformed[vh.Choice(len(malformed))]
		vh.Assert(load(m, 0, 0) != nil, "a malformed configuration was accepted")
	case 3:
		vh.Assert(load("persistence: aof\ndefault_timeout: 17s\n", 3, vh.Choice(4)*9) != nil, "an unreadable configuration was accepted")
	}
	effective(now, when)
	return now
}

// Reload loads several documents one after the other.
func Reload() {
	now := byDefault
	n := 2
	if vh.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		now = doc(now, "after a reload")
	}
	vh.Reach("reloaded")
	vh.Assert(load("default_timeout: 42ms\n", 0, 0) == nil, "a well-formed configuration was refused")
	effective(42*time.Millisecond, "after the last reload")
}

// Readers loads the same document from readers of all kinds.
func Readers() {
	vh.Assert(load("default_timeout: 3s\n", 0, 0) == nil, "a well-formed configuration was refused")
	l := fill(layouts[vh.Choice(len(layouts))], "250ms")
	how := vh.Choice(4)
	if how < 3 {
		vh.Assert(load(l, how, 0) == nil, "a well-formed configuration was refused")
		effective(250*time.Millisecond, "whatever the reader")
		return
	}
	vh.Reach("broken")
	vh.Assert(load(l, 3, vh.Choice(len(l))) != nil, "an unreadable configuration was accepted")
	effective(3*time.Second, "after an unreadable configuration")
}

// Malformed loads each malformed document first or after a valid one.
func Malformed() {
	now := byDefault
	if vh.Choice(2) == 1 {
		s, d := timeout(1)
		vh.Assert(load("default_timeout: "+s+"\n", 0, 0) == nil, "a well-formed configuration was refused")
		now = d
	}
	vh.Reach("malformed")
	m := malformed[vh.Choice(len(malformed))]
	vh.Assert(load(m, vh.Choice(3), 0) != nil, "a malformed configuration was accepted")
	effective(now, "after a malformed configuration")
}
