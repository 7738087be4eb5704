package main

import (
	"github.com/yusank/godis/zzverif/kit"
	"github.com/yusank/godis/zzverif/vh"
)

// tok is one element of a pattern: 0 a literal byte, '*', '?', '[' with the listed bytes, or a byte
// after a backslash.
type tok struct {
	kind byte
	set  string
}

func text(p []tok) (s string) {
	for _, t := range p {
		switch t.kind {
		case 0:
			s += t.set
		case '[':
			s += "[" + t.set + "]"
		case '\\':
			s += "\\" + t.set
		default:
			s += string(rune(t.kind))
		}
	}
	return s
}

// matches is the meaning of a pattern, without forking on the key's bytes.
func matches(p []tok, k string) bool {
	if len(p) == 0 {
		return len(k) == 0
	}
	if p[0].kind == '*' {
		ok := false
		for i := 0; i <= len(k); i++ {
			ok = vh.Or(ok, matches(p[1:], k[i:]))
		}
		return ok
	}
	if len(k) == 0 {
		return false
	}
	one := true
	if p[0].kind != '?' {
		one = false
		for i := 0; i < len(p[0].set); i++ {
			one = vh.Or(one, p[0].set[i] == k[0])
		}
	}
	return vh.And(one, matches(p[1:], k[1:]))
}

// pattern is any pattern of n tokens over the letters a, b and two-letter lists.
func pattern(n int) (p []tok) {
	for i := 0; i < n; i++ {
		switch vh.Choice(5) {
		case 0:
			p = append(p, tok{0, "a"})
		case 1:
			p = append(p, tok{0, "b"})
		case 2:
			p = append(p, tok{'*', ""})
		case 3:
			p = append(p, tok{'?', ""})
		case 4:
			p = append(p, tok{'[', "ac"})
		}
	}
	return p
}

// ask sends KEYS and compares the answer with the keys that match, which must be different.
func ask(p []tok, keys ...string) {
	vh.MapOrder(1)
	r := kit.Do("keys", text(p))
	vh.MapOrder(0)
	vh.Assert(r.K == '*', "KEYS did not answer with an array")
	n := 0
	for _, k := range keys {
		want := matches(p, k)
		got := false
		for _, e := range r.A {
			got = vh.Or(got, vh.StrEq(e.S, k))
		}
		vh.Assert(got == want, "KEYS and the pattern disagree about a key")
		if want {
			n++
		}
	}
	vh.Assert(len(r.A) == n, "KEYS: number of keys")
	vh.Reach("end")
}

// found tells whether the library for patterns is known to err here (see known_findings.txt, which
// the functions Finding* exercise): one star between literals overlapping in a shorter key, and "?"
// alone for the empty key.
func found(p []tok, k string) bool {
	if len(p) == 1 && p[0].kind == '?' && k == "" {
		return true
	}
	lits, stars, last := 0, 0, -1
	for i, t := range p {
		switch t.kind {
		case 0, '\\':
			lits++
		case '*':
			if stars > 0 && last != i-1 {
				return false
			}
			stars++
			last = i
		default:
			return false
		}
	}
	return stars > 0 && lit(p[0]) && lit(p[len(p)-1]) && len(k) < lits
}

func lit(t tok) bool { return t.kind == 0 || t.kind == '\\' }

// One: one key of arbitrary bytes, patterns over letters.
func one(max, keymax int) {
	p := pattern(vh.Choice(max + 1))
	k := vh.StrIn(vh.Choice(keymax+1), ' ', '~')
	if found(p, k) {
		return
	}
	kit.Do("set", k, "v")
	ask(p, k)
}

func One() {
	if vh.Thorough() {
		one(5, 5)
	} else {
		one(3, 4)
	}
}

// Four is One with longer patterns and shorter keys.
func Four() { one(4, 2) }

// Two: two different keys of any kinds in any buckets.
func Two() {
	p := pattern(vh.Choice(3))
	m := 1
	if vh.Thorough() {
		m += vh.Choice(2)
	}
	a, b := vh.StrIn(1, ' ', '~'), vh.StrIn(m, ' ', '~')
	vh.Assume(!vh.StrEq(a, b))
	if found(p, a) || found(p, b) {
		return
	}
	kit.Fixed(a, 1+vh.Choice(2)*4)
	kit.Do("set", b, "v")
	ask(p, a, b)
}

// Literal: patterns of arbitrary ordinary bytes.
func Literal() {
	var p []tok
	n := 1 + vh.Choice(3)
	for i := 0; i < n; i++ {
		c := vh.StrIn(1, ' ', '~')
		for _, x := range "*?[]{}\\" {
			vh.Assume(c[0] != byte(x))
		}
		p = append(p, tok{0, c})
	}
	if vh.Choice(2) == 1 {
		i := vh.Choice(n + 1)
		p = append(append(append([]tok(nil), p[:i]...), tok{'*', ""}), p[i:]...)
	}
	k := vh.StrIn(vh.Choice(4), ' ', '~')
	if found(p, k) {
		return
	}
	kit.Do("set", k, "v")
	ask(p, k)
}

// Lists: [...] of one to three arbitrary ordinary bytes among other tokens.
func Lists() {
	s := vh.StrIn(1+vh.Choice(3), '0', 'z')
	for i := 0; i < len(s); i++ {
		for _, x := range "[]\\?" {
			vh.Assume(s[i] != byte(x))
		}
	}
	p := []tok{{'[', s}}
	switch vh.Choice(5) {
	case 1:
		p = append(p, tok{'*', ""})
	case 2:
		p = append([]tok{{0, "a"}}, p...)
	case 3:
		p = append(p, tok{'?', ""})
	case 4:
		p = append([]tok{{'*', ""}}, p...)
	}
	k := vh.StrIn(vh.Choice(3), ' ', '~')
	kit.Do("set", k, "v")
	ask(p, k)
}

// Any: whatever the pattern, there is an answer and the server lives on.
func Any() {
	n := vh.Choice(4)
	p := ""
	for i := 0; i < n; i++ {
		p += kit.Pick("a", "*", "?", "[", "]", "{", "}", ",", "\\", "-", "!", "^", "\x00", "\xff")
	}
	kit.Do("set", "a", "v")
	kit.Do("set", "ab", "v")
	vh.MapOrder(1)
	r := kit.Do("keys", p)
	vh.MapOrder(0)
	vh.Assert(r.K == '*' || r.K == '-', "KEYS answered with neither an array nor an error")
	r = kit.Do("ping")
	vh.Assert(r.K == '+' && r.S == "PONG", "the server does not answer PING any more")
	vh.Reach("end")
}

// Now: KEYS sees the present: keys removed, emptied, replaced.
func Now() {
	k := vh.StrIn(1, 'a', 'z')
	kind := 1 + vh.Choice(5)
	kit.Fixed(k, kind)
	ask([]tok{{'*', ""}}, k)
	if vh.Choice(2) == 1 {
		kit.Fixed(k, 1+vh.Choice(5))
		ask([]tok{{'?', ""}}, k)
	}
	kit.Do("del", k)
	ask([]tok{{'*', ""}})
	kit.Do("set", k, "1")
	ask([]tok{{'?', ""}}, k)
	vh.Reach("end")
}

// FindingOverlap and FindingEmpty: what is known to fail.
func FindingOverlap() {
	kit.Do("set", "a", "v")
	ask([]tok{{0, "a"}, {'*', ""}, {0, "a"}}, "a")
}

func FindingEmpty() {
	kit.Do("set", "", "v")
	ask([]tok{{'?', ""}}, "")
}

// Escaped: bytes after a backslash stand for themselves, special ones too, beside other elements.
func Escaped() {
	var p []tok
	n := 1 + vh.Choice(3)
	esc := vh.Choice(n)
	for i := 0; i < n; i++ {
		if i == esc {
			p = append(p, tok{'\\', kit.Pick("*", "?", "[", "]", "{", "\\", "a", "x", "-", "!")})
			continue
		}
		p = append(p, pattern(1)...)
	}
	k := vh.StrIn(vh.Choice(4), ' ', '~')
	if found(p, k) {
		return
	}
	kit.Do("set", k, "v")
	ask(p, k)
}

// Listing: 40 keys of all kinds in all shards, one of them arbitrary, some deleted, several patterns.
func Listing() {
	n := 40
	var all []string
	for i := 0; i < n; i++ {
		k := "k" + kit.Itoa(i)
		if i == 17 {
			k = "x" + vh.StrIn(1, 'a', 'z')
		}
		kit.Fixed(k, 1+i%5)
		all = append(all, k)
	}
	for i := 3; i < n; i += 9 {
		kit.Do("del", all[i]).Int(1, "DEL")
		all[i] = ""
	}
	p := [][]tok{{{'*', ""}}, {{0, "k"}, {'*', ""}}, {{0, "k"}, {'?', ""}}, {{'*', ""}, {0, "7"}}, {{0, "k"}, {'[', "13"}, {'*', ""}}, {{'?', ""}, {'?', ""}, {'[', "05"}}, {{0, "x"}, {'?', ""}}}[vh.Choice(7)]
	var left []string
	for _, k := range all {
		if k != "" {
			left = append(left, k)
		}
	}
	ask(p, left...)
	vh.Reach("end")
}
