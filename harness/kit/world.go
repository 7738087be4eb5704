package kit

import (
	"github.com/yusank/godis/zzverif/vh"
)

// Kinds of value a key can hold.
const (
	None = iota
	String
	ListKind
	SetKind
	Hash
	Sorted
	NKinds
)

// Fields are the members and fields that Make uses and Look asks for.
var Fields = []string{"x", "y", "1", "k", "j"}

// Make stores a value of the kind under key; its data is partly arbitrary.
func Make(key string, kind int) {
	switch kind {
	case String:
		if vh.Bool() {
			Do("set", key, I64(vh.I64()))
		} else {
			Do("set", key, "x")
		}
	case ListKind:
		Do("rpush", key, "x", Pick("x", "1"), "y")
	case SetKind:
		Do("sadd", key, "x", Pick("x", "y", "1"))
	case Hash:
		if vh.Bool() {
			Do("hset", key, "x", I64(vh.I64()), "y", "y")
		} else {
			Do("hset", key, "x", "1.5")
		}
	case Sorted:
		Do("zadd", key, "1", "x", FText(Score(true)), "y")
	}
}

// Fixed is Make with fixed data.
func Fixed(key string, kind int) {
	switch kind {
	case String:
		Do("set", key, "1")
	case ListKind:
		Do("rpush", key, "x", "1", "y")
	case SetKind:
		Do("sadd", key, "x", "1")
	case Hash:
		Do("hset", key, "x", "1")
	case Sorted:
		Do("zadd", key, "1", "x")
	}
}

// Look is everything that can be seen of a key.
func Look(key string) (l []Rep) {
	t := Do("type", key)
	l = append(l, t, Do("exists", key))
	if t.K == '+' && t.S == "none" {
		return l
	}
	if g := Do("get", key); g.K != '-' {
		return append(l, g)
	}
	if n := Do("llen", key); n.K != '-' {
		return append(l, n, Do("lrange", key, "0", "-1"))
	}
	if n := Do("scard", key); n.K != '-' {
		l = append(l, n)
		for _, f := range Fields {
			l = append(l, Do("sismember", key, f))
		}
		return l
	}
	if n := Do("hlen", key); n.K != '-' {
		l = append(l, n)
		for _, f := range Fields {
			l = append(l, Do("hget", key, f))
		}
		return l
	}
	return append(l, Do("zcard", key), Do("zrange", key, "0", "-1", "withscores"), Do("zrevrange", key, "0", "-1"))
}

// SameRep tells without forking on contents whether two replies are equal.
func SameRep(a, b Rep) bool {
	if a.K != b.K || len(a.A) != len(b.A) {
		return false
	}
	ok := vh.And(vh.StrEq(a.S, b.S), a.N == b.N)
	for i := range a.A {
		ok = vh.And(ok, SameRep(a.A[i], b.A[i]))
	}
	return ok
}

// Same tells whether two looks at a key saw the same.
func Same(a, b []Rep) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vh.And(ok, SameRep(a[i], b[i]))
	}
	return ok
}

// Cmd describes a command for the generator.
type Cmd struct {
	Name  string
	Kind  int      // kind of key it is for
	Keys  int      // how many of the first arguments are keys of that kind
	Write bool     // can overwrite any kind at its first key
	Words []string // special words it knows
}

// Cmds are the commands that address keys.
var Cmds = []Cmd{
	{"get", String, 1, false, nil}, {"set", String, 1, true, nil}, {"mset", String, 1, true, nil}, {"mget", String, 2, false, nil},
	{"incr", String, 1, false, nil}, {"incrby", String, 1, false, nil}, {"decr", String, 1, false, nil}, {"decrby", String, 1, false, nil},
	{"append", String, 1, false, nil},
	{"lpush", ListKind, 1, false, nil}, {"lpop", ListKind, 1, false, nil}, {"rpush", ListKind, 1, false, nil}, {"rpop", ListKind, 1, false, nil},
	{"llen", ListKind, 1, false, nil}, {"lrange", ListKind, 1, false, nil}, {"lrem", ListKind, 1, false, nil}, {"lindex", ListKind, 1, false, nil},
	{"lset", ListKind, 1, false, nil}, {"linsert", ListKind, 1, false, []string{"before", "AFTER"}},
	{"sadd", SetKind, 1, false, nil}, {"scard", SetKind, 1, false, nil}, {"sdiff", SetKind, 3, false, nil}, {"sdiffstore", SetKind, 3, true, nil},
	{"sinter", SetKind, 3, false, nil}, {"sinterstore", SetKind, 3, true, nil}, {"sunion", SetKind, 3, false, nil}, {"sunionstore", SetKind, 3, true, nil},
	{"sismember", SetKind, 1, false, nil}, {"smembers", SetKind, 1, false, nil}, {"smove", SetKind, 2, false, nil}, {"srem", SetKind, 1, false, nil},
	{"spop", SetKind, 1, false, nil},
	{"hdel", Hash, 1, false, nil}, {"hexists", Hash, 1, false, nil}, {"hget", Hash, 1, false, nil}, {"hgetall", Hash, 1, false, nil},
	{"hincrby", Hash, 1, false, nil}, {"hincrbyfloat", Hash, 1, false, []string{"1.5"}}, {"hkeys", Hash, 1, false, nil}, {"hlen", Hash, 1, false, nil},
	{"hmget", Hash, 1, false, nil}, {"hmset", Hash, 1, false, nil}, {"hset", Hash, 1, false, nil}, {"hsetnx", Hash, 1, false, nil}, {"hvals", Hash, 1, false, nil},
	{"zadd", Sorted, 1, false, []string{"nx", "XX", "incr"}}, {"zscore", Sorted, 1, false, nil}, {"zrank", Sorted, 1, false, nil}, {"zrem", Sorted, 1, false, nil},
	{"zcard", Sorted, 1, false, nil}, {"zcount", Sorted, 1, false, []string{"(1", "-inf"}}, {"zincr", Sorted, 1, false, []string{"1.5"}},
	{"zrange", Sorted, 1, false, []string{"byscore", "withscores"}}, {"zrangebyscore", Sorted, 1, false, []string{"(1", "+inf"}},
	{"zrevrange", Sorted, 1, false, []string{"withscores"}}, {"zpopmin", Sorted, 1, false, nil}, {"zpopmax", Sorted, 1, false, nil},
}

// Plain are the other commands.
var Plain = []string{"exists", "del", "type", "keys", "ping", "command"}

// number tells whether argument i can be meant as a number.
func (c *Cmd) number(i int) bool {
	switch c.Kind {
	case String:
		return c.Name != "mget" && (c.Name != "mset" || i%2 == 1)
	case SetKind:
		return c.Name == "spop" || c.Name == "srandmember"
	case Hash:
		return i%2 == 0 && (c.Name == "hset" || c.Name == "hmset" || c.Name == "hsetnx" || c.Name == "hincrby")
	case Sorted:
		return c.Name != "zrem" && c.Name != "zscore" && c.Name != "zrank" && i%2 == 1
	}
	return true
}

// Arg is any argument of the classes the commands tell apart: a key, a member, a small or any number, or a special word.
func (c *Cmd) Arg(i int) string {
	switch k := vh.Choice(3 + len(c.Words)); k {
	case 0:
		return Pick("x", "j", "k")
	case 1:
		if !c.number(i) {
			return "1"
		}
		return I64(vh.I64())
	case 2:
		return "-1.5e"
	default:
		return c.Words[k-3]
	}
}

// Args are n arguments; the first ones are keys k and j.
func (c *Cmd) Args(n int) (l []string) {
	l = append(l, c.Name)
	for i := 0; i < n; i++ {
		switch {
		case i == 0:
			l = append(l, "k")
		case i < c.Keys:
			l = append(l, Pick("j", "k", "n"))
		default:
			l = append(l, c.Arg(i))
		}
	}
	return l
}
