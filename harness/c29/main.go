package main

import (
	"github.com/yusank/godis/zzverif/kit"
	"github.com/yusank/godis/zzverif/vh"
)

// what a command answers when its key is missing
const (
	zero    = iota // the integer 0
	nothing        // nil
	empty          // nil or an empty array
	refused        // an error
	failed         // an error or 0
	nils           // an array of nils, one per argument after the key
	none           // the status none
)

type query struct {
	args []string
	want int
}

// K is the key, N any 64-bit integer, P any positive one, S any text, F any score.
var queries = []query{
	{[]string{"get", "K"}, nothing},
	{[]string{"mget", "K", "K"}, nils}, {[]string{"del", "K"}, zero}, {[]string{"exists", "K"}, zero}, {[]string{"type", "K"}, none},
	{[]string{"lpop", "K"}, empty}, {[]string{"rpop", "K"}, empty}, {[]string{"lpop", "K", "P"}, empty}, {[]string{"rpop", "K", "P"}, empty},
	{[]string{"llen", "K"}, zero}, {[]string{"lindex", "K", "N"}, nothing}, {[]string{"lrange", "K", "N", "N"}, empty},
	{[]string{"lset", "K", "N", "S"}, refused}, {[]string{"lrem", "K", "N", "S"}, zero},
	{[]string{"linsert", "K", "before", "S", "S"}, failed}, {[]string{"linsert", "K", "AFTER", "S", "S"}, failed},
	{[]string{"scard", "K"}, zero}, {[]string{"smembers", "K"}, empty}, {[]string{"sismember", "K", "S"}, zero}, {[]string{"srem", "K", "S"}, zero}, {[]string{"srem", "K", "S", "S"}, zero},
	{[]string{"spop", "K"}, empty}, {[]string{"spop", "K", "P"}, empty}, {[]string{"smove", "K", "new", "S"}, failed}, {[]string{"smove", "K", "K", "S"}, failed},
	{[]string{"sdiff", "K"}, empty}, {[]string{"sinter", "K"}, empty}, {[]string{"sunion", "K"}, empty}, {[]string{"sdiff", "K", "K"}, empty}, {[]string{"sinter", "K", "K"}, empty}, {[]string{"sunion", "K", "K"}, empty},
	{[]string{"sdiff", "K", "set"}, empty}, {[]string{"sinter", "K", "set"}, empty}, {[]string{"sinter", "set", "K"}, empty},
	{[]string{"sdiffstore", "new", "K"}, zero}, {[]string{"sinterstore", "new", "K"}, zero}, {[]string{"sunionstore", "new", "K"}, zero}, {[]string{"sdiffstore", "K", "K", "set"}, zero}, {[]string{"sinterstore", "new", "set", "K"}, zero}, {[]string{"sunionstore", "K", "K"}, zero},
	{[]string{"hget", "K", "S"}, nothing}, {[]string{"hmget", "K", "S"}, nils}, {[]string{"hmget", "K", "S", "S"}, nils}, {[]string{"hgetall", "K"}, empty}, {[]string{"hkeys", "K"}, empty}, {[]string{"hvals", "K"}, empty},
	{[]string{"hlen", "K"}, zero}, {[]string{"hexists", "K", "S"}, zero}, {[]string{"hdel", "K", "S"}, zero}, {[]string{"hdel", "K", "S", "S"}, zero},
	{[]string{"zcard", "K"}, zero}, {[]string{"zscore", "K", "S"}, nothing}, {[]string{"zrank", "K", "S"}, nothing}, {[]string{"zcount", "K", "F", "F"}, zero},
	{[]string{"zrange", "K", "N", "N"}, empty}, {[]string{"zrange", "K", "N", "N", "withscores"}, empty}, {[]string{"zrange", "K", "F", "F", "BYSCORE"}, empty},
	{[]string{"zrevrange", "K", "N", "N"}, empty}, {[]string{"zrevrange", "K", "N", "N", "WITHSCORES"}, empty}, {[]string{"zrangebyscore", "K", "F", "F"}, empty},
	{[]string{"zrem", "K", "S"}, zero}, {[]string{"zrem", "K", "S", "S"}, zero}, {[]string{"zpopmin", "K"}, empty}, {[]string{"zpopmax", "K"}, empty}, {[]string{"zpopmin", "K", "P"}, empty}, {[]string{"zpopmax", "K", "P"}, empty},
	{[]string{"zadd", "K", "XX", "F", "S"}, failed},
}

func fill(args []string, key string) []string {
	var l []string
	for _, a := range args {
		switch a {
		case "K":
			a = key
		case "N":
			a = kit.I64(vh.I64())
		case "P":
			n := vh.I64()
			vh.Assume(n > 0)
			a = kit.I64(n)
		case "S":
			a = vh.Str(vh.Choice(2))
		case "F":
			a = kit.FText(kit.Score(true))
		}
		l = append(l, a)
	}
	return l
}

func check(q query, args []string) {
	r := kit.Do(args...)
	what := q.args[0] + " of a missing key"
	switch q.want {
	case zero:
		r.Int(0, what)
	case nothing:
		r.Nil(what)
	case empty:
		vh.Assert(r.IsNil() || r.K == '*' && len(r.A) == 0, what+": not empty")
	case refused:
		r.Err(what)
	case failed:
		vh.Assert(r.IsErr() || r.IsNil() || r.K == ':' && r.N == 0, what+": not refused")
	case nils:
		n := len(args) - 2
		if args[0] == "mget" {
			n++
		}
		vh.Assert(r.K == '*' && len(r.A) == n, what+": wrong number of values")
		for _, e := range r.A {
			e.Nil(what)
		}
	case none:
		vh.Assert(r.S == "none", what)
	}
	vh.Reach(q.args[0])
}

// absent asserts that only the keys set and o exist.
func absent(key string) {
	kit.Do("exists", key).Int(0, "EXISTS after reading a missing key")
	kit.Do("exists", "new").Int(0, "EXISTS of a destination nothing was stored in")
	vh.Assert(kit.Do("type", key).S == "none", "TYPE after reading a missing key")
	r := kit.Do("keys", "*")
	vh.Assert(r.K == '*' && len(r.A) == 2, "KEYS lists a key that does not exist")
}

// history makes the key missing in one of several ways.
func history(key string, how int) {
	switch how {
	case 1, 2, 3, 4, 5:
		kit.Fixed(key, how)
		kit.Do("del", key).Int(1, "DEL")
	case 6:
		kit.Do("rpush", key, "x")
		kit.Do("lpop", key)
	case 7:
		kit.Do("sadd", key, "x")
		kit.Do("srem", key, "x")
	case 8:
		kit.Do("hset", key, "x", "1")
		kit.Do("hdel", key, "x")
	case 9:
		kit.Do("zadd", key, "1", "x")
		kit.Do("zrem", key, "x")
	}
}

// One: any such command on a missing key of any one or no bytes, beside two other keys.
func One() {
	q := queries[vh.Choice(len(queries))]
	key := vh.Str(vh.Choice(2))
	if key != "" {
		vh.Assume(key[0] != 'o')
	}
	kit.Fixed("o", 1+vh.Choice(5))
	kit.Do("sadd", "set", "x", "1")
	o, s := kit.Look("o"), kit.Look("set")
	check(q, fill(q.args, key))
	absent(key)
	vh.Assert(kit.Same(o, kit.Look("o")), "another key changed")
	vh.Assert(kit.Same(s, kit.Look("set")), "another key changed")
}

// Again: the same on a key that existed and was deleted or emptied, twice.
func Again() {
	q := queries[vh.Choice(len(queries))]
	kit.Fixed("o", 1)
	kit.Do("sadd", "set", "x", "1")
	history("k", 1+vh.Choice(9))
	args := fill(q.args, "k")
	check(q, args)
	check(q, args)
	absent("k")
}

// Two: any two such commands one after the other.
func Two() {
	p, q := queries[vh.Choice(len(queries))], queries[vh.Choice(len(queries))]
	kit.Fixed("o", 1)
	kit.Do("sadd", "set", "x", "1")
	check(p, fill(p.args, "k"))
	check(q, fill(q.args, "k"))
	absent("k")
}
