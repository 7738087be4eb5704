package main

import (
	"github.com/yusank/godis/zzverif/kit"
	"github.com/yusank/godis/zzverif/vh"
)

var names = map[int]string{kit.None: "none", kit.String: "string", kit.ListKind: "list", kit.SetKind: "set", kit.Hash: "hash", kit.Sorted: "zset"}

// kinds says what TYPE answers for each kind; the words differ, and only "none" stands for a missing key.
func typeOf(kind int, r kit.Rep) {
	vh.Assert(r.K == '+' || r.K == '$', "TYPE did not answer with a name")
	vh.Assert((r.S == "none") == (kind == kit.None), "TYPE none and the absence of a key disagree")
	if kind == kit.None {
		return
	}
	for k := kit.String; k < kit.NKinds; k++ {
		kit.Fixed("scratch", k)
		t := kit.Do("type", "scratch").S
		kit.Do("del", "scratch")
		vh.Assert((t == r.S) == (k == kind), "TYPE names the wrong kind")
	}
}

// status checks what EXISTS and TYPE say of a key.
func status(key string, kind int) {
	n := int64(1)
	if kind == kit.None {
		n = 0
	}
	kit.Do("exists", key).Int(n, "EXISTS")
	typeOf(kind, kit.Do("type", key))
}

func two(n int) (a, b string) {
	a, b = vh.Str(n), vh.Str(n)
	vh.Assume(!vh.StrEq(a, b))
	return a, b
}

// del: two arbitrary different keys of any kinds; one is deleted and used again.
func del(a, b string, all bool) {
	ka := vh.Choice(kit.NKinds)
	kb := 0
	if all {
		kb = vh.Choice(kit.NKinds)
	} else {
		kb = 1 + (ka+vh.Choice(2))%5
	}
	kit.Fixed(a, ka)
	before := kit.Look(a)
	kit.Fixed(b, kb)
	vh.Assert(kit.Same(before, kit.Look(a)), "writing one key changed another")
	other := kit.Look(b)
	status(a, ka)
	n := int64(1)
	if ka == kit.None {
		n = 0
	}
	kit.Do("del", a).Int(n, "DEL")
	kit.Do("exists", a).Int(0, "EXISTS after DEL")
	vh.Assert(kit.Do("type", a).S == "none", "TYPE after DEL")
	kit.Do("del", a).Int(0, "DEL of a missing key")
	vh.Assert(kit.Same(other, kit.Look(b)), "DEL changed another key")
	k2 := 1 + (ka+2)%5
	if all {
		k2 = 1 + vh.Choice(5)
	}
	kit.Fixed(a, k2)
	l := kit.Look(a)
	kit.Fixed("scratch", k2)
	m := kit.Look("scratch")
	vh.Assert(kit.Same(l, m), "a key used again after DEL differs from a new one")
	vh.Assert(kit.Same(other, kit.Look(b)), "writing one key changed another")
	vh.Reach("end")
}

func Keys0() { del("", "k", true) }
func Keys1() { a, b := two(1); del(a, b, vh.Thorough()) }

// Bytes: longer arbitrary keys, one kind.
func Bytes() {
	n, m := 1+vh.Choice(3), 1+vh.Choice(3)
	a, b := vh.Str(n), vh.Str(m)
	vh.Assume(!vh.StrEq(a, b))
	kit.Do("set", a, "1")
	kit.Do("exists", b).Int(0, "EXISTS of a key never written")
	kit.Do("sadd", b, "x")
	kit.Do("get", a).Bulk("1", "GET")
	kit.Do("del", b).Int(1, "DEL")
	kit.Do("exists", a).Int(1, "EXISTS")
	kit.Do("exists", b).Int(0, "EXISTS after DEL")
	kit.Do("get", a).Bulk("1", "GET")
	vh.Reach("end")
}

type op struct {
	args []string
	kind int
}

// writes of every kind that take one key, given what the key holds.
var ops = []op{
	{[]string{"set", "K", "z"}, kit.String}, {[]string{"append", "K", "z"}, kit.String}, {[]string{"incr", "K"}, kit.String}, {[]string{"incrby", "K", "7"}, kit.String}, {[]string{"decr", "K"}, kit.String}, {[]string{"decrby", "K", "7"}, kit.String}, {[]string{"mset", "K", "1"}, kit.String}, {[]string{"get", "K"}, kit.String}, {[]string{"mget", "K"}, kit.String},
	{[]string{"lpush", "K", "x", "q"}, kit.ListKind}, {[]string{"rpush", "K", "q"}, kit.ListKind}, {[]string{"lpop", "K"}, kit.ListKind}, {[]string{"rpop", "K", "9"}, kit.ListKind}, {[]string{"lset", "K", "0", "z"}, kit.ListKind}, {[]string{"lrem", "K", "0", "x"}, kit.ListKind}, {[]string{"linsert", "K", "before", "x", "z"}, kit.ListKind}, {[]string{"lrange", "K", "0", "-1"}, kit.ListKind}, {[]string{"lindex", "K", "0"}, kit.ListKind}, {[]string{"llen", "K"}, kit.ListKind},
	{[]string{"sadd", "K", "x", "y"}, kit.SetKind}, {[]string{"srem", "K", "x"}, kit.SetKind}, {[]string{"spop", "K", "9"}, kit.SetKind}, {[]string{"smembers", "K"}, kit.SetKind}, {[]string{"sismember", "K", "x"}, kit.SetKind}, {[]string{"scard", "K"}, kit.SetKind}, {[]string{"sdiff", "K", "n"}, kit.SetKind}, {[]string{"sinter", "K", "n"}, kit.SetKind}, {[]string{"sunion", "K", "n"}, kit.SetKind}, {[]string{"sdiffstore", "K", "n"}, kit.SetKind}, {[]string{"sunionstore", "K", "K"}, kit.SetKind}, {[]string{"sinterstore", "K", "K", "n"}, kit.SetKind}, {[]string{"smove", "K", "n", "q"}, kit.SetKind},
	{[]string{"hset", "K", "x", "5"}, kit.Hash}, {[]string{"hsetnx", "K", "y", "5"}, kit.Hash}, {[]string{"hmset", "K", "y", "5"}, kit.Hash}, {[]string{"hdel", "K", "x"}, kit.Hash}, {[]string{"hincrby", "K", "x", "5"}, kit.Hash}, {[]string{"hincrbyfloat", "K", "x", "0.5"}, kit.Hash}, {[]string{"hget", "K", "x"}, kit.Hash}, {[]string{"hmget", "K", "x"}, kit.Hash}, {[]string{"hgetall", "K"}, kit.Hash}, {[]string{"hkeys", "K"}, kit.Hash}, {[]string{"hvals", "K"}, kit.Hash}, {[]string{"hlen", "K"}, kit.Hash}, {[]string{"hexists", "K", "x"}, kit.Hash},
	{[]string{"zadd", "K", "2", "x", "3", "y"}, kit.Sorted}, {[]string{"zincr", "K", "2", "x"}, kit.Sorted}, {[]string{"zrem", "K", "x"}, kit.Sorted}, {[]string{"zpopmin", "K"}, kit.Sorted}, {[]string{"zpopmax", "K", "9"}, kit.Sorted}, {[]string{"zcard", "K"}, kit.Sorted}, {[]string{"zscore", "K", "x"}, kit.Sorted}, {[]string{"zrank", "K", "x"}, kit.Sorted}, {[]string{"zcount", "K", "0", "9"}, kit.Sorted}, {[]string{"zrange", "K", "0", "-1"}, kit.Sorted}, {[]string{"zrangebyscore", "K", "0", "9"}, kit.Sorted}, {[]string{"zrevrange", "K", "0", "-1"}, kit.Sorted},
	{[]string{"del", "K"}, kit.None}, {[]string{"exists", "K"}, kit.None}, {[]string{"type", "K"}, kit.None}, {[]string{"ping"}, kit.None}, {[]string{"nosuch", "K"}, kit.None},
}

func send(o op, key string) kit.Rep {
	a := append([]string(nil), o.args...)
	for i := range a {
		if a[i] == "K" {
			a[i] = key
		}
	}
	vh.RandBudget(1)
	vh.MapOrder(1)
	r := kit.Do(a...)
	vh.RandBudget(0)
	vh.MapOrder(0)
	return r
}

// Others: no command changes a key it does not name. The other key is any one-byte key.
func Others() {
	o := ops[vh.Choice(len(ops))]
	b := vh.Str(1)
	vh.Assume(vh.And(b[0] != 'k', b[0] != 'n'))
	kind := vh.Choice(kit.NKinds)
	if o.kind != kit.None && !vh.Thorough() {
		kind = []int{kit.None, o.kind}[vh.Choice(2)]
	}
	kit.Fixed(b, 1+(o.kind+vh.Choice(2))%5)
	before := kit.Look(b)
	kit.Fixed("k", kind)
	send(o, "k")
	vh.Assert(kit.Same(before, kit.Look(b)), "a command changed a key it does not name")
	kit.Do("exists", b).Int(1, "EXISTS of a key the command does not name")
	vh.Reach("end")
}

// Named: commands over several keys leave the sources they only read, and all other keys, alone.
func Named() {
	l := [][]string{
		{"mget", "k", "j"}, {"mset", "k", "1", "n", "2"}, {"sdiff", "k", "j"}, {"sinter", "k", "j"}, {"sunion", "k", "j"},
		{"sdiffstore", "d", "k", "j"}, {"sinterstore", "d", "k", "j"}, {"sunionstore", "d", "k", "j"}, {"sunionstore", "d", "j"},
		{"sdiffstore", "k", "k", "j"}, {"sinterstore", "k", "j", "k"}, {"smove", "k", "d", "x"}, {"smove", "k", "d", "q"},
	}
	args := l[vh.Choice(len(l))]
	kit.Make("k", vh.Choice(2)*kit.SetKind)
	kit.Make("j", vh.Choice(2)*kit.SetKind)
	kit.Fixed("o", 1+vh.Choice(5))
	j, o := kit.Look("j"), kit.Look("o")
	vh.MapOrder(1)
	kit.Do(args...)
	vh.MapOrder(0)
	vh.Assert(kit.Same(o, kit.Look("o")), "a command changed a key it does not name")
	vh.Assert(kit.Same(j, kit.Look("j")), "a command changed a key it only reads")
	if args[0] == "sdiffstore" || args[0] == "sinterstore" || args[0] == "sunionstore" {
		// changing the destination afterwards does not reach the sources, nor the other way round
		kit.Do("sadd", args[1], "new")
		vh.Assert(kit.Same(j, kit.Look("j")), "changing a stored set changed its source")
		d := kit.Look(args[1])
		kit.Do("sadd", "j", "late")
		kit.Do("srem", "j", "x")
		vh.Assert(kit.Same(d, kit.Look(args[1])), "changing a source changed the stored set")
	}
	vh.Reach("end")
}

// History: writes and deletions over three keys; EXISTS, TYPE and DEL agree with what the commands said.
func History() {
	keys := []string{"k", "j", "n"}
	kinds := []int{0, 0, 0}
	looks := make([][]kit.Rep, 3)
	for i, k := range keys {
		looks[i] = kit.Look(k)
	}
	steps := 3
	if vh.Thorough() {
		steps = 4
	}
	for s := 0; s < steps; s++ {
		i := vh.Choice(3)
		if i > s {
			return // keys are interchangeable: the first use of each comes in order
		}
		switch c := vh.Choice(8); {
		case c == 0:
			n := int64(1)
			if kinds[i] == kit.None {
				n = 0
			}
			kit.Do("del", keys[i]).Int(n, "DEL")
			kinds[i] = kit.None
		case c == 1: // SET replaces any kind
			kit.Do("set", keys[i], "9")
			kinds[i] = kit.String
		case c == 2: // the store commands too
			kit.Do("sadd", "src", "x", "y")
			kit.Do("sunionstore", keys[i], "src")
			kit.Do("del", "src").Int(1, "DEL")
			kinds[i] = kit.SetKind
		default:
			kit.Fixed(keys[i], c-2)
			if kinds[i] == kit.None || c-2 == kit.String {
				kinds[i] = c - 2
			}
		}
		for j, k := range keys {
			l := kit.Look(k)
			if j != i {
				vh.Assert(kit.Same(l, looks[j]), "a command changed a key it does not name")
			}
			looks[j] = l
			status(k, kinds[j])
		}
	}
	vh.Reach("end")
}

// Many: 40 keys of all kinds in all shards, one deleted or replaced by any kind; the others stay.
func Many() {
	n := 40
	kinds := make([]int, n)
	name := func(i int) string { return "k" + kit.Itoa(i) }
	for i := range kinds {
		kinds[i] = 1 + i%5
		kit.Fixed(name(i), kinds[i])
	}
	var looks [][]kit.Rep
	for i := range kinds {
		looks = append(looks, kit.Look(name(i)))
	}
	d := vh.Choice(n)
	kit.Do("del", name(d)).Int(1, "DEL")
	kinds[d] = 0
	kit.Do("del", name(d)).Int(0, "DEL of a deleted key")
	if vh.Choice(2) == 1 {
		kinds[d] = 1 + (d+1)%5
		kit.Fixed(name(d), kinds[d])
	}
	for i, k := range kinds {
		status(name(i), k)
		if i != d {
			vh.Assert(kit.Same(kit.Look(name(i)), looks[i]), "another key changed")
		}
	}
	vh.Reach("end")
}

// Twins: two keys given equal contents by any command that can; a later write to one does not reach the other.
func Twins() {
	v := vh.Str(1)
	kind := kit.String
	switch vh.Choice(9) {
	case 0:
		kit.Do("mset", "k", v, "j", v)
	case 1:
		kit.Do("set", "k", v)
		kit.Do("set", "j", v)
	case 2:
		kit.Do("mset", "n", v, "k", "5", "j", "5")
	case 3:
		kind = kit.SetKind
		kit.Do("sadd", "k", "x", v)
		kit.Do("sunionstore", "j", "k")
	case 4:
		kind = kit.SetKind
		kit.Do("sadd", "s", "x", v)
		kit.Do("sinterstore", "k", "s", "s")
		kit.Do("sinterstore", "j", "s", "k")
	case 5:
		kind = kit.SetKind
		kit.Do("sadd", "s", "x", v)
		kit.Do("sdiffstore", "k", "s", "n")
		kit.Do("sdiffstore", "j", "k")
	case 6:
		kind = kit.ListKind
		kit.Do("rpush", "k", v, "x")
		kit.Do("rpush", "j", v, "x")
	case 7:
		kind = kit.Hash
		kit.Do("hmset", "k", "x", v, "y", "5")
		kit.Do("hmset", "j", "x", v, "y", "5")
	case 8:
		kind = kit.Sorted
		kit.Do("zadd", "k", "1", v, "2", "x")
		kit.Do("zadd", "j", "1", v, "2", "x")
	}
	one, other := "k", "j"
	if vh.Choice(2) == 1 {
		one, other = other, one
	}
	before := kit.Look(other)
	var of []op
	for _, o := range ops {
		if o.kind == kind {
			of = append(of, o)
		}
	}
	o := of[vh.Choice(len(of))]
	send(o, one)
	send(o, one)
	vh.Assert(kit.Same(before, kit.Look(other)), "a write to one of two keys with equal contents changed the other")
	kit.Do("exists", other).Int(1, "EXISTS of the other key")
	vh.Reach("end")
}

// LongKeys: two long keys that differ in one byte or in length.
func LongKeys() {
	a, b := kit.Long()
	kit.Do("set", a, "1")
	status(b, kit.None)
	kit.Do("sadd", b, "x")
	kit.Do("get", a).Bulk("1", "GET")
	status(a, kit.String)
	status(b, kit.SetKind)
	vh.Assert(len(kit.Do("keys", "*").A) == 2, "KEYS: number of keys")
	kit.Do("del", a).Int(1, "DEL")
	status(a, kit.None)
	status(b, kit.SetKind)
	kit.Do("append", a, "5")
	kit.Do("smembers", b).Set([]string{"x"}, "SMEMBERS")
	vh.Reach("end")
}
