package main

import (
	"github.com/yusank/godis/zzverif/kit"
	"github.com/yusank/godis/zzverif/vh"
)

// args are n valid arguments of the command after the key; n is at least what it needs.
var valid = map[string][]string{
	"get": {}, "incr": {}, "incrby": {"1"}, "decr": {}, "decrby": {"1"}, "append": {"x"},
	"lpush": {"x"}, "lpop": {}, "rpush": {"x"}, "rpop": {}, "llen": {}, "lrange": {"0", "-1"}, "lrem": {"0", "x"},
	"lindex": {"0"}, "lset": {"0", "z"}, "linsert": {"before", "x", "z"},
	"sadd": {"x"}, "scard": {}, "sismember": {"x"}, "smembers": {}, "srem": {"x"}, "spop": {},
	"hdel": {"x"}, "hexists": {"x"}, "hget": {"x"}, "hgetall": {}, "hincrby": {"x", "1"}, "hincrbyfloat": {"x", "1"},
	"hkeys": {}, "hlen": {}, "hmget": {"x"}, "hmset": {"x", "1"}, "hset": {"x", "1"}, "hsetnx": {"x", "1"}, "hvals": {},
	"zadd": {"1", "x"}, "zscore": {"x"}, "zrank": {"x"}, "zrem": {"x"}, "zcard": {}, "zcount": {"0", "9"}, "zincr": {"1", "x"},
	"zrange": {"0", "-1"}, "zrangebyscore": {"0", "9"}, "zrevrange": {"0", "-1"}, "zpopmin": {}, "zpopmax": {},
}

func cmds(kind int) (l []*kit.Cmd) {
	for i := range kit.Cmds {
		if kit.Cmds[i].Kind == kind {
			l = append(l, &kit.Cmds[i])
		}
	}
	return l
}

func other(kind int) int {
	k := 1 + vh.Choice(4)
	if k >= kind {
		k++
	}
	return k
}

func typeName(kind int) string {
	kit.Make("t", kind)
	return kit.Do("type", "t").S
}

// refused sends a command to key k, which holds another kind.
func refused(args []string) {
	before := kit.Look("k")
	vh.RandBudget(1)
	vh.MapOrder(1)
	r := kit.Do(args...)
	vh.RandBudget(0)
	vh.MapOrder(0)
	r.Err("a command for a key holding another kind")
	vh.Assert(kit.Same(before, kit.Look("k")), "a command for another kind altered the value")
	vh.Reach("refused")
}

// Single: every command that addresses one key of its kind, on a key of every other kind.
func single(kind int) {
	l := cmds(kind)
	c := l[vh.Choice(len(l))]
	v, ok := valid[c.Name]
	if !ok {
		return
	}
	kit.Make("k", other(kind))
	args := append([]string{c.Name, "k"}, v...)
	for i := 2; i < len(args); i++ { // arbitrary data in the places of data
		if args[i] == "1" && vh.Choice(2) == 0 {
			args[i] = kit.I64(vh.I64())
		} else if args[i] == "x" {
			args[i] = vh.StrIn(1, 'w', 'z')
		}
	}
	if vh.Thorough() && vh.Choice(2) == 1 {
		args = append(args, c.Arg(len(args)-2))
	}
	refused(args)
}

func Strings() { single(kit.String) }
func Lists()   { single(kit.ListKind) }
func Sets()    { single(kit.SetKind) }
func Hashes()  { single(kit.Hash) }
func Sorted()  { single(kit.Sorted) }

// Options: commands with option words.
func Options() {
	l := [][]string{
		{"zadd", "k", "nx", "1", "x"}, {"zadd", "k", "xx", "1", "x"}, {"zadd", "k", "incr", "1", "x"}, {"zadd", "k", "1", "x", "2", "y"},
		{"zrange", "k", "0", "-1", "withscores"}, {"zrange", "k", "0", "9", "byscore"}, {"zrevrange", "k", "0", "-1", "withscores"},
		{"zrangebyscore", "k", "0", "9", "withscores"}, {"zpopmin", "k", "2"}, {"zpopmax", "k", "0"}, {"zpopmin", "k", "1"},
	}
	kit.Make("k", other(kit.Sorted))
	refused(l[vh.Choice(len(l))])
}

// SetOptions: the same for the other kinds.
func Counts() {
	switch vh.Choice(4) {
	case 0:
		kit.Make("k", other(kit.SetKind))
		refused([]string{"spop", "k", kit.Pick("1", "2", "9")})
	case 1:
		kit.Make("k", other(kit.ListKind))
		refused([]string{kit.Pick("lpop", "rpop"), "k", kit.Pick("1", "2", "9")})
	case 2:
		kit.Make("k", other(kit.ListKind))
		refused([]string{kit.Pick("lpush", "rpush"), "k", "x", "z"})
	case 3:
		kit.Make("k", other(kit.SetKind))
		refused([]string{kit.Pick("sadd", "srem"), "k", "x", "z"})
	}
}

// Algebra: a source of another kind in any place, the other sources sets, missing or of the other kind too.
func Algebra() {
	bad := other(kit.SetKind)
	srcs := []string{"k"}
	n := vh.Choice(3)
	for i := 0; i < n; i++ {
		k := []string{"j", "n"}[i]
		switch vh.Choice(3) {
		case 0:
			kit.Do("sadd", k, "x", "y")
		case 1:
			kit.Do("sadd", k, "z")
		}
		srcs = append(srcs, k)
	}
	at := vh.Choice(n + 1)
	srcs[0], srcs[at] = srcs[at], srcs[0]
	kit.Make("k", bad)
	name := kit.Pick("sdiff", "sinter", "sunion")
	args := []string{name}
	if vh.Choice(2) == 1 {
		args = []string{name + "store", "d"}
		if vh.Choice(2) == 1 {
			kit.Do("sadd", "d", "q")
		}
	}
	d := kit.Look("d")
	refused(append(args, srcs...))
	vh.Assert(kit.Same(d, kit.Look("d")), "a refused STORE command changed its destination")
}

// Move: SMOVE with another kind as source or destination.
func Move() {
	if vh.Choice(2) == 0 { // source
		kit.Make("k", other(kit.SetKind))
		kit.Make("j", vh.Choice(kit.NKinds))
		j := kit.Look("j")
		refused([]string{"smove", "k", "j", vh.StrIn(1, 'w', 'z')})
		vh.Assert(kit.Same(j, kit.Look("j")), "a refused SMOVE changed its destination")
		return
	}
	kit.Make("k", other(kit.SetKind))
	kit.Do("sadd", "j", "x", "y")
	j := kit.Look("j")
	// a member that is there; redis answers 0 without looking further for one that is not
	refused([]string{"smove", "j", "k", kit.Pick("x", "y")})
	vh.Assert(kit.Same(j, kit.Look("j")), "a refused SMOVE changed its source")
}

// MGet answers nil for a key of another kind.
func MGet() {
	kit.Make("k", other(kit.String))
	v := vh.Str(1)
	kit.Do("set", "s", v)
	b := kit.Look("k")
	keys := []string{"k", "s", "n"}
	i := vh.Choice(3)
	keys[0], keys[i] = keys[i], keys[0]
	r := kit.Do("mget", keys[0], keys[1], keys[2])
	vh.Assert(len(r.A) == 3, "MGET: number of elements")
	for i, k := range keys {
		if k == "s" {
			r.A[i].Bulk(v, "MGET of a string")
		} else {
			r.A[i].Nil("MGET of a key that holds no string")
		}
	}
	vh.Assert(kit.Same(b, kit.Look("k")), "MGET altered a value of another kind")
	vh.Reach("end")
}

// Kept: no command but the overwriting ones changes what kind a key holds.
func kept(kind int) {
	l := cmds(kind)
	c := l[vh.Choice(len(l))]
	if c.Write {
		return
	}
	k1 := vh.Choice(kit.NKinds)
	mk := kit.Fixed
	if vh.Thorough() {
		mk = kit.Make
	}
	mk("k", k1)
	if c.Keys > 1 {
		mk("j", vh.Choice(kit.NKinds))
	}
	tk, tj := kit.Do("type", "k").S, kit.Do("type", "j").S
	n := vh.Choice(4)
	vh.RandBudget(1)
	vh.MapOrder(1)
	kit.Do(c.Args(n)...)
	vh.RandBudget(0)
	vh.MapOrder(0)
	a, b := kit.Do("type", "k").S, kit.Do("type", "j").S
	own := typeName(kind)
	if tk != "none" {
		vh.Assert(a == tk || a == "none" && tk == own, "a command changed what kind a key holds")
	} else {
		vh.Assert(a == "none" || a == own, "a command created a key of another kind")
	}
	if tj != "none" {
		vh.Assert(b == tj || b == "none" && tj == own, "a command changed what kind a key holds")
	} else {
		vh.Assert(b == "none" || b == own, "a command created a key of another kind")
	}
	vh.Reach("end")
}

func KeptS() { kept(kit.String) }
func KeptL() { kept(kit.ListKind) }
func KeptE() { kept(kit.SetKind) }
func KeptH() { kept(kit.Hash) }
func KeptZ() { kept(kit.Sorted) }

// Overwrite: SET, MSET and the STORE commands replace a key of any kind entirely.
func Overwrite() {
	kit.Make("k", vh.Choice(kit.NKinds))
	v := vh.Str(1)
	switch vh.Choice(3) {
	case 0:
		kit.Do("set", "k", v)
		kit.Do("get", "k").Bulk(v, "GET after SET")
		vh.Assert(kit.Do("type", "k").S == typeName(kit.String), "TYPE after SET")
	case 1:
		kit.Do("mset", "j", "1", "k", v)
		kit.Do("get", "k").Bulk(v, "GET after MSET")
		vh.Assert(kit.Do("type", "k").S == typeName(kit.String), "TYPE after MSET")
	case 2:
		kit.Do("sadd", "j", "x", "q")
		kit.Do("sadd", "n", "x")
		name := kit.Pick("sdiffstore", "sinterstore", "sunionstore")
		kit.Do(name, "k", "j", "n")
		vh.Assert(kit.Do("type", "k").S == typeName(kit.SetKind), "TYPE after a STORE command")
		r := kit.Do("smembers", "k")
		switch name {
		case "sdiffstore":
			r.Set([]string{"q"}, "SMEMBERS")
		case "sinterstore":
			r.Set([]string{"x"}, "SMEMBERS")
		default:
			r.Set([]string{"q", "x"}, "SMEMBERS")
		}
	}
	vh.Reach("end")
}
