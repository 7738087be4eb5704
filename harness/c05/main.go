package main

import (
	"github.com/yusank/godis/zzverif/kit"
	"github.com/yusank/godis/zzverif/vh"
)

// A command answered with an error leaves every key as it was.
func group(kind int) {
	var l []*kit.Cmd
	for i := range kit.Cmds {
		if kit.Cmds[i].Kind == kind {
			l = append(l, &kit.Cmds[i])
		}
	}
	c := l[vh.Choice(len(l))]
	max := 3
	if vh.Thorough() || len(c.Words) > 0 {
		max = 4
	}
	n := vh.Choice(max + 1)
	keys := []string{"k"}
	if n == 4 && kind == kit.Sorted && !vh.Thorough() {
		if vh.Choice(2) == 1 {
			kit.Do("zadd", "k", "1", "x", "2", "y")
		}
	} else {
		kit.Make("k", vh.Choice(kit.NKinds))
		if c.Keys > 1 {
			kit.Make("j", vh.Choice(kit.NKinds))
			keys = append(keys, "j", "n")
		}
	}
	check(c, n, keys)
}

func check(c *kit.Cmd, n int, keys []string) {
	var before [][]kit.Rep
	for _, k := range keys {
		before = append(before, kit.Look(k))
	}
	vh.RandBudget(1)
	vh.MapOrder(1)
	r := kit.Do(c.Args(n)...)
	vh.RandBudget(0)
	vh.MapOrder(0)
	if !r.IsErr() {
		vh.Reach("accepted")
		return
	}
	for i, k := range keys {
		vh.Assert(kit.Same(before[i], kit.Look(k)), "a command that reported an error changed a key")
	}
	vh.Reach("refused")
}

func Strings() { group(kit.String) }
func Lists()   { group(kit.ListKind) }
func Sets()    { group(kit.SetKind) }
func Hashes()  { group(kit.Hash) }
func Sorted()  { group(kit.Sorted) }

// Others: commands that are for any kind of key or none, and unknown ones.
func Others() {
	l := []string{"exists", "del", "type", "ping", "command", "nosuch", "rename"}
	c := kit.Cmd{Name: l[vh.Choice(len(l))], Keys: 1}
	kit.Make("k", vh.Choice(kit.NKinds))
	check(&c, vh.Choice(4), []string{"k"})
}

// Half: several-element writes with something wrong in any one place.
func Half() {
	bad := kit.Pick("z", "", "1x", "9223372036854775808")
	at := vh.Choice(3)
	switch vh.Choice(4) {
	case 0: // zadd of three pairs, one score broken
		kit.Make("k", vh.Choice(2)*kit.Sorted)
		b := kit.Look("k")
		a := []string{"zadd", "k"}
		for i, m := range []string{"x", "j", "y"} {
			s := "5"
			if i == at {
				s = kit.Pick("z", "", "1x", "nan")
			}
			a = append(a, s, m)
		}
		r := kit.Do(a...)
		r.Err("ZADD with a broken score")
		vh.Assert(kit.Same(b, kit.Look("k")), "a refused ZADD changed the sorted set")
	case 1:
		kit.Do("mset", "k", "1", "j", "2", "n").Err("MSET with an odd number of arguments")
		kit.Do("exists", "k").Int(0, "EXISTS")
		kit.Do("exists", "j").Int(0, "EXISTS")
		kit.Do("exists", "n").Int(0, "EXISTS")
	case 2: // set algebra into a destination, one source of another kind
		kit.Make("d", vh.Choice(kit.NKinds))
		for i, k := range []string{"k", "j", "n"} {
			if i == at {
				kit.Make(k, 1+vh.Choice(5))
			} else {
				kit.Do("sadd", k, "x", "y")
			}
		}
		var b [][]kit.Rep
		for _, k := range []string{"d", "k", "j", "n"} {
			b = append(b, kit.Look(k))
		}
		r := kit.Do(kit.Pick("sdiffstore", "sinterstore", "sunionstore"), "d", "k", "j", "n")
		if r.IsErr() {
			for i, k := range []string{"d", "k", "j", "n"} {
				vh.Assert(kit.Same(b[i], kit.Look(k)), "a refused STORE command changed a key")
			}
		}
	case 3: // numeric commands on text that is no number
		v := vh.StrIn(1+vh.Choice(2), '*', ':')
		kit.Do("set", "k", v)
		kit.Do("hset", "h", "x", v)
		name := kit.Pick("incr", "decr", "incrby", "decrby")
		var r kit.Rep
		if name == "incr" || name == "decr" {
			r = kit.Do(name, "k")
		} else {
			r = kit.Do(name, "k", kit.Pick("1", bad))
		}
		if r.IsErr() {
			kit.Do("get", "k").Bulk(v, "GET after a refused counter command")
		}
		if r := kit.Do(kit.Pick("hincrby", "hincrbyfloat"), "h", "x", kit.Pick("1", bad)); r.IsErr() {
			kit.Do("hget", "h", "x").Bulk(v, "HGET after a refused counter command")
			kit.Do("hlen", "h").Int(1, "HLEN after a refused counter command")
		}
	}
	vh.Reach("end")
}

// Overflow: counters at any value with any increment.
func Overflow() {
	a, d := vh.I64(), vh.I64()
	kit.Do("set", "k", kit.I64(a))
	kit.Do("hset", "h", "x", kit.I64(a))
	switch vh.Choice(3) {
	case 0:
		if kit.Do("incrby", "k", kit.I64(d)).IsErr() {
			kit.Do("get", "k").Bulk(kit.I64(a), "GET after a refused INCRBY")
			vh.Reach("refused")
		}
	case 1:
		if kit.Do("decrby", "k", kit.I64(d)).IsErr() {
			kit.Do("get", "k").Bulk(kit.I64(a), "GET after a refused DECRBY")
			vh.Reach("refused")
		}
	case 2:
		if kit.Do("hincrby", "h", "x", kit.I64(d)).IsErr() {
			kit.Do("hget", "h", "x").Bulk(kit.I64(a), "HGET after a refused HINCRBY")
			vh.Reach("refused")
		}
	}
	kit.Do("exists", "k").Int(1, "EXISTS")
}
