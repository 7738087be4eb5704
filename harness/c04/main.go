package main

import (
	"github.com/yusank/godis/zzverif/kit"
	"github.com/yusank/godis/zzverif/vh"
)

// run sends one command; kit.Do fails unless exactly one well-formed reply comes back.
func run(c *kit.Cmd, n int) {
	vh.RandBudget(1)
	vh.MapOrder(1)
	kit.Do(c.Args(n)...)
	vh.RandBudget(0)
	vh.MapOrder(0)
	r := kit.Do("ping")
	vh.Assert(r.K == '+' && r.S == "PONG", "the server does not answer PING any more")
	vh.Reach("alive")
}

func group(kind int) {
	var l []*kit.Cmd
	for i := range kit.Cmds {
		if kit.Cmds[i].Kind == kind {
			l = append(l, &kit.Cmds[i])
		}
	}
	c := l[vh.Choice(len(l))]
	max := 3
	if vh.Thorough() || len(c.Words) > 0 {
		max = 4
	}
	n := vh.Choice(max + 1)
	if n == 4 && kind == kit.Sorted && !vh.Thorough() {
		if vh.Choice(2) == 1 {
			kit.Do("zadd", "k", "1", "x", "2", "y")
		}
	} else if n > 0 {
		kit.Make("k", vh.Choice(kit.NKinds))
		if c.Keys > 1 {
			kit.Make("j", vh.Choice(kit.NKinds))
		}
	}
	run(c, n)
}

func Strings() { group(kit.String) }
func Lists()   { group(kit.ListKind) }
func Sets()    { group(kit.SetKind) }
func Hashes()  { group(kit.Hash) }
func Sorted()  { group(kit.Sorted) }

// Others: commands that are for any kind of key or none.
func Others() {
	c := kit.Cmd{Name: kit.Plain[vh.Choice(len(kit.Plain))], Keys: 1}
	kit.Make("k", vh.Choice(kit.NKinds))
	run(&c, vh.Choice(4))
}

// Names: a command is known in every mixture of cases.
func Names() {
	all := append([]string(nil), kit.Plain...)
	for i := range kit.Cmds {
		all = append(all, kit.Cmds[i].Name)
	}
	name := all[vh.Choice(len(all))]
	mixed := vh.Str(len(name))
	for i := 0; i < len(name); i++ {
		vh.Assume(vh.Or(mixed[i] == name[i], mixed[i] == name[i]-32))
	}
	if vh.Choice(2) == 0 {
		a, b := kit.Do(name), kit.Do(mixed)
		vh.Assert(kit.SameRep(a, b), "the letter case of a command name matters")
	} else {
		// none of these arguments is accepted by or changes anything in a way the second time would tell
		a, b := kit.Do(name, "n"), kit.Do(mixed, "m")
		vh.Assert(kit.SameRep(a, b), "the letter case of a command name matters")
	}
	vh.Reach("end")
}

// Unknown: any other short name gets an error.
func Unknown() {
	n := vh.Choice(6)
	s := vh.Str(n)
	known := func(name string) {
		if len(name) != n {
			return
		}
		same := true
		for i := 0; i < n; i++ {
			same = vh.And(same, vh.Or(s[i] == name[i], s[i] == name[i]-32))
		}
		vh.Assume(!same)
	}
	for _, c := range kit.Cmds {
		known(c.Name)
	}
	for _, c := range kit.Plain {
		known(c)
	}
	for i := 0; i < n; i++ {
		vh.Assume(s[i] < 128)
	}
	args := []string{s}
	if vh.Choice(2) == 1 {
		args = append(args, "k")
	}
	kit.Do(args...).Err("a command that is not supported")
	kit.Do("exists", "k").Int(0, "EXISTS after an unknown command")
	vh.Reach("end")
}

// Junk: arbitrary bytes as arguments.
func Junk() {
	i := vh.Choice(len(kit.Cmds) + len(kit.Plain))
	name := ""
	if i < len(kit.Cmds) {
		name = kit.Cmds[i].Name
	} else {
		name = kit.Plain[i-len(kit.Cmds)]
		if name == "keys" {
			return
		}
	}
	args := []string{name, "k"}
	n := vh.Choice(3)
	for j := 0; j < n; j++ {
		args = append(args, vh.StrIn(vh.Choice(2)*2, 0x28, 0x3a))
	}
	kit.Do(args...)
	r := kit.Do("ping")
	vh.Assert(r.K == '+' && r.S == "PONG", "the server does not answer PING any more")
	vh.Reach("alive")
}
