package main

import (
	"os"

	zzgen "github.com/yusank/godis/cmd/gen_redis_cmd/zzgen"
	"github.com/yusank/godis/zzverif/kit"
	"github.com/yusank/godis/zzverif/vh"
	"github.com/yusank/godis/zzverif/zzsrc"
)

type pair struct{ name, fn string }

const rest = "(c *Command) (*protocol.Response, error) {"

func letter() string {
	c := vh.Byte()
	vh.Assume(vh.Or(vh.And(c >= 'a', c <= 'z'), vh.And(c >= 'A', c <= 'Z')))
	return string([]byte{c})
}

func word(n int) (s string) {
	for i := 0; i < n; i++ {
		s += letter()
	}
	return s
}

func lower(s string) string {
	b := []byte(s)
	for i, c := range b {
		b[i] = byte(vh.IteInt(vh.And(c >= 'A', c <= 'Z'), int(c)+32, int(c)))
	}
	return string(b)
}

// dir is a scratch directory; how chooses its name.
func dir(names ...string) string {
	d, err := os.MkdirTemp("", "zz")
	if err != nil {
		vh.Assume(false)
	}
	for _, n := range names {
		d += "/" + n
		if os.Mkdir(d, 0o755) != nil {
			vh.Assume(false)
		}
	}
	return d
}

// generate runs the generator on the file and tells whether it said that it failed.
func generate(path string) (failed bool) {
	defer func() {
		if r := recover(); r != nil {
			code, exit := r.(zzgen.ZzExit)
			failed = !exit || code != 0
		}
	}()
	args := os.Args
	defer func() { os.Args = args }()
	os.Args = []string{"gen_redis_cmd", path}
	zzgen.ZzMain()
	return false
}

func put(path, text string) {
	if os.WriteFile(path, []byte(text), 0o644) != nil {
		vh.Assume(false)
	}
}

func isSpace(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

func isIdent(c byte) bool {
	return vh.Or(vh.Or(vh.And(c >= 'a', c <= 'z'), vh.And(c >= 'A', c <= 'Z')), vh.Or(vh.And(c >= '0', c <= '9'), c == '_'))
}

// parse is what a generated file registers: every string with the identifier after it.
func parse(s string) (ps []pair) {
	depth, name, have := 0, "", false
	first := ""
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case isSpace(c):
			i++
		case c == '/' && i+1 < len(s) && s[i+1] == '/':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case c == '"' || c == '`':
			j := i + 1
			for j < len(s) && s[j] != c && s[j] != '\n' {
				j++
			}
			vh.Assert(j < len(s) && s[j] == c, "the generated file has an unfinished string")
			name, have = s[i+1:j], true
			i = j + 1
		case isIdent(c):
			j := i
			for j < len(s) && isIdent(s[j]) {
				j++
			}
			if first == "" {
				first = s[i:j]
			} else if first == "package" {
				first = s[i:j]
			}
			if have {
				ps = append(ps, pair{name, s[i:j]})
				have = false
			}
			i = j
		default:
			switch c {
			case '(', '{', '[':
				depth++
			case ')', '}', ']':
				depth--
			}
			i++
		}
	}
	vh.Assert(depth == 0 && first == "redis", "the generated file is not a source file of the command package")
	return ps
}

func same(got, want []pair, what string) {
	vh.ObsInt("registered", int64(len(got)))
	for _, p := range got {
		vh.ObsStr("name", p.name)
		vh.ObsStr("function", p.fn)
	}
	vh.Assert(len(got) >= len(want), what+": a command function is not registered")
	vh.Assert(len(got) <= len(want), what+": something is registered that is not a command function, or twice")
	used := make([]bool, len(got))
	for _, w := range want {
		found := false
		for i, p := range got {
			if !used[i] && len(p.name) == len(w.name) && len(p.fn) == len(w.fn) && vh.And(vh.StrEq(p.name, w.name), vh.StrEq(p.fn, w.fn)) {
				used[i], found = true, true
				break
			}
		}
		vh.Assert(found, what+": a command function is not registered under its name")
	}
}

// run generates from the text and compares what is registered.
func run(text string, want []pair, what string) {
	d := dir()
	defer os.RemoveAll(d)
	put(d+"/x.go", text)
	failed := generate(d + "/x.go")
	vh.Assert(!failed, what+": the generator failed")
	b, err := os.ReadFile(d + "/x.cmd.go")
	vh.Assert(err == nil, what+": no file was generated")
	same(parse(string(b)), want, what)
	src, err := os.ReadFile(d + "/x.go")
	vh.Assert(err == nil && vh.StrEq(string(src), text), what+": the source file was changed")
}

const head = "package redis\n\nimport (\n\t\"github.com/yusank/godis/protocol\"\n)\n\n//go:generate gen_redis_cmd \"./x.go\"\n\n"
const body = "\n\treturn nil, nil\n}\n"

// comments of a command function; % is the name.
var comments = []string{"// % .\n", "// %\n", "// %.\n", "//%\n", "//  %  \n", "// the command\n// % .\n", "\t// % .\n", "// % .\t\n"}

func fill(s, v string) (r string) {
	for i := 0; i < len(s); i++ {
		if s[i] == '%' {
			r += v
		} else {
			r += s[i : i+1]
		}
	}
	return r
}

// command is a command function with its comment, of n letters each.
func command(n int) (string, pair) {
	fn := word(n)
	if k := vh.Choice(len(comments) + 1); k > 0 {
		name := word(n)
		return fill(comments[k-1], name) + "func " + fn + rest + body, pair{lower(name), fn}
	}
	return "func " + fn + rest + body, pair{lower(fn), fn}
}

// One: a file of one command function with any name and any comment.
func One() {
	s, p := command(1 + vh.Choice(3))
	run(head+s, []pair{p}, "one function")
}

// other declarations that may stand between the command functions.
var between = []string{
	"",
	"\n",
	"\nfunc helper(c *Command) error {\n\treturn nil\n}\n\n",
	"\n// isPair .\nfunc isPair(n int) (*protocol.Response, error) {\n\treturn nil, nil\n}\n\n",
	"\nvar x = func(c *Command) (*protocol.Response, error) { return nil, nil }\n\n",
	"\ntype t struct{}\n\n// run .\nfunc (t) run(c *Command) (*protocol.Response, error) {\n\treturn nil, nil\n}\n\n",
	"\n// helper .\n\n",
}

// Several: a file of several command functions, with other declarations between them.
func Several() {
	n := 2
	if vh.Thorough() {
		n = 3
	}
	s := head
	var want []pair
	for i := 0; i < n; i++ {
		if i > 0 {
			s += between[vh.Choice(len(between))]
		}
		fn := "f" + string([]byte{'a' + byte(i)}) + word(1)
		name := lower(fn)
		if vh.Choice(2) == 1 {
			w := "c" + word(1) + string([]byte{'a' + byte(i)})
			name = lower(w)
			s += "// " + w + " .\n"
		}
		s += "func " + fn + rest + body
		want = append(want, pair{name, fn})
	}
	if vh.Choice(2) == 1 {
		s = fill(crlf(s), "%")
	}
	run(s, want, "several functions")
}

func crlf(s string) string {
	r := ""
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			r += "\r"
		}
		r += s[i : i+1]
	}
	return r
}

// Identifier: names of every letter, digit and underscore.
func Identifier() {
	a := word(1)
	c, e := vh.Byte(), vh.Byte()
	vh.Assume(isIdent(c))
	vh.Assume(isIdent(e))
	fn := a + string([]byte{c, e})
	run(head+"// get .\nfunc "+fn+rest+body, []pair{{"get", fn}}, "any identifier")
}

// shapes of command functions.
var shapes = []string{
	"func %(c *Command) (*protocol.Response, error) {",
	"func %(cmd *Command) (*protocol.Response, error) {",
	"func %(_ *Command) (*protocol.Response, error) {",
	"func %(c *Command) (rsp *protocol.Response, err error) {",
	"func %(c *Command) (*protocol.Response, error) { // as redis does",
	"func %(c *Command) (*protocol.Response, error) { return nil, nil }",
}

// Shape: the ways a command function can be declared.
func Shape() {
	s := shapes[vh.Choice(len(shapes))]
	fn := word(2)
	want := []pair{{lower(fn), fn}}
	if s[len(s)-1] != '}' {
		s += body
	}
	run(head+fill(s, fn)+"\n", want, "declared as usual")
}

// lines that declare no command function, before and after the one that does.
var others = []string{
	"// func old(c *Command) (*protocol.Response, error) {\n",
	"/*\nfunc old(c *Command) (*protocol.Response, error) {\n}\n*/\n",
	"// x is func old(c *Command) (*protocol.Response, error)\nvar x = 1\n",
	"type fn = func(c *Command) (*protocol.Response, error)\n",
	"func old(c Command) (*protocol.Response, error) {\n\treturn nil, nil\n}\n",
	"func old(c *Command, n int) (*protocol.Response, error) {\n\treturn nil, nil\n}\n",
	"func old(c *Command) *protocol.Response {\n\treturn nil\n}\n",
	"func (s *set) old(c *Command) (*protocol.Response, error) {\n\treturn nil, nil\n}\n",
}

func Others() {
	k := vh.Choice(len(others))
	fn := word(1)
	s := "// get .\nfunc " + fn + rest + body
	if vh.Choice(2) == 0 {
		s = others[k] + "\n" + s
	} else {
		s += "\n" + others[k]
	}
	run(head+s, []pair{{"get", fn}}, "beside other declarations")
}

// Unnamed: what stands right before the function is not a comment with a name.
func Unnamed() {
	fn := word(2)
	before := []string{"}\n", ")\n", "var x = 1\n", "//\n", "// .\n", "//go:noinline\n", "//nolint:dupl\n", "*/\n"}
	pre := []string{"func f() {\n", "var (\n", "", "", "", "", "", "/*\n"}
	k := vh.Choice(len(before))
	run(head+pre[k]+before[k]+"func "+fn+rest+body, []pair{{lower(fn), fn}}, "without a named comment")
}

// Before: any line that is no comment before the function.
func Before() {
	n := vh.Choice(4)
	if vh.Thorough() {
		n = vh.Choice(6)
	}
	l := vh.StrIn(n, ' ', '~')
	for i := 0; i < n; i++ {
		vh.Assume(l[i] != '/')
	}
	fn := word(1)
	run(head+l+"\nfunc "+fn+rest+body, []pair{{lower(fn), fn}}, "after any line")
}

// None: a file without command functions.
func None() {
	k := vh.Choice(len(others) + 1)
	s := head
	if k > 0 {
		s += others[k-1]
	}
	run(s+"func "+word(2)+"(n int) error {\n\treturn nil\n}\n", nil, "no command functions")
}

// Paths: files in directories of any names; files that are no command sources.
func Paths() {
	dirs := [][]string{{}, {"a.go"}, {"x.gopath", "redis"}, {"my.golang"}, {"a.cmd.go"}}
	d := dir(dirs[vh.Choice(len(dirs))]...)
	defer os.RemoveAll(d)
	names := []string{"list.go", "a.b.go", "go.go", "list.gob.go", ".go.go"}
	outs := []string{"list.cmd.go", "a.b.cmd.go", "go.cmd.go", "list.gob.cmd.go", ".go.cmd.go"}
	k := vh.Choice(len(names))
	fn := word(1)
	put(d+"/"+names[k], head+"// get .\nfunc "+fn+rest+body)
	if vh.Choice(2) == 1 {
		put(d+"/"+outs[k], "package redis\n\nfunc init() {\n\timplementedCommands[\"old\"] = old\n\timplementedCommands[\"older\"] = older\n\timplementedCommands[\"oldest\"] = oldest\n}\n")
	}
	failed := generate(d + "/" + names[k])
	vh.Assert(!failed, "the generator failed")
	b, err := os.ReadFile(d + "/" + outs[k])
	vh.Assert(err == nil, "no file was generated beside the source")
	same(parse(string(b)), []pair{{"get", fn}}, "in a directory of that name")
}

// Foreign: a file that is no command source is left alone.
func Foreign() {
	d := dir()
	defer os.RemoveAll(d)
	names := []string{"README.md", "list.cmd.go", "list.go.txt", "Makefile"}
	k := vh.Choice(len(names))
	text := "implementedCommands[\"a\"] = " + word(2) + "\n"
	put(d+"/"+names[k], text)
	failed := generate(d + "/" + names[k])
	vh.ObsInt("failed", map[bool]int64{true: 1}[failed])
	b, err := os.ReadFile(d + "/" + names[k])
	vh.Assert(err == nil && vh.StrEq(string(b), text), "a file that is not a command source was overwritten")
}

// Long: a very long line neither hides the functions after it nor passes unnoticed.
func Long() {
	n := []int{65535, 65536, 70000}[vh.Choice(3)]
	fn := word(1)
	line := make([]byte, n)
	for i := range line {
		line[i] = 'x'
	}
	line[0], line[1] = '/', '/'
	d := dir()
	defer os.RemoveAll(d)
	put(d+"/x.go", head+string(line)+"\n\n// get .\nfunc "+fn+rest+body)
	if generate(d + "/x.go") {
		vh.ObsInt("failed", 1)
		return
	}
	b, err := os.ReadFile(d + "/x.cmd.go")
	vh.Assert(err == nil, "no file was generated")
	same(parse(string(b)), []pair{{"get", fn}}, "after a long line")
}

// Table: the generator run on the sources of this tree gives the table of this tree.
func Table() {
	var table, made []pair
	d := dir()
	defer os.RemoveAll(d)
	for _, f := range zzsrc.Files {
		if len(f.Name) > 7 && f.Name[len(f.Name)-7:] == ".cmd.go" {
			table = append(table, parse(f.Text)...)
			continue
		}
		p := d + "/" + f.Name
		put(p, f.Text)
		vh.Assert(!generate(p), "the generator failed on "+f.Name)
		b, err := os.ReadFile(p[:len(p)-3] + ".cmd.go")
		vh.Assert(err == nil, "no file was generated for "+f.Name)
		made = append(made, parse(string(b))...)
	}
	vh.ObsInt("table", int64(len(table)))
	ids := map[string]int{}
	for _, p := range append(append([]pair{}, table...), made...) {
		if ids[p.fn] == 0 {
			ids[p.fn] = len(ids) + 1
		}
	}
	// any name of up to 16 letters
	n := 1 + vh.Choice(16)
	q := vh.StrIn(n, 'a', 'z')
	look := func(ps []pair) (id, count int) {
		for _, p := range ps {
			if len(p.name) == n {
				is := vh.StrEq(p.name, q)
				id = vh.IteInt(is, ids[p.fn], id)
				count += vh.IteInt(is, 1, 0)
			}
		}
		return
	}
	tf, times := look(table)
	mf, _ := look(made)
	vh.Assert(times <= 1, "a command is registered twice")
	vh.Assert(vh.Or(vh.Or(tf == 0, mf == 0), tf == mf), "a command is registered with another function than its own")
}

// Commands: every command there is, in any letter case, is not an unknown one.
func Commands() {
	n := vh.Choice(len(docs))
	b := []byte(docs[n])
	for i := range b {
		if i < 3 {
			b[i] = byte(vh.IteInt(vh.Bool(), int(b[i])-32, int(b[i])))
		}
	}
	unknown := kit.Do("nosuchcommand")
	rep := kit.Do(string(b))
	vh.ObsStr("reply", rep.S)
	vh.Assert(unknown.K == '-', "an unknown command was not refused")
	vh.Assert(rep.K != '-' || rep.S != unknown.S, "the implemented command "+docs[n]+" is not registered")
}

// the commands of the documentation and the table.
var docs = []string{"append", "command", "decr", "decrby", "del", "exists", "get", "hdel", "hexists", "hget", "hgetall", "hincrby", "hincrbyfloat",
	"hkeys", "hlen", "hmget", "hmset", "hset", "hsetnx", "hvals", "incr", "incrby", "keys", "lindex", "linsert", "llen", "lpop", "lpush", "lrange",
	"lrem", "lset", "mget", "mset", "ping", "rpop", "rpush", "sadd", "scard", "sdiff", "sdiffstore", "set", "sinter", "sinterstore", "sismember",
	"smembers", "smove", "spop", "srem", "sunion", "sunionstore", "type", "zadd", "zcard", "zcount", "zincr", "zpopmax", "zpopmin", "zrange",
	"zrangebyscore", "zrank", "zrem", "zrevrange", "zscore"}
