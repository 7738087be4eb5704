package main

import (
	"strconv"

	"github.com/yusank/godis/zzverif/kit"
	"github.com/yusank/godis/zzverif/vh"
)

// The requests; K and a digit is a key, to which the name of the world it runs in is added; # is an
// arbitrary 64-bit number, @ an arbitrary byte.
var reqs = [][]string{
	{"incr", "K1"}, {"incrby", "K1", "#"}, {"append", "K1", "@"}, {"set", "K1", "@"}, {"get", "K1"}, {"del", "K1"}, {"mset", "K1", "@", "K2", "5"}, {"mget", "K1", "K2"},
	{"rpush", "K3", "@", "b"}, {"lpop", "K3"}, {"lrange", "K3", "0", "-1"}, {"linsert", "K3", "before", "x", "@"},
	{"sadd", "K4", "@"}, {"smove", "K4", "K5", "x"}, {"sunionstore", "K4", "K4", "K5"}, {"srem", "K4", "@"},
	{"hset", "K6", "f", "@"}, {"hincrby", "K6", "f", "#"}, {"hdel", "K6", "f"}, {"hgetall", "K6"},
	{"zadd", "K7", "1", "@"}, {"zincr", "K7", "2", "m"}, {"zpopmin", "K7"}, {"zrange", "K7", "0", "-1", "withscores"},
	{"nosuch"}, {"ping"},
}

// pick is a request with its data made up.
func pick(i int, any bool) []string {
	l := append([]string(nil), reqs[i]...)
	for k, a := range l {
		if a == "#" {
			l[k] = "5"
			if any {
				l[k] = strconv.FormatInt(vh.I64(), 10)
			}
		}
		if a == "@" {
			l[k] = []string{"7", "x", "y"}[i%3]
			if any {
				l[k] = vh.Str(1)
			}
		}
	}
	return l
}

func inWorld(req []string, w string) []string {
	l := append([]string(nil), req...)
	for i, a := range l {
		if len(a) == 2 && a[0] == 'K' {
			l[i] = w + a
		}
	}
	return l
}

func uses(rs [][]string, k string) bool {
	for _, r := range rs {
		for _, a := range r {
			if a == k {
				return true
			}
		}
	}
	return false
}

func prepare(w string, rs [][]string) {
	for _, c := range [][]string{{"set", "K1", "3"}, {"rpush", "K3", "x", "y"}, {"sadd", "K4", "x"}, {"sadd", "K5", "y"}, {"hset", "K6", "f", "1"}, {"zadd", "K7", "5", "m", "6", "n"}} {
		if uses(rs, c[1]) {
			kit.Do(inWorld(c, w)...)
		}
	}
}

// state is all there is to see of a world.
func state(w string, rs [][]string) (l []kit.Rep) {
	for _, c := range [][]string{{"get", "K1"}, {"get", "K2"}, {"lrange", "K3", "0", "-1"}, {"scard", "K4"}, {"sismember", "K4", "x"}, {"sismember", "K4", "y"}, {"scard", "K5"},
		{"sismember", "K5", "x"}, {"hget", "K6", "f"}, {"hlen", "K6"}, {"zrange", "K7", "0", "-1", "withscores"}} {
		if uses(rs, c[1]) {
			l = append(l, kit.Do(inWorld(c, w)...))
		}
	}
	return l
}

// perms are the orders of n requests.
func perms(n int) [][]int {
	if n == 1 {
		return [][]int{{0}}
	}
	if n == 2 {
		return [][]int{{0, 1}, {1, 0}}
	}
	return [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
}

// together runs the requests from different goroutines under every schedule with the given number
// of preemptions; replies and final state must be those of some order of the requests.
func together(rs [][]string, full bool, sched int) {
	if full {
		prepare("w", rs)
	}
	got := make([][]byte, len(rs))
	done := make([]chan bool, len(rs))
	for i := range rs {
		done[i] = make(chan bool)
	}
	vh.Race()
	vh.Sched(sched)
	for i := 1; i < len(rs); i++ {
		go func(i int) {
			got[i] = kit.Raw(inWorld(rs[i], "w")...)
			done[i] <- true
		}(i)
	}
	got[0] = kit.Raw(inWorld(rs[0], "w")...)
	for i := 1; i < len(rs); i++ {
		<-done[i]
	}
	vh.Sched(0)
	check(rs, got, perms(len(rs)), full)
}

// unordered brings replies that list something in no particular order into one; of KEYS only the number counts.
func unordered(req []string, r kit.Rep) kit.Rep {
	switch req[0] {
	case "keys":
		return kit.Rep{K: r.K, N: int64(len(r.A))}
	case "smembers", "sdiff", "sinter", "sunion", "hkeys", "hvals":
		for i := range r.A {
			for j := i; j > 0 && vh.StrLess(r.A[j].S, r.A[j-1].S); j-- {
				r.A[j], r.A[j-1] = r.A[j-1], r.A[j]
			}
		}
	}
	return r
}

// check compares replies and state with those of the requests run one after another in each of the orders.
func check(rs [][]string, got [][]byte, orders [][]int, full bool) {
	var rep []kit.Rep
	for _, b := range got {
		r, ok := kit.ParseAll(b)
		vh.Assert(ok, "a concurrent request did not get exactly one reply")
		rep = append(rep, unordered(rs[len(rep)], r))
	}
	st := state("w", rs)
	any := false
	for i, p := range orders {
		w := string(rune('a' + i))
		if full {
			prepare(w, rs)
		}
		one := make([]kit.Rep, len(rs))
		for _, j := range p {
			one[j] = unordered(rs[j], kit.Do(inWorld(rs[j], w)...))
		}
		if kit.Same(one, rep) && kit.Same(state(w, rs), st) {
			any = true
			break
		}
	}
	vh.Assert(any, "replies and state of concurrent requests are those of no order of the requests")
	vh.Reach("end")
}

// Two requests at a time.
func Two() {
	i := vh.Choice(len(reqs))
	j := vh.Choice(len(reqs))
	if j < i {
		return
	}
	full := vh.Choice(2) == 1
	together([][]string{pick(i, false), pick(j, false)}, full, 60)
}

// Data: pairs with arbitrary data, on the filled keyspace.
func Data() {
	pairs := [][2]int{{0, 1}, {1, 1}, {1, 3}, {2, 2}, {2, 4}, {3, 4}, {6, 7}, {3, 6}, {8, 9}, {8, 10}, {11, 9}, {12, 15}, {12, 12}, {13, 12}, {14, 12}, {15, 13}, {16, 17}, {17, 17}, {17, 19}, {18, 16}, {20, 21}, {20, 22}, {20, 23}}
	p := pairs[vh.Choice(len(pairs))]
	together([][]string{pick(p[0], true), pick(p[1], true)}, true, 60)
}

// Three requests at a time.
func Three() {
	sets := [][3]int{{0, 0, 0}, {0, 2, 4}, {6, 7, 1}, {8, 9, 10}, {9, 11, 8}, {13, 15, 12}, {14, 13, 12}, {16, 17, 18}, {19, 17, 16}, {20, 21, 22}, {23, 22, 20}, {3, 5, 0}, {0, 9, 21}, {24, 25, 4}}
	p := sets[vh.Choice(len(sets))]
	l := [][]string{pick(p[0], false), pick(p[1], false), pick(p[2], false)}
	if vh.Thorough() {
		together(l, vh.Choice(2) == 1, 60)
		return
	}
	together(l, true, 60)
}

// Mixed: any two requests of one kind of value and any third one from another goroutine (thorough).
func Mixed() {
	if !vh.Thorough() {
		return
	}
	i := vh.Choice(len(reqs))
	j := vh.Choice(len(reqs))
	k := []int{0, 6, 9, 13, 17, 21}[vh.Choice(6)]
	if j < i || k < j {
		return
	}
	together([][]string{pick(i, false), pick(j, false), pick(k, false)}, true, 60)
}

// Sequence: one client sends two requests one after the other while another sends one; each client's
// own order counts, and every reply belongs to its request.
func Sequence() {
	sets := [][3]int{{0, 4, 3}, {2, 4, 0}, {4, 4, 6}, {8, 9, 9}, {9, 10, 8}, {13, 12, 15}, {16, 19, 17}, {20, 23, 22}, {22, 23, 21}, {5, 4, 0}}
	p := sets[vh.Choice(len(sets))]
	rs := [][]string{pick(p[0], false), pick(p[1], false), pick(p[2], false)}
	prepare("w", rs)
	var one, two, other []byte
	done := make(chan bool)
	vh.Race()
	vh.Sched(60)
	go func() {
		other = kit.Raw(inWorld(rs[2], "w")...)
		done <- true
	}()
	one = kit.Raw(inWorld(rs[0], "w")...)
	two = kit.Raw(inWorld(rs[1], "w")...)
	<-done
	vh.Sched(0)
	check(rs, [][]byte{one, two, other}, [][]int{{0, 1, 2}, {0, 2, 1}, {2, 0, 1}}, true)
}

// Bytes: two clients with arbitrary data each get their own.
func Bytes() {
	a, b := vh.Str(1), vh.Str(1)
	kit.Do("set", "p", a)
	kit.Do("set", "q", b)
	var x, y []byte
	done := make(chan bool)
	vh.Race()
	vh.Sched(60)
	go func() {
		x = kit.Raw("get", "p")
		done <- true
	}()
	y = kit.Raw("get", "q")
	<-done
	vh.Sched(0)
	r, ok := kit.ParseAll(x)
	vh.Assert(ok, "a concurrent request did not get exactly one reply")
	r.Bulk(a, "concurrent GET")
	r, ok = kit.ParseAll(y)
	vh.Assert(ok, "a concurrent request did not get exactly one reply")
	r.Bulk(b, "concurrent GET")
	vh.Reach("end")
}

// Slow: the request timeout may expire at any moment. Every request still gets exactly one reply:
// its own or an error, and it is executed at most once (and was, if the reply is its own).
func Slow() {
	n := 1 + vh.Choice(2)
	by := vh.I64()
	vh.Assume(by > 0 && by < 1000)
	amount := strconv.FormatInt(by, 10)
	got := make([][]byte, n)
	done := make(chan bool)
	vh.Race()
	vh.Sched(60)
	vh.Clock(1)
	for i := 1; i < n; i++ {
		go func(i int) {
			got[i] = kit.Raw("incrby", "c", amount)
			done <- true
		}(i)
	}
	got[0] = kit.Raw("incrby", "c", amount)
	for i := 1; i < n; i++ {
		<-done
	}
	vh.Clock(0)
	vh.Sched(0)
	sure := int64(0)
	for _, b := range got {
		r, ok := kit.ParseAll(b)
		vh.Assert(ok, "a request that timed out did not get exactly one reply")
		if !r.IsErr() {
			vh.Assert(r.K == ':' && (r.N == by || n == 2 && r.N == 2*by), "reply of an increment")
			sure++
		}
	}
	vh.Quiesce()
	r := kit.Do("get", "c")
	ran := int64(0)
	for k := int64(1); k <= int64(n); k++ {
		if r.S == strconv.FormatInt(by*k, 10) {
			ran = k
		}
	}
	vh.Assert(ran > 0 || r.IsNil(), "counter after requests that timed out")
	vh.Assert(ran >= sure, "a request answered as executed was not")
	vh.Reach("end")
}

// each is every command not in reqs, with two writers it meets.
var each = []struct {
	req  []string
	with [2]int
}{
	{[]string{"exists", "K1"}, [2]int{3, 5}}, {[]string{"type", "K1"}, [2]int{3, 5}}, {[]string{"keys", "K1"}, [2]int{3, 5}}, {[]string{"decr", "K1"}, [2]int{0, 2}}, {[]string{"decrby", "K1", "9"}, [2]int{0, 6}},
	{[]string{"mset", "K2", "4", "K1", "6"}, [2]int{6, 7}},
	{[]string{"lpush", "K3", "p", "q"}, [2]int{8, 9}}, {[]string{"rpop", "K3"}, [2]int{8, 9}}, {[]string{"rpop", "K3", "2"}, [2]int{8, 11}}, {[]string{"llen", "K3"}, [2]int{8, 9}}, {[]string{"lindex", "K3", "-1"}, [2]int{8, 9}},
	{[]string{"lset", "K3", "0", "n"}, [2]int{9, 11}}, {[]string{"lrem", "K3", "0", "x"}, [2]int{8, 11}}, {[]string{"exists", "K3"}, [2]int{8, 9}},
	{[]string{"scard", "K4"}, [2]int{12, 13}}, {[]string{"sismember", "K4", "x"}, [2]int{12, 13}}, {[]string{"smembers", "K4"}, [2]int{13, 12}}, {[]string{"spop", "K5"}, [2]int{13, 14}}, {[]string{"spop", "K5", "3"}, [2]int{14, 14}},
	{[]string{"sdiff", "K5", "K4"}, [2]int{12, 13}}, {[]string{"sinter", "K5", "K4"}, [2]int{13, 14}}, {[]string{"sunion", "K5", "K4"}, [2]int{13, 15}},
	{[]string{"sdiffstore", "K4", "K5", "K4"}, [2]int{13, 14}}, {[]string{"sinterstore", "K5", "K4"}, [2]int{13, 12}}, {[]string{"smove", "K5", "K4", "y"}, [2]int{13, 14}},
	{[]string{"hsetnx", "K6", "f", "n"}, [2]int{16, 18}}, {[]string{"hmset", "K6", "f", "2", "g", "3"}, [2]int{17, 19}}, {[]string{"hget", "K6", "f"}, [2]int{17, 18}}, {[]string{"hmget", "K6", "f", "g"}, [2]int{16, 18}}, {[]string{"hkeys", "K6"}, [2]int{16, 18}},
	{[]string{"hvals", "K6"}, [2]int{17, 18}}, {[]string{"hlen", "K6"}, [2]int{16, 18}}, {[]string{"hexists", "K6", "f"}, [2]int{16, 18}}, {[]string{"hincrbyfloat", "K6", "f", "0.5"}, [2]int{17, 18}},
	{[]string{"zcard", "K7"}, [2]int{20, 22}}, {[]string{"zscore", "K7", "m"}, [2]int{21, 22}}, {[]string{"zrank", "K7", "n"}, [2]int{21, 22}}, {[]string{"zcount", "K7", "0", "9"}, [2]int{20, 22}}, {[]string{"zrangebyscore", "K7", "0", "9"}, [2]int{21, 22}},
	{[]string{"zrevrange", "K7", "0", "-1"}, [2]int{21, 22}}, {[]string{"zrem", "K7", "m"}, [2]int{21, 20}}, {[]string{"zpopmax", "K7", "2"}, [2]int{20, 22}}, {[]string{"exists", "K7"}, [2]int{20, 22}},
}

// Each other command beside a writer of its key.
func Each() {
	e := each[vh.Choice(len(each))]
	rs := [][]string{e.req, pick(e.with[vh.Choice(2)], false)}
	if vh.Thorough() && vh.Choice(2) == 1 {
		rs = append(rs, pick(e.with[0], false))
	}
	together(rs, vh.Choice(2) == 1, 60)
}
