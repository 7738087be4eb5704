package main

import (
	"github.com/yusank/godis/zzverif/kit"
	"github.com/yusank/godis/zzverif/vh"
)

func empty(r kit.Rep, what string) {
	vh.Assert(r.IsNil() || r.K == '*' && len(r.A) == 0, what+" of an emptied key")
}

// gone asserts that key does not exist and can be reused with any kind.
func gone(key string) {
	kit.Do("exists", key).Int(0, "EXISTS of an emptied key")
	t := kit.Do("type", key)
	vh.Assert(t.K == '+' && t.S == "none", "TYPE of an emptied key")
	for _, e := range kit.Do("keys", "*").A {
		vh.Assert(e.S != key, "KEYS lists an emptied key")
	}
	kit.Do("llen", key).Int(0, "LLEN of an emptied key")
	empty(kit.Do("lrange", key, "0", "-1"), "LRANGE")
	kit.Do("scard", key).Int(0, "SCARD of an emptied key")
	empty(kit.Do("smembers", key), "SMEMBERS")
	kit.Do("hlen", key).Int(0, "HLEN of an emptied key")
	empty(kit.Do("hgetall", key), "HGETALL")
	kit.Do("zcard", key).Int(0, "ZCARD of an emptied key")
	empty(kit.Do("zrange", key, "0", "-1"), "ZRANGE")
	kit.Do("get", key).Nil("GET of an emptied key")
	kit.Do("exists", key).Int(0, "EXISTS after reads")
	v := "v"
	switch vh.Choice(8) {
	case 0:
		kit.Do("append", key, v).Int(1, "APPEND to an emptied key")
		kit.Do("get", key).Bulk(v, "GET of the reused key")
	case 1:
		kit.Do("incr", key).Int(1, "INCR of an emptied key")
	case 2:
		kit.Do("rpush", key, v).Int(1, "RPUSH to an emptied key")
		kit.Do("lrange", key, "0", "-1").List([]string{v}, "LRANGE of the reused key")
	case 3:
		kit.Do("sadd", key, v).Int(1, "SADD to an emptied key")
		kit.Do("smembers", key).Set([]string{v}, "SMEMBERS of the reused key")
	case 4:
		kit.Do("hset", key, v, "x").Ok("HSET to an emptied key")
		kit.Do("hlen", key).Int(1, "HLEN of the reused key")
		kit.Do("hget", key, v).Bulk("x", "HGET of the reused key")
	case 5:
		kit.Do("hincrby", key, v, "7").Int(7, "HINCRBY of an emptied key")
		kit.Do("hlen", key).Int(1, "HLEN of the reused key")
	case 6:
		kit.Do("zadd", key, "1", v).Ok("ZADD to an emptied key")
		kit.Do("zcard", key).Int(1, "ZCARD of the reused key")
	case 7:
		kit.Do("set", key, v).Ok("SET of an emptied key")
		kit.Do("get", key).Bulk(v, "GET of the reused key")
	}
	kit.Do("exists", key).Int(1, "EXISTS of the reused key")
	vh.Reach("reused")
}

// values are n arbitrary different values.
func values(n int) (l []string) {
	for i := 0; i < n; i++ {
		s := kit.Pick("v", "w", "W")
		for _, o := range l {
			vh.Assume(s != o)
		}
		l = append(l, s)
	}
	return l
}

func cat(a []string, b ...string) []string { return append(append([]string(nil), a...), b...) }

// List: emptied by pops, counted pops and removals by value.
func List() {
	n := vh.Choice(2) + 1
	v := vh.Str(1)
	var vs []string
	for i := 0; i < n; i++ {
		vs = append(vs, v)
	}
	kit.Do(cat([]string{"rpush", "k"}, vs...)...).Int(int64(n), "RPUSH")
	pop := []string{"lpop", "rpop"}[vh.Choice(2)]
	switch vh.Choice(5) {
	case 0:
		for i := 0; i < n; i++ {
			kit.Do(pop, "k").Ok("pop")
		}
	case 1:
		c := vh.I64()
		vh.Assume(vh.And(c >= int64(n), c <= 9))
		kit.Do(pop, "k", kit.I64(c)).Ok("pop")
	case 2:
		kit.Do("lrem", "k", "0", v).Int(int64(n), "LREM")
	case 3:
		kit.Do("lrem", "k", "9", v).Int(int64(n), "LREM")
	case 4:
		kit.Do("lrem", "k", "-9", v).Int(int64(n), "LREM")
	}
	gone("k")
}

// Set: emptied by removals, pops and moves.
func Set() {
	vs := values(vh.Choice(2) + 1)
	n := int64(len(vs))
	kit.Do(cat([]string{"sadd", "k"}, vs...)...).Int(n, "SADD")
	switch vh.Choice(5) {
	case 0:
		kit.Do(cat([]string{"srem", "k"}, vs...)...).Int(n, "SREM")
	case 1:
		for _, v := range vs {
			kit.Do("srem", "k", v).Int(1, "SREM")
		}
	case 2:
		for range vs {
			kit.Do("spop", "k").Ok("SPOP")
		}
	case 3:
		c := vh.I64()
		vh.Assume(vh.And(c >= n, c <= 9))
		kit.Do("spop", "k", kit.I64(c)).Ok("SPOP")
	case 4:
		for _, v := range vs {
			kit.Do("smove", "k", "other", v).Ok("SMOVE")
		}
		kit.Do("scard", "other").Int(n, "SCARD of the destination")
	}
	gone("k")
}

// Hash: emptied by field deletions.
func Hash() {
	vs := values(vh.Choice(2) + 1)
	for i, v := range vs {
		switch vh.Choice(4) {
		case 0:
			kit.Do("hset", "k", v, kit.Itoa(i)).Ok("HSET")
		case 1:
			kit.Do("hmset", "k", v, "x").Ok("HMSET")
		case 2:
			kit.Do("hsetnx", "k", v, "1.5").Ok("HSETNX")
		case 3:
			kit.Do("hincrby", "k", v, "3").Ok("HINCRBY")
		}
	}
	if vh.Choice(2) == 0 {
		kit.Do(cat([]string{"hdel", "k"}, vs...)...).Int(int64(len(vs)), "HDEL")
	} else {
		for _, v := range vs {
			kit.Do("hdel", "k", v).Int(1, "HDEL")
		}
	}
	gone("k")
}

// ZSet: emptied by removals and pops.
func ZSet() {
	vs := values(vh.Choice(2) + 1)
	for _, v := range vs {
		vh.RandBudget(1)
		if vh.Choice(2) == 0 {
			kit.Do("zadd", "k", kit.FText(kit.Score(true)), v).Ok("ZADD")
		} else {
			kit.Do("zincr", "k", "2", v).Ok("ZINCR")
		}
	}
	n := int64(len(vs))
	pop := []string{"zpopmin", "zpopmax"}[vh.Choice(2)]
	switch vh.Choice(4) {
	case 0:
		for range vs {
			kit.Do(pop, "k").Ok("pop")
		}
	case 1:
		c := vh.I64()
		vh.Assume(vh.And(c >= n, c <= 9))
		kit.Do(pop, "k", kit.I64(c)).Ok("pop")
	case 2:
		kit.Do(cat([]string{"zrem", "k"}, vs...)...).Int(n, "ZREM")
	case 3:
		for _, v := range vs {
			kit.Do("zrem", "k", v).Int(1, "ZREM")
		}
	}
	gone("k")
}

// Stored: an empty result of set algebra leaves no destination, whatever was there.
func Stored() {
	v := values(2)
	kit.Do("sadd", "a", v[0]).Int(1, "SADD")
	kit.Do("sadd", "b", v[1]).Int(1, "SADD")
	switch vh.Choice(6) {
	case 1:
		kit.Do("set", "k", "x")
	case 2:
		kit.Do("rpush", "k", "x")
	case 3:
		kit.Do("sadd", "k", v[0])
	case 4:
		kit.Do("hset", "k", "x", "y")
	case 5:
		kit.Do("zadd", "k", "1", "x")
	}
	switch vh.Choice(5) {
	case 0:
		kit.Do("sinterstore", "k", "a", "b").Int(0, "SINTERSTORE")
	case 1:
		kit.Do("sdiffstore", "k", "a", "a").Int(0, "SDIFFSTORE")
	case 2:
		kit.Do("sunionstore", "k", "none1", "none2").Int(0, "SUNIONSTORE")
	case 3:
		kit.Do("sdiffstore", "k", "none1", "a").Int(0, "SDIFFSTORE")
	case 4:
		kit.Do("sinterstore", "k", "a", "none1").Int(0, "SINTERSTORE")
	}
	gone("k")
}

// Self: the destination is one of the sources.
func Self() {
	v := values(2)
	kit.Do("sadd", "k", v[0]).Int(1, "SADD")
	kit.Do("sadd", "b", v[1]).Int(1, "SADD")
	switch vh.Choice(3) {
	case 0:
		kit.Do("sinterstore", "k", "k", "b").Int(0, "SINTERSTORE")
	case 1:
		kit.Do("sdiffstore", "k", "k", "k").Int(0, "SDIFFSTORE")
	case 2:
		kit.Do("sinterstore", "k", "b", "k").Int(0, "SINTERSTORE")
	}
	gone("k")
}

// Never: commands that add nothing leave nothing behind.
func Never() {
	v := vh.Str(1)
	switch vh.Choice(10) {
	case 0:
		kit.Do("lpop", "k")
	case 1:
		kit.Do("lrem", "k", "0", v)
	case 2:
		kit.Do("srem", "k", v)
	case 3:
		kit.Do("spop", "k")
	case 4:
		kit.Do("smove", "k", "other", v)
		gone("other")
		return
	case 5:
		kit.Do("hdel", "k", v)
	case 6:
		kit.Do("zrem", "k", v)
	case 7:
		kit.Do("zpopmin", "k")
	case 8:
		kit.Do("zadd", "k", "xx", "1", v)
	case 9:
		kit.Do("linsert", "k", "before", v, v)
	}
	gone("k")
}

// Mixed: a collection of three built and taken down by different commands in turn.
func Mixed() {
	switch vh.Choice(4) {
	case 0:
		kit.Do("rpush", "k", "b", "b", "a").Int(3, "RPUSH")
		l := []string{"b", "b", "a"}
		for len(l) > 0 {
			switch vh.Choice(4) {
			case 0:
				kit.Do("lpop", "k").Ok("LPOP")
				l = l[1:]
			case 1:
				kit.Do("rpop", "k", "1").Ok("RPOP")
				l = l[:len(l)-1]
			case 2:
				kit.Do("lrem", "k", "-1", l[0]).Int(1, "LREM")
				i := len(l) - 1
				for l[i] != l[0] {
					i--
				}
				l = append(append([]string(nil), l[:i]...), l[i+1:]...)
			case 3:
				kit.Do("lrem", "k", "1", l[len(l)-1]).Int(1, "LREM")
				i := 0
				for l[i] != l[len(l)-1] {
					i++
				}
				l = append(append([]string(nil), l[:i]...), l[i+1:]...)
			}
			kit.Do("llen", "k").Int(int64(len(l)), "LLEN")
		}
	case 1:
		kit.Do("sadd", "k", "a", "A", "b").Int(3, "SADD")
		in := map[string]bool{"a": true, "A": true, "b": true}
		for i, m := range []string{"a", "A", "b"} {
			if !in[m] {
				continue
			}
			switch vh.Choice(3) {
			case 0:
				kit.Do("srem", "k", "no", m).Int(1, "SREM")
				delete(in, m)
			case 1:
				kit.Do("smove", "k", "other"+kit.Itoa(i), m).Int(1, "SMOVE")
				delete(in, m)
			case 2:
				r := kit.Do("spop", "k")
				e := r
				if r.K == '*' && len(r.A) == 1 {
					e = r.A[0]
				}
				vh.Assert(in[e.S], "SPOP of something that is not a member")
				delete(in, e.S)
			}
		}
		for _, m := range []string{"a", "A", "b"} {
			if in[m] {
				kit.Do("srem", "k", m).Int(1, "SREM")
			}
		}
	case 2:
		kit.Do("hset", "k", "a", "1", "A", "2", "b", "3").Ok("HSET")
		kit.Do("hset", "k", "a", "9").Ok("HSET of a field that is there")
		kit.Do("hincrby", "k", "n", "1").Int(1, "HINCRBY")
		order := [][]string{{"a", "A", "b", "n"}, {"n", "b", "A", "a"}, {"A", "n", "a", "b"}}[vh.Choice(3)]
		if vh.Choice(2) == 0 {
			for _, f := range order {
				kit.Do("hdel", "k", f, f).Int(1, "HDEL")
			}
		} else {
			kit.Do("hdel", "k", order[0], order[1]).Int(2, "HDEL")
			kit.Do("hdel", "k", order[0], order[2], order[3]).Int(2, "HDEL")
		}
	case 3:
		vh.RandBudget(2)
		kit.Do("zadd", "k", "1", "a", "2", "b", "2", "c").Ok("ZADD")
		vh.RandBudget(1)
		kit.Do("zadd", "k", "3", "a").Ok("ZADD of a member that is there")
		l := []string{"b", "c", "a"}
		for len(l) > 0 {
			switch vh.Choice(3) {
			case 0:
				kit.Do("zpopmin", "k").Ok("ZPOPMIN")
				l = l[1:]
			case 1:
				kit.Do("zpopmax", "k", "1").Ok("ZPOPMAX")
				l = l[:len(l)-1]
			case 2:
				i := vh.Choice(len(l))
				kit.Do("zrem", "k", l[i], l[i]).Int(1, "ZREM")
				l = append(append([]string(nil), l[:i]...), l[i+1:]...)
			}
			kit.Do("zcard", "k").Int(int64(len(l)), "ZCARD")
		}
	}
	gone("k")
}
