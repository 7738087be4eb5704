package kit

import (
	"strconv"

	"github.com/yusank/godis/zzverif/vh"
)

// FText is the shortest text of f.
func FText(f float64) string { return strconv.FormatFloat(f, 'g', -1, 64) }

// Number tells that f is not NaN (and, unless inf, finite), without forking.
func Number(f float64, inf bool) bool {
	if inf {
		return f == f
	}
	return vh.And(f <= 1.7976931348623157e308, f >= -1.7976931348623157e308)
}

// Score is any score: any float but NaN.
func Score(inf bool) float64 {
	f := vh.F64()
	vh.Assume(Number(f, inf))
	return f
}

// Float asserts that the reply is a bulk string holding the number want.
func (r Rep) Float(want float64, msg string) {
	vh.Assert(r.K == '$', msg+": reply is not a bulk string")
	got, err := strconv.ParseFloat(r.S, 64)
	vh.Assert(err == nil, msg+": reply is not a number")
	vh.Assert(vh.Or(got == want, vh.And(got != got, want != want)), msg+": wrong number")
}

// ZSet is the reference model of a sorted set.
type ZSet struct {
	Key string
	M   []string
	S   []float64
}

func (z *ZSet) Find(m string) int { return Find(z.M, m) }

func (z *ZSet) Put(m string, s float64) {
	if i := z.Find(m); i >= 0 {
		z.S[i] = s
		return
	}
	z.M = append(z.M, m)
	z.S = append(z.S, s)
}

func (z *ZSet) Del(m string) bool {
	i := z.Find(m)
	if i < 0 {
		return false
	}
	z.M = append(append([]string(nil), z.M[:i]...), z.M[i+1:]...)
	z.S = append(append([]float64(nil), z.S[:i]...), z.S[i+1:]...)
	return true
}

// Less tells without forking whether member i comes before member j.
func (z *ZSet) Less(i, j int) bool {
	return vh.Or(z.S[i] < z.S[j], vh.And(z.S[i] == z.S[j], z.M[i] < z.M[j]))
}

// Sort puts the members in ascending (score, member) order; it forks where that is open.
func (z *ZSet) Sort() {
	for i := 1; i < len(z.M); i++ {
		for j := i; j > 0; j-- {
			if !z.Less(j, j-1) {
				break
			}
			z.M[j], z.M[j-1] = z.M[j-1], z.M[j]
			z.S[j], z.S[j-1] = z.S[j-1], z.S[j]
		}
	}
}

// Add gives member m the score s by ZADD; the new node may have up to 1+tall levels.
func (z *ZSet) Add(m string, s float64, tall int) Rep {
	vh.RandBudget(tall)
	r := Do("zadd", z.Key, FText(s), m)
	z.Put(m, s)
	return r.Ok("ZADD")
}

// Order asserts that l lists members of z in ascending order, each at most once, and returns their indexes.
func (z *ZSet) Order(l []Rep, msg string) (at []int) {
	seen := make([]bool, len(z.M))
	prev := -1
	for _, e := range l {
		vh.Assert(e.K == '$', msg+": an element is not a bulk string")
		i := z.Find(e.S)
		vh.Assert(i >= 0, msg+": lists something that is not a member")
		vh.Assert(!seen[i], msg+": lists a member twice")
		seen[i] = true
		if prev >= 0 {
			vh.Assert(z.Less(prev, i), msg+": wrong order")
		}
		prev = i
		at = append(at, i)
	}
	return at
}

// Check asserts that size, scores, ranks and the full range agree with the model; univ lists all members ever used.
func (z *ZSet) Check(univ []string, msg string) {
	Do("zcard", z.Key).Int(int64(len(z.M)), msg+": ZCARD")
	r := Do("zrange", z.Key, "0", "-1")
	vh.Assert(r.K == '*' || len(z.M) == 0 && r.IsNil(), msg+": ZRANGE is not an array")
	vh.Assert(len(r.A) == len(z.M), msg+": ZRANGE has the wrong number of members")
	at := z.Order(r.A, msg+": ZRANGE")
	for pos, i := range at {
		Do("zrank", z.Key, z.M[i]).Int(int64(pos), msg+": ZRANK")
		Do("zscore", z.Key, z.M[i]).Float(z.S[i], msg+": ZSCORE")
	}
	for _, m := range univ {
		if z.Find(m) < 0 {
			Do("zscore", z.Key, m).Nil(msg + ": ZSCORE of something that is not a member")
			Do("zrank", z.Key, m).Nil(msg + ": ZRANK of something that is not a member")
		}
	}
}

// Large adds n members with scores in mixed order, some equal, in one of several fixed random shapes.
func Large(z *ZSet, n, shapes int) {
	shape := vh.Choice(shapes)
	vh.RandSeed(1 + 1000*shape)
	for i := 0; i < n; i++ {
		k := (i*7 + 3*shape) % n
		z.Add("m"+Itoa(k), float64(k/2*3-n/2), 0)
	}
	z.Sort()
}

// LargeUniv is what Large and later additions name.
func LargeUniv(n int) (l []string) {
	for i := 0; i < n; i++ {
		l = append(l, "m"+Itoa(i))
	}
	return l
}
