package main

import (
	smap "github.com/yusank/godis/lib/shard_map"
	"github.com/yusank/godis/zzverif/kit"
	"github.com/yusank/godis/zzverif/vh"
)

// model is the map the sharded one stands for.
type model struct {
	k []string
	v []int
}

func (m *model) find(k string) int {
	for i := range m.k {
		if m.k[i] == k {
			return i
		}
	}
	return -1
}

func (m *model) set(k string, v int) {
	if i := m.find(k); i >= 0 {
		m.v[i] = v
		return
	}
	m.k, m.v = append(m.k, k), append(m.v, v)
}

func (m *model) del(k string) (int, bool) {
	i := m.find(k)
	if i < 0 {
		return 0, false
	}
	v := m.v[i]
	m.k = append(append([]string(nil), m.k[:i]...), m.k[i+1:]...)
	m.v = append(append([]int(nil), m.v[:i]...), m.v[i+1:]...)
	return v, true
}

func is(got interface{}, ok bool, want int, present bool, msg string) {
	vh.Assert(ok == present, msg+": presence")
	if present {
		n, isInt := got.(int)
		vh.Assert(isInt && n == want, msg+": value")
	} else {
		vh.Assert(got == nil, msg+": a value for an absent key")
	}
}

// step applies one operation to both maps.
func step(m smap.Map, w *model, key string, val int) {
	i := w.find(key)
	had := i >= 0
	old := 0
	if had {
		old = w.v[i]
	}
	switch vh.Choice(9) {
	case 0:
		m.Set(key, val)
		w.set(key, val)
	case 1:
		vh.Assert(m.SetIfAbsent(key, val) == !had, "SetIfAbsent reports wrongly")
		if !had {
			w.set(key, val)
		}
	case 2:
		vh.Assert(m.DeleteIfExists(key) == had, "DeleteIfExists reports wrongly")
		w.del(key)
	case 3:
		v, ok := m.LoadAndDelete(key)
		is(v, ok, old, had, "LoadAndDelete")
		w.del(key)
	case 4:
		m.Delete(key)
		w.del(key)
	case 5, 6:
		abort := vh.Choice(2) == 1
		calls := 0
		res, stopped := m.Upsert(key, val, func(exist bool, in, neu interface{}) (interface{}, bool) {
			calls++
			is(in, exist, old, had, "Upsert callback")
			vh.Assert(neu == interface{}(val), "Upsert callback: new value")
			return val + 100, abort
		})
		vh.Assert(calls == 1, "Upsert callback not called once")
		vh.Assert(stopped == abort, "Upsert: abort")
		vh.Assert(res == interface{}(val+100), "Upsert: result")
		if !abort {
			w.set(key, val+100)
		}
	case 7:
		v, ok := m.Get(key)
		is(v, ok, old, had, "Get")
	case 8:
		vh.Assert(m.Has(key) == had, "Has reports wrongly")
	}
}

// check compares everything that can be seen.
func check(m smap.Map, w *model, univ []string) {
	for _, k := range univ {
		i := w.find(k)
		v, ok := m.Get(k)
		if i >= 0 {
			is(v, ok, w.v[i], true, "Get")
		} else {
			is(v, ok, 0, false, "Get")
		}
		vh.Assert(m.Has(k) == (i >= 0), "Has")
	}
	vh.MapOrder(1)
	l := m.Keys()
	vh.MapOrder(0)
	vh.Assert(len(l) == len(w.k), "Keys: number of keys")
	for i, k := range l {
		vh.Assert(w.find(k) >= 0, "Keys: a key that is not there")
		for _, o := range l[:i] {
			vh.Assert(o != k, "Keys: a key twice")
		}
	}
	t := m.Items()
	vh.Assert(len(t) == len(w.k), "Items: number of entries")
	for i, k := range w.k {
		v, ok := t[k]
		is(v, ok, w.v[i], true, "Items")
	}
	// a copy, not the map itself
	t["copy"] = 1
	delete(t, "")
	vh.Assert(!m.Has("copy"), "Items is not a copy")
	if i := w.find(""); i >= 0 {
		v, ok := m.Get("")
		is(v, ok, w.v[i], true, "Get after changing the copy")
	}
	visit(m, w, len(w.k))
}

// observe records the state for the comparison with a native run.
func observe(m smap.Map, keys []string) {
	vh.ObsInt("keys", int64(len(m.Keys())))
	for _, k := range keys {
		if v, ok := m.Get(k); ok {
			vh.ObsInt("value", int64(v.(int)))
		}
	}
}

// visit ranges over the map and stops after at most n entries.
func visit(m smap.Map, w *model, n int) {
	var seen []string
	vh.MapOrder(1)
	m.Range(func(k string, v interface{}) bool {
		vh.Assert(n > 0 && len(seen) < n, "Range went on after it was told to stop")
		for _, o := range seen {
			vh.Assert(o != k, "Range: an entry twice")
		}
		i := w.find(k)
		vh.Assert(i >= 0, "Range: an entry that is not there")
		is(v, true, w.v[i], true, "Range")
		seen = append(seen, k)
		return len(seen) < n
	})
	vh.MapOrder(0)
	vh.Assert(len(seen) == n, "Range: number of entries")
}

// sweep deletes chosen entries while iterating and stops after n.
func sweep(m smap.Map, w *model, n int) {
	var seen, gone []string
	vh.MapOrder(1)
	m.RangeAndDelete(func(k string, v interface{}) (bool, bool) {
		vh.Assert(len(seen) < n, "RangeAndDelete went on after it was told to stop")
		for _, o := range seen {
			vh.Assert(o != k, "RangeAndDelete: an entry twice")
		}
		i := w.find(k)
		vh.Assert(i >= 0, "RangeAndDelete: an entry that is not there")
		is(v, true, w.v[i], true, "RangeAndDelete")
		seen = append(seen, k)
		del := vh.Choice(2) == 1
		if del {
			gone = append(gone, k)
		}
		return del, len(seen) < n
	})
	vh.MapOrder(0)
	vh.Assert(len(seen) == n, "RangeAndDelete: number of entries")
	for _, k := range gone {
		w.del(k)
	}
}

// Pair: two arbitrary keys, equal or not, one operation on each and then one on the first again.
func pair(a, b string) {
	m, w := smap.New(), &model{}
	if vh.Choice(2) == 1 {
		m.Set(a, 1)
		w.set(a, 1)
	}
	step(m, w, b, 2)
	step(m, w, a, 3)
	check(m, w, []string{a, b})
	observe(m, []string{a, b})
	vh.Reach("end")
}

func Pair1() { pair(vh.Str(1), vh.Str(1)) }
func Pair0() { pair("", vh.Str(1)) }

// Bytes: longer arbitrary keys.
func Bytes() {
	a, b := vh.Str(1+vh.Choice(3)), vh.Str(1+vh.Choice(3))
	m := smap.New()
	m.Set(a, 1)
	if a == b {
		v, ok := m.Get(b)
		is(v, ok, 1, true, "Get")
		vh.Reach("equal")
		return
	}
	_, ok := m.Get(b)
	vh.Assert(!ok, "Get of a key never set")
	m.Set(b, 2)
	v, ok := m.Get(a)
	is(v, ok, 1, true, "Get")
	v, ok = m.LoadAndDelete(b)
	is(v, ok, 2, true, "LoadAndDelete")
	vh.Assert(m.Has(a) && !m.Has(b), "Has")
	vh.Assert(len(m.Keys()) == 1, "Keys")
	vh.Reach("end")
}

// History: operations on three keys, two of them in one bucket (with the present hash), any order.
func History() {
	keys := []string{"a", "A", "b"}
	n := 3
	if vh.Thorough() {
		n = 4
	}
	m, w := smap.New(), &model{}
	for i := 0; i < n; i++ {
		step(m, w, keys[vh.Choice(3)], i+1)
	}
	check(m, w, keys)
	observe(m, keys)
	vh.Reach("end")
}

// Sweep: iteration with stops and deletions, over up to four entries anywhere.
func Sweep() {
	m, w := smap.New(), &model{}
	for i, k := range []string{"a", "A", "b", ""} {
		if vh.Choice(2) == 1 {
			m.Set(k, i)
			w.set(k, i)
		}
	}
	if len(w.k) > 0 {
		visit(m, w, 1+vh.Choice(len(w.k)))
		sweep(m, w, 1+vh.Choice(len(w.k)))
	} else {
		visit(m, w, 0)
		sweep(m, w, 0)
	}
	check(m, w, []string{"a", "A", "b", ""})
	vh.Reach("end")
}

// Everywhere: entries in any two buckets are seen by every iteration.
func Everywhere() {
	m, w := smap.New(), &model{}
	for i := 0; i < 2; i++ {
		k := vh.Str(1)
		m.Set(k, i)
		w.set(k, i)
	}
	m.Set("", 7)
	w.set("", 7)
	if vh.Choice(2) == 1 {
		sweep(m, w, len(w.k))
	}
	check(m, w, nil)
	vh.Reach("end")
}

// Apart: two maps share nothing.
func Apart() {
	m, o := smap.New(), smap.New()
	k := vh.Str(1)
	m.Set(k, 1)
	vh.Assert(!o.Has(k) && len(o.Keys()) == 0, "two maps share entries")
	o.Set(k, 2)
	v, ok := m.Get(k)
	is(v, ok, 1, true, "Get")
	vh.Reach("end")
}

// Large: 70 entries in all buckets; listing, copying, stopping early, deleting while iterating.
func Large() {
	m, w := smap.New(), &model{}
	n := 70
	for i := 0; i < n; i++ {
		k := "key" + string([]byte{byte('0' + i/10), byte('0' + i%10)})
		m.Set(k, i)
		w.set(k, i)
	}
	check(m, w, []string{"key07", "key70", ""})
	stop := 1 + vh.Choice(n)
	visit(m, w, stop)
	odd := vh.Choice(2)
	seen := 0
	var gone []string
	m.RangeAndDelete(func(k string, v interface{}) (bool, bool) {
		seen++
		vh.Assert(seen <= stop, "RangeAndDelete went on after it was told to stop")
		d := v.(int)%2 == odd
		if d {
			gone = append(gone, k)
		}
		return d, seen < stop
	})
	vh.Assert(seen == stop, "RangeAndDelete: number of entries")
	for _, k := range gone {
		_, ok := w.del(k)
		vh.Assert(ok, "RangeAndDelete: an entry twice")
	}
	check(m, w, gone)
	vh.Reach("end")
}

// LongKeys: long keys that differ in one byte or in length.
func LongKeys() {
	a, b := kit.Long()
	m, w := smap.New(), &model{}
	m.Set(a, 1)
	w.set(a, 1)
	check(m, w, []string{a, b})
	vh.Assert(m.SetIfAbsent(b, 2), "SetIfAbsent")
	w.set(b, 2)
	check(m, w, []string{a, b})
	m.Delete(a)
	w.del(a)
	check(m, w, []string{a, b})
	vh.Reach("end")
}
