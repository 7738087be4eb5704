// Package main exercises what the engine supports of the standard library. It decides no property.
package main

import (
	"bufio"
	"bytes"
	"container/heap"
	"container/list"
	"container/ring"
	"context"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"hash/crc32"
	"hash/fnv"
	"io"
	"io/ioutil"
	"math"
	"math/big"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"text/tabwriter"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/yusank/godis/zzverif/vh"
)

type ints []int

func (s ints) Len() int            { return len(s) }
func (s ints) Less(i, j int) bool  { return s[i] < s[j] }
func (s ints) Swap(i, j int)       { s[i], s[j] = s[j], s[i] }
func (s *ints) Push(v interface{}) { *s = append(*s, v.(int)) }
func (s *ints) Pop() interface{} {
	v := (*s)[len(*s)-1]
	*s = (*s)[:len(*s)-1]
	return v
}

func text() string { return vh.StrIn(2, 'a', 'c') }

func Heap() {
	h := &ints{vh.Int(0, 5), 3, 1}
	heap.Init(h)
	heap.Push(h, vh.Int(0, 4))
	last := -1
	for h.Len() > 0 {
		v := heap.Pop(h).(int)
		vh.Assert(v >= last, "heap order")
		last = v
	}
}

func Lists() {
	l := list.New()
	l.PushBack(text())
	l.PushFront(text())
	l.InsertAfter("x", l.Front())
	l.MoveToBack(l.Front())
	n := 0
	for e := l.Front(); e != nil; e = e.Next() {
		n += len(e.Value.(string))
	}
	vh.Assert(n == 5, "list")
	r := ring.New(3)
	r.Value = 1
	r = r.Next()
	vh.Assert(r.Len() == 3 && r.Prev().Value.(int) == 1, "ring")
}

func Sorts() {
	s := []string{text(), "b", text()}
	sort.Strings(s)
	vh.Assert(sort.StringsAreSorted(s), "sorted")
	t := []string{text(), text()}
	sort.Slice(t, func(i, j int) bool { return t[i] > t[j] })
	vh.Assert(t[0] >= t[1], "slice")
	u := []string{text(), text()}
	sort.SliceStable(u, func(i, j int) bool { return u[i] < u[j] })
	vh.Assert(u[0] <= u[1], "stable")
	sort.Sort(sort.Reverse(sort.StringSlice(u)))
	vh.Assert(u[0] >= u[1], "reverse")
	i := sort.SearchStrings(s, "b")
	vh.Assert(i < 3 && s[i] == "b", "search")
	v := sort.IntSlice{3, 1, 2}
	sort.Stable(v)
	vh.Assert(v[0] == 1 && sort.Search(3, func(i int) bool { return v[i] >= 2 }) == 1, "ints")
}

func Strings() {
	s := vh.Str(3)
	vh.Assert(strings.HasPrefix(s, s[:1]) && strings.HasSuffix(s, s[2:]), "affix")
	vh.ObsInt("idx", int64(strings.Index(s, "a")))
	vh.ObsInt("last", int64(strings.LastIndexByte(s, 'a')))
	vh.ObsInt("cnt", int64(strings.Count(s, "a")))
	vh.ObsStr("rep", strings.Replace(s, "a", "bb", 1))
	vh.ObsStr("trim", strings.Trim(s, "a"))
	vh.ObsStr("spl", strings.Join(strings.SplitN(s, "a", 2), "|"))
	vh.Assert(strings.Contains(s, s[1:2]), "contains")
	vh.Assert(strings.EqualFold(s, s), "fold")
}

func Strings2() {
	s := vh.StrIn(3, ' ', 'b')
	vh.ObsStr("up", strings.ToUpper(s))
	vh.ObsStr("fields", strings.Join(strings.Fields(s), "|"))
	vh.ObsStr("repall", strings.ReplaceAll(s, "a", ""))
	vh.ObsStr("map", strings.Map(func(r rune) rune {
		if r == ' ' {
			return -1
		}
		return r
	}, s))
	vh.ObsStr("title", strings.Title(s))
	vh.ObsStr("rpl", strings.NewReplacer("a", "1", "b", "2").Replace(s))
	vh.ObsStr("rep", strings.Repeat(s, 2))
	vh.ObsStr("ts", strings.TrimSpace(s))
	vh.ObsStr("tf", strings.TrimFunc(s, unicode.IsSpace))
	a, b, ok := strings.Cut(s, " ")
	vh.ObsStr("cut", a+b+fmt.Sprint(ok))
	vh.ObsInt("any", int64(strings.IndexAny(s, "ab")))
	vh.ObsInt("r", int64(strings.IndexRune(s, 'a')))
}

func Bytes() {
	b := []byte(vh.Str(3))
	var w bytes.Buffer
	w.Write(b)
	w.WriteByte('x')
	w.WriteString("yz")
	line, err := w.ReadBytes('z')
	vh.Assert(err == nil || len(line) > 0, "read")
	vh.Assert(bytes.Equal(b, append([]byte(nil), b...)), "equal")
	vh.ObsInt("i", int64(bytes.IndexByte(b, '\n')))
	vh.ObsInt("c", int64(bytes.Compare(b, []byte("abc"))))
	vh.ObsInt("n", int64(len(bytes.Split(b, []byte(",")))))
	vh.ObsStr("t", string(bytes.TrimRight(b, "\r\n")))
	vh.ObsStr("j", string(bytes.Join([][]byte{b, b}, []byte("-"))))
	vh.ObsInt("cn", int64(bytes.Count(b, []byte("a"))))
	vh.Assert(bytes.HasPrefix(b, b[:2]) && bytes.Contains(b, b[1:]), "has")
}

func Readers() {
	s := vh.StrIn(4, 'a', 'b')
	r := bufio.NewReader(strings.NewReader(s + "\r\nrest"))
	line, _, err := r.ReadLine()
	vh.Assert(err == nil && string(line) == s, "line")
	rest, err := ioutil.ReadAll(r)
	vh.Assert(err == nil && string(rest) == "rest", "all")
	buf := make([]byte, 2)
	_, err = io.ReadFull(strings.NewReader(s), buf)
	vh.Assert(err == nil && string(buf) == s[:2], "full")
	m := io.MultiReader(strings.NewReader(s), io.LimitReader(strings.NewReader(s), 1))
	all, _ := io.ReadAll(m)
	vh.Assert(string(all) == s+s[:1], "multi")
	sc := bufio.NewScanner(strings.NewReader(s + "\nq"))
	sc.Split(bufio.ScanLines)
	vh.Assert(sc.Scan() && sc.Text() == s && sc.Scan() && !sc.Scan(), "scan")
	var out bytes.Buffer
	w := bufio.NewWriter(&out)
	fmt.Fprintf(w, "%s-%d\r\n", s, len(s))
	w.Flush()
	vh.Assert(out.String() == s+"-4\r\n", "fprintf")
	t := io.TeeReader(strings.NewReader(s), &out)
	io.Copy(ioutil.Discard, t)
	pk, _ := bufio.NewReaderSize(strings.NewReader(s), 16).Peek(2)
	vh.Assert(string(pk) == s[:2], "peek")
	d := bufio.NewReader(strings.NewReader(s))
	b1, _ := d.ReadByte()
	d.UnreadByte()
	b2, _ := d.ReadByte()
	n, _ := d.Discard(1)
	vh.Assert(b1 == b2 && n == 1, "unread")
	x, err := bufio.NewReader(strings.NewReader(s + "\n")).ReadString('\n')
	vh.Assert(err == nil && x == s+"\n", "readstring")
	sr := io.NewSectionReader(strings.NewReader(s), 1, 2)
	all, _ = io.ReadAll(sr)
	vh.Assert(string(all) == s[1:3], "section")
}

func Pipe() {
	s := text()
	r, w := io.Pipe()
	go func() {
		io.WriteString(w, s)
		w.Close()
	}()
	all, err := io.ReadAll(r)
	vh.Assert(err == nil && string(all) == s, "pipe")
}

type myErr struct{ n int }

func (e *myErr) Error() string { return "my " + strconv.Itoa(e.n) }

func Errors() {
	n := vh.Int(0, 9)
	base := &myErr{n}
	err := fmt.Errorf("wrap: %w", base)
	var m *myErr
	vh.Assert(errors.As(err, &m) && m.n == n && errors.Is(err, base) && errors.Unwrap(err) == error(base), "errors")
	vh.ObsStr("e", err.Error())
	vh.Assert(errors.Is(io.EOF, io.EOF), "eof")
}

func Fmt() {
	n := vh.Int(0, 5)
	s := text()
	vh.ObsStr("a", fmt.Sprintf("%d %s %v %q", n, s, s, s))
	vh.ObsStr("b", fmt.Sprint(n, s, true, nil, 'x'))
	vh.ObsStr("c", fmt.Sprintln(s, []string{s}, []byte(s)))
	vh.ObsStr("d", fmt.Sprintf("%05d|%-4s|%x|%+v|%T", n, s, s, n > 2, s))
	vh.ObsStr("f", fmt.Sprintf("%*d", 4, n))
	var v int
	var w string
	c, err := fmt.Sscanf("12 ab", "%d %s", &v, &w)
	vh.Assert(c == 2 && err == nil && v == 12 && w == "ab", "sscanf")
	c, _ = fmt.Sscan("7", &v)
	vh.Assert(c == 1 && v == 7, "sscan")
}

func Conv() {
	s := vh.StrIn(2, '0', '9')
	n, err := strconv.Atoi(s)
	vh.Assert(err == nil && n >= 0 && n < 100, "atoi")
	u, err := strconv.ParseUint(s, 10, 8)
	vh.Assert(err == nil && int(u) == n, "uint")
	vh.ObsStr("q", strconv.Quote(s))
	b, err := strconv.ParseBool(s[:1])
	vh.ObsStr("b", strconv.FormatBool(b))
	vh.ObsStr("i", string(strconv.AppendInt(nil, int64(n), 10)))
	vh.ObsStr("h", strconv.FormatInt(int64(n), 16))
	vh.ObsStr("qq", string(strconv.AppendQuote(nil, s)))
	x, err := strconv.Unquote(`"a\n"`)
	vh.Assert(err == nil && x == "a\n", "unquote")
}

func Math() {
	a, b := vh.F64(), vh.F64()
	vh.Assume(!math.IsNaN(a) && !math.IsNaN(b))
	vh.Assert(math.Max(a, b) >= a && math.Min(a, b) <= b, "maxmin")
	vh.Assert(math.Abs(a) >= 0, "abs")
	vh.Assert(math.Signbit(a) || a >= 0, "sign")
	vh.Assert(math.IsInf(math.Inf(1), 1) && !math.IsInf(1, 0), "inf")
	n := vh.Int(0, 3)
	vh.Assert(math.Max(float64(n), 1) >= 1, "maxint")
	vh.Assert(math.Copysign(3, -1) == -3 && math.Mod(5, 3) == 2 && math.Hypot(3, 4) == 5, "c")
	i, f := math.Modf(2.5)
	vh.Assert(i == 2 && f == .5 && math.Cbrt(27) == 3, "modf")
}

func Hash() {
	s := text()
	h := fnv.New32a()
	h.Write([]byte(s))
	vh.ObsInt("fnv", int64(h.Sum32()))
	vh.ObsInt("crc", int64(crc32.ChecksumIEEE([]byte("abc"))))
	vh.ObsStr("hex", hex.EncodeToString([]byte(s)))
	b := make([]byte, 8)
	binary.LittleEndian.PutUint32(b, 77)
	vh.Assert(binary.LittleEndian.Uint32(b) == 77 && binary.BigEndian.Uint16(b) == 77<<8, "binary")
	n := binary.PutUvarint(b, 300)
	x, m := binary.Uvarint(b)
	vh.Assert(x == 300 && m == n, "varint")
}

func Utf() {
	s := vh.Str(2)
	vh.ObsInt("n", int64(utf8.RuneCountInString(s)))
	r, k := utf8.DecodeRuneInString(s)
	vh.ObsInt("r", int64(r)*10+int64(k))
	vh.Assert(utf8.ValidString("ab") && unicode.IsDigit('1') && unicode.ToLower('A') == 'a' && unicode.IsLetter('x'), "u")
	for i, c := range s {
		vh.Assert(i < 2 && c >= 0, "range")
	}
	vh.ObsStr("rs", string([]rune(s)))
}

func Cond() {
	var mu sync.Mutex
	c := sync.NewCond(&mu)
	ready, done := 0, make(chan int, 2)
	vh.Sched(3)
	for i := 0; i < 2; i++ {
		go func() {
			mu.Lock()
			for ready == 0 {
				c.Wait()
			}
			ready--
			mu.Unlock()
			done <- 1
		}()
	}
	mu.Lock()
	ready = 2
	c.Broadcast()
	mu.Unlock()
	<-done
	<-done
	vh.Assert(ready == 0, "cond")
	go func() {
		mu.Lock()
		ready = 1
		mu.Unlock()
		c.Signal()
	}()
	mu.Lock()
	for ready == 0 {
		c.Wait()
	}
	mu.Unlock()
}

func Locks() {
	var rw sync.RWMutex
	l := rw.RLocker()
	l.Lock()
	vh.Assert(!rw.TryLock() && rw.TryRLock(), "try")
	rw.RUnlock()
	l.Unlock()
	vh.Assert(rw.TryLock() && !rw.TryRLock(), "try2")
	rw.Unlock()
	var o sync.Once
	n := 0
	o.Do(func() { n++ })
	o.Do(func() { n++ })
	vh.Assert(n == 1, "once")
	f := sync.OnceFunc(func() { n++ })
	f()
	f()
	vh.Assert(n == 2, "oncefunc")
	var wg sync.WaitGroup
	wg.Go(func() { n++ })
	wg.Wait()
	vh.Assert(n == 3, "go")
}

func Atomics() {
	var b atomic.Bool
	var i atomic.Int64
	var u atomic.Uint32
	var v atomic.Value
	b.Store(true)
	i.Add(3)
	u.Store(2)
	v.Store("x")
	vh.Assert(b.Load() && i.Load() == 3 && u.Swap(4) == 2 && v.Load().(string) == "x", "atomic")
	vh.Assert(b.CompareAndSwap(true, false) && !b.Load() && i.CompareAndSwap(3, 5), "cas")
	var n int32
	atomic.AddInt32(&n, 2)
	vh.Assert(atomic.LoadInt32(&n) == 2 && v.CompareAndSwap("x", "y") && v.Swap("z").(string) == "y", "fn")
	vh.Assert(i.And(4) == 5 && i.Or(1) == 4, "andor")
}

func Timers() {
	t := time.NewTimer(time.Millisecond)
	select {
	case <-t.C:
	case <-time.After(time.Hour):
		vh.Fail("after")
	}
	vh.Assert(!t.Stop(), "stop")
	t.Reset(time.Millisecond)
	<-t.C
	k := time.NewTicker(time.Millisecond)
	<-k.C
	k.Stop()
	c := make(chan int, 1)
	time.AfterFunc(time.Millisecond, func() { c <- 1 })
	<-c
	start := time.Now()
	time.Sleep(2 * time.Millisecond)
	vh.Assert(time.Since(start) >= time.Millisecond && time.Now().After(start) && time.Until(start) < 0, "since")
	_ = start.Add(time.Second).Sub(start).Seconds()
	_ = start.Unix() + start.UnixNano() + start.UnixMilli()
}

func Contexts() {
	type key string
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), key("k"), 5))
	vh.Assert(ctx.Value(key("k")).(int) == 5 && ctx.Err() == nil, "value")
	sub, c2 := context.WithTimeout(ctx, time.Hour)
	defer c2()
	go cancel()
	<-sub.Done()
	vh.Assert(sub.Err() == context.Canceled, "err")
	d, c3 := context.WithDeadline(context.TODO(), time.Now().Add(time.Millisecond))
	defer c3()
	<-d.Done()
	_, ok := d.Deadline()
	vh.Assert(ok && errors.Is(d.Err(), context.DeadlineExceeded), "deadline")
	x, c4 := context.WithCancelCause(context.Background())
	c4(io.EOF)
	vh.Assert(context.Cause(x) == io.EOF, "cause")
	stop := context.AfterFunc(ctx, func() {})
	stop()
}

func Reflects() {
	a := []string{text()}
	b := []string{a[0]}
	vh.Assert(reflect.DeepEqual(a, b), "deep")
}

func Misc() {
	runtime.Gosched()
	runtime.GC()
	_ = runtime.NumGoroutine()
	_ = runtime.NumCPU()
	_ = os.Getenv("NOPE")
	_, err := os.Stat("/nonexistent/x")
	_ = err
	vh.Assert(path.Join("a", "b") == "a/b" && filepath.Base("/x/y") == "y" && filepath.Ext("a.b") == ".b", "path")
	ok, err := path.Match("a*", text())
	_ = ok
	vh.Assert(err == nil, "match")
	_ = rand.Intn(3)
	_ = rand.New(rand.NewSource(1))
	_ = rand.Perm(2)
	rand.Shuffle(2, func(i, j int) {})
	defer func() {
		vh.Assert(recover() != nil, "recover")
	}()
	var m map[string]int
	m["a"] = 1
}

func Big() {
	x := big.NewInt(5)
	y := new(big.Int).Add(x, big.NewInt(7))
	vh.Assert(y.Cmp(big.NewInt(12)) == 0 && y.String() == "12", "big")
	z, ok := new(big.Int).SetString("123", 10)
	vh.Assert(ok && z.IsInt64() && z.Int64() == 123, "set")
}

func Regexps() {
	re := regexp.MustCompile(`^[0-9]+$`)
	s := vh.StrIn(2, '0', ':')
	vh.ObsStr("m", strconv.FormatBool(re.MatchString(s)))
}

func Tab() {
	var b bytes.Buffer
	w := tabwriter.NewWriter(&b, 0, 8, 1, ' ', 0)
	fmt.Fprintln(w, "a\tb")
	w.Flush()
	vh.ObsStr("tab", b.String())
}

type shape interface{ area() int }
type sq struct{ n int }

func (s sq) area() int { return s.n * s.n }

type named struct {
	shape
	arr  [3]int
	nest struct{ a, b string }
}

func Lang() {
	n := vh.Int(0, 3)
	x := named{shape: sq{n}, arr: [3]int{1, 2, 3}}
	x.nest.a = text()
	y := x
	y.arr[n%3] = 9
	vh.Assert(x.arr[n%3] != 9 && y.area() == n*n && y.nest == x.nest && y != x, "copy")
	f := x.area
	g := shape.area
	vh.Assert(f() == g(y), "methods")
	m := map[[2]int]string{{1, n}: "a"}
	m[[2]int{1, 2}] += "b"
	vh.Assert(len(m) >= 1, "map")
	k := map[interface{}]int{1: 1, "a": 2, sq{n}: 3}
	vh.Assert(k[sq{n}] == 3, "iface key")
	goto end
end:
	s := make([]int, 0, 8)
	s = append(s, 1, 2, 3)
	t := s[1:2:2]
	t = append(t, 7)
	vh.Assert(s[2] == 3 && cap(s[:0]) == 8, "slices")
	copy(s[1:], s)
	vh.Assert(s[2] == 2, "copy overlap")
	p := &s[1]
	*p = 5
	vh.Assert(s[1] == 5, "ptr")
	a := (*[2]int)(s)
	a[0] = 4
	vh.Assert(s[0] == 4, "arrptr")
	var e interface{} = x
	switch v := e.(type) {
	case shape:
		vh.Assert(v.area() == n*n, "ts")
	default:
		vh.Fail("ts")
	}
	func() {
		defer func() {
			r := recover()
			_, ok := r.(runtime.Error)
			vh.Assert(ok, "rt")
		}()
		_ = s[n+100]
	}()
	var fn [2]func(int) int
	for i := range fn {
		i := i
		fn[i] = func(v int) int { return v + i }
	}
	vh.Assert(fn[1](n) == n+1, "fns")
	var u8 uint8 = 250
	u8 += uint8(n) * 4
	vh.Assert(int(u8) == (250+4*n)%256, "wrap")
	vh.Assert(n<<uint(n) >= n && -7/2 == -3 && -7%3 == -1 && n&^1 <= n, "arith")
	lbl := 0
outer:
	for i := 0; i < 3; i++ {
		for j := 0; ; j++ {
			if j == 2 {
				continue outer
			}
			if i == 2 {
				break outer
			}
			lbl++
		}
	}
	vh.Assert(lbl == 4, "labels")
	switch {
	case n > 1:
		fallthrough
	case n > 0:
		lbl = 9
	}
	vh.Assert((lbl == 9) == (n > 0), "fall")
}

func Chans() {
	c := make(chan int, 3)
	vh.Assert(cap(c) == 3 && len(c) == 0, "cap")
	go func() {
		defer close(c)
		for i := 0; i < 3; i++ {
			c <- i
		}
	}()
	s := 0
	for v := range c {
		s += v
	}
	v, ok := <-c
	vh.Assert(s == 3 && v == 0 && !ok, "sum")
	var nilc chan int
	select {
	case <-nilc:
		vh.Fail("nil")
	default:
	}
	type req struct {
		back chan<- string
	}
	reqs := make(chan req)
	go func() {
		for r := range reqs {
			r.back <- "ok"
		}
	}()
	back := make(chan string)
	reqs <- req{back}
	vh.Assert(<-back == "ok", "req")
	close(reqs)
	sem := make(chan struct{}, 1)
	sem <- struct{}{}
	<-sem
}
