package main

import (
	"net"
	"strconv"
	"sync"
	"time"

	"github.com/panjf2000/gnet"
	"github.com/panjf2000/gnet/pkg/pool/goroutine"
	"github.com/yusank/godis/server/v2"
	"github.com/yusank/godis/zzverif/kit"
	"github.com/yusank/godis/zzverif/vh"
)

// conn stands for a connection of the network library: it keeps what is written to it, without a copy.
type conn struct {
	srv     *v2.Server
	ctx     interface{}
	mu      sync.Mutex
	written [][]byte
	buf     []byte
}

type address struct{}

func (address) Network() string { return "tcp" }
func (address) String() string  { return "127.0.0.1:1" }

func (c *conn) Context() interface{}       { return c.ctx }
func (c *conn) SetContext(ctx interface{}) { c.ctx = ctx }
func (c *conn) LocalAddr() net.Addr        { return address{} }
func (c *conn) RemoteAddr() net.Addr       { return address{} }
func (c *conn) Read() []byte               { return nil }
func (c *conn) ResetBuffer()               {}
func (c *conn) ReadN(n int) (int, []byte)  { return 0, nil }
func (c *conn) ShiftN(n int) int           { return 0 }
func (c *conn) BufferLength() int          { return 0 }
func (c *conn) SendTo(b []byte) error      { return c.AsyncWrite(b) }
func (c *conn) AsyncWrite(b []byte) error {
	c.mu.Lock()
	c.written = append(c.written, b)
	c.mu.Unlock()
	return nil
}

func (c *conn) AsyncWritev(l [][]byte) error {
	for _, b := range l {
		c.AsyncWrite(b)
	}
	return nil
}
func (c *conn) Wake() error { return nil }
func (c *conn) Close() error {
	return nil
}

func (c *conn) result(out []byte, act gnet.Action) {
	if len(out) > 0 {
		c.AsyncWrite(append([]byte(nil), out...))
	}
}

func newConn(s *v2.Server) *conn {
	return &conn{srv: s, buf: make([]byte, 256)}
}

func (c *conn) open() {
	out, act := c.srv.OnOpened(c)
	c.result(out, act)
}

// receive is one read from the network into the one buffer that is used again afterwards.
func (c *conn) receive(data string) {
	n := copy(c.buf, data)
	out, act := c.srv.React(c.buf[:n], c)
	c.result(out, act)
	for i := 0; i < n; i++ {
		c.buf[i] = '*'
	}
}

// parse is what was written, and whether it is nothing but whole replies.
func (c *conn) parse() (l []kit.Rep, whole bool) {
	c.mu.Lock()
	all := ""
	for _, b := range c.written {
		all += string(b)
	}
	c.mu.Unlock()
	pos := 0
	for pos < len(all) {
		r, end, ok := kit.Parse(all, pos)
		if !ok {
			return l, false
		}
		l = append(l, r)
		pos = end
	}
	return l, true
}

// atLeast waits for n replies; time passes only when nothing else happens.
func (c *conn) atLeast(n int) []kit.Rep {
	for i := 0; i < 500; i++ {
		time.Sleep(10 * time.Millisecond)
		if l, _ := c.parse(); len(l) >= n {
			return l
		}
	}
	vh.Fail("a complete request was not answered")
	return nil
}

// replies waits for n replies and returns them; there must not be more.
func (c *conn) replies(n int) []kit.Rep {
	c.atLeast(n)
	time.Sleep(20 * time.Millisecond)
	l, whole := c.parse()
	vh.Assert(whole, "more was written to the connection than the replies")
	vh.Assert(len(l) == n, "more replies than requests")
	return l
}

func (c *conn) close() {
	c.srv.OnClosed(c, nil)
}

// client is what one connection sends, and what the replies must be.
type client struct {
	reqs   [][]string
	expect []func(r kit.Rep)
}

func (x *client) add(f func(r kit.Rep), args ...string) {
	x.reqs = append(x.reqs, args)
	x.expect = append(x.expect, f)
}

func (x *client) bytes() string {
	s := ""
	for _, r := range x.reqs {
		s += kit.Frame(r...)
	}
	return s
}

func (x *client) check(l []kit.Rep) {
	for i, r := range l {
		x.expect[i](r)
	}
}

// script is n requests whose replies tell their order and their data.
func script(kind, n int, key string) *client {
	x := &client{}
	a, b := vh.Str(1), vh.Str(1)
	switch kind {
	case 0: // strings
		x.add(func(r kit.Rep) { r.Ok("SET") }, "set", key, a)
		x.add(func(r kit.Rep) { r.Int(2, "APPEND") }, "append", key, b)
		x.add(func(r kit.Rep) { r.Bulk(a+b, "GET") }, "get", key)
		x.add(func(r kit.Rep) { r.Int(1, "DEL") }, "del", key)
	case 1: // lists
		x.add(func(r kit.Rep) { r.Int(2, "RPUSH") }, "rpush", key, a, b)
		x.add(func(r kit.Rep) { r.Bulk(a, "LINDEX") }, "lindex", key, "0")
		x.add(func(r kit.Rep) { r.Err("GET of a list") }, "get", key)
		x.add(func(r kit.Rep) { r.Int(2, "LLEN") }, "llen", key)
	case 2: // an unknown command between counters
		x.add(func(r kit.Rep) { r.Int(1, "INCR") }, "incr", key)
		x.add(func(r kit.Rep) { r.Err("unknown command") }, "nosuch", a)
		x.add(func(r kit.Rep) { r.Int(2, "INCR") }, "incr", key)
		x.add(func(r kit.Rep) { r.Bulk("2", "GET") }, "get", key)
	case 3: // values as long as a line break and a header
		x.add(func(r kit.Rep) { r.Ok("SET") }, "set", key, a+"\r\n")
		x.add(func(r kit.Rep) { r.Bulk(a+"\r\n", "GET") }, "get", key)
		x.add(func(r kit.Rep) { r.Int(1, "SADD") }, "sadd", key+"s", "*1\r\n"+b)
		x.add(func(r kit.Rep) { r.List([]string{"*1\r\n" + b}, "SMEMBERS") }, "smembers", key+"s")
	}
	if n < len(x.reqs) {
		x.reqs, x.expect = x.reqs[:n], x.expect[:n]
	}
	return x
}

func server() *v2.Server { return v2.NewServer(goroutine.Default()) }

// Pipelined: one read with several requests.
func Pipelined() {
	n := 1 + vh.Choice(4)
	x := script(vh.Choice(4), n, "k")
	c := newConn(server())
	vh.Race()
	vh.Sched(60)
	c.open()
	c.receive(x.bytes())
	l := c.replies(n)
	vh.Sched(0)
	x.check(l)
	c.close()
	vh.Reach("end")
}

// Reads: several reads with whole requests in each.
func Reads() {
	n := 2
	if vh.Thorough() {
		n += vh.Choice(2)
	}
	x := script(vh.Choice(4), n, "k")
	c := newConn(server())
	first := 1 + vh.Choice(n-1)
	vh.Race()
	vh.Sched(60)
	c.open()
	y := &client{reqs: x.reqs[:first]}
	z := &client{reqs: x.reqs[first:]}
	c.receive(y.bytes())
	c.receive(z.bytes())
	l := c.replies(n)
	vh.Sched(0)
	x.check(l)
	c.close()
	vh.Reach("end")
}

// Split: requests spread over the reads at arbitrary places.
func Split() {
	n := 1
	if vh.Thorough() {
		n += vh.Choice(2)
	}
	x := script([]int{0, 3}[vh.Choice(2)], n, "k")
	all := x.bytes()
	c := newConn(server())
	i := vh.Choice(len(all) + 1)
	vh.Race()
	vh.Sched(60)
	c.open()
	for _, p := range []string{all[:i], all[i:]} {
		if len(p) > 0 {
			c.receive(p)
		}
	}
	l := c.replies(n)
	vh.Sched(0)
	x.check(l)
	c.close()
	vh.Reach("end")
}

// Pieces: one request in up to three reads (more in the thorough tier), without exploring schedules.
func Pieces() {
	x := script(3, 2, "k")
	all := x.bytes()
	c := newConn(server())
	c.open()
	at := 0
	for k := 0; k < 2 && at < len(all); k++ {
		n := 1 + vh.Choice(len(all)-at)
		c.receive(all[at : at+n])
		at += n
	}
	if at < len(all) {
		c.receive(all[at:])
	}
	x.check(c.replies(2))
	c.close()
	vh.Reach("end")
}

// Two connections at the same time.
func Two() {
	s := server()
	n, m := 1, 1
	if vh.Thorough() {
		n, m = 1+vh.Choice(2), 1+vh.Choice(2)
	}
	x, y := script(vh.Choice(2), n, "k"), script(2, m, "l")
	c, d := newConn(s), newConn(s)
	done := make(chan bool)
	vh.Race()
	vh.Sched(60)
	go func() { // another event loop
		d.open()
		d.receive(y.bytes())
		done <- true
	}()
	c.open()
	c.receive(x.bytes())
	<-done
	l := c.replies(n)
	k := d.replies(m)
	vh.Sched(0)
	x.check(l)
	y.check(k)
	c.close()
	d.close()
	vh.Reach("end")
}

// Garbage: bytes that are no request after some requests; those are still answered, and so is another connection.
func Garbage() {
	s := server()
	n := vh.Choice(3)
	x := script(0, n, "k")
	c, d := newConn(s), newConn(s)
	bad := []string{"*1\r\n$-1\r\n", "*x\r\n", "\r\n", "*1\r\n+\r\n:", "$9999999999999\r\n", "*1000000\r\n*1\r\n"}
	k := vh.Choice(len(bad) + 1)
	tail := ""
	if k < len(bad) {
		tail = bad[k]
	} else {
		tail = vh.Str(1) + "\r\n"
	}
	vh.Sched(60)
	c.open()
	data := ""
	if n > 0 {
		data = x.bytes()
	}
	c.receive(data + tail)
	c.close()
	var l []kit.Rep
	vh.Sched(0)
	if n > 0 {
		l = c.atLeast(n)
		x.check(l[:n])
	}
	y := script(2, 2, "l")
	d.open()
	d.receive(y.bytes())
	y.check(d.replies(2))
	d.close()
	vh.Reach("end")
}

// Long: a long pipeline in one read, and values longer than the buffers on the way.
func Long() {
	c := newConn(server())
	c.buf = make([]byte, 20000)
	c.open()
	n := []int{10, 20, 130, 300}[vh.Choice(4)]
	data := ""
	for i := 0; i < n; i++ {
		data += kit.Frame("incr", "c")
	}
	c.receive(data)
	for i, r := range c.replies(n) {
		r.Int(int64(i+1), "INCR "+strconv.Itoa(i))
	}
	c.close()
	vh.Reach("end")
}

// Large: a value larger than every buffer, in reads of different sizes.
func Large() {
	c := newConn(server())
	c.buf = make([]byte, 8192)
	c.open()
	v := ""
	for len(v) < 9000 {
		v += "0123456789abcdef\r\n*1\r\n$"
	}
	data := kit.Frame("set", "k", v) + kit.Frame("get", "k") + kit.Frame("append", "k", "x")
	step := []int{700, 4096, 8192}[vh.Choice(3)]
	for len(data) > step {
		c.receive(data[:step])
		data = data[step:]
	}
	c.receive(data)
	l := c.replies(3)
	l[0].Ok("SET of a large value")
	l[1].Bulk(v, "GET of a large value")
	l[2].Int(int64(len(v)+1), "APPEND to a large value")
	c.close()
	vh.Reach("end")
}
