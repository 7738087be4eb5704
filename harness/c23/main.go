package main

import (
	"context"
	"strconv"
	"time"

	"github.com/yusank/godis/event"
	"github.com/yusank/godis/protocol"
	"github.com/yusank/godis/redis"
	"github.com/yusank/godis/zzverif/kit"
	"github.com/yusank/godis/zzverif/vh"
)

// fresh installs a pool of its own for what follows.
func fresh() { event.SetGlobalEventPool(event.NewEventPool()) }

// timed runs one request and tells whether the answer came without waiting for the request timeout.
func timed(args ...string) (kit.Rep, bool) {
	t := time.Now()
	b := kit.Raw(args...)
	vh.Assert(len(b) > 0, "a request got no answer at all")
	r, ok := kit.ParseAll(b)
	vh.Assert(ok, "a request did not get exactly one reply")
	return r, time.Since(t) < 5*time.Second
}

// executed is the counter kept by the requests.
func executed(key string) int64 {
	r := kit.Do("get", key)
	if r.IsNil() {
		return 0
	}
	n, err := strconv.ParseInt(r.S, 10, 64)
	vh.Assert(err == nil, "GET of a counter")
	return n
}

// racing: n requests and a stop at the same time.
func racing(n int, stops int) {
	by := vh.I64()
	vh.Assume(by > 0 && by < 1000)
	amount := strconv.FormatInt(by, 10)
	fresh()
	fin := make([]chan bool, n+stops)
	for i := range fin {
		fin[i] = make(chan bool)
	}
	reps := make([]kit.Rep, n)
	prompt := make([]bool, n)
	vh.Race()
	vh.Sched(60)
	for i := 0; i < n; i++ {
		go func(i int) {
			reps[i], prompt[i] = timed("incrby", "c", amount)
			fin[i] <- true
		}(i)
	}
	for i := n; i < n+stops-1; i++ {
		go func(i int) {
			event.Stop()
			fin[i] <- true
		}(i)
	}
	event.Stop()
	for i := 0; i < n+stops-1; i++ {
		<-fin[i]
	}
	vh.Sched(0)
	done := int64(0)
	for i := range reps {
		vh.Assert(prompt[i], "a request made while the server stopped was left unanswered until its timeout")
		if reps[i].K == ':' {
			done++
		} else {
			vh.Assert(reps[i].IsErr(), "reply of a request that was not executed")
		}
	}
	// executed if and only if answered so
	fresh()
	vh.Assert(executed("c") == done*by, "effects of the requests differ from their answers")
	vh.Reach("end")
}

// Racing is one request against a stop.
func Racing() { racing(1, 1) }

// RacingTwo is two requests against a stop.
func RacingTwo() { racing(2, 1) }

// RacingStops is a request against two stops.
func RacingStops() { racing(1, 2) }

// RacingThree is three requests against a stop (thorough).
func RacingThree() {
	if vh.Thorough() {
		racing(3, 1)
	}
}

// RacingBoth is two requests against two stops (thorough).
func RacingBoth() {
	if vh.Thorough() {
		racing(2, 2)
	}
}

// Accepted: requests handed over before the stop are executed and answered.
func Accepted() {
	n := 1 + vh.Choice(3)
	by := vh.I64()
	vh.Assume(by > 0 && by < 1000)
	amount := strconv.FormatInt(by, 10)
	fresh()
	var l []*event.Event
	vh.Race()
	vh.Sched(60)
	for i := 0; i < n; i++ {
		c := redis.NewCommandFromReceive(context.Background(), &protocol.Receive{Elements: []string{"incrby", "c", amount}})
		e := event.NewEvent(c)
		event.AddEvent(e)
		l = append(l, e)
	}
	event.Stop()
	vh.Sched(0)
	for i, e := range l {
		select {
		case <-e.Done():
		default:
			vh.Fail("the stop returned before a request handed over earlier was answered")
		}
		vh.Assert(e.Rsp != nil, "a request handed over before the stop has no answer")
		r, ok := kit.ParseAll(e.Rsp.Encode())
		vh.Assert(ok, "reply")
		r.Int(by*int64(i+1), "INCRBY handed over before the stop")
	}
	fresh()
	vh.Assert(executed("c") == by*int64(n), "a request handed over before the stop was not executed once")
	vh.Reach("end")
}

// Waiting: one request is being answered or queued when the stop comes, from another goroutine.
func Waiting() {
	v := vh.Str(1)
	fresh()
	e := event.NewEvent(redis.NewCommandFromReceive(context.Background(), &protocol.Receive{Elements: []string{"set", "k", v}}))
	fin := make(chan bool)
	vh.Race()
	vh.Sched(60)
	event.AddEvent(e)
	go func() {
		event.Stop()
		fin <- true
	}()
	r, prompt := timed("get", "k")
	<-fin
	vh.Sched(0)
	select {
	case <-e.Done():
	default:
		vh.Fail("the stop returned before a request handed over earlier was answered")
	}
	vh.Assert(prompt, "a request made while the server stopped was left unanswered until its timeout")
	if !r.IsErr() {
		r.Bulk(v, "GET after an accepted SET")
	}
	fresh()
	kit.Do("get", "k").Bulk(v, "SET handed over before the stop")
	vh.Reach("end")
}

// After: requests and stops after the stop.
func After() {
	fresh()
	v := vh.Str(1)
	kit.Do("set", "k", v).Ok("SET")
	event.Stop()
	if vh.Choice(2) == 1 {
		event.Stop()
	}
	n := 1 + vh.Choice(2)
	for i := 0; i < n; i++ {
		r, prompt := timed("set", "k", "other")
		vh.Assert(prompt, "a request made after the stop was left unanswered until its timeout")
		vh.Assert(r.IsErr(), "a request made after the stop")
	}
	if vh.Choice(2) == 1 {
		event.Stop()
	}
	fresh()
	kit.Do("get", "k").Bulk(v, "a request made after the stop was executed")
	vh.Reach("end")
}

// Idle: a stop returns however many requests came before.
func Idle() {
	fresh()
	n := vh.Choice(3)
	vh.Race()
	vh.Sched(60)
	for i := 0; i < n; i++ {
		kit.Raw("incr", "c")
	}
	event.Stop()
	vh.Sched(0)
	fresh()
	vh.Assert(executed("c") == int64(n), "requests before the stop")
	vh.Reach("end")
}
