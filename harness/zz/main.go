package main

import (
	"sync"

	"github.com/yusank/godis/zzverif/vh"
)

func prog(n int) {
	var mu sync.Mutex
	order := 0
	c := make(chan int, 1)
	d := make(chan int)
	fin := make(chan bool, 3)
	vh.Sched(n)
	go func() {
		mu.Lock()
		order = order*10 + 1
		mu.Unlock()
		c <- 1
		fin <- true
	}()
	go func() {
		select {
		case <-c:
			mu.Lock()
			order = order*10 + 5
			mu.Unlock()
		case <-d:
			mu.Lock()
			order = order*10 + 6
			mu.Unlock()
		}
		fin <- true
	}()
	select {
	case d <- 1:
		mu.Lock()
		order = order*10 + 2
		mu.Unlock()
	case v := <-c:
		c <- v
	default:
		mu.Lock()
		order = order*10 + 3
		mu.Unlock()
	}
	<-fin
	<-fin
	vh.Sched(0)
	vh.Reach("o" + itoa(order))
}
func itoa(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}

// prog2: two senders independent of each other, a select waiting for both, a close.
func prog2(n int) {
	c, d := make(chan int), make(chan int)
	q := make(chan bool, 2)
	r := 0
	vh.Sched(n)
	go func() {
		select {
		case c <- 1:
		case <-q:
		}
	}()
	go func() {
		select {
		case d <- 2:
		case <-q:
		}
	}()
	select {
	case v := <-c:
		r = v
	case v := <-d:
		r = v
	}
	select {
	case v := <-d:
		r = r*10 + v
	default:
		r = r*10 + 9
	}
	close(q)
	vh.Sched(0)
	vh.Reach("p" + itoa(r))
}

// prog3: reader-writer lock, two receivers on one channel, a close while they wait.
func prog3(n int) {
	var mu sync.RWMutex
	var wg sync.WaitGroup
	c := make(chan int, 1)
	log := 0
	x := 1
	wg.Add(3)
	vh.Sched(n)
	for i := 1; i < 3; i++ {
		go func(i int) {
			v := <-c
			mu.Lock()
			log = log*100 + i*10 + v
			mu.Unlock()
			wg.Done()
		}(i)
	}
	go func() {
		mu.RLock()
		y := x
		mu.RUnlock()
		c <- y
		close(c)
		wg.Done()
	}()
	mu.Lock()
	x = 2
	mu.Unlock()
	wg.Wait()
	vh.Sched(0)
	vh.Reach("q" + itoa(log))
}

func A()  { prog(60) }
func B()  { prog(30) }
func A2() { prog2(60) }
func B2() { prog2(30) }
func A3() { prog3(60) }
func B3() { prog3(6) }
