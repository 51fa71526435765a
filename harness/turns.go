package main

import (
	"sync"
	"sync/atomic"
	"time"
)

var blocked int32 // rounds in which a question could not go on

// turns lets concurrent questions go on one at a time, in the order of a schedule. They give up
// their turn whenever the code under test calls something the harness has supplied. Code which
// does not let a question go on, because another one holds a lock, is left alone: from then on
// all questions run freely.
type turns struct {
	on     atomic.Value // *round
	inside func()       // what to do within the question which is asked
	wait   int          // calls until then
}

// open is a pause in which the caller may ask questions himself
func (t *turns) open() {
	if f := t.inside; f != nil {
		if t.wait--; t.wait < 0 {
			t.inside = nil
			f()
		}
		return
	}
	t.pause()
}

type round struct {
	cur  int32
	free int32
	turn []chan struct{}
	told chan told
}

type told struct {
	who  int
	done bool
}

// pause gives up the turn of the question which is running
func (t *turns) pause() {
	r, _ := t.on.Load().(*round)
	if r == nil || atomic.LoadInt32(&r.free) == 1 {
		return
	}
	i := int(atomic.LoadInt32(&r.cur))
	r.told <- told{i, false}
	<-r.turn[i]
}

// run calls fn(0) to fn(n-1) concurrently, a name in sched is the number of a call plus one
func (t *turns) run(n int, sched []int, fn func(i int)) {
	r := &round{told: make(chan told, 1<<16)}
	for i := 0; i < n; i++ {
		r.turn = append(r.turn, make(chan struct{}, 1))
	}
	if atomic.LoadInt32(&blocked) < 3 {
		t.on.Store(r)
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-r.turn[i]
			fn(i)
			r.told <- told{i, true}
		}(i)
	}
	done, left := make([]bool, n), n
	for k := 0; left > 0; k++ {
		i := 0
		if k < len(sched) {
			i = (sched[k] + n - 1) % n
		}
		for done[i] {
			i = (i + 1) % n
		}
		atomic.StoreInt32(&r.cur, int32(i))
		r.turn[i] <- struct{}{}
		select {
		case m := <-r.told:
			if m.done {
				done[m.who] = true
				left--
			}
		case <-time.After(2 * time.Second):
			atomic.AddInt32(&blocked, 1)
			atomic.StoreInt32(&r.free, 1)
			for _, c := range r.turn {
				close(c)
			}
			left = 0
		}
	}
	wg.Wait()
	t.on.Store((*round)(nil))
}

// together runs n questions at the same time and returns their replies
func together(n int, ask func(i int) Ev) []Ev {
	res, start := make([]Ev, n), make(chan bool)
	var wg sync.WaitGroup
	for i := range res {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			res[i] = ask(i)
		}(i)
	}
	close(start)
	wg.Wait()
	return res
}
