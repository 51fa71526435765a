package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/abichinger/fastac/util"
)

// Domain "lru": the LRU cache (util/cache.go)

type cache interface {
	Get(key interface{}) (value interface{}, ok bool)
	Put(key interface{}, value interface{})
}

type lruDomain struct{ c cache }

func newLRU(ev Ev) cache {
	if boolean(ev, "sync") {
		return util.NewSyncLRUCache(num(ev, "cap"))
	}
	return util.NewLRUCache(num(ev, "cap"))
}

func (d *lruDomain) Init(ev Ev) { d.c = newLRU(ev) }
func (d *lruDomain) Close()     {}

// lruKey maps the name of a key to a key; keys of different types never collide
func lruKey(name string) interface{} {
	switch name[0] {
	case 'i':
		var i int
		fmt.Sscanf(name[1:], "%d", &i)
		return i
	case 'a':
		return [2]string{name[1:], ""}
	case 'b':
		return [2]string{"", name[1:]}
	case 'e':
		return ""
	case 'n':
		return nil
	}
	return name[1:]
}

// lruValues are the values which are no numbers, named by negative numbers
var lruValues = map[int]interface{}{-10: nil, -11: false, -12: "", -13: [1]int{}, -14: (*int)(nil)}

func lruValue(i int) interface{} {
	if i < 0 {
		return lruValues[i]
	}
	return i
}

func lruName(v interface{}) int {
	if i, ok := v.(int); ok {
		return i
	}
	for name, value := range lruValues {
		if v == value {
			return name
		}
	}
	return -1
}

func lruDo(c cache, ev Ev) (res Ev) {
	if p := guard(func() {
		switch str(ev, "op") {
		case "put":
			c.Put(lruKey(str(ev, "k")), lruValue(num(ev, "v")))
			res = Ev{"v": 0, "hit": false}
		case "get":
			v, ok := c.Get(lruKey(str(ev, "k")))
			switch {
			case ok:
				res = Ev{"v": lruName(v), "hit": true}
			case v != nil:
				res = Ev{"v": -1, "hit": false} // a value without a hit
			default:
				res = Ev{"v": 0, "hit": false}
			}
		}
	}); p != "" {
		res = Ev{"v": -2, "hit": false, "panic": p}
	}
	return res
}

func (d *lruDomain) Do(ev Ev) Ev { return lruDo(d.c, ev) }

func genLRU(h *H) {
	caps := []int{1, 2, 3, 4, 5, 8, 13, 100}
	cap := caps[h.idx%len(caps)]
	h.Init(Ev{"cap": cap, "sync": h.idx%2 == 1})
	keys := []string{}
	kinds := []string{"i", "s", "a", "b"}
	for i := 0; len(keys) < cap+1+h.Intn(3); i++ {
		keys = append(keys, fmt.Sprintf("%s%d", kinds[i%len(kinds)], i/len(kinds)))
	}
	if h.P(0.5) {
		keys[0] = "e"
	}
	if h.P(0.3) {
		keys[len(keys)-1] = "n"
	}
	odd := h.P(0.5)
	value := func(i int) int {
		if odd && h.P(0.4) {
			return -10 - h.Intn(len(lruValues))
		}
		return i
	}
	n := 60
	if cap > 20 {
		n = 400
	}
	pPut := []float64{0.2, 0.5, 0.8}[h.Intn(3)]
	for i := 0; i < n; i++ {
		if cap > 20 && i < cap+5 {
			h.Do(Ev{"op": "put", "k": keys[i%len(keys)], "v": i})
		} else if h.P(pPut) {
			h.Do(Ev{"op": "put", "k": h.Pick(keys), "v": value(i)})
		} else {
			h.Do(Ev{"op": "get", "k": h.Pick(keys)})
		}
	}
	// the complete content
	for _, k := range keys {
		h.Do(Ev{"op": "get", "k": k})
	}
}

// genLRUConc records histories of concurrent calls. An event "call" or "ret" carries the position
// of the call or return in the real-time order (a counter incremented before and after the call).
func genLRUConc(h *H) {
	cap := 1 + h.Intn(3)
	c := util.NewSyncLRUCache(cap)
	keys := []string{"i0", "i1", "s0", "a0"}[:cap+1]
	type rec struct {
		call, ret int64
		ev        Ev
	}
	var clock int64
	threads := 2 + h.Intn(2)
	per := 8 / threads
	all := make([][]*rec, threads)
	var wg sync.WaitGroup
	var ready int32
	atomic.AddInt64(&progress, 1)
	for t := 0; t < threads; t++ {
		rng := rand.New(rand.NewSource(h.rng.Int63()))
		for i := 0; i < per; i++ {
			r := &rec{}
			k := keys[rng.Intn(len(keys))]
			if rng.Intn(2) == 0 {
				r.ev = Ev{"op": "put", "k": k, "v": t*100 + i}
			} else {
				r.ev = Ev{"op": "get", "k": k}
			}
			all[t] = append(all[t], r)
		}
	}
	for t := 0; t < threads; t++ {
		wg.Add(1)
		go func(t int) {
			defer wg.Done()
			atomic.AddInt32(&ready, 1)
			for atomic.LoadInt32(&ready) < int32(threads) {
				runtime.Gosched()
			}
			for _, r := range all[t] {
				r.call = atomic.AddInt64(&clock, 1)
				res := lruDo(c, r.ev)
				r.ret = atomic.AddInt64(&clock, 1)
				r.ev["res"] = res
			}
		}(t)
	}
	wg.Wait()
	ops := []Ev{}
	for t := range all {
		for _, r := range all[t] {
			r.ev["thread"] = t
			r.ev["call"] = r.call
			r.ev["ret"] = r.ret
			ops = append(ops, r.ev)
		}
	}
	h.write(Ev{"cap": cap, "ops": ops})
}

func init() {
	domains["lru"] = domainSpec{
		new: func() Domain { return &lruDomain{} },
		gen: map[string]func(h *H){"seq": genLRU, "conc": genLRUConc},
	}
}
