// Command fastacverif is the conformance harness which binds the TLA+ specifications in
// ../spec to the real code of fastac.
//
//	gen DOMAIN PROFILE SEED N OUT   run N seeded random histories, record a trace (ndjson)
//	rerun DOMAIN IN OUT             run the operations of a recorded trace again
//	replay DOMAIN IN OUT            run behaviours generated by TLC, compare every reply
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Ev is one event: the arguments of an operation and, under "res", its reply.
type Ev = map[string]interface{}

// Domain executes events on the real code.
type Domain interface {
	Init(ev Ev)  // start a new history
	Do(ev Ev) Ev // execute one operation, return the reply
	Close()      // end of the history
}

type domainSpec struct {
	new func() Domain
	gen map[string]func(h *H)
}

var domains = map[string]domainSpec{}

// H records one history after the other.
type H struct {
	rng     *rand.Rand
	dom     Domain
	out     *bufio.Writer
	idx     int // number of the history
	tot     int // number of histories
	n       int // events written
	profile string
}

var progress int64 // advanced by every operation, watched by the watchdog
var current atomic.Value

func (h *H) write(ev Ev) {
	b, err := json.Marshal(ev)
	check(err)
	h.out.Write(b)
	h.out.WriteByte('\n')
	h.n++
}

// Init starts a history.
func (h *H) Init(ev Ev) {
	atomic.AddInt64(&progress, 1)
	ev["op"] = "init"
	current.Store(fmt.Sprint(ev))
	h.out.Flush()
	if p := guard(func() { h.dom.Init(ev) }); p != "" {
		// the history cannot even start
		ev["res"] = Ev{"panic": p}
		h.write(ev)
		panic(stopHistory{})
	}
	ev["res"] = Ev{}
	h.write(ev)
}

type stopHistory struct{}

// history runs fn, which may be ended by a failing Init
func history(fn func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopHistory); !ok {
				panic(r)
			}
		}
	}()
	fn()
}

// Do executes and records an operation.
func (h *H) Do(ev Ev) Ev {
	atomic.AddInt64(&progress, 1)
	b, _ := json.Marshal(ev)
	current.Store(string(b))
	res := h.dom.Do(ev)
	ev["res"] = res
	h.write(ev)
	return res
}

func (h *H) Intn(n int) int         { return h.rng.Intn(n) }
func (h *H) P(p float64) bool       { return h.rng.Float64() < p }
func (h *H) Pick(s []string) string { return s[h.rng.Intn(len(s))] }

// check ends the harness: the error is its own
func check(err error) {
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
}

// must ends an operation: the error is that of the code under test
func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("unexpected error: %v", err))
	}
}

// guard calls fn, which calls the code under test, and returns the panic if there was one
func guard(fn func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprint(r)
			if strings.HasPrefix(p, "harness:") {
				panic(r)
			}
			if p == "" {
				p = "panic"
			}
		}
	}()
	fn()
	return ""
}

func watchdog(limit time.Duration) {
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(500 * time.Millisecond)
		if p := atomic.LoadInt64(&progress); p != last {
			last, since = p, time.Now()
		} else if time.Since(since) > limit {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Fprintf(os.Stderr, "HANG: no progress for %v in %v\n%s\n", limit, current.Load(), buf)
			os.Exit(42)
		}
	}
}

func main() {
	time.Local = time.UTC
	go watchdog(60 * time.Second)
	if len(os.Args) < 2 {
		check(fmt.Errorf("missing command"))
	}
	if f, ok := commands[os.Args[1]]; ok {
		f(os.Args[2:])
		return
	}
	check(fmt.Errorf("unknown command %q", os.Args[1]))
}

var commands = map[string]func(args []string){
	"gen":    cmdGen,
	"replay": cmdReplay,
	"rerun":  cmdRerun,
}

func cmdGen(args []string) {
	d, ok := domains[args[0]]
	if !ok {
		check(fmt.Errorf("unknown domain %q", args[0]))
	}
	gen, ok := d.gen[args[1]]
	if !ok {
		check(fmt.Errorf("unknown profile %q", args[1]))
	}
	seed, err := strconv.ParseInt(args[2], 10, 64)
	check(err)
	n, err := strconv.Atoi(args[3])
	check(err)
	f, err := os.Create(args[4])
	check(err)
	out := bufio.NewWriterSize(f, 1<<20)
	total := 0
	for i := 0; i < n; i++ {
		h := &H{rng: rand.New(rand.NewSource(seed*1000003 + int64(i))), dom: d.new(), out: out, idx: i, tot: n, profile: args[1]}
		history(func() { gen(h) })
		h.dom.Close()
		total += h.n
	}
	check(out.Flush())
	check(f.Close())
	fmt.Printf("histories=%d events=%d\n", n, total)
}

// cmdRerun executes the operations of a recorded trace again and records a new one
func cmdRerun(args []string) {
	d, ok := domains[args[0]]
	if !ok {
		check(fmt.Errorf("unknown domain %q", args[0]))
	}
	in, err := os.Open(args[1])
	check(err)
	f, err := os.Create(args[2])
	check(err)
	h := &H{rng: rand.New(rand.NewSource(1)), out: bufio.NewWriter(f)}
	sc := bufio.NewScanner(in)
	sc.Buffer(nil, 1<<26)
	for sc.Scan() {
		var ev Ev
		check(json.Unmarshal(sc.Bytes(), &ev))
		delete(ev, "res")
		if str(ev, "op") == "init" {
			if h.dom != nil {
				h.dom.Close()
			}
			h.dom = d.new()
			history(func() { h.Init(ev) })
		} else {
			h.Do(ev)
		}
	}
	check(sc.Err())
	h.dom.Close()
	check(h.out.Flush())
	check(f.Close())
	fmt.Printf("events=%d\n", h.n)
}

// canon sorts the lists which stand for sets
func canon(v interface{}) interface{} {
	b, err := json.Marshal(v)
	check(err)
	var x interface{}
	check(json.Unmarshal(b, &x))
	return canonValue("", x)
}

var setFields = map[string]bool{"rules": true, "names": true, "links": true, "post": true, "domains": true, "truth": true}

func canonValue(field string, x interface{}) interface{} {
	switch v := x.(type) {
	case map[string]interface{}:
		for k, e := range v {
			v[k] = canonValue(k, e)
		}
		return v
	case []interface{}:
		for i, e := range v {
			v[i] = canonValue("", e)
		}
		if setFields[field] {
			sort.Slice(v, func(i, j int) bool {
				a, _ := json.Marshal(v[i])
				b, _ := json.Marshal(v[j])
				return string(a) < string(b)
			})
		}
		return v
	case nil:
		return nil
	}
	return x
}

// cmdReplay reads one behaviour per line: a list of events with the replies the specification
// demands. "res" is the reply or, if there are several allowed replies, {"any": [...]}.
func cmdReplay(args []string) {
	d, ok := domains[args[0]]
	if !ok {
		check(fmt.Errorf("unknown domain %q", args[0]))
	}
	in, err := os.Open(args[1])
	check(err)
	r := bufio.NewReaderSize(in, 1<<20)
	tests, events, bad := 0, 0, 0
	ops := map[string]int{}
	for {
		line, err := r.ReadBytes('\n')
		if len(line) > 1 {
			var evs []Ev
			check(json.Unmarshal(line, &evs))
			tests++
			dom := d.new()
			for i, ev := range evs {
				atomic.AddInt64(&progress, 1)
				current.Store(string(line))
				op, _ := ev["op"].(string)
				if i == 0 || op == "init" {
					if p := guard(func() { dom.Init(ev) }); p != "" {
						bad++
						ev["res"] = Ev{"panic": p}
						b, _ := json.Marshal(evs[:i+1])
						fmt.Printf("MISMATCH %s\n", b)
						break
					}
					continue
				}
				events++
				ops[op]++
				want := ev["res"]
				delete(ev, "res")
				got := dom.Do(ev)
				if !allowed(got, want) {
					bad++
					if bad <= 5 {
						ev["res"] = got
						ev["expected"] = want
						b, _ := json.Marshal(evs[:i+1])
						fmt.Printf("MISMATCH %s\n", b)
					}
					break
				}
			}
			dom.Close()
		}
		if err == io.EOF {
			break
		}
		check(err)
	}
	b, _ := json.Marshal(ops)
	fmt.Printf("tests=%d events=%d mismatches=%d ops=%s\n", tests, events, bad, b)
}

func allowed(got, want interface{}) bool {
	g := canon(got)
	if m := obj(g); m != nil {
		delete(m, "msg") // for the reader only
	}
	if m, ok := want.(map[string]interface{}); ok {
		if alts, ok := m["any"].([]interface{}); ok {
			for _, w := range alts {
				if reflect.DeepEqual(g, canon(w)) {
					return true
				}
			}
			return false
		}
	}
	if m, ok := want.(map[string]interface{}); ok {
		if told, ok := m["told"]; ok {
			// an error may be reported by a panic; fields which are not mentioned are open
			gm, _ := g.(map[string]interface{})
			if gm == nil || told != (gm["err"] == true || gm["panic"] == true) {
				return false
			}
			for k, w := range m {
				if k != "told" && !reflect.DeepEqual(gm[k], canonValue(k, canon(w))) {
					return false
				}
			}
			return true
		}
		if ws, ok := m["together"]; ok {
			each, wants := list(obj(g)["together"]), list(ws)
			for i, w := range wants {
				if len(each) != len(wants) || !allowed(each[i], w) {
					return false
				}
			}
			return true
		}
		if _, ok := m["among"]; ok {
			return listing(obj(g), m)
		}
		if each, ok := m["each"]; ok {
			return enumeration(obj(g), list(each), num(m, "stop"))
		}
		if must, ok := m["must"]; ok {
			gm, _ := g.(map[string]interface{})
			return gm != nil && gm["err"] == false && subset(list(must), list(gm["names"])) && subset(list(gm["names"]), list(m["may"]))
		}
	}
	return reflect.DeepEqual(g, canon(want))
}

// listing of matches: a rule may be listed several times
func listing(got, want Ev) bool {
	if got == nil || got["panic"] != nil {
		return false
	}
	rules, among, stop := list(got["rules"]), list(want["among"]), num(want, "stop")
	if calls, ok := got["calls"]; ok && (num(got, "calls") != len(rules) || calls == nil) || stop > 0 && len(rules) > stop {
		return false
	}
	failed := boolean(got, "err")
	if failed && !boolean(want, "mayfail") {
		return false
	}
	if got["calls"] == nil && failed {
		return true // the list does not count
	}
	if !subset(rules, among) {
		return false
	}
	return failed || stop > 0 && len(rules) == stop || boolean(want, "complete") && subset(among, rules)
}

// enumeration of a set: every element once, until the consumer stops
func enumeration(got Ev, each []interface{}, stop int) bool {
	if got == nil || got["panic"] != nil || boolean(got, "err") {
		return false
	}
	rules, n := list(got["rules"]), len(each)
	if stop > 0 && stop < n {
		n = stop
	}
	seen := map[string]bool{}
	for _, r := range rules {
		seen[key(r)] = true
	}
	return len(rules) == n && num(got, "calls") == n && len(seen) == n && subset(rules, each)
}

func key(v interface{}) string {
	b, err := json.Marshal(v)
	check(err)
	return string(b)
}

func subset(a, b []interface{}) bool {
	in := map[string]bool{}
	for _, x := range b {
		in[key(x)] = true
	}
	for _, x := range a {
		if !in[key(x)] {
			return false
		}
	}
	return true
}

// helpers to read event fields

func str(ev Ev, k string) string { s, _ := ev[k].(string); return s }
func num(ev Ev, k string) int {
	switch v := ev[k].(type) {
	case int:
		return v
	case float64:
		return int(v)
	}
	return 0
}
func boolean(ev Ev, k string) bool { b, _ := ev[k].(bool); return b }
func strs(v interface{}) []string {
	switch l := v.(type) {
	case []string:
		return l
	case []interface{}:
		res := make([]string, len(l))
		for i, e := range l {
			res[i], _ = e.(string)
		}
		return res
	}
	return []string{}
}
func list(v interface{}) []interface{} {
	switch l := v.(type) {
	case []interface{}:
		return l
	case nil:
		return nil
	}
	r := reflect.ValueOf(v)
	if r.Kind() != reflect.Slice {
		check(fmt.Errorf("not a list: %T", v))
	}
	res := make([]interface{}, r.Len())
	for i := range res {
		res[i] = r.Index(i).Interface()
	}
	return res
}
func obj(v interface{}) Ev {
	m, _ := v.(map[string]interface{})
	return m
}
func copyStrs(s []string) []string { return append([]string{}, s...) }
