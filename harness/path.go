package main

import (
	"fmt"
	"strings"
	"sync"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/rbac"
	"github.com/abichinger/fastac/util"
	"github.com/abichinger/govaluate"
)

// Domain "path": path patterns. Texts are lists of characters

func init() {
	domains["path"] = domainSpec{new: func() Domain { return &pathDomain{} }, gen: map[string]func(h *H){
		"path": genPath, "args": genArgs, "conc": genPathConc,
	}}
}

type pathDomain struct{ together bool }

func (d *pathDomain) Init(ev Ev) {}
func (d *pathDomain) Close()     {}

// Models are made one after the other: no property is about making models at the same time.
var makeModels sync.Mutex

var pathEnforcers = map[string]*fastac.Enforcer{}

func (d *pathDomain) enforcer(fn string) (e *fastac.Enforcer) {
	if !d.together {
		e = pathEnforcers[fn]
	}
	if e == nil {
		makeModels.Lock()
		defer makeModels.Unlock()
		m := model.NewModel()
		if fn == "helper" {
			m.SetFunction(fn, util.PathMatchFunc) // set for each question
		}
		must(m.LoadModelFromText("[request_definition]\nr = path\n[policy_definition]\np = path\n[policy_effect]\ne = some(where (p.eft == allow))\n[matchers]\nm = " + fn + "(r.path, p.path)\n"))
		var err error
		e, err = fastac.NewEnforcer(m, nil)
		must(err)
		if !d.together {
			pathEnforcers[fn] = e
		}
	}
	return e
}

func pathFns(ev Ev) (func(p, q string) bool, govaluate.ExpressionFunction, func(string) bool, util.IMatcher) {
	switch str(ev, "fn") {
	case "pathMatch":
		return util.PathMatch, util.PathMatchFunc, util.IsPathPattern, util.PathMatcher
	case "pathMatch2":
		return util.PathMatch2, util.PathMatchFunc2, util.IsPathPattern2, util.PathMatcher2
	}
	// the helpers in a notation of the caller
	nt := obj(canon(ev["nt"]))
	sep, mark := strings.Join(strs(nt["sep"]), ""), func(key string) byte {
		if text := str(nt, key); text != "" {
			return text[0]
		}
		return 0
	}
	match := func(p, q string) bool { return util.PathMatchHelper(p, q, sep, mark("pre"), mark("suf")) }
	is := func(p string) bool { return util.IsPathPatternHelper(p, sep, mark("pre"), mark("suf")) }
	return match, util.WrapMatchingFunc(match), is, util.NewMatcher(is, match)
}

// others asks in all other ways and returns the first answer which differs
func (d *pathDomain) others(ev Ev, pattern string, paths []string, hits []bool) interface{} {
	fn := str(ev, "fn")
	_, wrapped, isPattern, m := pathFns(ev)
	e := d.enforcer(fn)
	if fn == "helper" {
		e.GetModel().SetFunction(fn, wrapped)
	}
	rm := rbac.NewRoleManager(10)
	rm.SetMatcher(m)
	dm := rbac.NewDomainManager(10)
	dm.SetDomainMatcher(m)
	if pattern != "" {
		_, err := rm.AddLink(pattern, "R!")
		must(err)
		_, err = dm.AddLink("u", "R!", pattern)
		must(err)
	}
	must(e.GetModel().(*model.Model).ClearPolicy("p"))
	_, err := e.AddRule([]string{"p", pattern})
	must(err)
	for i, path := range paths {
		ask := func(via string, ok bool, err error) interface{} {
			if err == nil && ok == hits[i] {
				return nil
			}
			return []string{via, path, pattern, fmt.Sprint(ok, err)}
		}
		x, err := wrapped(path, pattern)
		if r := ask("wrapped", x == true, err); r != nil {
			return r
		}
		if r := ask("matcher", m.Match(path, pattern), nil); r != nil {
			return r
		}
		ok, err := e.Enforce(path)
		if r := ask("enforce", ok, err); r != nil {
			return r
		}
		if path == "" || pattern == "" || m.IsPattern(path) || fn != "helper" && strings.ContainsAny(path, ":*{") {
			continue // not a name, or a pattern itself
		}
		ok, err = rm.HasLink(path, "R!")
		if r := ask("role", ok, err); r != nil {
			return r
		}
		ok, err = dm.HasLink("u", "R!", path)
		if r := ask("domain", ok, err); r != nil {
			return r
		}
	}
	if m.IsPattern(pattern) != isPattern(pattern) {
		return []string{"ispattern", pattern}
	}
	return nil
}

func pathArg(v interface{}) interface{} {
	switch v := obj(v); str(v, "t") {
	case "int":
		return 7
	case "float":
		return 7.5
	case "nil":
		return nil
	case "bool":
		return true
	case "list":
		return []string{"/a"}
	case "bytes":
		return []byte("/a")
	default:
		return str(v, "v")
	}
}

func (d *pathDomain) Do(ev Ev) (res Ev) {
	res = Ev{}
	p := guard(func() {
		fn := str(ev, "fn")
		switch str(ev, "op") {
		case "together":
			asks, d := list(canon(ev["asks"])), &pathDomain{true}
			res["results"] = together(len(asks), func(i int) Ev { return d.Do(obj(asks[i])) })
			res["err"] = false
		case "match":
			match, _, _, _ := pathFns(ev)
			pattern := strings.Join(strs(canon(ev["pattern"])), "")
			paths, hits, list1 := []string{}, []bool{}, []int{}
			for i, x := range list(canon(ev["paths"])) {
				paths = append(paths, strings.Join(strs(x), ""))
				hits = append(hits, match(paths[i], pattern))
				if hits[i] {
					list1 = append(list1, i+1)
				}
			}
			res["hits"] = list1
			if r := d.others(ev, pattern, paths, hits); r != nil {
				res["differs"] = r
			}
			res["err"] = false
		case "ispattern":
			_, _, is, m := pathFns(ev)
			text := strings.Join(strs(canon(ev["text"])), "")
			res["yes"] = is(text)
			if m.IsPattern(text) != is(text) {
				res["differs"] = text
			}
			res["err"] = false
		case "call":
			args := []interface{}{}
			expr, names := "", []string{"x1", "x2", "x3"}
			for i, a := range list(canon(ev["args"])) {
				args = append(args, pathArg(a))
				if i > 0 {
					expr += ", "
				}
				expr += "r." + names[i]
			}
			var err error
			switch str(ev, "via") {
			case "func":
				x := map[string]govaluate.ExpressionFunction{"pathMatch": util.PathMatchFunc, "pathMatch2": util.PathMatchFunc2,
					"regexMatch": util.RegexMatchFunc, "ipMatch": util.IPMatchFunc, "globMatch": util.GlobMatchFunc}[fn]
				_, err = x(args...)
			case "enforce":
				makeModels.Lock()
				m := model.NewModel()
				def := "none"
				if len(args) > 0 {
					def = strings.Join(names[:len(args)], ", ")
				}
				must(m.LoadModelFromText("[request_definition]\nr = " + def + "\n[policy_definition]\np = x\n[policy_effect]\ne = some(where (p.eft == allow))\n[matchers]\nm = " + fn + "(" + expr + ")\n"))
				e, err2 := fastac.NewEnforcer(m, nil)
				makeModels.Unlock()
				must(err2)
				_, err2 = e.AddRule([]string{"p", "v"})
				must(err2)
				if len(args) == 0 {
					args = append(args, "v")
				}
				_, err = e.Enforce(args...)
			}
			res["err"] = err != nil
		}
	})
	if p != "" {
		res["panic"] = p
		res["err"] = false
	}
	return res
}

// ---------------------------------------------------------------------------------- generator

func genPath(h *H) {
	h.Init(Ev{})
	for i := 0; i < 12; i++ {
		for _, ask := range pathAsks(h) {
			h.Do(ask)
		}
	}
}

// genPathConc asks at the same time
func genPathConc(h *H) {
	h.Init(Ev{})
	for i := 0; i < 3; i++ {
		asks := []interface{}{}
		for k := 0; k < 3; k++ {
			for _, ask := range pathAsks(h) {
				asks = append(asks, ask)
			}
		}
		h.rng.Shuffle(len(asks), func(i, j int) { asks[i], asks[j] = asks[j], asks[i] })
		h.Do(Ev{"op": "together", "asks": asks})
	}
}

var pathLiterals = []string{"a", "b", "ab", "é世", "a b", "x.y", "", "a:b", "b*", "}", "a}", "\\", "*"}

func pathAsks(h *H) []Ev {
	fn, sep, nt := []string{"pathMatch", "pathMatch2"}[h.Intn(2)], "/", Ev{}
	if h.P(0.25) {
		fn, sep = "helper", []string{"/", "::", ".", "->", "ab", ", ", "///", "aab"}[h.Intn(8)]
		nt = Ev{"sep": chars(sep), "pre": []string{"", ":", "{", "a"}[h.Intn(4)], "suf": []string{"", "", "}", "b"}[h.Intn(4)]}
	}
	pat := append([]string{"*", "*", ":x", "{x}", ":", "{}", "{", "{a", ":é", "**", "*:", "{*}"}, pathLiterals...)
	segs := []string{}
	n := 1 + h.Intn(7)
	if h.P(0.1) {
		n += h.Intn(30)
	}
	for k := n; k > 0; k-- {
		if h.P(0.45) {
			segs = append(segs, pat[h.Intn(4)])
		} else {
			segs = append(segs, h.Pick(pat))
		}
	}
	paths := [][]string{}
	for k := 0; k < 8; k++ {
		// a path derived from the pattern
		path := []string{}
		for _, s := range segs {
			switch {
			case h.P(0.05):
			case s == "*":
				for n := 1 + h.Intn(3); n > 0; n-- {
					path = append(path, h.Pick(pathLiterals))
				}
			case strings.HasPrefix(s, ":") || strings.HasPrefix(s, "{"):
				path = append(path, h.Pick(pathLiterals))
			default:
				path = append(path, s)
			}
			if h.P(0.07) {
				path = append(path, h.Pick(pathLiterals))
			}
		}
		paths = append(paths, chars(strings.Join(path, sep)))
	}
	return []Ev{{"op": "match", "fn": fn, "nt": nt, "pattern": chars(strings.Join(segs, sep)), "paths": paths},
		{"op": "ispattern", "fn": fn, "nt": nt, "text": chars(strings.Join(segs, sep))},
		{"op": "ispattern", "fn": fn, "nt": nt, "text": paths[0]}}
}

func genArgs(h *H) {
	h.Init(Ev{})
	for i := 0; i < 20; i++ {
		args := []Ev{}
		n := 2
		if h.P(0.4) {
			n = h.Intn(4)
		}
		fn := []string{"pathMatch", "pathMatch2", "regexMatch", "ipMatch", "globMatch"}[h.Intn(5)]
		for k := 0; k < n; k++ {
			a := Ev{"t": "str", "v": []string{"/a/b", "/a/*", "x"}[h.Intn(3)]}
			if fn == "ipMatch" {
				a["v"] = []string{"10.0.0.1", "10.0.0.1", "::1"}[h.Intn(3)]
			}
			if fn == "regexMatch" {
				a["v"] = "a+"
			}
			if h.P(0.25) {
				a["t"] = []string{"int", "float", "nil", "bool", "list", "bytes"}[h.Intn(6)]
			}
			args = append(args, a)
		}
		via := []string{"func", "enforce"}[h.Intn(2)]
		h.Do(Ev{"op": "call", "fn": fn, "via": via, "args": args})
	}
}
