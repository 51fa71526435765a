package main

import (
	"fmt"
	"math"
	"regexp"
	"sort"
	"strings"
	"sync"
)

// Random worlds and histories for the domain "engine"

type engProfile struct {
	nasty    float64 // probability that a name stands for a nasty text
	p2       float64 // more policies, request definitions, matchers
	g        float64 // role definitions
	fns      float64
	evals    float64
	objs     float64
	nums     float64
	rxs      float64
	tern     float64
	fail     float64 // failing functions, wrong types, missing attributes
	adhoc    float64 // matchers passed with the request
	lone     float64 // missing default definitions
	rows     int     // rules per policy to start with
	depth    int
	steps    int
	asks     int // questions per step
	wEnforce int
	wFilter  int
	wRange   int
	wList    int
	wHas     int
	wRefuse  int
	wChange  int
	wBulk    int
	wClear   int
	wHeld    int
	wDefs    int
	odd      float64 // rules with another number of columns
	conc     int     // goroutines
	nested   float64 // questions within questions
	ext      float64 // texts put together, calculations, functions from texts to texts, equal conditions
	wide     int     // many names, and that many rules to start with
}

type engGen struct {
	*H
	p      engProfile
	names  []string // texts used everywhere
	users  []string
	pats   []string
	pcols  map[string][]string
	rcols  map[string][]string
	gkind  map[string]string
	pkeys  []string
	rkeys  []string
	gkeys  []string
	mkeys  []string
	ekeys  []string
	fns    map[string]int // arity
	nums   []string
	numv   map[string]Ev
	objs   []string
	rxs    []string
	subs   []string
	mpol   map[string]string
	rules  [][]string // probably stored
	dead   [][]string // removed
	held   []string   // policy of held matchers
	ctx    []string   // request definitions of held contexts
	failOn bool
	gset   map[string]bool
	ini    bool

	useEval bool
	md      map[string]Ev // matchers as defined: pol, ast, text
	cpol    []string      // policies of held contexts
	ccols   [][]string    // values of held contexts
	cats    []string      // what texts are put together with
	ars     []string      // numbers to calculate with
	tfns    bool
	nmok    bool // name patterns of g as in the world
}

type node = []interface{}

func strVal(n string) Ev  { return Ev{"t": "s", "v": n, "k": 0} }
func (g *engGen) st() int { return 3 + g.Intn(1<<20) }
func (g *engGen) ast() int { // style of an expression
	switch g.Intn(5) {
	case 0:
		return 1
	case 1:
		return 2
	}
	return g.st()
}

func (g *engGen) name() string {
	if g.P(0.06) {
		return ""
	}
	return g.Pick(g.names)
}

var keyTexts = []string{"p", "p", "p", "r", "r", "g", "p2", "p10", "r2", "g2", "m", "e", "sub", "p_sub", "r_sub", "user", "true", "false", "1", "*", "nil", "x_sub"}
var effectTexts = []string{"other", "Allow", "ALLOW", "Deny", "DENY", "allow ", " deny", "indeterminate", "true", "false", "0", "deny,allow", "allowed", "denied", "al", "none"}

var colKinds = []string{"sub", "obj", "act", "dom"}

// policyDef chooses the columns of a policy
func (g *engGen) policyDef(k string) Ev {
	cols := append([]string{}, colKinds[:1+g.Intn(4)]...)
	if g.useEval {
		cols = append(cols, "rule")
	}
	eft := 0
	if g.P(0.6) {
		i := g.Intn(len(cols) + 1)
		if g.P(0.7) {
			i = len(cols)
		}
		cols = append(cols[:i:i], append([]string{"eft"}, cols[i:]...)...)
		eft = i + 1
	}
	g.pcols[k] = cols
	return Ev{"cols": cols, "eft": eft}
}

// requestDef chooses the values of a request
func (g *engGen) requestDef(k string) []string {
	cols := append([]string{}, colKinds[:1+g.Intn(4)]...)
	if g.P(g.p.nums) {
		cols = append(cols, "n")
	}
	if g.P(g.p.objs) {
		cols = append(cols, "o")
	}
	if g.P(0.1) {
		cols = append(cols, "flag")
	}
	g.rcols[k] = cols
	return cols
}

func (g *engGen) outcomes() string {
	if g.P(g.p.fail * 0.4) {
		return []string{"E", "P"}[g.Intn(2)]
	}
	return []string{"T", "F"}[g.Intn(2)]
}

var fnArity = map[string]int{"f1": 1, "f2": 2}

// function chooses a table
func (g *engGen) function(name string) []interface{} {
	rows := []interface{}{}
	all := append([]string{""}, g.names...)
	for _, a := range all {
		if fnArity[name] == 1 {
			rows = append(rows, []interface{}{[]string{a}, g.outcomes()})
			continue
		}
		for _, b := range all {
			rows = append(rows, []interface{}{[]string{a, b}, g.outcomes()})
		}
	}
	return rows
}

func (g *engGen) world() Ev {
	p := g.p
	w := Ev{"st": g.st()}
	g.ini = g.P(0.25)
	nasty := p.nasty
	if g.ini {
		nasty = 0
	}
	base := []string{"alice", "bob", "data", "read", "x1"}[:3+g.Intn(3)]
	if p.wide > 0 {
		for i := g.Intn(40); i >= 0; i-- {
			base = append(base, fmt.Sprintf("u%d", i))
		}
	}
	texts := g.texts(append([]string{}, base...), nasty)
	for k, v := range texts {
		if v == "" || v == "allow" || v == "deny" || v == "other" {
			texts[k] = k
		}
	}
	g.names = base
	used := map[string]bool{}
	for _, v := range texts {
		used[v] = true
	}
	// texts which are also keys, columns or literals
	if l := g.Pick(keyTexts); g.P(0.5) && !used[l] {
		texts[g.Pick(base)] = l
		used[l] = true
	}
	// an effect which is neither allow nor deny
	texts["other"] = "other"
	if l := g.Pick(effectTexts); !used[l] {
		texts["other"] = l
	}
	// policies
	g.md, g.nmok = map[string]Ev{}, true
	g.pcols, g.rcols, g.gkind, g.mpol = map[string][]string{}, map[string][]string{}, map[string]string{}, map[string]string{}
	g.pkeys, g.rkeys = []string{"p"}, []string{"r"}
	if g.P(p.p2) {
		g.pkeys = append(g.pkeys, []string{"p2", "p10"}[g.Intn(2)])
	}
	if g.P(p.p2) {
		g.rkeys = append(g.rkeys, []string{"r2", "r3"}[g.Intn(2)])
	}
	if g.P(p.lone) {
		g.pkeys = []string{"p2"}
	}
	g.useEval = g.P(p.evals)
	pdefs := Ev{}
	for _, k := range g.pkeys {
		pdefs[k] = g.policyDef(k)
	}
	rdefs := Ev{}
	for _, k := range g.rkeys {
		rdefs[k] = g.requestDef(k)
	}
	w["p"], w["r"] = pdefs, rdefs
	// numbers
	numTable := []struct {
		f    float64
		lits []string
	}{{-5, []string{"-5", "-5.0"}}, {0, []string{"0", "0.0"}}, {0.0000001, []string{"0.0000001"}}, {0.5, []string{"0.5", ".5"}}, {1, []string{"1", "1.0"}}, {18, []string{"18"}},
		{123456789, []string{"123456789"}}, {1388620800, []string{"1388620800", "'2014-01-02'", "\"2014-01-02 00:00:00\""}}, // a date is its time
		{1388667845, []string{"1388667845", "'2014-01-02 13:04:05'", "'2014-01-02 15:04:05+02:00'", "'2014-01-02T13:04:05Z'", "\"2014-01-02T12:04:05-0100\""}},
		{9007199254740991, []string{"9007199254740991"}}, {1e21, []string{"1000000000000000000000"}}, {1e24, []string{"1000000000000000000000000"}}}
	nums := Ev{}
	g.numv = map[string]Ev{}
	if p.nums > 0 {
		for i, n := range numTable {
			if g.P(0.5) || i == 4 {
				k := fmt.Sprintf("n%d", i)
				nums[k] = Ev{"f": n.f, "lits": n.lits}
				g.nums = append(g.nums, k)
				g.numv[k] = Ev{"t": "n", "v": k, "k": i}
			}
		}
	}
	if p.ext > 0 && len(g.nums) > 0 && g.P(0.7) {
		w["arith"] = g.arith(nums)
	}
	w["nums"] = nums
	if g.cats = nil; g.P(p.ext) {
		g.cats = []string{g.name(), g.name()}
	}
	if g.tfns = g.P(p.ext); g.tfns {
		to := Ev{}
		for _, n := range append([]string{"", "allow", "deny", "other"}, g.names...) {
			if g.P(0.8) {
				to[n] = g.name()
			}
		}
		w["tfns"] = Ev{"f3": to}
	}
	// role definitions
	gdefs := Ev{}
	g.gset = map[string]bool{}
	for _, k := range []string{"g", "g2"} {
		if g.P(p.g) {
			kind := g.roleKind()
			g.gkind[k] = kind
			g.gkeys = append(g.gkeys, k)
			nm := []interface{}{}
			if g.P(0.25) && k == "g" {
				pat := "~P"
				g.pats = []string{pat}
				texts[pat] = pat
				for _, n := range g.names {
					if g.P(0.4) {
						nm = append(nm, []string{n, pat})
					}
				}
			}
			gdefs[k] = Ev{"kind": kind, "limit": 10, "nm": nm}
		}
	}
	w["g"] = gdefs
	// functions
	g.fns = map[string]int{}
	fns := Ev{}
	all := append([]string{""}, g.names...)
	if g.P(p.fns) {
		for _, f := range []string{"f1", "f2"} {
			g.fns[f] = fnArity[f]
			fns[f] = g.function(f)
		}
	}
	// objects
	objs := Ev{}
	if p.objs > 0 {
		rows := []interface{}{}
		for i := 0; i < 3; i++ {
			k := fmt.Sprintf("o%d", i)
			g.objs = append(g.objs, k)
			a := Ev{"Name": strVal(g.name()), "Role": strVal(g.name()), "Ok": Ev{"t": "b", "v": []string{"T", "F"}[g.Intn(2)], "k": 0}}
			if len(g.nums) > 0 {
				a["Age"] = g.numv[g.Pick(g.nums)]
				a["Level"] = g.numv["n4"]
			}
			if i > 0 {
				a["Inner"] = Ev{"t": "o", "v": fmt.Sprintf("o%d", i-1), "k": 0}
			}
			objs[k] = a
			for _, n := range all {
				rows = append(rows, []interface{}{[]string{k, n}, g.outcomes()})
			}
		}
		fns["Is."] = rows
	}
	w["objs"], w["fns"] = objs, fns
	// regular expressions
	rxs, rx := Ev{}, []interface{}{}
	if p.rxs > 0 {
		for i, re := range []string{"^a", "b|c", `^\w+$`, "['\"]", "^$", `\\`, "a.*e", "p_sub|r.obj", `^[^/]+$`} {
			k := fmt.Sprintf("re%d", i)
			rxs[k] = re
			g.rxs = append(g.rxs, k)
			c := regexp.MustCompile(re)
			for _, n := range append([]string{"allow", "deny", "other", "~P"}, all...) {
				t, ok := texts[n]
				if !ok {
					t = n
				}
				if c.MatchString(t) {
					rx = append(rx, []string{n, k})
				}
			}
		}
	}
	w["rxs"], w["rx"] = rxs, rx
	w["texts"] = texts
	// sub rules
	subs := Ev{}
	if g.useEval {
		for i := 0; i < 4; i++ {
			k := fmt.Sprintf("sub%d", i)
			subs[k] = g.expr("p", "r", 2, false)
			g.subs = append(g.subs, k)
		}
	}
	w["subs"] = subs
	// effects and matchers
	effs := Ev{}
	kinds := []string{"some", "nodeny", "both"}
	if !g.P(p.lone) {
		effs["e"] = g.Pick(kinds)
		g.ekeys = append(g.ekeys, "e")
	}
	if g.P(p.p2) || len(effs) == 0 {
		effs["e2"] = g.Pick(kinds)
		g.ekeys = append(g.ekeys, "e2")
	}
	if g.P(p.fail * 0.3) {
		effs["e3"] = "bad"
		g.ekeys = append(g.ekeys, "e3")
	}
	w["e"] = effs
	ms := Ev{}
	addM := func(k, pol, rk string) {
		n := g.expr(pol, rk, p.depth, true)
		for i := 0; polOf(n) == "p" && g.pkeys[0] != "p"; i++ {
			if i == 20 {
				return // about the policy p, which is not defined
			}
			n = g.expr(pol, rk, p.depth, true)
		}
		g.mpol[k] = polOf(n)
		g.mkeys = append(g.mkeys, k)
		st := g.ast()
		if g.ini {
			st = 1 + g.Intn(2)
		}
		ms[k] = Ev{"pol": g.mpol[k], "ast": n, "st": st}
		g.md[k] = Ev{"pol": g.mpol[k], "ast": n}
	}
	if !g.P(p.lone) {
		addM("m", g.Pick(g.pkeys), "r")
	}
	if g.P(p.p2) {
		addM("m2", g.Pick(g.pkeys), g.Pick(g.rkeys))
	}
	if len(g.gkeys) > 0 && g.P(p.p2*0.5) {
		addM("m3", g.Pick(g.gkeys), g.Pick(g.rkeys))
	}
	w["m"] = ms
	if g.P(p.lone) && len(g.rkeys) > 1 {
		delete(rdefs, "r")
		g.rkeys = g.rkeys[1:]
	}
	// order of the texts
	type nt struct{ n, t string }
	l := []nt{{"", ""}, {"allow", "allow"}, {"deny", "deny"}, {"other", texts["other"]}}
	for _, n := range append(append([]string{}, g.names...), g.pats...) {
		l = append(l, nt{n, texts[n]})
	}
	if len(subs) > 0 {
		d := &engineDomain{in: newInterner(texts), nums: map[string]numDef{}, rxs: map[string]string{}}
		for k, v := range nums {
			d.nums[k] = numDef{obj(v)["f"].(float64), strs(obj(v)["lits"])}
		}
		for k, v := range rxs {
			d.rxs[k] = v.(string)
		}
		taken := map[string]bool{}
		for _, x := range l {
			taken[x.t] = true
		}
		for n, t := range texts {
			taken[n], taken[t] = true, true
		}
		names := []string{}
		for _, k := range g.subs {
			text := ""
			for tries := 0; tries < 30 && (tries == 0 || taken[text]); tries++ { // the text of a rule has one name
				if tries > 0 {
					subs[k] = g.expr("p", "r", 2, false)
				}
				p := d.printer(num(w, "st"))
				p.inner = true
				text = p.Print(list(canon(subs[k])))
			}
			if taken[text] {
				delete(subs, k)
				continue
			}
			taken[text] = true
			names = append(names, k)
			l = append(l, nt{k, text})
		}
		g.subs = names
	}
	if len(g.cats) > 0 {
		known, cat := map[string]string{}, map[string]Ev{}
		for _, x := range l {
			known[x.t] = x.n
			cat[x.n] = Ev{}
		}
		put := func(a, b nt) {
			t := a.t + b.t
			if _, ok := known[t]; !ok {
				n := fmt.Sprintf("~c%d", len(l))
				known[t], texts[n] = n, t
				l = append(l, nt{n, t})
				for k, re := range rxs {
					if regexp.MustCompile(re.(string)).MatchString(t) {
						rx = append(rx, []string{n, k})
					}
				}
			}
			cat[a.n][b.n] = known[t]
		}
		ls := append([]nt{}, l...)
		for _, x := range ls {
			for _, c := range g.cats {
				put(x, nt{c, texts[c]})
				put(nt{c, texts[c]}, x)
			}
		}
		w["cat"], w["rx"] = cat, rx
	}
	sort.Slice(l, func(i, j int) bool { return l[i].t < l[j].t })
	rank := Ev{}
	for i, x := range l {
		rank[x.n] = i
	}
	w["srank"] = rank
	safe := g.iniSafe(w)
	w["ini"] = g.ini && safe
	return w
}

// arith calculates: the known numbers and a few of them
func (g *engGen) arith(nums Ev) Ev {
	name := map[float64]string{}
	f := map[string]float64{}
	for _, k := range g.nums {
		f[k] = obj(nums[k])["f"].(float64)
		name[f[k]] = k
	}
	g.ars = []string{g.Pick(g.nums), g.Pick(g.nums)}
	res := map[string]map[string]Ev{"+": {}, "-": {}, "*": {}, "/": {}, "%": {}, "neg": {}}
	of := map[string]Ev{}
	put := func(a, b string) {
		for op, rows := range res {
			x := 0.0
			switch op {
			case "+":
				x = f[a] + f[b]
			case "-":
				x = f[a] - f[b]
			case "*":
				x = f[a] * f[b]
			case "neg":
				x = -f[a]
			default: // never asked with 0
				if f[b] == 0 {
					continue
				}
				if x = f[a] / f[b]; op == "%" {
					x = math.Mod(f[a], f[b])
				}
			}
			n, ok := name[x]
			if !ok {
				n = fmt.Sprintf("~n%d", len(name))
				name[x], f[n] = n, x
			}
			if rows[a] == nil {
				rows[a] = Ev{}
			}
			if of[n] == nil {
				of[n] = Ev{"t": "n", "v": n}
			}
			if rows[a][b] = of[n]; op == "neg" {
				rows[a][a] = of[n]
			}
		}
	}
	for _, a := range append([]string{}, g.nums...) {
		for _, b := range g.ars {
			put(a, b)
			put(b, a)
		}
	}
	order := []float64{}
	for x := range name {
		order = append(order, x)
	}
	sort.Float64s(order)
	for k, x := range order {
		n := name[x]
		if of[n] != nil {
			of[n]["k"] = k
		}
		if g.numv[n] != nil {
			g.numv[n]["k"] = k
		}
	}
	tables := Ev{}
	for op, rows := range res {
		tables[op] = rows
	}
	return tables
}

// calc is a number term made of one
func (g *engGen) calc(n node) node {
	if len(g.ars) == 0 || !g.P(g.p.ext*0.5) {
		return n
	}
	k := g.Pick(g.ars)
	l := node{"lit", g.numv[k]}
	op := []string{"+", "-", "*", "/", "%", "neg"}[g.Intn(6)]
	switch {
	case op == "neg":
		return node{"arith", op, n, n}
	case k == "n1" && (op == "/" || op == "%"): // division by 0
		op = "+"
	case g.P(0.3) && op != "/" && op != "%":
		return node{"arith", op, l, n}
	}
	return node{"arith", op, n, l}
}

// safeText tells whether a matcher survives an ini file
func safeText(t string) bool {
	return !strings.ContainsAny(t, "`;#\n\r%\\") && !strings.ContainsAny(t[:1], `'"`) && strings.TrimSpace(t) == t
}

// iniSafe adds the texts of the matchers and tells whether they survive an ini file
func (g *engGen) iniSafe(w Ev) bool {
	d := &engineDomain{in: newInterner(w["texts"]), nums: map[string]numDef{}, rxs: map[string]string{}}
	c := obj(canon(w))
	for k, v := range obj(c["nums"]) {
		d.nums[k] = numDef{obj(v)["f"].(float64), strs(obj(v)["lits"])}
	}
	for k, v := range obj(c["rxs"]) {
		d.rxs[k] = v.(string)
	}
	safe := true
	for k, v := range obj(c["m"]) {
		t := d.text(obj(v)["ast"], num(obj(v), "st"))
		safe = safe && safeText(t)
		obj(obj(w["m"])[k])["text"] = t
		g.md[k]["text"] = t
	}
	return safe
}

// polOf is the policy a matcher is about: that of the first policy attribute
func polOf(n node) string {
	if k := firstP(n); k != "" {
		return k
	}
	return "p"
}

func firstP(v interface{}) string {
	n, ok := v.([]interface{})
	if !ok || len(n) == 0 {
		return ""
	}
	if s, ok := n[0].(string); ok && s == "p" && len(n) == 3 {
		return n[1].(string)
	}
	for _, x := range n {
		if k := firstP(x); k != "" {
			return k
		}
	}
	return ""
}

func (g *engGen) roleKind() string {
	return []string{"rm", "rm", "rm", "rm", "dm", "dm", "dm", "dm2", "dm2", "dm3"}[g.Intn(10)]
}

func (g *engGen) colsOf(pol string) []string {
	if c, ok := g.pcols[pol]; ok {
		res := []string{}
		for _, x := range c {
			if x != "rule" && x != "eft" || x == "eft" && g.P(0.2) {
				res = append(res, x)
			}
		}
		return res
	}
	if n := levels(g.gkind[pol]); n > 0 && g.P(g.p.fail) {
		return []string{"user", "role", "domain", "domain2", "domain3"}[:2+n]
	}
	return []string{"user", "role"}
}

func (g *engGen) rtext(rk string) node {
	cols := []string{}
	for _, c := range g.rcols[rk] {
		if c != "n" && c != "o" && c != "flag" {
			cols = append(cols, c)
		}
	}
	if g.P(g.p.fail * 0.06) {
		return node{"r", rk, "nosuch"}
	}
	return node{"r", rk, g.Pick(cols)}
}

func (g *engGen) ptext(pol string) node {
	if g.P(g.p.fail * 0.06) {
		return node{"p", pol, "nosuch"}
	}
	return node{"p", pol, g.Pick(g.colsOf(pol))}
}

func (g *engGen) lit() node { return node{"lit", strVal(g.name())} }

func (g *engGen) hasCol(rk, c string) bool {
	for _, x := range g.rcols[rk] {
		if x == c {
			return true
		}
	}
	return false
}

// textTerm is a term of type text
func (g *engGen) textTerm(pol, rk string) node {
	t := g.textTerm1(pol, rk)
	if g.tfns && g.P(g.p.ext*0.15) {
		t = node{"call", "f3", []interface{}{t}}
	}
	if len(g.cats) > 0 && g.P(g.p.ext*0.15) {
		l := node{"lit", strVal(g.Pick(g.cats))}
		if g.P(0.4) {
			return node{"cat", l, t}
		}
		return node{"cat", t, l}
	}
	return t
}

func (g *engGen) textTerm1(pol, rk string) node {
	switch g.Intn(8) {
	case 0, 1, 2:
		return g.rtext(rk)
	case 3, 4, 5:
		return g.ptext(pol)
	case 6:
		if g.hasCol(rk, "o") {
			f := "Name"
			if g.P(0.3) {
				f = "Role"
			}
			o := node{"r", rk, "o"}
			if g.P(g.p.fail * 0.15) {
				f = "Nope"
			}
			if g.P(0.25*g.p.fail) && g.p.fail > 0 {
				o = node{"acc", o, "Inner"}
			}
			return node{"acc", o, f}
		}
	}
	return g.lit()
}

// attr is a rule attribute compared to something
func (g *engGen) atom(pol, rk string, top bool) node {
	p := g.p
	for {
		switch g.Intn(17) {
		case 0, 1, 2, 3:
			a, b := g.ptext(pol), g.rtext(rk)
			if g.P(0.5) {
				a, b = b, a
			}
			return node{[]string{"eq", "eq", "eq", "ne"}[g.Intn(4)], a, b}
		case 4, 5:
			t := g.textTerm(pol, rk)
			return node{[]string{"eq", "ne"}[g.Intn(2)], t, g.lit()}
		case 6:
			return node{[]string{"lt", "le", "gt", "ge"}[g.Intn(4)], g.textTerm(pol, rk), g.textTerm(pol, rk)}
		case 7:
			l := []interface{}{}
			for i := 0; i < 2+g.Intn(2); i++ {
				l = append(l, g.textTerm(pol, rk))
			}
			return node{"in", g.textTerm(pol, rk), l}
		case 8:
			if len(g.rxs) > 0 && g.P(p.rxs) {
				t := g.textTerm(pol, rk)
				if t[0] == "lit" {
					t = g.ptext(pol)
				}
				return node{[]string{"rx", "nrx"}[g.Intn(2)], t, g.Pick(g.rxs)}
			}
		case 9, 10:
			if len(g.fns) > 0 {
				if f1, f2 := g.fns["f1"] > 0, g.fns["f2"] > 0; f1 && (g.P(0.5) || !f2) {
					return node{"fn", "f1", []interface{}{g.nonLit(pol, rk)}}
				}
				return node{"fn", "f2", []interface{}{g.nonLit(pol, rk), g.textTerm(pol, rk)}}
			}
		case 11, 12:
			if len(g.gkeys) > 0 {
				k := g.Pick(g.gkeys)
				as := []interface{}{g.rtext(rk), g.textTerm(pol, rk)}
				for i := levels(g.gkind[k]); i > 0 && g.P(0.75); i-- {
					as = append(as, g.textTerm(pol, rk))
				}
				if g.P(p.fail * 0.05) {
					as = as[:1]
				}
				return node{"g", k, as}
			}
		case 13:
			if g.hasCol(rk, "n") && len(g.nums) > 0 {
				n := node{"r", rk, "n"}
				l := node{"lit", g.numv[g.Pick(g.nums)]}
				op := []string{"eq", "ne", "lt", "le", "gt", "ge"}[g.Intn(6)]
				if g.P(0.3) && len(g.objs) > 0 && g.hasCol(rk, "o") {
					n = node{"acc", node{"r", rk, "o"}, []string{"Age", "Level"}[g.Intn(2)]}
				}
				n = g.calc(n)
				if g.P(0.3) {
					return node{op, l, n}
				}
				return node{op, n, l}
			}
		case 14:
			if g.P(p.fail * 0.2) { // a text is not a condition
				t := g.nonLit(pol, rk)
				if g.P(0.3) {
					t = node{"tif", node{"eq", g.ptext(pol), g.rtext(rk)}, g.nonLit(pol, rk), g.lit()}
				}
				return node{"bt", t}
			}
			if g.hasCol(rk, "o") {
				o := node{"r", rk, "o"}
				switch g.Intn(3) {
				case 0:
					return node{"bt", node{"acc", o, "Ok"}}
				case 1:
					return node{"meth", "Is", []interface{}{o, g.textTerm(pol, rk)}}
				}
				return node{"eq", node{"acc", o, "Name"}, g.ptext(pol)}
			}
			if g.hasCol(rk, "flag") {
				return node{"bt", node{"r", rk, "flag"}}
			}
		case 15:
			if _, isP := g.pcols[pol]; isP && top && len(g.subs) > 0 && rk == "r" && pol == "p" {
				return node{"eval", node{"p", pol, "rule"}}
			}
		case 16:
			if g.P(p.ext * 0.5) {
				return node{[]string{"beq", "bne"}[g.Intn(2)], g.expr(pol, rk, 1, false), g.expr(pol, rk, 1, false)}
			}
			if g.P(0.3) {
				return node{"const", []string{"T", "F"}[g.Intn(2)]}
			}
			if g.P(p.tern * 0.5) {
				c := node{"eq", g.ptext(pol), g.rtext(rk)}
				if p.fail == 0 {
					return node{"eq", node{"tif", c, g.textTerm(pol, rk), g.textTerm(pol, rk)}, g.textTerm(pol, rk)}
				}
			}
			if g.P(p.fail * 0.3) {
				return node{"unk", []string{"nomatcher", "x_sub", "nothing"}[g.Intn(3)]}
			}
		}
	}
}

func (g *engGen) nonLit(pol, rk string) node {
	t := g.textTerm(pol, rk)
	if t[0] == "lit" {
		return g.ptext(pol)
	}
	return t
}

func (g *engGen) expr(pol, rk string, depth int, top bool) node {
	if depth <= 0 || g.P(0.12) {
		return g.atom(pol, rk, top)
	}
	x := func() node { return g.expr(pol, rk, depth-1, top) }
	if depth >= g.p.depth && depth > 1 && g.P(0.06) {
		// long ones
		res, ops := x(), []string{"and", "or"}[g.Intn(2):]
		for n := 4 + g.Intn(9); n > 0; n-- {
			y := g.atom(pol, rk, top)
			if g.P(0.2) {
				y = g.expr(pol, rk, 1, top)
			}
			if res = (node{ops[g.Intn(len(ops))], res, y}); g.P(0.3) {
				res[1], res[2] = res[2], res[1]
			}
		}
		return res
	}
	switch g.Intn(10) {
	case 0, 1, 2, 3:
		return node{"and", x(), x()}
	case 4, 5, 6:
		return node{"or", x(), x()}
	case 7:
		return node{"not", x()}
	case 8:
		if g.P(g.p.tern) {
			return node{"tern", x(), x(), x()}
		}
		return node{"or", node{"or", x(), x()}, x()}
	}
	return node{"and", node{"or", x(), x()}, x()}
}

// ---- rules

func (g *engGen) newRule(key string) []string {
	rule := []string{key}
	if cols, ok := g.pcols[key]; ok {
		for _, c := range cols {
			switch {
			case c == "eft":
				rule = append(rule, []string{"allow", "allow", "deny", "deny", "", "other"}[g.Intn(6)])
			case c == "rule":
				rule = append(rule, g.Pick(g.subs))
			default:
				rule = append(rule, g.name())
			}
		}
		return rule
	}
	n := func() string {
		if len(g.pats) > 0 && key == "g" && g.P(0.2) {
			return g.Pick(g.pats)
		}
		return g.name()
	}
	rule = append(rule, n(), n())
	for i := levels(g.gkind[key]); i > 0 && g.P(0.8); i-- {
		rule = append(rule, g.name())
	}
	return rule
}

func (g *engGen) key() string {
	if len(g.gkeys) > 0 && g.P(0.35) {
		return g.Pick(g.gkeys)
	}
	return g.Pick(g.pkeys)
}

// someRule: often one that is stored, was removed or differs little from a stored one
func (g *engGen) someRule(stored float64) []string {
	if len(g.rules) > 0 && g.P(stored) {
		return copyStrs(g.rules[g.Intn(len(g.rules))])
	}
	if len(g.dead) > 0 && g.P(0.2) {
		return copyStrs(g.dead[g.Intn(len(g.dead))])
	}
	if len(g.rules) > 0 && g.P(0.3) {
		r := copyStrs(g.rules[g.Intn(len(g.rules))])
		o := g.newRule(r[0])
		if len(o) == len(r) {
			i := 1 + g.Intn(len(r)-1)
			r[i] = o[i]
			return r
		}
	}
	return g.newRule(g.key())
}

func (g *engGen) drop(rule []string) {
	k := strings.Join(rule, "\x00")
	rest := g.rules[:0]
	for _, r := range g.rules {
		if strings.Join(r, "\x00") != k {
			rest = append(rest, r)
		}
	}
	g.rules = rest
	g.dead = append(g.dead, rule)
}

func (g *engGen) badRule() []string {
	bad := [][]string{{}, {""}, {"p9", "alice"}, {"g9", "alice", "bob"}, {"x", "alice"}, {"r", "alice"}, {"m", "alice"}, {"P", "alice"}, {"p0", "alice"}}
	if len(g.gkeys) > 0 {
		k := g.Pick(g.gkeys)
		bad = append(bad, []string{k}, []string{k, "alice"})
	}
	return bad[g.Intn(len(bad))]
}

func (g *engGen) change() {
	p := g.p
	if p.wRefuse > 0 && g.P(0.1) {
		op := []string{"add", "remove"}[g.Intn(2)]
		if g.P(0.2) {
			g.Do(Ev{"op": op + "rules", "rules": [][]string{g.badRule(), g.newRule(g.key())}})
		} else {
			g.Do(Ev{"op": op, "rule": g.badRule()})
		}
		return
	}
	if g.Intn(100) < p.wClear {
		key := g.key()
		if p.wRefuse > 0 && g.P(0.1) {
			key = []string{"p9", "g9", "", "m"}[g.Intn(4)]
		}
		g.Do(Ev{"op": "clear", "key": key})
		rest := [][]string{}
		for _, r := range g.rules {
			if r[0] != key {
				rest = append(rest, r)
			} else {
				g.dead = append(g.dead, r)
			}
		}
		g.rules = rest
		return
	}
	if len(g.pats) > 0 && g.nmok && g.P(0.05) {
		i := 1
		if g.gset["g"] && g.P(0.3) {
			i = 0
		}
		g.gset["g"] = i == 1
		g.Do(Ev{"op": "setnm", "key": "g", "i": i})
		return
	}
	if g.Intn(100) < p.wBulk {
		rules := [][]string{}
		op := []string{"addrules", "removerules", "load"}[g.Intn(3)]
		for i := g.Intn(5); i >= 0; i-- {
			r := g.someRule(map[string]float64{"addrules": 0.2, "load": 0.2, "removerules": 0.8}[op])
			rules = append(rules, r)
		}
		g.Do(Ev{"op": op, "rules": rules})
		for _, r := range rules {
			g.drop(r)
			if op != "removerules" {
				g.rules = append(g.rules, r)
			}
		}
		return
	}
	if len(g.rules) > 2 && g.P(0.4) || len(g.rules) > 14+p.wide {
		r := g.someRule(0.85)
		if p.odd > 0 && r[0][0] == 'p' && g.P(p.odd) {
			// nearly this rule: a column is missing or too much
			if len(r) > 2 && g.P(0.6) {
				r = r[:len(r)-1]
			} else {
				r = append(r, []string{"", r[len(r)-1]}[g.Intn(2)])
			}
			g.Do(Ev{"op": "remove", "rule": r})
			return
		}
		g.Do(Ev{"op": "remove", "rule": r})
		g.drop(r)
		return
	}
	r := g.someRule(0.12)
	g.Do(Ev{"op": "add", "rule": r})
	g.drop(r)
	g.rules = append(g.rules, r)
}

// ---- requests

// ownRequestDef chooses the values of a request definition of the caller
func (g *engGen) ownRequestDef() []string {
	cols := append([]string{}, colKinds...)
	if len(g.nums) > 0 {
		cols = append(cols, "n")
	}
	if len(g.objs) > 0 {
		cols = append(cols, "o")
	}
	g.rng.Shuffle(len(cols), func(i, j int) { cols[i], cols[j] = cols[j], cols[i] })
	return cols[:1+g.Intn(len(cols))]
}

func (g *engGen) vals(rk string) []Ev { return g.valsOf(g.rcols[rk]) }

func (g *engGen) valsOf(cols []string) []Ev {
	res := []Ev{}
	for _, c := range cols {
		switch {
		case g.P(g.p.fail * 0.08):
			res = append(res, []Ev{{"t": "b", "v": "T", "k": 0}, g.someNum(), strVal("")}[g.Intn(3)])
		case c == "n" && len(g.nums) > 0:
			res = append(res, g.someNum())
		case c == "o" && len(g.objs) > 0:
			res = append(res, Ev{"t": "o", "v": g.Pick(g.objs), "k": 0})
		case c == "flag":
			res = append(res, Ev{"t": "b", "v": []string{"T", "F"}[g.Intn(2)], "k": 0})
		default:
			// often a value that occurs in a rule
			if len(g.rules) > 0 && g.P(0.5) {
				r := g.rules[g.Intn(len(g.rules))]
				x := r[1+g.Intn(len(r)-1)]
				if !strings.HasPrefix(x, "sub") && !strings.HasPrefix(x, "~") {
					res = append(res, strVal(x))
					continue
				}
			}
			res = append(res, strVal(g.name()))
		}
	}
	if g.P(g.p.fail * 0.08) {
		res = res[:len(res)-1]
	}
	return res
}

func (g *engGen) someNum() Ev {
	if len(g.nums) == 0 {
		return Ev{"t": "b", "v": "F", "k": 0}
	}
	return g.numv[g.Pick(g.nums)]
}

// matcher returns a matcher and the request definition it is about
func (g *engGen) matcher(list bool) (Ev, string) {
	rk := g.Pick(g.rkeys)
	if g.P(g.p.adhoc) {
		pol := g.Pick(g.pkeys)
		if list && len(g.gkeys) > 0 && g.P(0.25) {
			pol = g.Pick(g.gkeys)
		}
		n := g.expr(pol, rk, 1+g.Intn(g.p.depth), true)
		m := Ev{"k": "expr", "pol": polOf(n), "ast": n, "st": g.ast()}
		m["text"] = g.dom.(*engineDomain).text(n, num(m, "st")) // for the reader only
		return m, rk
	}
	if len(g.held) > 0 && g.P(0.3) {
		i := g.Intn(len(g.held))
		if g.held[i] != "" && (list || g.pcols[g.held[i]] != nil) {
			return Ev{"k": "held", "i": i + 1}, rk
		}
	}
	if len(g.mkeys) > 0 && g.P(0.5) {
		k := g.Pick(g.mkeys)
		if list || g.pcols[g.mpol[k]] != nil {
			return Ev{"k": "named", "name": k}, rk
		}
	}
	if g.p.wRefuse > 0 && g.P(0.08) {
		return Ev{"k": "bad", "text": []string{"p.sub ==", "(p.sub == r.sub", "nofn(p.sub)", "p9.sub == r.sub", "g9.user == r.sub", "&&", "p.sub ==== r.sub"}[g.Intn(7)]}, rk
	}
	return Ev{"k": "def"}, "r"
}

func (g *engGen) query(op string) Ev {
	ev := Ev{"op": op}
	list := op != "enforce"
	rk := ""
	if len(g.ctx) > 0 && g.P(0.1) {
		i := g.Intn(len(g.ctx))
		ev["ctx"] = i + 1
		rk = g.ctx[i]
		if g.cpol[i] == "" {
			return g.query(op) // retired
		}
		ev["vals"] = g.valsOf(g.ccols[i])
		if op == "range" {
			ev["stop"] = g.Intn(5)
		}
		return ev
	} else {
		q := Ev{"st": g.st(), "r": "", "e": ""}
		var m Ev
		m, rk = g.matcher(list)
		if rk != "r" || g.P(0.1) {
			q["r"] = rk
		}
		if g.P(g.p.fail * 0.05) {
			rk = g.Pick(g.rkeys)
			q["r"] = rk
		}
		if g.p.wRefuse > 0 && g.P(0.05) {
			q["r"] = "r9"
		}
		var own []string
		if g.P(0.07) { // a definition of the caller
			own = g.ownRequestDef()
			key := rk
			if g.P(0.3) {
				key = g.Pick([]string{"r7", "r4", "r"})
			}
			q["rd"] = Ev{"key": key, "cols": own}
		} else if g.P(0.01) {
			q["r"] = "r7" // nobody knows the definitions of the caller afterwards
		}
		switch {
		case g.P(0.2) && len(g.ekeys) > 0:
			q["e"] = g.Pick(g.ekeys)
		case g.P(0.25):
			q["e"] = g.Pick([]string{"=some", "=nodeny", "=both", "=two", "=none", "=veto"})
		case g.P(g.p.fail * 0.1):
			q["e"] = "=bad"
		}
		q["m"] = m
		ev["q"] = q
		if own != nil {
			ev["vals"] = g.valsOf(own)
		}
	}
	if g.rcols[rk] == nil {
		rk = g.rkeys[0]
	}
	if ev["vals"] == nil {
		ev["vals"] = g.vals(rk)
	}
	if op == "range" {
		ev["stop"] = g.Intn(5)
	}
	return ev
}

func (g *engGen) question() Ev {
	p := g.p
	total := p.wEnforce + p.wFilter + p.wRange + p.wList + p.wHas
	x := g.Intn(total)
	pick := func(w int) bool {
		if x < w {
			return true
		}
		x -= w
		return false
	}
	switch {
	case pick(p.wEnforce):
		return g.query("enforce")
	case pick(p.wFilter):
		return g.query("filter")
	case pick(p.wRange):
		return g.query("range")
	case pick(p.wList):
		switch g.Intn(5) {
		case 4: // what is given with a request is known to nobody else
			sec := g.Pick([]string{"m", "md", "r", "e", "ed"})
			return Ev{"op": "known", "sec": sec, "key": g.Pick(map[byte][]string{'m': {"mx", "m", "m2"}, 'r': {"r7", "r4", "r"}, 'e': {"ex", "e"}}[sec[0]])}
		case 0:
			key := g.key()
			if p.wRefuse > 0 && g.P(0.1) {
				key = "p9"
			}
			return Ev{"op": "polrange", "key": key, "stop": g.Intn(5)}
		case 1:
			key := g.key()
			n := 2
			if c, ok := g.pcols[key]; ok {
				n = len(c)
			}
			cols := []int{}
			if g.P(0.4) { // all of them, in some order
				cols = g.rng.Perm(n)
			}
			for i := 0; len(cols) < n && i <= g.Intn(3); i++ {
				cols = append(cols, g.Intn(n))
			}
			return Ev{"op": "distinct", "key": key, "cols": cols}
		}
		return Ev{"op": "list", "stop": []int{0, 0, 1, 2, 3, 5}[g.Intn(6)], "st": g.st()}
	}
	key := "g"
	if len(g.gkeys) > 0 {
		key = g.Pick(g.gkeys)
	}
	d := []string{}
	for i := levels(g.gkind[key]); i > 0 && g.P(0.75); i-- {
		d = append(d, g.name())
	}
	return Ev{"op": "has", "key": key, "u": g.name(), "r": g.name(), "d": d}
}

func (g *engGen) extra() {
	if g.p.wHeld > 0 && g.Intn(100) < g.p.wHeld && len(g.held) < 4 {
		m, _ := g.matcher(true)
		res := g.Do(Ev{"op": "build", "m": g.named(m)})
		if res["err"] == false {
			g.held = append(g.held, g.polOfMatcher(m))
		}
	}
	if g.p.wHeld > 0 && g.Intn(100) < g.p.wHeld && len(g.ctx) < 3 {
		m, rk := g.matcher(false)
		q := Ev{"st": g.st(), "r": rk, "e": "", "m": m}
		if len(g.ekeys) > 0 && g.P(0.5) {
			q["e"] = g.Pick(g.ekeys)
		}
		if res := g.Do(Ev{"op": "context", "q": q}); res["err"] == false {
			g.ctx = append(g.ctx, rk)
			g.ccols = append(g.ccols, g.rcols[rk])
			g.cpol = append(g.cpol, g.polOfMatcher(m))
		}
	}
	if g.p.wRefuse > 0 && g.Intn(100) < g.p.wRefuse {
		g.Do(Ev{"op": "refuse", "what": refusals[g.Intn(len(refusals))]})
	}
}

// polOfMatcher is the policy a matcher of a request is about
func (g *engGen) polOfMatcher(m Ev) string {
	switch str(m, "k") {
	case "named":
		return g.mpol[str(m, "name")]
	case "held":
		return g.held[num(m, "i")-1]
	case "def":
		if p := g.mpol["m"]; p != "" {
			return p
		}
		return "p"
	}
	return str(m, "pol")
}

// named: only an expression can be built
func (g *engGen) named(m Ev) Ev {
	if k := str(m, "k"); k == "expr" || k == "held" || k == "bad" {
		return m
	}
	pol := g.Pick(g.pkeys)
	n := g.expr(pol, g.rkeys[0], 1+g.Intn(g.p.depth), true)
	for k := range m {
		delete(m, k)
	}
	m["k"], m["pol"], m["ast"], m["st"] = "expr", polOf(n), n, g.ast()
	return m
}

// within asks questions while another one is under way: in what the caller has supplied
func (h *H) within(outer Ev, inner []Ev) {
	t := h.dom.(interface{ gates() *turns }).gates()
	t.wait = h.Intn(3)
	t.inside = func() {
		for _, ev := range inner {
			h.Do(ev)
		}
	}
	h.Do(outer)
	t.inside = nil
}

// parallel asks all questions at the same time
func (h *H) parallel(groups [][]Ev) {
	if d, ok := h.dom.(interface{ gates() *turns }); ok && h.P(0.4) {
		// a few questions which take turns
		n := 2 + h.Intn(3)
		groups = groups[:n]
		sched := []int{}
		for len(sched) < 200 {
			i := 1 + h.Intn(n)
			for k := h.Intn(3); k >= 0; k-- {
				sched = append(sched, i)
			}
		}
		d.gates().run(n, sched, func(i int) {
			for _, ev := range groups[i] {
				ev["res"] = h.dom.Do(ev)
			}
		})
		for _, evs := range groups {
			for _, ev := range evs {
				h.write(ev)
			}
		}
		return
	}
	var wg sync.WaitGroup
	results := make([][]Ev, len(groups))
	for i := range groups {
		wg.Add(1)
		results[i] = make([]Ev, len(groups[i]))
		go func(i int) {
			defer wg.Done()
			for j, ev := range groups[i] {
				results[i][j] = h.dom.Do(ev)
			}
		}(i)
	}
	wg.Wait()
	for i, evs := range groups {
		for j, ev := range evs {
			ev["res"] = results[i][j]
			h.write(ev)
		}
	}
}

func genEngine(p engProfile) func(h *H) {
	return func(h *H) {
		g := &engGen{H: h, p: p}
		g.Init(g.world())
		g.dom.(*engineDomain).conc = p.conc > 0
		for i := 0; i < p.rows; i++ {
			r := g.newRule(g.key())
			g.Do(Ev{"op": "add", "rule": r})
			g.drop(r)
			g.rules = append(g.rules, r)
		}
		if p.wide > 0 {
			rules := [][]string{}
			for i := p.wide/2 + h.Intn(p.wide); i > 0; i-- {
				rules = append(rules, g.newRule(g.key()))
			}
			g.Do(Ev{"op": []string{"addrules", "load"}[h.Intn(2)], "rules": rules})
			for _, r := range rules {
				g.drop(r)
				g.rules = append(g.rules, r)
			}
		}
		for i := 0; i < p.steps; i++ {
			if p.wide > 0 && h.P(0.1) {
				rules := [][]string{}
				for k := h.Intn(p.wide); k >= 0; k-- {
					rules = append(rules, g.someRule(1))
				}
				g.Do(Ev{"op": "removerules", "rules": rules})
				for _, r := range rules {
					g.drop(r)
				}
			}
			if g.Intn(100) < p.wChange {
				g.change()
			}
			if g.Intn(100) < p.wDefs {
				g.redefine()
			}
			g.extra()
			for q := 0; q < p.asks; q++ {
				ev := g.question()
				if g.P(0.05+p.nested) && p.conc == 0 {
					inner := []Ev{}
					for k := g.Intn(3); k >= 0; k-- {
						inner = append(inner, g.question())
					}
					d := g.dom.(*engineDomain)
					d.conc = g.P(0.5)
					g.within(ev, inner)
					d.conc = false
				} else {
					g.Do(ev)
				}
				if g.P(0.03) && p.conc == 0 { // the same question again
					delete(ev, "res")
					g.Do(ev)
				}
			}
			if p.conc > 0 {
				groups := make([][]Ev, p.conc)
				pool := []Ev{}
				for k := 0; k < 6; k++ {
					pool = append(pool, g.question())
				}
				for k := range groups {
					for q := 0; q < 6; q++ {
						ev := Ev{}
						for f, v := range pool[g.Intn(len(pool))] {
							ev[f] = v
						}
						if g.P(0.3) {
							ev = g.question()
						}
						groups[k] = append(groups[k], ev)
					}
				}
				g.parallel(groups)
			}
		}
		g.Do(Ev{"op": "list", "stop": 0})
	}
}

var engineProfiles = map[string]func(h *H){
	"decide":  genEngine(engProfile{nasty: 0.1, p2: 0.4, g: 0.3, fns: 0.2, rxs: 0.1, tern: 0.1, ext: 0.1, adhoc: 0.2, rows: 4, depth: 2, steps: 25, asks: 5, wEnforce: 10, wFilter: 1, wList: 0, wChange: 70, wBulk: 10, wClear: 3, wHeld: 3}),
	"history": genEngine(engProfile{nasty: 0.15, p2: 0.5, g: 0.5, fns: 0.2, tern: 0.1, ext: 0.15, adhoc: 0.15, rows: 3, depth: 3, steps: 60, asks: 3, wEnforce: 3, wFilter: 10, wList: 1, wHas: 1, wChange: 100, wBulk: 12, wClear: 4, wHeld: 8}),
	"expr":    genEngine(engProfile{nasty: 0.3, p2: 0.4, g: 0.4, fns: 0.5, evals: 0.4, objs: 0.4, nums: 0.5, rxs: 0.5, tern: 0.6, ext: 0.6, adhoc: 1, rows: 8, depth: 4, steps: 12, asks: 10, wEnforce: 2, wFilter: 10, wChange: 40, wHeld: 0}),
	"fail":    genEngine(engProfile{nasty: 0.05, p2: 0.4, g: 0.4, fns: 0.9, evals: 0.2, objs: 0.4, nums: 0.4, rxs: 0.1, tern: 0.3, fail: 1, adhoc: 0.6, lone: 0.05, rows: 6, depth: 3, steps: 15, asks: 8, wEnforce: 10, wFilter: 8, wRange: 2, wChange: 40, wBulk: 5, wClear: 4, wHeld: 5}),
	"set":     genEngine(engProfile{nasty: 0.7, p2: 0.6, g: 0.6, adhoc: 0.2, rows: 0, depth: 1, steps: 80, asks: 1, wEnforce: 0, wFilter: 2, wList: 10, wHas: 1, wChange: 100, wBulk: 25, wClear: 4, wHeld: 2, odd: 0.25}),
	"query":   genEngine(engProfile{nasty: 0.2, p2: 0.6, g: 0.7, fns: 0.3, tern: 0.2, fail: 0.2, adhoc: 0.4, rows: 5, depth: 2, steps: 12, asks: 10, wEnforce: 6, wFilter: 4, wRange: 2, wList: 3, wHas: 3, wChange: 50, wBulk: 5, wClear: 2, wHeld: 15}),
	"stop":    genEngine(engProfile{nasty: 0.1, p2: 0.7, g: 0.6, tern: 0.1, ext: 0.15, adhoc: 0.6, rows: 8, depth: 3, steps: 20, asks: 6, wFilter: 1, wRange: 8, wList: 6, wChange: 60, wBulk: 10, wClear: 2, wHeld: 4}),
	"refuse":  genEngine(engProfile{nasty: 0.1, p2: 0.5, g: 0.6, fns: 0.2, adhoc: 0.2, lone: 0.15, rows: 4, depth: 2, steps: 30, asks: 2, wEnforce: 4, wFilter: 3, wRange: 1, wList: 3, wHas: 2, wRefuse: 40, wChange: 100, wBulk: 10, wClear: 4, wHeld: 10, odd: 0.1}),
	"defs":    genEngine(engProfile{nasty: 0.15, p2: 0.5, g: 0.6, fns: 0.6, evals: 0.2, objs: 0.2, nums: 0.2, rxs: 0.1, tern: 0.1, ext: 0.2, adhoc: 0.3, lone: 0.1, rows: 4, depth: 2, steps: 25, asks: 5, wEnforce: 5, wFilter: 5, wRange: 1, wList: 1, wHas: 1, wChange: 60, wBulk: 10, wClear: 3, wHeld: 8, wDefs: 45}),
	"nested":  genEngine(engProfile{nasty: 0.1, p2: 0.5, g: 0.5, fns: 0.6, evals: 0.4, objs: 0.2, tern: 0.1, fail: 0.1, adhoc: 0.4, rows: 6, depth: 2, steps: 15, asks: 6, wEnforce: 6, wFilter: 4, wRange: 4, wList: 1, wHas: 2, wChange: 60, wBulk: 10, wHeld: 10, nested: 0.5}),
	"crowd":   genCrowd,
	"wide":    genEngine(engProfile{nasty: 0.1, p2: 0.3, g: 0.5, tern: 0.1, adhoc: 0.3, rows: 1, depth: 2, steps: 12, asks: 3, wEnforce: 8, wFilter: 6, wRange: 2, wList: 1, wHas: 2, wChange: 60, wBulk: 10, wClear: 2, wHeld: 8, wide: 300}),
	"conc":    genEngine(engProfile{nasty: 0.1, p2: 0.6, g: 0.8, fns: 0.4, evals: 0.5, objs: 0.2, nums: 0.2, rxs: 0.2, tern: 0.2, fail: 0.1, adhoc: 0.3, rows: 7, depth: 2, steps: 6, asks: 0, wEnforce: 6, wFilter: 4, wRange: 2, wList: 1, wHas: 3, wChange: 60, wBulk: 10, wHeld: 10, conc: 8}),
}

// genCrowd: many rules match a request and few of them decide
func genCrowd(h *H) {
	subs, objs, act := []string{"alice", "bob"}, []string{"data", "x1"}, []string{}
	texts := map[string]interface{}{"other": h.Pick(effectTexts)}
	for i := 0; i < 40; i++ {
		act = append(act, fmt.Sprintf("u%d", i))
	}
	for _, l := range [][]string{subs, objs, act} {
		for _, n := range l {
			texts[n] = n
		}
	}
	cols := []string{"sub", "obj", "act", "eft"}
	h.rng.Shuffle(4, func(i, j int) { cols[i], cols[j] = cols[j], cols[i] })
	col := func(c string) int {
		for i, x := range cols {
			if x == c {
				return i
			}
		}
		return -1
	}
	eq := func(c string) node { return node{"eq", node{"r", "r", c}, node{"p", "p", c}} }
	asts := []node{eq("sub"), {"and", eq("sub"), eq("obj")}, {"or", eq("sub"), eq("obj")}, {"eq", node{"lit", strVal("alice")}, node{"p", "p", "sub"}}}
	m := func(n node) Ev { return Ev{"pol": "p", "ast": n, "st": 3 + h.Intn(1<<20)} }
	w := Ev{"st": 3 + h.Intn(1<<20), "ini": false, "texts": texts, "fns": Ev{}, "nums": Ev{}, "objs": Ev{}, "rx": []interface{}{}, "rxs": Ev{}, "srank": Ev{}, "subs": Ev{}, "g": Ev{},
		"r": Ev{"r": []string{"sub", "obj"}}, "p": Ev{"p": Ev{"cols": cols, "eft": col("eft") + 1}},
		"e": Ev{"e": h.Pick([]string{"some", "nodeny", "both"}), "e2": h.Pick([]string{"some", "nodeny", "both"})},
		"m": Ev{"m": m(asts[h.Intn(len(asts))]), "m2": m(asts[h.Intn(len(asts))])}}
	h.Init(w)
	mode := h.Intn(5)
	rule := func() []string {
		e := []string{"other", "allow", "deny", "", "other"}[mode]
		if h.P(0.01) {
			e = h.Pick([]string{"allow", "deny", "", "other"})
		}
		r := []string{"p", "", "", "", ""}
		s, o := "alice", "data"
		if h.P(0.1) {
			s = "bob"
		}
		if h.P(0.2) {
			o = "x1"
		}
		r[1+col("sub")], r[1+col("obj")], r[1+col("act")], r[1+col("eft")] = s, o, h.Pick(act), e
		return r
	}
	stored := [][]string{}
	for i := 0; i < 10; i++ {
		rules := [][]string{}
		for k := h.Intn(40); k >= 0; k-- {
			rules = append(rules, rule())
		}
		h.Do(Ev{"op": "addrules", "rules": rules})
		stored = append(stored, rules...)
		if h.P(0.5) { // one which decides, or no longer
			r := rule()
			if h.P(0.6) {
				r = copyStrs(stored[h.Intn(len(stored))])
			}
			r[1+col("eft")] = h.Pick([]string{"allow", "deny"})
			h.Do(Ev{"op": []string{"add", "add", "remove"}[h.Intn(3)], "rule": r})
		}
		if h.P(0.2) {
			rules := [][]string{}
			for k := h.Intn(40); k >= 0; k-- {
				rules = append(rules, stored[h.Intn(len(stored))])
			}
			h.Do(Ev{"op": "removerules", "rules": rules})
		}
		for q := 0; q < 8; q++ {
			mm := Ev{"k": "def"}
			switch h.Intn(5) {
			case 0:
				mm = Ev{"k": "named", "name": "m2"}
			case 1:
				n := asts[h.Intn(len(asts))]
				mm = Ev{"k": "expr", "pol": "p", "ast": n, "st": 3 + h.Intn(1<<20)}
			}
			ev := Ev{"op": "enforce", "vals": []Ev{strVal(h.Pick(subs)), strVal(h.Pick(objs))},
				"q": Ev{"st": 3 + h.Intn(1<<20), "r": "", "e": h.Pick([]string{"", "", "e2", "=some", "=nodeny", "=both", "=two", "=none", "=veto"}), "m": mm}}
			if h.P(0.1) {
				ev["op"] = "filter"
			}
			h.Do(ev)
		}
	}
}
