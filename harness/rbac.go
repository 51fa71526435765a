package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
	"sync"

	"github.com/abichinger/fastac/rbac"
	"github.com/abichinger/fastac/util"
)

// Domain "rbac": role managers (rbac/)

type rbacDomain struct {
	rm  rbac.IDefaultRoleManager
	in  *Interner
	nms []util.IMatcher
	dms []util.IMatcher
	mu  sync.Mutex
	dom map[string][]string // domain path by its text

	turns turns
}

func (d *rbacDomain) gates() *turns { return &d.turns }

// tableMatcher matches according to an explicit relation, patterns start with ~
func tableMatcher(in *Interner, pause func(), pairs []interface{}) util.IMatcher {
	rel := map[[2]string]bool{}
	for _, p := range pairs {
		pr := strs(p)
		rel[[2]string{in.Text(pr[0]), in.Text(pr[1])}] = true
	}
	return util.NewMatcher(
		func(s string) bool { return strings.HasPrefix(s, "~") },
		func(s, p string) bool {
			pause()
			return rel[[2]string{s, p}]
		})
}

func (d *rbacDomain) makeMatchers(kinds []string, tables []interface{}) []util.IMatcher {
	res := []util.IMatcher{}
	for i, k := range kinds {
		switch k {
		case "path":
			res = append(res, util.PathMatcher)
		case "path2":
			res = append(res, util.PathMatcher2)
		case "regex":
			res = append(res, util.RegexMatcher)
		default:
			res = append(res, tableMatcher(d.in, d.turns.pause, list(tables[i])))
		}
	}
	return res
}

func (d *rbacDomain) Init(ev Ev) {
	if str(ev, "kind") == "dm" {
		d.rm = rbac.NewDomainManager(num(ev, "limit"))
	} else {
		d.rm = rbac.NewRoleManager(num(ev, "limit"))
	}
	d.in = newInterner(ev["texts"])
	d.nms = d.makeMatchers(strs(ev["nmk"]), list(ev["nms"]))
	d.dms = d.makeMatchers(strs(ev["dmk"]), list(ev["dms"]))
	d.dom = map[string][]string{}
	d.path(nil)
}

func (d *rbacDomain) Close() {}

// path remembers a domain path and returns its texts. The slice has spare capacity which belongs
// to someone else, see spare.
func (d *rbacDomain) path(names []string) []string {
	t := d.in.Texts(names)
	d.mu.Lock()
	defer d.mu.Unlock()
	d.dom[strings.Join(t, "/")] = append([]string{}, names...)
	buf := append(append([]string{}, t...), "spare1", "spare2")
	return buf[:len(t)]
}

func (d *rbacDomain) domains(paths []string) [][]string {
	res := [][]string{}
	d.mu.Lock()
	defer d.mu.Unlock()
	for _, p := range paths {
		if names, ok := d.dom[p]; ok {
			res = append(res, names)
		} else {
			res = append(res, []string{"?" + d.in.Name(p)})
		}
	}
	return res
}

func (d *rbacDomain) Do(ev Ev) (res Ev) {
	u, r := d.in.Text(str(ev, "u")), d.in.Text(str(ev, "r"))
	dom := d.path(strs(ev["d"]))
	p := guard(func() {
		var err error
		res = Ev{}
		switch op := str(ev, "op"); op {
		case "add", "del", "has":
			var ok bool
			switch op {
			case "add":
				ok, err = d.rm.AddLink(u, r, dom...)
			case "del":
				ok, err = d.rm.DeleteLink(u, r, dom...)
			case "has":
				ok, err = d.rm.HasLink(u, r, dom...)
			}
			res["ok"] = ok
		case "roles", "users":
			var names []string
			if op == "roles" {
				names, err = d.rm.GetRoles(u, dom...)
			} else {
				names, err = d.rm.GetUsers(u, dom...)
			}
			res["names"] = d.in.Names(names)
			for i := range names {
				names[i] = "scribble"
			}
		case "poke": // questions whose answers are not judged
			_, _ = d.rm.HasLink(u, r, dom...)
			_, _ = d.rm.GetRoles(u, dom...)
			_, _ = d.rm.GetUsers(u, dom...)
		case "domains", "alldomains":
			m := d.rm.(interface {
				GetDomains(string) ([]string, error)
				GetAllDomains() ([]string, error)
			})
			var l []string
			if op == "domains" {
				l, err = m.GetDomains(u)
			} else {
				l, err = m.GetAllDomains()
			}
			res["domains"] = d.domains(l)
		case "range":
			links, n, stop := []Ev{}, 0, num(ev, "stop")
			d.rm.Range(func(a, b string, dom ...string) bool {
				n++
				links = append(links, Ev{"u": d.in.Name(a), "r": d.in.Name(b), "d": d.in.Names(dom)})
				d.turns.open()
				return n != stop
			})
			sort.Slice(links, func(i, j int) bool { return fmt.Sprint(links[i]) < fmt.Sprint(links[j]) })
			res["links"] = links
		case "clear":
			err = d.rm.Clear()
		case "setnm":
			d.rm.SetMatcher(pickMatcher(d.nms, num(ev, "i")))
		case "setdm":
			d.rm.SetDomainMatcher(pickMatcher(d.dms, num(ev, "i")))
		default:
			check(fmt.Errorf("rbac: unknown op %s", op))
		}
		res["err"] = err != nil
	})
	if p != "" {
		res = Ev{"panic": p, "err": true}
	} else if full := dom[:cap(dom)]; full[len(dom)] != "spare1" || full[len(dom)+1] != "spare2" {
		res["err"] = true // wrote into a slice of the caller
		res["spare"] = full
	}
	return res
}

func pickMatcher(ms []util.IMatcher, i int) util.IMatcher {
	if i == 0 {
		return nil
	}
	return ms[i-1]
}

// ---------------------------------------------------------------------------------- generators

type universe struct {
	names []string   // plain names
	pats  []string   // patterns
	rel   [][]string // (name, pattern)
	kind  string
}

// flavour returns names and non-overlapping patterns for one of the matchers. The match relation
// is known from the construction of the names.
func flavour(h *H, kind string, n int, prefix string) universe {
	u := universe{kind: kind}
	add := func(name, pat string) {
		u.names = append(u.names, name)
		if pat != "" {
			u.rel = append(u.rel, []string{name, pat})
		}
	}
	switch kind {
	case "path", "path2":
		l, r := ":", ""
		if kind == "path2" {
			l, r = "{", "}"
		}
		p1, p2, p3 := "/"+prefix+"/"+l+"id"+r, "/"+prefix+"x/*", "/"+prefix+"/"+l+"a"+r+"/end"
		u.pats = []string{p1, p2, p3}
		for i := 0; i < n; i++ {
			switch h.Intn(5) {
			case 0, 1:
				add(fmt.Sprintf("/%s/%d", prefix, i), p1)
			case 2:
				if h.P(0.5) {
					add(fmt.Sprintf("/%sx/%d", prefix, i), p2)
				} else {
					add(fmt.Sprintf("/%sx/%d/y/z", prefix, i), p2)
				}
			case 3:
				add(fmt.Sprintf("/%s/%d/end", prefix, i), p3)
			default:
				add(fmt.Sprintf("%s%d", prefix, i), "")
			}
		}
	case "regex":
		p1, p2 := "p'^"+prefix+"[0-9]+$", "p'^"+prefix+"(a|b)"
		u.pats = []string{p1, p2}
		for i := 0; i < n; i++ {
			switch h.Intn(4) {
			case 0, 1:
				add(fmt.Sprintf("%s%d", prefix, i), p1)
			case 2:
				add(fmt.Sprintf("%sb%d", prefix, i), p2)
			default:
				add(fmt.Sprintf("x%s%d", prefix, i), "")
			}
		}
	case "table":
		if h.P(0.35) {
			// a name and a pattern which read like another name and another pattern
			sep := h.Pick([]string{"", "", ":", ",", " ", "|", "::", "_", "-", "."})
			x, y := prefix, "~"+prefix
			u.pats = []string{y + sep + y + sep + "~p", y + sep + "~p", "~p"}
			for _, nm := range []string{x, x + sep + y, x + sep + y + sep + y, "z" + x, "z" + x + sep + y} {
				pat := ""
				if h.P(0.6) {
					pat = h.Pick(u.pats)
				}
				add(nm, pat)
			}
			return u
		}
		u.pats = []string{"~" + prefix + "P", "~" + prefix + "Q", "~" + prefix + "R"}[:1+h.Intn(3)]
		for i := 0; i < n; i++ {
			pat := ""
			if h.P(0.6) {
				pat = h.Pick(u.pats)
			}
			add(fmt.Sprintf("%s%d", prefix, i), pat)
		}
	default:
		for i := 0; i < n; i++ {
			add(fmt.Sprintf("%s%d", prefix, i), "")
		}
	}
	return u
}

// relation checks the constructed relation of the regex flavour against package regexp
func (u universe) selfCheck() {
	if u.kind != "regex" {
		return
	}
	rel := map[string]bool{}
	for _, r := range u.rel {
		rel[r[0]+" "+r[1]] = true
	}
	for _, n := range u.names {
		for _, p := range u.pats {
			if regexp.MustCompile(p[2:]).MatchString(n) != rel[n+" "+p] {
				check(fmt.Errorf("relation of %s and %s", n, p))
			}
		}
	}
}

type rbacGen struct {
	*H
	p           rbacProfile
	kind        string
	limit       int
	nu, du      universe
	names       []string   // names used in links and questions
	doms        [][]string // domains of links
	concrete    [][]string // domains of questions
	unknown     []string
	links       []Ev
	pDel, pBias float64
	nameless    bool // some domain has no name: not listed, it reads like no domain
}

func (g *rbacGen) dom() []string {
	if g.kind == "rm" {
		return []string{}
	}
	return g.doms[g.Intn(len(g.doms))]
}

func (g *rbacGen) qdom() []string {
	if g.kind == "rm" {
		return []string{}
	}
	return g.concrete[g.Intn(len(g.concrete))]
}

func (g *rbacGen) change() {
	if len(g.links) > 0 && g.P(g.pDel) {
		// usually an existing link
		l := g.links[g.Intn(len(g.links))]
		g.Do(Ev{"op": "del", "u": l["u"], "r": l["r"], "d": l["d"]})
		if g.P(0.15) {
			g.Do(Ev{"op": "del", "u": l["u"], "r": l["r"], "d": l["d"]})
		}
		return
	}
	if g.P(0.06) {
		g.Do(Ev{"op": "del", "u": g.Pick(g.names), "r": g.Pick(g.names), "d": g.dom()})
		return
	}
	l := Ev{"u": g.Pick(g.names), "r": g.Pick(g.names), "d": g.dom()}
	if len(g.links) > 0 && g.P(0.2) {
		// the same link in another domain, or the reverse link, or a link extending a chain
		o := g.links[g.Intn(len(g.links))]
		switch g.Intn(3) {
		case 0:
			l["u"], l["r"] = o["u"], o["r"]
		case 1:
			l["u"], l["r"], l["d"] = o["r"], o["u"], o["d"]
		default:
			l["u"], l["d"] = o["r"], o["d"]
		}
	}
	g.links = append(g.links, l)
	g.Do(Ev{"op": "add", "u": l["u"], "r": l["r"], "d": l["d"]})
	if g.P(0.1) {
		g.Do(Ev{"op": "add", "u": l["u"], "r": l["r"], "d": l["d"]})
	}
}

func (g *rbacGen) qname() string {
	if g.P(0.12) {
		return g.Pick(g.unknown)
	}
	return g.Pick(g.names)
}

func (g *rbacGen) question() {
	ev := g.ask()
	if str(ev, "op") == "range" && g.P(0.3) {
		g.within(ev, []Ev{g.ask(), g.ask()})
		return
	}
	g.Do(ev)
}

func (g *rbacGen) ask() Ev {
	k := g.Intn(12)
	if g.nameless && (k == 2 || k == 3) {
		k = 4
	}
	switch k {
	case 0:
		return Ev{"op": "roles", "u": g.qname(), "d": g.qdom()}
	case 1:
		return Ev{"op": "users", "u": g.qname(), "d": g.qdom()}
	case 2:
		return Ev{"op": "domains", "u": g.qname()}
	case 3:
		if g.P(0.5 - g.p.stops) {
			return Ev{"op": "alldomains"}
		}
		stop := 0
		if g.P(0.6) {
			stop = 1 + g.Intn(5)
		}
		return Ev{"op": "range", "stop": stop}
	}
	if g.P(g.p.stops) {
		return Ev{"op": "range", "stop": g.Intn(8)}
	}
	return Ev{"op": "has", "u": g.qname(), "r": g.qname(), "d": g.qdom()}
}

// sweep asks everything (for a small universe) or a random part of it
func (g *rbacGen) sweep(limit int) {
	n := 0
	for _, i := range g.rng.Perm(len(g.names)) {
		for _, j := range g.rng.Perm(len(g.names)) {
			if n++; n > limit {
				return
			}
			g.Do(Ev{"op": "has", "u": g.names[i], "r": g.names[j], "d": g.qdom()})
		}
		d := g.qdom()
		g.Do(Ev{"op": "roles", "u": g.names[i], "d": d})
		g.Do(Ev{"op": "users", "u": g.names[i], "d": d})
	}
}

func (g *rbacGen) pokes() {
	all := append(append(append([]string{}, g.nu.pats...), g.unknown...), g.names...)
	all = append(all, "/x/:zz", "*", "~unknown", "p'unk.*", "")
	doms := append(append([][]string{}, g.doms...), []string{"unknown"}, []string{"*"}, []string{"~DP"}, []string{"unknown", "*"},
		[]string{"/unk/:x"}, []string{}, []string{"a", "b", "c"})
	for i := 0; i < 3; i++ {
		d := doms[g.Intn(len(doms))]
		if g.kind == "rm" {
			d = []string{}
		}
		g.Do(Ev{"op": "poke", "u": g.Pick(all), "r": g.Pick(all), "d": d})
	}
}

type rbacProfile struct {
	names, doms  int
	dm           float64 // probability of a domain manager
	npat, dpat   float64 // probability of patterns
	nested       float64
	steps        int
	questions    int // questions per change
	pokes        float64
	longChain    float64
	clear        float64
	matcherFirst float64
	smallLimit   float64
	nasty        float64
	sweepEach    int
	stops        float64
	conc         int
	wide         int // links to start with
}

func genRbac(p rbacProfile) func(h *H) {
	return func(h *H) {
		g := &rbacGen{H: h, p: p, kind: "rm", limit: 10}
		if h.P(p.dm) {
			g.kind = "dm"
		}
		if h.P(p.smallLimit) {
			g.limit = h.Intn(8)
		}
		kinds := []string{"path", "table", "regex", "path2", "table"}
		nk, dk := "none", "none"
		if h.P(p.npat) {
			nk = kinds[h.Intn(len(kinds))]
		}
		if g.kind == "dm" && h.P(p.dpat) {
			dk = kinds[h.Intn(len(kinds))]
		}
		g.nu = flavour(h, nk, 2+h.Intn(p.names-1), "n")
		g.du = flavour(h, dk, 1+h.Intn(p.doms), "d")
		g.nu.selfCheck()
		g.du.selfCheck()
		if dk == "table" {
			// domain patterns may overlap
			for _, n := range g.du.names {
				for _, q := range g.du.pats {
					if h.P(0.3) {
						g.du.rel = append(g.du.rel, []string{n, q})
					}
				}
			}
		}
		g.names = append(append([]string{}, g.nu.names...), g.nu.pats...)
		g.unknown = []string{"unknown1", "unknown2"}
		plain := flavour(h, "none", 2, "s")
		if dk == "none" && h.P(0.4) {
			// paths which differ only in where one level ends
			g.du.names = []string{"d", "ds", "dss"}
			plain.names = []string{"s", "ss", "d"}
		}
		g.concrete = [][]string{{}}
		for _, d := range g.du.names {
			g.concrete = append(g.concrete, []string{d})
			if h.P(p.nested) {
				g.concrete = append(g.concrete, []string{d, h.Pick(plain.names)})
			}
			if h.P(p.nested / 3) {
				g.concrete = append(g.concrete, []string{d, h.Pick(plain.names), h.Pick(g.du.names)})
			}
		}
		if h.P(p.nested) {
			// the same name on different levels
			g.concrete = append(g.concrete, []string{h.Pick(plain.names)}, []string{h.Pick(plain.names), h.Pick(g.du.names)})
		}
		g.doms = append([][]string{}, g.concrete...)
		for _, q := range g.du.pats {
			g.doms = append(g.doms, []string{q})
			if h.P(p.nested) {
				g.doms = append(g.doms, []string{q, h.Pick(plain.names)})
			}
			if h.P(p.nested) {
				g.doms = append(g.doms, []string{h.Pick(plain.names), q})
			}
		}
		g.pDel = []float64{0.15, 0.4, 0.55}[h.Intn(3)]

		tn := h.texts(g.nu.names, 0)
		if nk == "none" {
			tn = h.texts(append(append([]string{}, g.nu.names...), g.unknown...), p.nasty)
		}
		if dk == "none" && h.P(0.15) {
			// a domain without a name is another one than no domain
			used := false
			for _, t := range tn {
				used = used || t == ""
			}
			if !used {
				tn[g.du.names[0]] = ""
				g.nameless = true
			}
		}
		init := Ev{"kind": g.kind, "limit": g.limit, "texts": tn,
			"nmk": []string{}, "nms": [][][]string{}, "dmk": []string{}, "dms": [][][]string{}}
		if nk != "none" {
			init["nmk"], init["nms"] = []string{nk}, []interface{}{listOfPairs(g.nu.rel)}
		}
		if dk != "none" {
			init["dmk"], init["dms"] = []string{dk}, []interface{}{listOfPairs(g.du.rel)}
		}
		if nk != "none" {
			// another matcher, which may replace the first one
			init["nmk"] = append(init["nmk"].([]string), "table")
			init["nms"] = append(init["nms"].([]interface{}), g.otherRel(g.nu, nk, true))
		}
		if dk != "none" {
			init["dmk"] = append(init["dmk"].([]string), "table")
			init["dms"] = append(init["dms"].([]interface{}), g.otherRel(g.du, dk, false))
		}
		init["nms"], init["dms"] = list2(init["nms"]), list2(init["dms"])
		g.Init(init)

		nOn, dOn := false, false
		if nk != "none" && h.P(p.matcherFirst) {
			g.Do(Ev{"op": "setnm", "i": 1})
			nOn = true
		}
		if dk != "none" && h.P(p.matcherFirst) {
			g.Do(Ev{"op": "setdm", "i": 1})
			dOn = true
		}
		for i := h.Intn(p.wide + 1); i > 0; i-- {
			g.change()
		}
		if h.P(p.longChain) {
			// a chain around the limit, possibly with a shortcut and a cycle
			d := g.dom()
			n := g.limit + 1 + h.Intn(3)
			chain := []string{}
			for i := 0; i <= n; i++ {
				chain = append(chain, fmt.Sprintf("c%d", i))
			}
			for _, i := range h.rng.Perm(n) {
				g.Do(Ev{"op": "add", "u": chain[i], "r": chain[i+1], "d": d})
			}
			if h.P(0.5) {
				a, b := h.Intn(n+1), h.Intn(n+1)
				g.Do(Ev{"op": "add", "u": chain[a], "r": chain[b], "d": d})
			}
			for i := 0; i < 4; i++ {
				from := h.Intn(3)
				for to := 0; to <= n; to++ {
					if from < len(chain) {
						g.Do(Ev{"op": "has", "u": chain[from], "r": chain[to], "d": d})
					}
				}
			}
			g.names = append(g.names, chain[0], chain[n/2], chain[n])
		}
		for i := 0; i < p.steps; i++ {
			g.change()
			if h.P(p.clear) {
				g.Do(Ev{"op": "clear"})
				g.links = nil
			}
			if h.P(p.pokes) {
				g.pokes()
			}
			for q := 0; q < p.questions; q++ {
				g.question()
			}
			if p.conc > 0 && i%5 == 4 {
				groups := make([][]Ev, p.conc)
				pool := []Ev{}
				for k := 0; k < 5; k++ {
					pool = append(pool, g.ask())
				}
				for k := range groups {
					for q := 0; q < 8; q++ {
						ev := Ev{}
						for f, v := range pool[g.Intn(len(pool))] {
							ev[f] = v
						}
						if h.P(0.5) {
							ev = g.ask()
						}
						groups[k] = append(groups[k], ev)
					}
				}
				h.parallel(groups)
			}
			if p.sweepEach > 0 && i%p.sweepEach == p.sweepEach-1 {
				g.sweep(40)
			}
			if nk != "none" && h.P(0.08) {
				nOn = g.swap("setnm", nOn)
			}
			if dk != "none" && h.P(0.08) {
				dOn = g.swap("setdm", dOn)
			}
		}
		if nk != "none" {
			g.Do(Ev{"op": "setnm", "i": 1})
		}
		if dk != "none" {
			g.Do(Ev{"op": "setdm", "i": 1})
		}
		g.sweep(150)
		for i := range g.concrete {
			for k := 0; k < 4; k++ {
				d := g.concrete[i]
				if g.kind == "rm" {
					d = []string{}
				}
				g.Do(Ev{"op": "has", "u": g.qname(), "r": g.qname(), "d": d})
			}
		}
		g.Do(Ev{"op": "range", "stop": 0})
		if !g.nameless {
			g.Do(Ev{"op": "alldomains"})
		}
	}
}

// swap installs or removes a matcher, or replaces it by another one
func (g *rbacGen) swap(op string, on bool) bool {
	i := g.Intn(3)
	if !on && g.P(0.7) {
		i = 1
	}
	if on && g.P(0.3) {
		i = 2
	}
	g.Do(Ev{"op": op, "i": i})
	if i > 0 && g.P(0.3) {
		for k := 0; k < 3; k++ {
			g.question()
		}
		i = 3 - i
		g.Do(Ev{"op": op, "i": i})
	}
	return i > 0
}

// otherRel is another match relation of the same names; names match at most one pattern if single is set
func (g *rbacGen) otherRel(u universe, kind string, single bool) []interface{} {
	rel := [][]string{}
	if kind == "table" && g.P(0.85) {
		for _, n := range u.names {
			for _, p := range g.rng.Perm(len(u.pats)) {
				if g.P(0.4) {
					rel = append(rel, []string{n, u.pats[p]})
					if single {
						break
					}
				}
			}
		}
	}
	return listOfPairs(rel)
}

func listOfPairs(rel [][]string) []interface{} {
	res := []interface{}{}
	for _, r := range rel {
		res = append(res, []string{r[0], r[1]})
	}
	return res
}

func list2(v interface{}) []interface{} {
	if l, ok := v.([]interface{}); ok {
		return l
	}
	return []interface{}{}
}

func init() {
	domains["rbac"] = domainSpec{
		new: func() Domain { return &rbacDomain{} },
		gen: map[string]func(h *H){
			"reach":  genRbac(rbacProfile{names: 9, doms: 2, dm: 0.4, steps: 30, questions: 4, longChain: 0.5, clear: 0.01, smallLimit: 0.6, nasty: 0.3, sweepEach: 10}),
			"domain": genRbac(rbacProfile{names: 4, doms: 4, dm: 1, nested: 0.5, steps: 30, questions: 6, clear: 0.01, nasty: 0.2, sweepEach: 10}),
			"npat":   genRbac(rbacProfile{names: 8, doms: 2, dm: 0.3, npat: 1, steps: 25, questions: 3, pokes: 0.1, clear: 0.01, matcherFirst: 0.6, sweepEach: 6}),
			"dpat":   genRbac(rbacProfile{names: 4, doms: 4, dm: 1, npat: 0.25, dpat: 1, nested: 0.3, steps: 30, questions: 4, pokes: 0.1, clear: 0.01, matcherFirst: 0.6, sweepEach: 8}),
			"wide":   genRbac(rbacProfile{names: 40, doms: 10, dm: 0.6, npat: 0.5, dpat: 0.5, nested: 0.3, steps: 20, questions: 6, matcherFirst: 0.5, nasty: 0.1, sweepEach: 5, wide: 150}),
			"stop":   genRbac(rbacProfile{names: 6, doms: 4, dm: 0.7, npat: 0.2, dpat: 0.3, nested: 0.5, steps: 30, questions: 6, clear: 0.01, matcherFirst: 0.6, stops: 0.5}),
			"conc":   genRbac(rbacProfile{names: 6, doms: 3, dm: 0.6, npat: 0.7, dpat: 0.6, nested: 0.4, steps: 25, questions: 0, clear: 0.01, matcherFirst: 0.7, conc: 8}),
			"query":  genRbac(rbacProfile{names: 5, doms: 3, dm: 0.7, npat: 0.6, dpat: 0.6, nested: 0.3, steps: 25, questions: 2, pokes: 1, clear: 0.02, matcherFirst: 0.7, sweepEach: 8}),
		},
	}
}
