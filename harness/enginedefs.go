package main

// Random changes of the definitions of a model

func without(l []string, k string) []string {
	res := []string{}
	for _, x := range l {
		if x != k {
			res = append(res, x)
		}
	}
	return res
}

func with(l []string, k string) []string { return append(without(l, k), k) }

// calls are the functions an expression calls
func calls(v interface{}, res map[string]bool) map[string]bool {
	l, ok := v.([]interface{})
	if !ok || len(l) == 0 {
		return res
	}
	if s, ok := l[0].(string); ok && (s == "fn" || s == "g") && len(l) == 3 {
		res[l[1].(string)] = true
	}
	for _, x := range l {
		calls(x, res)
	}
	return res
}

func (g *engGen) canBuild(k string) bool {
	d, ok := g.md[k]
	if !ok || g.pcols[str(d, "pol")] == nil && g.gkind[str(d, "pol")] == "" {
		return false
	}
	for f := range calls(d["ast"], map[string]bool{}) {
		if g.fns[f] == 0 && g.gkind[f] == "" {
			return false
		}
	}
	return true
}

func (g *engGen) allBuild() bool {
	for k := range g.md {
		if !g.canBuild(k) {
			return false
		}
	}
	return true
}

func sortedKeys(m map[string]Ev) []string {
	res := []string{}
	for k := range m {
		res = append(res, k)
	}
	return sorted(res)
}

func sorted(l []string) []string {
	for i := range l {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
	return l
}

func (g *engGen) buildOne(k string) bool {
	res := g.Do(Ev{"op": "buildone", "key": k})
	if res["err"] == false && g.md[k] != nil {
		g.mkeys = with(g.mkeys, k)
		g.mpol[k] = str(g.md[k], "pol")
		return true
	}
	return false
}

func (g *engGen) undefMatcher(k string) {
	g.Do(Ev{"op": "undef", "sec": "m", "key": k})
	delete(g.md, k)
	delete(g.mpol, k)
	g.mkeys = without(g.mkeys, k)
}

// forget the rules of a policy
func (g *engGen) forget(key string) {
	keep := func(l [][]string) [][]string {
		res := [][]string{}
		for _, r := range l {
			if r[0] != key {
				res = append(res, r)
			}
		}
		return res
	}
	g.rules, g.dead = keep(g.rules), keep(g.dead)
}

// renewed: the policy is another one, matchers have to be built again
func (g *engGen) renewed(key string) {
	g.forget(key)
	for i := range g.held {
		if g.held[i] == key {
			g.held[i] = ""
		}
	}
	for i := range g.cpol {
		if g.cpol[i] == key {
			g.cpol[i] = ""
		}
	}
	all := g.P(0.5) && g.allBuild()
	if all {
		g.Do(Ev{"op": "buildall"})
		for _, k := range sortedKeys(g.md) {
			g.mkeys = with(g.mkeys, k)
			g.mpol[k] = str(g.md[k], "pol")
		}
	}
	for _, k := range append([]string{}, g.mkeys...) {
		if g.mpol[k] != key || all && g.md[k] != nil {
			continue
		}
		if g.md[k] == nil || !g.buildOne(k) {
			g.undefMatcher(k)
		}
	}
}

func (g *engGen) defMatcher(k string) {
	pol := g.Pick(g.pkeys)
	if len(g.gkeys) > 0 && g.P(0.1) {
		pol = g.Pick(g.gkeys)
	}
	n := g.expr(pol, g.Pick(g.rkeys), g.p.depth, true)
	if g.P(0.5) {
		n = g.expr(pol, g.rkeys[0], g.p.depth, true)
	}
	if g.P(0.12) { // a function nobody knows
		n = node{"and", n, node{"fn", "f9", []interface{}{g.rtext(g.rkeys[0])}}}
	}
	st := g.ast()
	text := g.dom.(*engineDomain).text(n, st)
	d := Ev{"pol": polOf(n), "ast": n, "text": text}
	g.md[k] = d
	g.Do(Ev{"op": "def", "sec": "m", "key": k, "pol": d["pol"], "ast": n, "st": st, "text": text})
}

func (g *engGen) redefine() {
	kinds := []string{"some", "nodeny", "both"}
	switch g.Intn(19) {
	case 0: // request
		k := g.Pick(append([]string{"r", "r2", "r4"}, g.rkeys...))
		if g.P(0.15) && len(g.rkeys) > 1 {
			k = g.Pick(g.rkeys)
			g.rkeys = without(g.rkeys, k)
			delete(g.rcols, k)
			g.Do(Ev{"op": "undef", "sec": "r", "key": k})
			return
		}
		op := "def"
		if g.P(0.3) {
			op = "place"
		}
		g.Do(Ev{"op": op, "sec": "r", "key": k, "cols": g.requestDef(k)})
		g.rkeys = with(g.rkeys, k)
	case 1, 2, 3: // policy
		k := g.Pick(append([]string{"p", "p2", "p3"}, g.pkeys...))
		if g.P(0.2) && len(g.pkeys) > 1 {
			k = g.Pick(g.pkeys)
			g.pkeys = without(g.pkeys, k)
			delete(g.pcols, k)
			g.forget(k)
			g.Do(Ev{"op": "undef", "sec": "p", "key": k})
			return
		}
		if g.pcols[k] != nil && g.P(0.3) { // put in place by the caller, with rules
			rules := [][]string{}
			for i := g.Intn(4); i > 0; i-- {
				rules = append(rules, g.newRule(k))
			}
			g.Do(Ev{"op": "place", "sec": "p", "key": k, "rules": rules, "st": g.st()})
			g.renewed(k)
			g.rules = append(g.rules, rules...)
			return
		}
		ev := g.policyDef(k)
		ev["op"], ev["sec"], ev["key"] = "def", "p", k
		g.Do(ev)
		g.pkeys = with(g.pkeys, k)
		g.renewed(k)
	case 4, 5: // roles
		k := g.Pick([]string{"g", "g2", "g3"})
		if g.gkind[k] != "" && g.P(0.25) {
			g.gkeys = without(g.gkeys, k)
			delete(g.gkind, k)
			g.forget(k)
			if k == "g" {
				g.nmok, g.pats = false, nil
			}
			g.Do(Ev{"op": "undef", "sec": "g", "key": k})
			return
		}
		ev := Ev{"op": "def", "sec": "g", "key": k, "kind": g.roleKind()}
		if kind := g.gkind[k]; kind != "" && g.P(0.3) {
			ev = Ev{"op": "place", "sec": "g", "key": k, "kind": kind, "limit": []int{5, 10, 12}[g.Intn(3)]}
		}
		g.gkind[k] = str(ev, "kind")
		g.gkeys = with(g.gkeys, k)
		if k == "g" {
			g.nmok, g.pats = false, nil
		}
		g.Do(ev)
		g.renewed(k)
	case 6: // effect
		k := g.Pick(append([]string{"e", "e2"}, g.ekeys...))
		if g.P(0.15) && len(g.ekeys) > 1 {
			k = g.Pick(g.ekeys)
			g.ekeys = without(g.ekeys, k)
			g.Do(Ev{"op": "undef", "sec": "e", "key": k})
			return
		}
		op := "def"
		if g.P(0.4) {
			op, kinds = "place", append(kinds, "two", "none", "veto")
		}
		g.Do(Ev{"op": op, "sec": "e", "key": k, "kind": g.Pick(kinds), "st": g.st()})
		g.ekeys = with(g.ekeys, k)
	case 7, 8, 9: // matcher
		k := g.Pick(append([]string{"m", "m2", "m4"}, g.mkeys...))
		if g.P(0.1) && g.md[k] != nil {
			g.undefMatcher(k)
			return
		}
		g.defMatcher(k)
		if g.P(0.2) { // questions before it is built
			for i := 0; i < 2; i++ {
				g.Do(g.question())
			}
		}
		if g.P(0.8) {
			g.buildOne(k)
		}
	case 10: // build
		if g.allBuild() && g.P(0.5) {
			g.Do(Ev{"op": "buildall"})
			for _, k := range sortedKeys(g.md) {
				g.mkeys = with(g.mkeys, k)
				g.mpol[k] = str(g.md[k], "pol")
			}
			return
		}
		g.buildOne(g.Pick(append([]string{"m", "m9"}, sortedKeys(g.md)...)))
	case 11: // matcher put in place
		m, _ := g.matcher(true)
		m = g.named(m)
		k := g.Pick([]string{"m", "m2", "m5"})
		if str(m, "k") == "bad" {
			return
		}
		pol := g.polOfMatcher(m)
		if res := g.Do(Ev{"op": "place", "sec": "m", "key": k, "m": m}); res["err"] == false {
			g.mkeys = with(g.mkeys, k)
			g.mpol[k] = pol
		}
	case 12, 13: // functions
		f := g.Pick([]string{"f1", "f2"})
		if g.P(0.25) {
			delete(g.fns, f)
			g.Do(Ev{"op": "removefn", "name": f})
			return
		}
		g.fns[f] = fnArity[f]
		g.Do(Ev{"op": "setfn", "name": f, "rows": g.function(f)})
	case 14, 16, 17: // copy
		safe := true
		for _, d := range g.md {
			safe = safe && safeText(str(d, "text"))
		}
		ok := safe && g.allBuild() && len(g.gkeys) == g.definedRoles()
		if !ok || g.P(0.4) {
			g.Do(Ev{"op": "describe", "again": safe})
			return
		}
		res := g.Do(Ev{"op": "reload", "st": g.st()})
		if res["err"] == true {
			return
		}
		for i := range g.held {
			g.held[i] = ""
		}
		for i := range g.cpol {
			g.cpol[i] = ""
		}
		g.nmok, g.pats = false, nil
		g.mkeys, g.mpol = []string{}, map[string]string{}
		for _, k := range sortedKeys(g.md) {
			g.mkeys = append(g.mkeys, k)
			g.mpol[k] = str(g.md[k], "pol")
		}
		g.ekeys = g.dom.(*engineDomain).known("ed")
		if len(g.ekeys) == 0 {
			g.ekeys = []string{"e"}
		}
	case 15, 18:
		sec := g.Pick([]string{"m", "md", "r", "e", "ed", "p", "pd", "g", "gd"})
		pool := map[byte][]string{'m': append([]string{"m", "m2", "m3", "m9"}, g.mkeys...), 'r': {"r", "r2", "r4", "r9"}, 'e': {"e", "e2", "e9"},
			'p': {"p", "p2", "p3", "g", "g2"}, 'g': {"g", "g2", "g3", "p"}}[sec[0]]
		k := g.Pick(pool)
		if d := g.dom.(*engineDomain); len(d.asked) > 0 && sec == "m" && g.P(0.5) {
			k = g.Pick(d.asked)
		}
		g.Do(Ev{"op": "known", "sec": sec, "key": k})
	}
}

func (g *engGen) definedRoles() int { return len(g.dom.(*engineDomain).known("gd")) }
