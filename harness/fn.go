package main

import (
	"fmt"
	"strings"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/model/fm"
	"github.com/abichinger/fastac/rbac"
	"github.com/abichinger/fastac/util"
	"github.com/abichinger/govaluate"
)

// Domain "fn": the functions of matchers. Patterns are trees next to their texts

func init() {
	domains["fn"] = domainSpec{new: func() Domain { return &fnDomain{} }, gen: map[string]func(h *H){
		"regex": func(h *H) { genFn(h, "regexMatch") },
		"glob":  func(h *H) { genFn(h, "globMatch") },
		"ip":    func(h *H) { genFn(h, "ipMatch") },
		"table": genFnTable,
		"conc":  genFnConc,
	}}
}

type fnDomain struct {
	names  map[string]string // names of functions, functions of all models cannot be taken back
	models []*fastac.Enforcer
}

var fnCount = 0

func (d *fnDomain) Init(ev Ev) {
	d.names, d.models = map[string]string{}, nil
	// as it was, a former history may have replaced it
	fm.SetFunction("globMatch", util.GlobMatchFunc)
}
func (d *fnDomain) Close() { fm.SetFunction("globMatch", util.GlobMatchFunc) }

func (d *fnDomain) name(n string) string {
	if n == "globMatch" {
		return n
	}
	if d.names[n] == "" {
		fnCount++
		d.names[n] = fmt.Sprintf("fn%d", fnCount)
	}
	return d.names[n]
}

func fnNumber(id int) govaluate.ExpressionFunction {
	return util.WrapMatchingFunc(func(x, _ string) bool { return x == fmt.Sprint(id) })
}

func fnEnforcer(matcher string) *fastac.Enforcer {
	makeModels.Lock()
	defer makeModels.Unlock()
	m := model.NewModel()
	must(m.LoadModelFromText("[request_definition]\nr = x\n[policy_definition]\np = y\n[policy_effect]\ne = some(where (p.eft == allow))\n[matchers]\nm = " + matcher + "\n"))
	e, err := fastac.NewEnforcer(m, nil)
	must(err)
	return e
}

func tfe(v interface{}, err error) string {
	switch {
	case err != nil:
		return "E"
	case v == true:
		return "T"
	case v == false:
		return "F"
	}
	return fmt.Sprint(v)
}

// orPanic is "E" too if fn panics
func orPanic(fn func() string) (s string) {
	if guard(func() { s = fn() }) != "" {
		return "E"
	}
	return s
}

func (d *fnDomain) match(fn, text string, texts []string) ([]string, interface{}) {
	vals := []string{}
	direct := map[string]func(x, y string) (bool, error){
		"regexMatch": func(x, y string) (bool, error) { return util.RegexMatch(x, y), nil },
		"ipMatch":    func(x, y string) (bool, error) { return util.IPMatch(x, y), nil },
		"globMatch":  util.GlobMatch,
	}[fn]
	wrapped := map[string]govaluate.ExpressionFunction{"regexMatch": util.RegexMatchFunc, "ipMatch": util.IPMatchFunc, "globMatch": util.GlobMatchFunc}[fn]
	e := fnEnforcer(fn + "(r.x, p.y)")
	_, err := e.AddRule([]string{"p", text})
	must(err)
	prefix := util.NewPrefixMatcher("re: ", util.RegexMatch)
	rm := rbac.NewRoleManager(10)
	rm.SetMatcher(util.RegexMatcher)
	roles := fn == "regexMatch"
	for i, x := range texts {
		v := orPanic(func() string { return tfe(direct(x, text)) })
		vals = append(vals, v)
		diff := func(via, got string) interface{} {
			if got != v {
				return []string{via, x, text, got, v}
			}
			return nil
		}
		if r := diff("wrapped", orPanic(func() string { return tfe(wrapped(x, text)) })); r != nil {
			return vals, r
		}
		got := ""
		if p := guard(func() { got = tfe(e.Enforce(x)) }); p != "" {
			got = p
		}
		if r := diff("enforce", got); r != nil {
			return vals, r
		}
		if fn != "regexMatch" {
			continue
		}
		for via, m := range map[string]util.IMatcher{"p'": util.RegexMatcher, "re: ": prefix} {
			if r := diff(via, orPanic(func() string { return tfe(m.Match(x, via+text), nil) })); r != nil {
				return vals, r
			}
			if m.Match(x, text) != false || m.IsPattern(text) || !m.IsPattern(via+text) {
				return vals, []string{via, x, text, "a pattern without the prefix"}
			}
			for _, y := range []string{"x" + via + text, " " + via + text, text + via, via[1:] + text, strings.ToUpper(via) + text, "/" + via} {
				if !strings.HasPrefix(y, via) && (m.IsPattern(y) || m.Match(x, y)) {
					return vals, []string{via, x, y, "the prefix is not at the start"}
				}
			}
		}
		if v == "E" {
			roles = false
		}
		if roles && i == 0 {
			_, err := rm.AddLink("p'"+text, "R!")
			must(err)
		}
		if roles && x != "" {
			if r := diff("role", tfe(rm.HasLink(x, "R!"))); r != nil {
				return vals, r
			}
		}
	}
	return vals, nil
}

func (d *fnDomain) Do(ev Ev) (res Ev) {
	res = Ev{}
	p := guard(func() {
		switch str(ev, "op") {
		case "match":
			vals, diff := d.match(str(ev, "fn"), str(ev, "text"), strs(canon(ev["texts"])))
			res["vals"] = vals
			if diff != nil {
				res["differs"] = diff
			}
			return
		case "together":
			asks := list(canon(ev["asks"]))
			res["results"] = together(len(asks), func(i int) Ev { return d.Do(obj(asks[i])) })
			return
		case "global":
			fm.SetFunction(d.name(str(ev, "name")), fnNumber(num(ev, "id")))
		case "model":
			m := model.NewModel()
			must(m.LoadModelFromText("[request_definition]\nr = x, y\n[policy_definition]\np = z\n[policy_effect]\ne = some(where (p.eft == allow))\n[matchers]\nm = r.x == p.z\n"))
			e, err := fastac.NewEnforcer(m, nil)
			must(err)
			_, err = e.AddRule([]string{"p", "v"})
			must(err)
			d.models = append(d.models, e)
		case "setfn":
			d.models[num(ev, "i")-1].GetModel().SetFunction(d.name(str(ev, "name")), fnNumber(num(ev, "id")))
		case "removefn":
			res["had"] = d.models[num(ev, "i")-1].GetModel().RemoveFunction(d.name(str(ev, "name")))
			return
		case "ask":
			vals := []string{}
			e := d.models[num(ev, "i")-1]
			for _, x := range []string{"1", "2", "3"} {
				vals = append(vals, tfe(e.Enforce(fastac.SetMatcher(d.name(str(ev, "name"))+"(r.x, r.y)"), x, "*")))
			}
			res["vals"] = vals
			return
		}
		res["done"] = true
	})
	if p != "" {
		res["panic"] = p
	}
	return res
}

// ---------------------------------------------------------------------------------- generator

type tree = []interface{}

var fnLetters = []string{"A", "B", "C", "a", "b", "c", "d", "e", "x", "y", "z"}

func fnClass(h *H) tree {
	ranges := []interface{}{}
	for n := 1 + h.Intn(3); n > 0; n-- {
		i := h.Intn(len(fnLetters))
		j := i
		if h.P(0.5) {
			j += h.Intn(len(fnLetters) - i)
			if (fnLetters[i] < "a") != (fnLetters[j] < "a") {
				j = i // the letters between are not all known
			}
		}
		ranges = append(ranges, tree{fnLetters[i], fnLetters[j]})
	}
	return tree{"cls", h.P(0.3), ranges}
}

func fnClassText(t tree) string {
	s := "["
	if t[1].(bool) {
		s += "^"
	}
	for _, r := range t[2].([]interface{}) {
		x, y := r.(tree)[0].(string), r.(tree)[1].(string)
		if s += x; x != y {
			s += "-" + y
		}
	}
	return s + "]"
}

func fnRegex(h *H, depth int) tree {
	if depth == 0 || h.P(0.25) {
		switch h.Intn(9) {
		case 0:
			return tree{"any"}
		case 1:
			return fnClass(h)
		case 2:
			return tree{"esc", h.Pick([]string{".", "*", "+", "?", "(", ")", "[", "]", "\\", "^", "$", "|", "{", "}"})}
		case 3:
			if h.P(0.5) {
				return tree{h.Pick([]string{"bol", "eol"})}
			}
		}
		return tree{"chr", h.Pick([]string{"a", "b", "c", "x", "é", "世", "/", " ", "\"", "'", ",", "-"})}
	}
	switch h.Intn(8) {
	case 0, 1:
		return tree{h.Pick([]string{"star", "plus", "opt", "grp"}), fnRegex(h, depth-1)}
	case 2:
		n := h.Intn(3)
		return tree{"rep", fnRegex(h, depth-1), n, n + h.Intn(3)}
	case 3, 4:
		return tree{"alt", fnRegex(h, depth-1), fnRegex(h, depth-1)}
	}
	l := []interface{}{}
	for n := h.Intn(4); n >= 0; n-- {
		l = append(l, fnRegex(h, depth-1))
	}
	return tree{"cat", l}
}

func fnRegexText(t tree) string {
	atom := func(x interface{}) string {
		switch x.(tree)[0] {
		case "chr", "esc", "any", "cls", "grp":
			return fnRegexText(x.(tree))
		}
		return "(?:" + fnRegexText(x.(tree)) + ")"
	}
	switch t[0] {
	case "chr", "bad":
		return t[1].(string)
	case "esc":
		return "\\" + t[1].(string)
	case "any":
		return "."
	case "cls":
		return fnClassText(t)
	case "star":
		return atom(t[1]) + "*"
	case "plus":
		return atom(t[1]) + "+"
	case "opt":
		return atom(t[1]) + "?"
	case "rep":
		return fmt.Sprintf("%s{%d,%d}", atom(t[1]), t[2], t[3])
	case "grp":
		return "(" + fnRegexText(t[1].(tree)) + ")"
	case "alt":
		return fnRegexText(t[1].(tree)) + "|" + fnRegexText(t[2].(tree))
	case "bol":
		return "^"
	case "eol":
		return "$"
	}
	s := ""
	for _, x := range t[1].([]interface{}) {
		if x.(tree)[0] == "alt" {
			s += atom(x)
		} else {
			s += fnRegexText(x.(tree))
		}
	}
	return s
}

// fnSample is a text which probably matches
func fnSample(h *H, t tree) string {
	rep := func(x interface{}, n int) (s string) {
		for ; n > 0; n-- {
			s += fnSample(h, x.(tree))
		}
		return s
	}
	if h.P(0.03) {
		return h.Pick([]string{"", "a", "/"})
	}
	switch t[0] {
	case "chr", "esc":
		return t[1].(string)
	case "any", "one":
		return h.Pick([]string{"a", "é", "\n", "/", "."})
	case "cls":
		if t[1].(bool) {
			return h.Pick(append([]string{"/", "\n", "é"}, fnLetters...))
		}
		r := t[2].([]interface{})
		return r[h.Intn(len(r))].(tree)[h.Intn(2)].(string)
	case "star":
		return rep(t[1], h.Intn(3))
	case "plus":
		return rep(t[1], 1+h.Intn(2))
	case "opt":
		return rep(t[1], h.Intn(2))
	case "rep":
		return rep(t[1], t[2].(int)+h.Intn(t[3].(int)-t[2].(int)+1))
	case "grp":
		return fnSample(h, t[1].(tree))
	case "alt":
		return fnSample(h, t[1+h.Intn(2)].(tree))
	case "many":
		return h.Pick([]string{"", "a", "bc", "x/y", ".", "世"})
	case "cat":
		s := ""
		for _, x := range t[1].([]interface{}) {
			s += fnSample(h, x.(tree))
		}
		return s
	}
	return ""
}

func fnGlob(h *H) []interface{} {
	g := []interface{}{}
	for n := h.Intn(8); n > 0; n-- {
		switch h.Intn(8) {
		case 0:
			g = append(g, tree{"one"})
		case 1, 2:
			g = append(g, tree{"many"})
		case 3:
			g = append(g, fnClass(h))
		case 4:
			g = append(g, tree{"esc", h.Pick([]string{"*", "?", "[", "\\", "a", "/"})})
		default:
			g = append(g, tree{"chr", h.Pick([]string{"a", "b", "/", "/", "~", "%", "]", "^", "-", ".", "{", " "})})
		}
	}
	return g
}

func fnGlobText(g []interface{}) string {
	s := ""
	for _, x := range g {
		switch t := x.(tree); t[0] {
		case "chr", "bad":
			s += t[1].(string)
		case "esc":
			s += "\\" + t[1].(string)
		case "one":
			s += "?"
		case "many":
			s += "*"
		case "cls":
			s += fnClassText(t)
		}
	}
	return s
}

func fnAddress(h *H, like tree) tree {
	if like != nil && like[0] == "net" {
		like = like[1].(tree)
	}
	if like != nil && like[0] != "bad" && h.P(0.8) {
		l := append([]int{}, like[1].([]int)...)
		if h.P(0.7) { // another bit
			w := 8
			if like[0] == "v6" {
				w = 16
			}
			l[h.Intn(len(l))] ^= 1 << h.Intn(w)
		}
		switch {
		case like[0] == "v6":
			return fnV6(h, l)
		case h.P(0.2):
			return tree{"map", l}
		}
		return tree{"v4", l}
	}
	if h.P(0.05) {
		return tree{"bad", h.Pick([]string{"", "x", "1.2.3", "1.2.3.256", "1.2.3.4.5", "::1::", "1.2.3.4/8", "::1/64", "01.2.3.4", "fe80::1%eth0", " ::1"})}
	}
	if h.P(0.6) {
		return tree{h.Pick([]string{"v4", "v4", "map"}), []int{h.Intn(256), []int{0, 255, 128, h.Intn(256)}[h.Intn(4)], h.Intn(256), h.Intn(256)}}
	}
	l := make([]int, 8)
	for i := range l {
		if h.P(0.5) {
			l[i] = h.Intn(65536)
		}
	}
	return fnV6(h, l)
}

// fnV6 is the address with some run of zeros left out
func fnV6(h *H, l []int) tree {
	if l[0] == 0 && l[1] == 0 && l[2] == 0 && l[3] == 0 && l[4] == 0 {
		l[0] = 1 // the address of another family, or nearly one
	}
	runs := [][2]int{{0, 0}}
	for i := range l {
		for j := i; j < 8 && l[j] == 0; j++ {
			runs = append(runs, [2]int{i + 1, j + 1})
		}
	}
	r := runs[h.Intn(len(runs))]
	return tree{"v6", l, r[0], r[1]}
}

func fnIpText(t tree) string {
	switch t[0] {
	case "v4", "map":
		l := t[1].([]int)
		s := fmt.Sprintf("%d.%d.%d.%d", l[0], l[1], l[2], l[3])
		if t[0] == "map" {
			s = "::ffff:" + s
		}
		return s
	case "v6":
		l, a, b := t[1].([]int), t[2].(int), t[3].(int)
		join := func(l []int) string {
			x := []string{}
			for _, n := range l {
				x = append(x, fmt.Sprintf("%x", n))
			}
			return strings.Join(x, ":")
		}
		if a == 0 {
			return join(l)
		}
		return join(l[:a-1]) + "::" + join(l[b:])
	case "net":
		return fmt.Sprintf("%s/%d", fnIpText(t[1].(tree)), t[2])
	}
	return t[1].(string)
}

func genFn(h *H, fn string) {
	h.Init(Ev{})
	for i := 0; i < 8; i++ {
		h.Do(fnAsk(h, fn))
	}
}

// genFnConc asks the functions at the same time
func genFnConc(h *H) {
	h.Init(Ev{})
	for i := 0; i < 3; i++ {
		asks := []interface{}{}
		for k := 0; k < 6; k++ {
			asks = append(asks, fnAsk(h, h.Pick([]string{"regexMatch", "globMatch", "ipMatch"})))
		}
		if h.P(0.5) {
			asks = append(asks, asks[h.Intn(6)])
		}
		h.Do(Ev{"op": "together", "asks": asks})
	}
}

func fnAsk(h *H, fn string) Ev {
	var pat interface{}
	text, texts, subjects := "", []string{}, []interface{}{}
	switch fn {
	case "regexMatch":
		t := fnRegex(h, 1+h.Intn(3))
		if h.P(0.05) {
			t = tree{"bad", h.Pick([]string{"(", "a)", "[", "*", "\\", "a**", "x{2,1}", "(?P<n>", "[z-a]"})}
		}
		pat, text = t, fnRegexText(t)
		for k := 0; k < 6; k++ {
			s := fnSample(h, t)
			if h.P(0.3) {
				s = h.Pick([]string{"a", "\n", "/", "é"}) + s
			}
			if h.P(0.3) {
				s += h.Pick([]string{"a", "\n", "/", "é"})
			}
			if h.P(0.05) {
				s = text // the expression itself
			}
			if len(s) > 40 {
				s = ""
			}
			texts = append(texts, s)
			subjects = append(subjects, chars(s))
		}
	case "globMatch":
		g := fnGlob(h)
		if h.P(0.05) {
			g = append(g, tree{"bad", h.Pick([]string{"[", "[a", "\\", "[]", "[^", "[a-"})})
		}
		pat, text = g, fnGlobText(g)
		for k := 0; k < 6; k++ {
			s := ""
			for _, t := range g {
				if !h.P(0.06) {
					s += fnSample(h, t.(tree))
				}
			}
			if h.P(0.05) {
				s = text // the pattern itself
			}
			s = strings.NewReplacer("é", "~", "世", "%").Replace(s) // the library matches a part of such a character
			if strings.Contains(text, "[^") {
				s = strings.ReplaceAll(s, "/", "x") // whether a negated class stands for a slash is not said
			}
			texts = append(texts, s)
			subjects = append(subjects, chars(s))
		}
	case "ipMatch":
		t := fnAddress(h, nil)
		if (t[0] == "v4" || t[0] == "v6") && h.P(0.7) {
			n := h.Intn(34)
			if t[0] == "v6" {
				n = h.Intn(131)
			}
			t = tree{"net", t, n}
		}
		for t[0] == "bad" && strings.Contains(fnIpText(t), "/") {
			t = fnAddress(h, nil) // only as an address it is bad
		}
		pat, text = t, fnIpText(t)
		for k := 0; k < 6; k++ {
			a := fnAddress(h, t)
			texts = append(texts, fnIpText(a))
			subjects = append(subjects, a)
		}
	}
	return Ev{"op": "match", "fn": fn, "pat": pat, "text": text, "subjects": subjects, "texts": texts}
}

func genFnTable(h *H) {
	h.Init(Ev{})
	names := []string{"n1", "n2", "globMatch"}
	models := 0
	for i := 0; i < 25; i++ {
		name, id := h.Pick(names), 1+h.Intn(3)
		switch k := h.Intn(10); {
		case models == 0 || k == 0 && models < 4:
			h.Do(Ev{"op": "model"})
			models++
		case k <= 2:
			h.Do(Ev{"op": "global", "name": name, "id": id})
		case k <= 4:
			h.Do(Ev{"op": "setfn", "i": 1 + h.Intn(models), "name": name, "id": id})
		case k == 5:
			h.Do(Ev{"op": "removefn", "i": 1 + h.Intn(models), "name": name})
		default:
			h.Do(Ev{"op": "ask", "i": 1 + h.Intn(models), "name": name})
		}
	}
	for m := 1; m <= models; m++ {
		for _, n := range names {
			h.Do(Ev{"op": "ask", "i": m, "name": n})
		}
	}
}
