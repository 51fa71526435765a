package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/api"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/storage"
	"github.com/abichinger/fastac/storage/adapter"
)

// Domain "storage": enforcer, models and recording adapters

type storageDomain struct {
	e       *fastac.Enforcer
	ms      []model.IModel
	ads     []storage.Adapter
	recs    []*recorder
	in      *Interner
	calls   []Ev
	loading [][]string
	fail    bool
	tmp     string
}

// recorder is an adapter which only loads and saves
type recorder struct {
	d    *storageDomain
	i    int
	plan []bool
}

var errAdapter = errors.New("adapter fails")

func (a *recorder) next() error {
	if len(a.plan) == 0 {
		return nil
	}
	f := a.plan[0]
	a.plan = a.plan[1:]
	if f {
		return errAdapter
	}
	return nil
}

func (a *recorder) record(t string, rules [][]string, err error) error {
	field := "rs" // a sequence
	if t == "save" {
		field = "rules" // a set
	}
	a.d.calls = append(a.d.calls, Ev{"a": a.i, "t": t, field: a.d.ruleNames(rules), "ok": err == nil})
	return err
}

func (a *recorder) LoadPolicy(m api.IAddRuleBool) error {
	_ = a.record("load", nil, nil)
	for _, r := range a.d.loading {
		if _, err := m.AddRule(r); err != nil {
			return err
		}
	}
	if a.d.fail {
		return errAdapter
	}
	return nil
}

func (a *recorder) SavePolicy(m api.IRangeRules) error {
	rules := [][]string{}
	m.RangeRules(func(rule []string) bool {
		rules = append(rules, copyStrs(rule))
		return true
	})
	var err error
	if a.d.fail {
		err = errAdapter
	}
	return a.record("save", rules, err)
}

// simpleRecorder takes single rules
type simpleRecorder struct{ *recorder }

func (a *simpleRecorder) AddRule(rule []string) error {
	return a.record("add", [][]string{rule}, a.next())
}
func (a *simpleRecorder) RemoveRule(rule []string) error {
	return a.record("del", [][]string{rule}, a.next())
}

// batchRecorder takes single rules and batches
type batchRecorder struct{ simpleRecorder }

func (a *batchRecorder) AddRules(rules [][]string) error { return a.record("adds", rules, a.next()) }
func (a *batchRecorder) RemoveRules(rules [][]string) error {
	return a.record("dels", rules, a.next())
}

// batchOnlyRecorder takes batches only
type batchOnlyRecorder struct{ *recorder }

func (a *batchOnlyRecorder) AddRules(rules [][]string) error {
	return a.record("adds", rules, a.next())
}
func (a *batchOnlyRecorder) RemoveRules(rules [][]string) error {
	return a.record("dels", rules, a.next())
}

func (d *storageDomain) ruleNames(rules [][]string) [][]string {
	res := make([][]string, len(rules))
	for i, r := range rules {
		res[i] = d.in.RuleNames(r)
	}
	return res
}

func (d *storageDomain) rule(v interface{}) []string {
	r := d.in.RuleTexts(strs(v))
	return append(r, "spare")[:len(r)]
}

func storageModel(keys Ev) string {
	var p, g strings.Builder
	for _, k := range strs(keys["p"]) {
		fmt.Fprintf(&p, "%s = sub, obj\n", k)
	}
	for _, k := range strs(keys["g"]) {
		fmt.Fprintf(&g, "%s = _, _\n", k)
	}
	return "[request_definition]\nr = sub, obj\n[policy_definition]\n" + p.String() + "[role_definition]\n" + g.String() +
		"[policy_effect]\ne = some(where (p.eft == allow))\n[matchers]\nm = r.sub == p.sub && r.obj == p.obj\n"
}

func (d *storageDomain) option(o Ev) fastac.Option {
	if str(o, "k") == "storage" {
		return fastac.OptionStorage(boolean(o, "on"))
	}
	return fastac.OptionAutosave(boolean(o, "on"))
}

func (d *storageDomain) Init(ev Ev) {
	d.in = newInterner(obj(canon(ev))["texts"])
	form, cur := str(ev, "form"), num(ev, "cur")
	var first interface{}
	for i, k := range list(ev["models"]) {
		text := storageModel(obj(k))
		m := model.NewModel()
		must(m.LoadModelFromText(text))
		d.ms = append(d.ms, m)
		if i+1 == cur {
			first = m
			switch form {
			case "value":
				first = *m //nolint
			case "path":
				var err error
				d.tmp, err = os.MkdirTemp("", "verif-storage-")
				check(err)
				path := filepath.Join(d.tmp, "model.conf")
				check(os.WriteFile(path, []byte(text), 0600))
				first = path
			}
		}
	}
	for i, k := range strs(ev["kinds"]) {
		r := &recorder{d: d, i: i + 1}
		d.recs = append(d.recs, r)
		switch k {
		case "simple":
			d.ads = append(d.ads, &simpleRecorder{r})
		case "batch":
			if i%2 == 0 {
				d.ads = append(d.ads, &batchRecorder{simpleRecorder{r}})
			} else {
				d.ads = append(d.ads, &batchOnlyRecorder{r})
			}
		default:
			d.ads = append(d.ads, r)
		}
	}
	d.recs = append(d.recs, &recorder{d: d})
	d.ads = append(d.ads, &adapter.NoopAdapter{})
	opts := []fastac.Option{}
	for _, o := range list(ev["opts"]) {
		opts = append(opts, d.option(obj(o)))
	}
	var a interface{}
	if n := num(ev, "ad"); n > 0 {
		a = d.ads[n-1]
	}
	e, err := fastac.NewEnforcer(first, a, opts...)
	must(err)
	d.e = e
	d.ms[cur-1] = e.GetModel()
	if len(d.calls) > 0 {
		must(fmt.Errorf("calls during construction: %v", d.calls))
	}
}

func (d *storageDomain) Close() {
	if d.tmp != "" {
		os.RemoveAll(d.tmp)
	}
}

func (d *storageDomain) Do(ev Ev) (res Ev) {
	d.calls = []Ev{}
	d.fail = boolean(ev, "fail")
	d.loading = nil
	res = Ev{}
	p := guard(func() {
		var err error
		switch op := str(ev, "op"); op {
		case "add", "remove", "madd", "mremove":
			var ok bool
			rule := d.rule(ev["rule"])
			switch op {
			case "add":
				ok, err = d.e.AddRule(rule)
			case "remove":
				ok, err = d.e.RemoveRule(rule)
			case "madd":
				ok, err = d.ms[num(ev, "i")-1].AddRule(rule)
			case "mremove":
				ok, err = d.ms[num(ev, "i")-1].RemoveRule(rule)
			}
			res["ok"] = ok
			scribble(rule)
		case "addrules", "removerules", "load":
			rules := [][]string{}
			for _, r := range list(ev["rules"]) {
				rules = append(rules, d.rule(r))
			}
			switch op {
			case "addrules":
				err = d.e.AddRules(rules)
			case "removerules":
				err = d.e.RemoveRules(rules)
			default:
				d.loading = rules
				err = d.e.LoadPolicy()
			}
			scribble(rules...)
		case "clear":
			err = d.e.GetModel().(*model.Model).ClearPolicy(str(ev, "key"))
		case "flush":
			if num(ev, "via") == 1 {
				err = d.e.GetStorageController().Flush()
			} else {
				err = d.e.Flush()
			}
		case "save":
			err = d.e.SavePolicy()
		case "setadapter":
			d.e.SetAdapter(d.ads[num(ev, "a")-1])
		case "setmodel":
			d.e.SetModel(d.ms[num(ev, "i")-1])
		case "storage", "autosave":
			on, sc := boolean(ev, "on"), d.e.GetStorageController()
			switch {
			case num(ev, "via") == 0:
				err = d.e.SetOption(d.option(Ev{"k": op, "on": on}))
			case op == "storage" && on:
				sc.Enable()
			case op == "storage":
				sc.Disable()
			case on:
				sc.EnableAutosave()
			default:
				sc.DisableAutosave()
			}
		case "addwait":
			d.e.GetStorageController().AddWait(num(ev, "n"))
		case "plan":
			plan := []bool{}
			for _, b := range list(ev["plan"]) {
				plan = append(plan, b.(bool))
			}
			d.recs[num(ev, "a")-1].plan = plan
		case "list":
			rules := [][]string{}
			d.ms[num(ev, "i")-1].(api.IRangeRules).RangeRules(func(rule []string) bool {
				rules = append(rules, d.in.RuleNames(rule))
				return true
			})
			res["rules"] = rules
		case "enforce":
			v := d.in.Texts(strs(ev["vals"]))
			res["dec"], err = d.e.Enforce(v[0], v[1])
		case "filter":
			v := d.in.Texts(strs(ev["vals"]))
			var rules [][]string
			rules, err = d.e.Filter(v[0], v[1])
			res["rules"] = d.ruleNames(rules)
			scribble(rules...)
		case "status":
			sc := d.e.GetStorageController()
			res["storage"], res["autosave"] = sc.Enabled(), sc.AutosaveEnabled()
			res["model"], res["adapter"] = 0, 0
			for i, m := range d.ms {
				if m == d.e.GetModel() {
					res["model"] = i + 1
				}
			}
			for i, a := range d.ads[:len(d.ads)-1] {
				if a == d.e.GetAdapter() {
					res["adapter"] = i + 1
				}
			}
		default:
			check(fmt.Errorf("storage: unknown op %s", op))
		}
		res["err"] = err != nil
	})
	res["panic"] = p != ""
	if p != "" {
		res["err"] = false
		res["msg"] = p
		if p != errAdapter.Error() && !strings.Contains(p, "invalid adapter") {
			res["panic"] = "unexpected"
		}
	}
	res["calls"] = d.calls
	return res
}

// ---------------------------------------------------------------------------------- generator

type storProfile struct {
	models, adapters        int
	faults                  float64
	wSwitch, wOption, wWait int
	wLoad, wFlush, wMalform int
	wOther, wAsk, wBulk     int
	auto                    float64
	nasty                   float64
	steps                   int
	rules                   int
	loadOnly, none          float64
	form                    bool
	long                    int // longer lists, up to so many rules
}

type storGen struct {
	*H
	p      storProfile
	models []Ev
	nad    int
	kinds  []string
	cur    int
	names  []string
	locked bool // a panic during a change has left the emitter locked
	recent [][]string
}

func (g *storGen) do(ev Ev) Ev {
	res := g.Do(ev)
	switch str(ev, "op") {
	case "add", "remove", "madd", "mremove":
		if res["panic"] == true {
			g.locked = true
		}
	}
	return res
}

func (g *storGen) rule(i int) []string {
	if len(g.recent) > 0 && g.P(0.5) {
		return g.recent[g.Intn(len(g.recent))]
	}
	m := g.models[i-1]
	keys := append(append([]string{}, strs(m["p"])...), strs(m["g"])...)
	r := []string{g.Pick(keys), g.Pick(g.names), g.Pick(g.names)}
	if g.Intn(100) < g.p.wMalform {
		switch g.Intn(4) {
		case 0:
			return []string{}
		case 1:
			return []string{"x", g.Pick(g.names)}
		case 2:
			return []string{"p9", g.Pick(g.names), g.Pick(g.names)}
		default:
			if len(strs(m["g"])) > 0 {
				return []string{"g", g.Pick(g.names)}
			}
		}
	}
	g.recent = append(g.recent, r)
	if len(g.recent) > g.p.rules {
		g.recent = g.recent[1:]
	}
	return r
}

func (g *storGen) ruleList() [][]string {
	rules := [][]string{}
	for n := g.Intn(6); n >= 0; n-- {
		rules = append(rules, g.rule(g.cur))
	}
	often, some, most := 0.04, 200, 150
	if g.p.long > 0 {
		often, some, most = 0.5, g.p.long/4, g.p.long
	}
	if g.P(often) {
		// a long list, some of it again and again
		first, r := g.Intn(some), g.rule(g.cur)
		for n := g.Intn(most); n >= 0 && len(r) == 3; n-- {
			rules = append(rules, []string{r[0], fmt.Sprintf("w%d", first+n), r[2]})
		}
	}
	if g.P(0.1) {
		rules = rules[:0]
	}
	return rules
}

func (g *storGen) plan() {
	plan := []bool{}
	if g.P(0.1) {
		plan = make([]bool, g.Intn(120))
	}
	for n := g.Intn(4); n >= 0; n-- {
		plan = append(plan, g.P(0.6))
	}
	if g.P(0.2) {
		plan = []bool{}
	}
	g.do(Ev{"op": "plan", "a": 1 + g.Intn(g.nad), "plan": plan})
}

func (g *storGen) step() {
	add := []string{"add", "add", "add", "remove", "remove"}[g.Intn(5)]
	w := func(n int) bool { return g.Intn(100) < n }
	if w(g.p.wOther) && !g.locked {
		// the model itself, which may not be the one in force
		i := 1 + g.Intn(len(g.models))
		g.do(Ev{"op": "m" + add, "i": i, "rule": g.rule(i)})
	}
	if w(g.p.wBulk) {
		g.do(Ev{"op": add + "rules", "rules": g.ruleList()})
	}
	g.do(Ev{"op": add, "rule": g.rule(g.cur)})
	if g.P(g.p.faults) {
		g.plan()
	}
	if w(g.p.wFlush) {
		g.do(Ev{"op": "flush", "via": g.Intn(2)})
	}
	if w(g.p.wWait) {
		g.do(Ev{"op": "addwait", "n": 1 + g.Intn([]int{5, 5, 5, 100}[g.Intn(4)])})
		if g.P(0.3) { // more of it, and some changes meanwhile
			for n := g.Intn(4); n > 0; n-- {
				g.do(Ev{"op": add, "rule": g.rule(g.cur)})
			}
			g.do(Ev{"op": "addwait", "n": 1 + g.Intn(3)})
			for n := g.Intn(8); n > 0; n-- {
				g.do(Ev{"op": []string{"add", "remove"}[g.Intn(2)], "rule": g.rule(g.cur)})
			}
		}
	}
	if w(g.p.wOption) {
		if g.P(0.5) {
			g.do(Ev{"op": "autosave", "on": g.P(0.5), "via": g.Intn(2)})
		} else if !g.locked {
			g.do(Ev{"op": "storage", "on": g.P(0.65), "via": g.Intn(2)})
		}
	}
	if w(g.p.wLoad) && !g.locked {
		g.do(Ev{"op": "load", "rules": g.ruleList(), "fail": g.P(g.p.faults)})
	}
	if w(g.p.wLoad / 2) {
		g.do(Ev{"op": "save", "fail": g.P(g.p.faults)})
	}
	if w(g.p.wSwitch) && !g.locked {
		switch g.Intn(3) {
		case 0, 1:
			g.cur = 1 + g.Intn(len(g.models))
			g.do(Ev{"op": "setmodel", "i": g.cur})
		default:
			a := 1 + g.Intn(g.nad)
			if g.P(0.1) {
				a = g.nad + 1
			}
			g.do(Ev{"op": "setadapter", "a": a})
		}
	}
	if w(2) {
		m := g.models[g.cur-1]
		g.do(Ev{"op": "clear", "key": g.Pick(append(append([]string{"p9"}, strs(m["p"])...), strs(m["g"])...))})
	}
	if w(g.p.wAsk) {
		switch g.Intn(4) {
		case 0:
			g.do(Ev{"op": "list", "i": 1 + g.Intn(len(g.models))})
		case 1:
			g.do(Ev{"op": "enforce", "vals": g.vals()})
		case 2:
			g.do(Ev{"op": "filter", "vals": g.vals()})
		default:
			g.do(Ev{"op": "status"})
		}
	}
}

func (g *storGen) vals() []string {
	if len(g.recent) > 0 && g.P(0.8) {
		if r := g.recent[g.Intn(len(g.recent))]; len(r) == 3 {
			return r[1:]
		}
	}
	return []string{g.Pick(g.names), g.Pick(g.names)}
}

func genStorage(p storProfile) func(h *H) {
	return func(h *H) {
		g := &storGen{H: h, p: p}
		for i := 0; i < 5; i++ {
			g.names = append(g.names, fmt.Sprintf("v%d", i))
		}
		texts := h.texts(g.names, p.nasty)
		for n, t := range texts { // values of the empty rule
			if t == "" {
				texts[n] = n
			}
		}
		for i := 0; i < 1+h.Intn(p.models); i++ {
			m := Ev{"p": []string{"p"}, "g": []string{}}
			if h.P(0.6) {
				m["p"] = []string{"p", "p2"}
			}
			if h.P(0.7) {
				m["g"] = []string{"g"}
			}
			g.models = append(g.models, m)
		}
		g.nad = 1 + h.Intn(p.adapters)
		for i := 0; i < g.nad; i++ {
			k := []string{"simple", "batch", "batch"}[h.Intn(3)]
			if h.P(p.loadOnly) {
				k = "load"
			}
			g.kinds = append(g.kinds, k)
		}
		g.cur = 1 + h.Intn(len(g.models))
		init := Ev{"models": g.models, "kinds": g.kinds, "cur": g.cur, "ad": 1 + h.Intn(g.nad), "texts": texts, "form": "ptr"}
		if p.form {
			init["form"] = []string{"ptr", "ptr", "value", "path"}[h.Intn(4)]
		}
		if h.P(p.none) {
			init["ad"] = 0
		}
		opts := []Ev{}
		if h.P(p.auto) {
			opts = append(opts, Ev{"k": "autosave", "on": true})
		}
		if h.P(0.15) {
			opts = append(opts, Ev{"k": "storage", "on": h.P(0.5)})
		}
		if h.P(0.1) {
			opts = append(opts, Ev{"k": "autosave", "on": h.P(0.5)})
		}
		init["opts"] = opts
		g.Init(init)
		for i := 0; i < p.steps; i++ {
			g.step()
		}
		// the faults are over: everything pending is delivered
		for i := 1; i <= g.nad; i++ {
			g.do(Ev{"op": "plan", "a": i, "plan": []bool{}})
		}
		g.do(Ev{"op": "flush", "via": 0})
		g.do(Ev{"op": "flush", "via": 1})
		g.do(Ev{"op": "status"})
		for i := range g.models {
			g.do(Ev{"op": "list", "i": i + 1})
		}
	}
}

func init() {
	domains["storage"] = domainSpec{
		new: func() Domain { return &storageDomain{} },
		gen: map[string]func(h *H){
			"order":  genStorage(storProfile{models: 1, adapters: 1, wOption: 6, wWait: 6, wLoad: 5, wFlush: 12, wMalform: 4, wOther: 5, wAsk: 10, wBulk: 20, auto: 0.5, nasty: 0.3, steps: 60, rules: 6}),
			"fault":  genStorage(storProfile{models: 1, adapters: 1, faults: 0.3, wOption: 4, wWait: 6, wLoad: 3, wFlush: 25, wMalform: 3, wOther: 3, wAsk: 5, wBulk: 20, auto: 0.35, nasty: 0.1, steps: 60, rules: 6}),
			"switch": genStorage(storProfile{models: 3, adapters: 3, faults: 0.03, wSwitch: 25, wOption: 15, wWait: 4, wLoad: 8, wFlush: 20, wMalform: 3, wOther: 20, wAsk: 30, wBulk: 12, auto: 0.4, nasty: 0.1, steps: 60, rules: 8, loadOnly: 0.1, none: 0.2, form: true}),
			"long":   genStorage(storProfile{models: 1, adapters: 1, faults: 0.2, wOption: 4, wWait: 10, wLoad: 10, wFlush: 20, wMalform: 2, wAsk: 5, wBulk: 70, auto: 0.5, steps: 12, rules: 6, long: 1500}),
		},
	}
}
