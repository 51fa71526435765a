package main

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strings"
	"sync"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/api"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/model/defs"
	"github.com/abichinger/fastac/model/effector"
	"github.com/abichinger/fastac/model/eft"
	"github.com/abichinger/fastac/model/matcher"
	"github.com/abichinger/fastac/model/policy"
	"github.com/abichinger/fastac/model/types"
	"github.com/abichinger/fastac/rbac"
	"github.com/abichinger/govaluate"
	em "github.com/vansante/go-event-emitter"
)

// Domain "engine": enforcer and model

// memAdapter is a storage adapter which only loads
type memAdapter struct{ rules [][]string }

func (a *memAdapter) LoadPolicy(m api.IAddRuleBool) error {
	for _, r := range a.rules {
		if _, err := m.AddRule(r); err != nil {
			return err
		}
	}
	return nil
}
func (a *memAdapter) SavePolicy(m api.IRangeRules) error { return nil }

// Obj is an object with attributes in a request
type Obj struct {
	Name  string
	Role  string
	Age   float64
	Level int
	Ok    bool
	Inner *Obj
	is    map[string]string
}

// Is is looked up in a table
func (o *Obj) Is(x string) (bool, error) { return outcome(o.is[x]) }

// outcome of a function call: T, F, E (error) or P (panic)
func outcome(v string) (bool, error) {
	switch v {
	case "T":
		return true, nil
	case "E":
		return false, errors.New("function failed")
	case "P":
		panic("function panics")
	}
	return false, nil
}

type engineDomain struct {
	m    *model.Model
	e    *fastac.Enforcer
	in   *Interner
	ad   *memAdapter
	nums map[string]numDef
	rxs  map[string]string
	objs map[string]*Obj
	held []matcher.IMatcher
	ctx  []*fastac.Context
	// options which are used for several requests, also at the same time
	mu   sync.Mutex
	mds  map[string]*defs.MatcherDef
	ctxs map[string]*fastac.Context
	w    Ev
	nms  map[string]*matchTable

	fns   map[string]govaluate.ExpressionFunction
	keys  map[string]bool // of definitions: section and key
	conc  bool
	asked []string // expressions used as matchers

	evMu  sync.Mutex
	ev    []Ev            // announcements of the model
	pev   map[string][]Ev // and of its policies
	heard map[policy.IPolicy]bool

	turns turns
}

type matchTable struct {
	rel map[[2]string]bool
}

func (d *engineDomain) Close() {}

func (d *engineDomain) printer(st int) *printer {
	p := &printer{rng: rand.New(rand.NewSource(int64(st))), in: d.in, nums: d.nums, rxs: d.rxs}
	if st > 0 && st < 3 {
		p.mode = st
	}
	return p
}

func (d *engineDomain) text(ast interface{}, st int) string { return d.printer(st).Print(list(ast)) }

func (d *engineDomain) value(v Ev, asInt bool) interface{} {
	switch str(v, "t") {
	case "s":
		return d.in.Text(str(v, "v"))
	case "n":
		f := d.nums[str(v, "v")].f
		if i := int(f); asInt && float64(i) == f {
			return i
		}
		return f
	case "b":
		return str(v, "v") == "T"
	case "o":
		return d.objs[str(v, "v")]
	}
	check(fmt.Errorf("value %v", v))
	return nil
}

func (d *engineDomain) Init(ev Ev) {
	b := canon(ev) // normal form: as read from JSON
	d.w = obj(b)
	d.in = newInterner(d.w["texts"])
	d.nums = map[string]numDef{}
	for k, v := range obj(d.w["nums"]) {
		f, _ := obj(v)["f"].(float64)
		d.nums[k] = numDef{f, strs(obj(v)["lits"])}
	}
	d.rxs = map[string]string{}
	for k, v := range obj(d.w["rxs"]) {
		d.rxs[k] = v.(string)
	}
	d.objs = map[string]*Obj{}
	for k := range obj(d.w["objs"]) {
		d.objs[k] = &Obj{is: map[string]string{}}
	}
	for k, v := range obj(d.w["objs"]) {
		o, a := d.objs[k], obj(v)
		if x, ok := a["Name"]; ok {
			o.Name = d.in.Text(str(obj(x), "v"))
		}
		if x, ok := a["Role"]; ok {
			o.Role = d.in.Text(str(obj(x), "v"))
		}
		if x, ok := a["Age"]; ok {
			o.Age = d.nums[str(obj(x), "v")].f
		}
		if x, ok := a["Level"]; ok {
			o.Level = int(d.nums[str(obj(x), "v")].f)
		}
		if x, ok := a["Ok"]; ok {
			o.Ok = str(obj(x), "v") == "T"
		}
		if x, ok := a["Inner"]; ok {
			o.Inner = d.objs[str(obj(x), "v")]
		}
	}
	d.m = model.NewModel()
	d.mds, d.ctxs = map[string]*defs.MatcherDef{}, map[string]*fastac.Context{}
	d.fns, d.keys = map[string]govaluate.ExpressionFunction{}, map[string]bool{}
	for _, sec := range []string{"r", "p", "g", "e", "m"} {
		for k := range obj(d.w[sec]) {
			d.keys[sec+k] = true
		}
	}
	for _, k := range []string{"rr7", "mmx", "eex"} { // given with requests
		d.keys[k] = true
	}
	st := num(d.w, "st")
	for k, v := range obj(d.w["subs"]) {
		p := d.printer(st)
		p.inner = true
		d.in.set(k, p.Print(list(v)))
	}
	for name, rows := range obj(d.w["fns"]) {
		d.function(name, list(rows))
	}
	for name, to := range obj(d.w["tfns"]) {
		d.textFunction(name, obj(to))
	}
	set := func(sec byte, key, value string) { must(d.m.SetDef(sec, key, value)) }
	parts := []string{}
	useIni := boolean(d.w, "ini")
	def := func(sec byte, name string, keys Ev, value func(v interface{}) string) {
		ini := "[" + name + "]\n"
		defer func() { parts = append(parts, ini) }()
		for k, v := range keys {
			if useIni {
				ini += strings.Repeat("# x = y\n", st%2) + k + []string{" = ", "=", " =  "}[st%3] + value(v) + "\n"
			} else {
				set(sec, k, value(v))
			}
		}
	}
	sep := []string{",", ", ", " , "}[st%3]
	def('r', "request_definition", obj(d.w["r"]), func(v interface{}) string { return join(strs(v), sep) })
	def('p', "policy_definition", obj(d.w["p"]), func(v interface{}) string { return join(strs(obj(v)["cols"]), sep) })
	def('g', "role_definition", obj(d.w["g"]), func(v interface{}) string {
		return strings.Join(strings.Split(roleText(str(obj(v), "kind")), ","), sep)
	})
	def('e', "policy_effect", obj(d.w["e"]), func(v interface{}) string { return effectText(v.(string), st) })
	d.nms = map[string]*matchTable{}
	limits := func() {
		for k, v := range obj(d.w["g"]) {
			g := obj(v)
			if l := num(g, "limit"); l != 10 {
				if levels(str(g, "kind")) > 0 {
					d.m.SetRoleManager(k, rbac.NewDomainManager(l))
				} else {
					d.m.SetRoleManager(k, rbac.NewRoleManager(l))
				}
			}
		}
	}
	if !useIni {
		limits()
	}
	def('m', "matchers", obj(d.w["m"]), func(v interface{}) string { return d.text(obj(v)["ast"], num(obj(v), "st")) })
	if useIni {
		// the order of the sections does not matter, sections nobody knows are passed over
		if st%2 == 1 {
			parts = append(parts, "[about]\nm = p.x ==\nversion = 1\n", "; the rest\n")
		}
		for i := range parts {
			j := (i*(st+1) + st) % len(parts)
			parts[i], parts[j] = parts[j], parts[i]
		}
		must(d.m.LoadModelFromText(strings.Join(parts, "\n")))
	} else {
		must(d.m.BuildMatchers())
	}
	d.ad = &memAdapter{}
	e, err := fastac.NewEnforcer(d.m, d.ad, fastac.OptionStorage(false))
	must(err)
	d.e = e
	d.heard = map[policy.IPolicy]bool{}
	d.listen()
}

// hear listens to the policies of the model, too
func (d *engineDomain) hear() {
	d.pev = map[string][]Ev{}
	for k := range d.keys {
		if k[0] != 'p' && k[0] != 'g' {
			continue
		}
		if pol, ok := d.m.GetPolicy(k[1:]); ok && !d.heard[pol] {
			d.heard[pol] = true
			d.hearPolicy(k[1:], pol)
		}
	}
}

func (d *engineDomain) hearPolicy(key string, pol policy.IPolicy) {
	hear := func(t string, args []interface{}) {
		ev := Ev{"t": t, "rule": []string{key}, "seen": true}
		if t == "clear" {
			pol.Range(func(r []string) bool {
				ev["seen"] = false
				return true
			})
		} else {
			rule := args[0].([]string)
			present := false
			pol.Range(func(r []string) bool {
				present = present || equal(r, rule)
				return true
			})
			ev["rule"], ev["seen"] = append([]string{key}, d.in.Names(rule)...), present == (t == "add")
		}
		d.evMu.Lock()
		defer d.evMu.Unlock()
		if t != "clear" || ev["seen"] == false {
			d.pev[key] = append(d.pev[key], ev)
		}
	}
	pol.AddListener(policy.EVT_RULE_ADDED, func(args ...interface{}) { hear("add", args) })
	pol.AddListener(policy.EVT_RULE_REMOVED, func(args ...interface{}) { hear("del", args) })
	pol.AddListener(policy.EVT_CLEARED, func(args ...interface{}) { hear("clear", args) })
}

// told compares what the policies have announced to what the model has announced
func (d *engineDomain) told() {
	left := map[string][]Ev{}
	for _, ev := range d.ev {
		key := ev["rule"].([]string)[0]
		left[key] = append(left[key], ev)
	}
	for key, evs := range d.pev {
		if len(evs) == 0 || fmt.Sprint(evs) == fmt.Sprint(left[key]) {
			delete(left, key)
			continue
		}
		d.ev = append(d.ev, Ev{"t": "policy " + fmt.Sprint(evs), "rule": []string{key}, "seen": false})
		delete(left, key)
	}
	for key, evs := range left {
		if pol, ok := d.m.GetPolicy(key); ok && d.heard[pol] {
			d.ev = append(d.ev, Ev{"t": "policy", "rule": []string{key}, "seen": false, "missing": fmt.Sprint(evs)})
		}
	}
}

func (d *engineDomain) announced(t string, args []interface{}) {
	rule := args[0].([]string)
	present := false
	d.m.RangeRules(func(r []string) bool {
		present = present || equal(r, rule)
		return true
	})
	d.evMu.Lock()
	defer d.evMu.Unlock()
	d.ev = append(d.ev, Ev{"t": t, "rule": d.names(rule), "seen": present == (t == "add")})
}

func equal(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func join(l []string, sep string) string {
	res := ""
	for i, x := range l {
		if i > 0 {
			res += sep
		}
		res += x
	}
	return res
}

func effectText(kind string, st int) string {
	res := map[string]string{"some": "some(where (p.eft == allow))", "nodeny": "!some(where (p.eft == deny))",
		"both": "some(where (p.eft == allow)) && !some(where (p.eft == deny))", "bad": "any(where (p.eft == allow))"}[kind]
	if res == "" {
		return ""
	}
	switch st % 3 {
	case 1:
		s := ""
		for _, c := range res {
			if c != ' ' {
				s += string(c)
			}
		}
		return s
	case 2:
		return " " + res + " "
	}
	return res
}

func (d *engineDomain) function(name string, rows []interface{}) {
	if n := len(name); name[n-1] == '.' {
		// method
		for _, r := range rows {
			row := list(r)
			a := strs(row[0])
			d.objs[a[0]].is[d.in.Text(a[1])] = row[1].(string)
		}
		return
	}
	table := map[string]string{}
	for _, r := range rows {
		row := list(r)
		table[fmt.Sprintf("%q", d.in.Texts(strs(row[0])))] = row[1].(string)
	}
	var fn govaluate.ExpressionFunction = func(args ...interface{}) (interface{}, error) {
		d.turns.open()
		texts := make([]string, len(args))
		for i, a := range args {
			s, ok := a.(string)
			if !ok {
				return nil, fmt.Errorf("%s: not a string", name)
			}
			texts[i] = s
		}
		b, err := outcome(table[fmt.Sprintf("%q", texts)])
		if err != nil {
			return nil, err
		}
		return b, nil
	}
	d.fns[name] = fn
	d.m.SetFunction(name, fn)
}

// textFunction is a function from texts to texts
func (d *engineDomain) textFunction(name string, to Ev) {
	var fn govaluate.ExpressionFunction = func(args ...interface{}) (interface{}, error) {
		d.turns.open()
		s, ok := args[0].(string)
		if !ok {
			return nil, fmt.Errorf("%s: not a string", name)
		}
		n, _ := to[d.in.Name(s)].(string)
		return d.in.Text(n), nil
	}
	d.fns[name] = fn
	d.m.SetFunction(name, fn)
}

func (d *engineDomain) gates() *turns { return &d.turns }

// ownPolicy is a policy of the caller: a list
type ownPolicy struct {
	*em.Emitter
	rules [][]string
	last  bool // new rules go to the end
}

func (p *ownPolicy) find(rule []string) int {
	for i, r := range p.rules {
		if equal(r, rule) {
			return i
		}
	}
	return -1
}

func (p *ownPolicy) AddRule(rule []string) (bool, error) {
	if p.find(rule) >= 0 {
		return false, nil
	}
	if p.last {
		p.rules = append(p.rules[:len(p.rules):len(p.rules)], copyStrs(rule))
	} else {
		p.rules = append([][]string{copyStrs(rule)}, p.rules...)
	}
	p.EmitEvent(policy.EVT_RULE_ADDED, rule)
	return true, nil
}

func (p *ownPolicy) RemoveRule(rule []string) (bool, error) {
	i := p.find(rule)
	if i < 0 {
		return false, nil
	}
	p.rules = append(append([][]string{}, p.rules[:i]...), p.rules[i+1:]...)
	p.EmitEvent(policy.EVT_RULE_REMOVED, copyStrs(rule))
	return true, nil
}

func (p *ownPolicy) Clear() error {
	p.rules = nil
	p.EmitEvent(policy.EVT_CLEARED)
	return nil
}

func (p *ownPolicy) Range(fn func(rule []string) bool) {
	for _, r := range p.rules {
		if !fn(copyStrs(r)) {
			return
		}
	}
}

// ownEffector is an effector of the caller
type ownEffector struct {
	dom   *engineDomain
	kind  string
	early bool
}

func (d *engineDomain) newEffector(kind, text string, st int) effector.IEffector {
	switch kind {
	case "two", "none", "veto":
		return &ownEffector{dom: d, kind: kind, early: st%2 == 1}
	}
	return effector.NewEffector(defs.NewEffectDef(text, effectText(kind, st)))
}

func (e *ownEffector) MergeEffects(effects []types.Effect, matches [][]string, complete bool) (types.Effect, []string, error) {
	e.dom.turns.open()
	if len(effects) != len(matches) || !complete && len(effects) == 0 {
		return eft.Allow, nil, errors.New("effector: rules and effects do not fit together")
	}
	// a rule may be given more than once, if more than one alternative holds
	allow, deny, all := map[string]bool{}, map[string]bool{}, len(effects)
	for i, effect := range effects {
		if len(matches[i]) == 0 || !e.dom.keys["p"+matches[i][0]] {
			return eft.Allow, nil, errors.New("effector: rule without its key")
		}
		key := fmt.Sprintf("%q", matches[i])
		switch effect {
		case eft.Allow:
			allow[key] = true
		case eft.Deny:
			deny[key] = true
		}
	}
	if e.kind == "veto" && len(deny) > 0 && (complete || e.early) {
		return eft.Allow, nil, errors.New("veto")
	}
	if !complete {
		switch {
		case e.early && e.kind == "two" && len(allow) > 1:
			return eft.Allow, nil, nil
		case e.early && e.kind == "none":
			return eft.Deny, nil, nil
		}
		return eft.Indeterminate, nil, nil
	}
	if e.kind == "two" && len(allow) > 1 || e.kind == "none" && all == 0 || e.kind == "veto" && len(allow) > 0 {
		return eft.Allow, nil, nil
	}
	if e.early {
		return eft.Indeterminate, nil, nil
	}
	return eft.Deny, nil, nil
}

var defSections = map[string]byte{"r": 'r', "p": 'p', "g": 'g', "e": 'e', "m": 'm'}

// levels of domains: rm has none, dm one, dm2 two and dm3 three
func levels(kind string) int { return map[string]int{"dm": 1, "dm2": 2, "dm3": 3}[kind] }

func roleText(kind string) string { return "_,_" + strings.Repeat(",_", levels(kind)) }

// define sets or replaces a definition
func (d *engineDomain) define(ev Ev) error {
	sec, key, st := str(ev, "sec"), str(ev, "key"), num(ev, "st")
	value := ""
	switch sec {
	case "r", "p":
		value = join(strs(ev["cols"]), ", ")
	case "g":
		value = roleText(str(ev, "kind"))
	case "e":
		value = effectText(str(ev, "kind"), st)
	case "m":
		value = str(ev, "text")
	}
	d.keys[sec+key] = true
	return d.m.SetDef(defSections[sec], key, value)
}

// place replaces a component of the model
func (d *engineDomain) place(ev Ev) error {
	key := str(ev, "key")
	switch str(ev, "sec") {
	case "p":
		def, _ := d.m.GetDef('p', key)
		var pol policy.IPolicy = policy.NewPolicy(def.(*defs.PolicyDef))
		if num(ev, "st")%3 > 0 {
			pol = &ownPolicy{Emitter: em.NewEmitter(false), last: num(ev, "st")%3 == 1}
		}
		for _, r := range list(ev["rules"]) {
			if _, err := pol.AddRule(d.in.Texts(strs(r)[1:])); err != nil {
				return err
			}
		}
		d.m.SetPolicy(key, pol)
	case "r":
		d.keys["r"+key] = true
		d.m.SetRequestDef(key, defs.NewRequestDef(key, join(strs(ev["cols"]), ",")))
	case "e":
		d.m.SetEffector(key, d.newEffector(str(ev, "kind"), key, num(ev, "st")))
	case "g":
		if levels(str(ev, "kind")) > 0 {
			d.m.SetRoleManager(key, rbac.NewDomainManager(num(ev, "limit")))
		} else {
			d.m.SetRoleManager(key, rbac.NewRoleManager(num(ev, "limit")))
		}
	case "m":
		im, err := d.buildMatcher(obj(ev["m"]))
		if err != nil {
			return err
		}
		d.m.SetMatcher(key, im)
	}
	return nil
}

func (d *engineDomain) buildMatcher(m Ev) (matcher.IMatcher, error) {
	a, _ := d.matcherArg(m, 2)
	if im, ok := a.(matcher.IMatcher); ok {
		return im, nil
	}
	return d.m.BuildMatcherFromDef(defs.NewMatcherDef("", a.(string)))
}

// describe reads the definitions of a model
func (d *engineDomain) describe(m *model.Model) Ev {
	res := Ev{"r": Ev{}, "p": Ev{}, "g": Ev{}, "e": Ev{}, "m": Ev{}}
	text := "\n" + m.String()
	for k := range d.keys {
		def, ok := m.GetDef(k[0], k[1:])
		if !ok {
			continue
		}
		line := def.String()
		i := strings.Index(line, "=")
		if i < 0 || !strings.Contains(text, "\n"+line+"\n") {
			obj(res[k[:1]])[k[1:]] = "not in the text of the model"
			continue
		}
		value := strings.TrimPrefix(line[i+1:], " ")
		if strings.TrimSpace(line[:i]) != k[1:] || def.GetKey() != k[1:] {
			value = line
		}
		var v interface{} = value
		switch k[0] {
		case 'r', 'p':
			cols := strings.Split(value, ",")
			for i := range cols {
				cols[i] = strings.TrimSpace(cols[i])
			}
			v = cols
		case 'g':
			v = len(strings.Split(value, ","))
		case 'e':
			for _, kind := range []string{"some", "nodeny", "both", "bad"} {
				if effectText(kind, 1) == strings.ReplaceAll(value, " ", "") {
					v = kind
				}
			}
		}
		obj(res[k[:1]])[k[1:]] = v
	}
	return res
}

func (d *engineDomain) copyModel(file bool) (*model.Model, error) {
	m := model.NewModel()
	for name, fn := range d.fns {
		m.SetFunction(name, fn)
	}
	if !file {
		return m, m.LoadModelFromText(d.m.String())
	}
	f, err := os.CreateTemp("", "verif-model-*.conf")
	check(err)
	defer os.Remove(f.Name())
	_, err = f.WriteString(d.m.String())
	check(err)
	check(f.Close())
	return m, m.LoadModel(f.Name())
}

// known are the keys of a section
func (d *engineDomain) known(sec string) []string {
	res := []string{}
	for k := range d.keys {
		if k[0] == sec[0] && d.isKnown(sec, k[1:]) {
			res = append(res, k[1:])
		}
	}
	return sorted(res)
}

func (d *engineDomain) isKnown(sec, key string) (ok bool) {
	switch sec {
	case "m":
		_, ok = d.m.GetMatcher(key)
	case "r":
		_, ok = d.m.GetRequestDef(key)
	case "e":
		_, ok = d.m.GetEffector(key)
	case "p":
		_, ok = d.m.GetPolicy(key)
	case "g":
		_, ok = d.m.GetRoleManager(key)
	default:
		_, ok = d.m.GetDef(sec[0], key)
	}
	return ok
}

func (d *engineDomain) listen() {
	m := d.m
	m.AddListener(model.RULE_ADDED, func(args ...interface{}) { d.announced("add", args) })
	m.AddListener(model.RULE_REMOVED, func(args ...interface{}) { d.announced("del", args) })
}

// reload continues with a copy of the model
func (d *engineDomain) reload(file bool) error {
	m, err := d.copyModel(file)
	if err != nil {
		return err
	}
	d.m.RangeRules(func(rule []string) bool {
		var ok bool
		if ok, err = m.AddRule(copyStrs(rule)); err == nil && !ok {
			err = fmt.Errorf("rule %q is listed twice", rule)
		}
		return err == nil
	})
	if err != nil {
		return err
	}
	d.m = m
	d.e.SetModel(m)
	d.listen()
	return nil
}

// names of a rule: the key is itself
func (d *engineDomain) names(rule []string) []string {
	if len(rule) == 0 {
		return []string{}
	}
	return append([]string{rule[0]}, d.in.Names(rule[1:])...)
}

func (d *engineDomain) rule(names []string) []string {
	if len(names) == 0 {
		return []string{}
	}
	r := append([]string{names[0]}, d.in.Texts(names[1:])...)
	return append(r, "spare")[:len(r)]
}

func scribble(rules ...[]string) {
	for _, r := range rules {
		r = r[:cap(r)]
		for i := range r {
			r[i] = "scribble"
		}
	}
}

func (d *engineDomain) matcherArg(m Ev, variant int) (interface{}, bool) {
	switch str(m, "k") {
	case "def":
		if variant%4 == 0 {
			return "", true
		}
		return nil, false
	case "named":
		if im, ok := d.m.GetMatcher(str(m, "name")); ok && variant%3 == 0 {
			return im, true
		}
		return str(m, "name"), true
	case "expr":
		text := d.text(m["ast"], num(m, "st"))
		d.remember(text)
		switch variant % 4 {
		case 0:
			if variant%8 == 0 {
				d.mu.Lock()
				defer d.mu.Unlock()
				if d.mds[text] == nil {
					d.mds[text] = defs.NewMatcherDef("mx", text)
				}
				return d.mds[text], true
			}
			return defs.NewMatcherDef([]string{"mx", "m"}[variant/4%2], text), true
		case 1:
			im, err := d.m.BuildMatcherFromDef(defs.NewMatcherDef("", text))
			if err == nil {
				return im, true
			}
		}
		return text, true
	case "held":
		return d.held[num(m, "i")-1], true
	case "bad":
		if variant%2 == 1 {
			return defs.NewMatcherDef("mx", str(m, "text")), true
		}
		return str(m, "text"), true
	}
	check(fmt.Errorf("matcher %v", m))
	return nil, false
}

// remember an expression, concurrent questions are not remembered
func (d *engineDomain) remember(text string) {
	if len(d.asked) < 20 && !d.conc {
		d.asked = append(d.asked, text)
	}
}

func (d *engineDomain) options(q Ev) []fastac.ContextOption {
	st := num(q, "st")
	res := []fastac.ContextOption{}
	if m, ok := d.matcherArg(obj(q["m"]), st); ok {
		res = append(res, fastac.SetMatcher(m))
	}
	if rd, ok := q["rd"]; ok {
		res = append(res, fastac.SetRequestDef(defs.NewRequestDef(str(obj(rd), "key"), join(strs(obj(rd)["cols"]), ", "))))
	} else if r := str(q, "r"); r != "" || st%5 == 0 {
		rd, ok := d.m.GetRequestDef(r)
		if ok && st%3 == 1 {
			res = append(res, fastac.SetRequestDef(rd))
		} else {
			res = append(res, fastac.SetRequestDef(r))
		}
	}
	if e := str(q, "e"); e != "" || st%7 == 0 {
		if len(e) > 0 && e[0] == '=' {
			text := effectText(e[1:], st)
			switch st % 3 {
			case 0:
				if text != "" {
					res = append(res, fastac.SetEffector(defs.NewEffectDef([]string{"ex", "e"}[st/3%2], text)))
					break
				}
				fallthrough
			case 1:
				res = append(res, fastac.SetEffector(d.newEffector(e[1:], "ex", st/3)))
			default:
				if text == "" {
					res = append(res, fastac.SetEffector(d.newEffector(e[1:], "ex", st/3)))
					break
				}
				res = append(res, fastac.SetEffector(text))
			}
		} else {
			ie, ok := d.m.GetEffector(e)
			if ok && st%4 == 1 {
				res = append(res, fastac.SetEffector(ie))
			} else {
				res = append(res, fastac.SetEffector(e))
			}
		}
	}
	if st%2 == 1 {
		for i, j := 0, len(res)-1; i < j; i, j = i+1, j-1 {
			res[i], res[j] = res[j], res[i]
		}
	}
	return res
}

// context makes a context, concurrent questions share it
func (d *engineDomain) context(q Ev, opts []fastac.ContextOption) (*fastac.Context, error) {
	if !d.conc {
		return fastac.NewContext(d.m, opts...)
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	key := fmt.Sprint(q)
	ctx, ok := d.ctxs[key]
	if !ok {
		var err error
		if ctx, err = fastac.NewContext(d.m, opts...); err != nil {
			return nil, err
		}
		d.ctxs[key] = ctx
	}
	return ctx, nil
}

func (d *engineDomain) query(ev Ev, res Ev) (err error) {
	vals := []interface{}{}
	vs := list(ev["vals"])
	q := obj(ev["q"])
	st := num(q, "st")
	if op := str(ev, "op"); op == "enforce" {
		res["dec"] = false
	} else {
		res["rules"] = [][]string{}
		if op == "range" {
			res["calls"] = 0
		}
	}
	for i, v := range vs {
		vals = append(vals, d.value(obj(v), (st>>uint(i))%2 == 1))
	}
	var ctx *fastac.Context
	if _, ok := ev["ctx"]; ok {
		ctx = d.ctx[num(ev, "ctx")-1]
	}
	var params []interface{}
	if ctx == nil {
		opts := d.options(q)
		if st%6 == 5 {
			if ctx, err = d.context(q, opts); err != nil {
				return err
			}
		} else {
			// options may stand anywhere between the request values
			for _, v := range vals {
				if len(opts) > 0 && st%4 == 2 {
					params = append(params, opts[0])
					opts = opts[1:]
				}
				params = append(params, v)
			}
			for _, o := range opts {
				if st%3 == 0 {
					params = append([]interface{}{o}, params...)
				} else {
					params = append(params, o)
				}
			}
		}
	}
	given := append(append([]interface{}{}, vals...), params...)
	defer func() {
		for i, v := range append(append([]interface{}{}, vals...), params...) {
			if !sameValue(v, given[i]) {
				res["panic"] = "the values of the caller were changed"
			}
		}
	}()
	switch str(ev, "op") {
	case "enforce":
		var dec bool
		if ctx != nil {
			dec, err = d.e.EnforceWithContext(ctx, vals...)
		} else {
			dec, err = d.e.Enforce(params...)
		}
		res["dec"] = dec
	case "filter":
		var rules [][]string
		if ctx != nil {
			rules, err = d.e.FilterWithContext(ctx, vals...)
		} else {
			rules, err = d.e.Filter(params...)
		}
		res["rules"] = d.ruleNames(rules)
		scribble(rules...)
	case "range":
		rules := [][]string{}
		stop := num(ev, "stop")
		fn := func(rule []string) bool {
			if st%5 < 3 { // the rules are the caller's, to keep or to change
				rules = append(rules, copyStrs(rule))
				scribble(rule)
			} else {
				rules = append(rules, rule)
			}
			d.turns.open()
			return len(rules) != stop
		}
		if ctx != nil {
			err = d.e.RangeMatchesWithContext(ctx, vals, fn)
		} else {
			err = d.e.RangeMatches(params, fn)
		}
		res["rules"], res["calls"] = d.ruleNames(rules), len(rules)
	}
	return err
}

// sameValue compares options by their code, values by their content
func sameValue(a, b interface{}) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if x.IsValid() && y.IsValid() && x.Kind() == reflect.Func && y.Kind() == reflect.Func {
		return x.Pointer() == y.Pointer()
	}
	return reflect.DeepEqual(a, b)
}

func (d *engineDomain) ruleNames(rules [][]string) [][]string {
	res := make([][]string, len(rules))
	for i, r := range rules {
		res[i] = d.names(r)
	}
	return res
}

var changes = map[string]bool{"add": true, "remove": true, "addrules": true, "removerules": true, "load": true, "clear": true, "refuse": true, "def": true, "undef": true}

func (d *engineDomain) Do(ev Ev) (res Ev) {
	op := str(ev, "op")
	if changes[op] {
		d.ev = nil
		d.hear()
	}
	if op != "enforce" && op != "filter" && op != "range" {
		d.mu.Lock()
		d.ctxs = map[string]*fastac.Context{}
		d.mu.Unlock()
	}
	p := guard(func() {
		var err error
		res = Ev{}
		switch op {
		case "together":
			qs := list(ev["qs"])
			sched := []int{}
			for _, x := range list(ev["sched"]) {
				sched = append(sched, int(x.(float64)))
			}
			each := make([]Ev, len(qs))
			d.conc = true
			d.turns.run(len(qs), sched, func(i int) { each[i] = d.Do(obj(qs[i])) })
			d.conc = false
			res["together"] = each
		case "add", "remove":
			var ok bool
			rule := d.rule(strs(ev["rule"]))
			if op == "add" {
				ok, err = d.e.AddRule(rule)
			} else {
				ok, err = d.e.RemoveRule(rule)
			}
			res["ok"] = ok
			scribble(rule)
		case "addrules", "removerules", "load":
			rules := [][]string{}
			for _, r := range list(ev["rules"]) {
				rules = append(rules, d.rule(strs(r)))
			}
			switch op {
			case "addrules":
				err = d.e.AddRules(rules)
			case "removerules":
				err = d.e.RemoveRules(rules)
			default:
				d.ad.rules = rules
				err = d.e.LoadPolicy()
				d.ad.rules = nil
			}
			scribble(rules...)
		case "clear":
			err = d.m.ClearPolicy(str(ev, "key"))
		case "setnm":
			rm, _ := d.m.GetRoleManager(str(ev, "key"))
			if num(ev, "i") == 0 {
				rm.(rbac.IDefaultRoleManager).SetMatcher(nil)
			} else {
				rm.(rbac.IDefaultRoleManager).SetMatcher(tableMatcher(d.in, d.turns.pause, list(obj(obj(d.w["g"])[str(ev, "key")])["nm"])))
			}
		case "build":
			var im matcher.IMatcher
			im, err = d.buildMatcher(obj(ev["m"]))
			if err == nil {
				d.held = append(d.held, im)
			}
		case "def":
			err = d.define(ev)
		case "undef":
			err = d.m.RemoveDef(defSections[str(ev, "sec")], str(ev, "key"))
		case "place":
			err = d.place(ev)
		case "buildone":
			err = d.m.BuildMatcher(str(ev, "key"))
		case "buildall":
			err = d.m.BuildMatchers()
		case "setfn":
			d.function(str(ev, "name"), list(canon(ev["rows"])))
		case "removefn":
			delete(d.fns, str(ev, "name"))
			res["ok"] = d.m.RemoveFunction(str(ev, "name"))
		case "known":
			res["ok"] = d.isKnown(str(ev, "sec"), str(ev, "key"))
		case "describe":
			res["text"] = d.describe(d.m)
			if boolean(ev, "again") {
				var m *model.Model
				if m, err = d.copyModel(false); err == nil {
					res["again"] = d.describe(m)
				}
			}
		case "reload":
			err = d.reload(num(ev, "st")%2 == 1)
		case "context":
			var c *fastac.Context
			c, err = fastac.NewContext(d.m, d.options(obj(ev["q"]))...)
			if err == nil {
				d.ctx = append(d.ctx, c)
			}
		case "enforce", "filter", "range":
			err = d.query(ev, res)
		case "list", "polrange":
			rules := [][]string{}
			stop := num(ev, "stop")
			if op == "list" {
				keep := num(ev, "st")%2 == 1
				d.m.RangeRules(func(rule []string) bool {
					if keep {
						rules = append(rules, rule)
					} else {
						rules = append(rules, copyStrs(rule))
						scribble(rule)
					}
					d.turns.open()
					return len(rules) != stop
				})
				res["rules"] = d.ruleNames(rules)
			} else {
				pol, ok := d.m.GetPolicy(str(ev, "key"))
				if !ok {
					err = errors.New("not found")
				} else {
					pol.Range(func(rule []string) bool {
						rules = append(rules, rule)
						d.turns.open()
						return len(rules) != stop
					})
					for i, rule := range rules {
						rules[i] = d.in.Names(rule)
					}
				}
				res["rules"] = rules
			}
			res["calls"] = len(rules)
		case "distinct":
			cols := []int{}
			for _, c := range list(ev["cols"]) {
				switch x := c.(type) {
				case int:
					cols = append(cols, x)
				case float64:
					cols = append(cols, int(x))
				}
			}
			res["rules"] = [][]string{}
			if pol, ok := d.m.GetPolicy(str(ev, "key")); ok {
				var l [][]string
				if dp, ok := pol.(interface {
					GetDistinct([]int) ([][]string, error)
				}); ok && len(cols)%2 == 0 {
					l, err = dp.GetDistinct(cols)
				} else {
					l, err = policy.GetDistinct(pol, cols)
				}
				rules := make([][]string, len(l))
				for i, r := range l {
					rules[i] = d.in.Names(r)
				}
				res["rules"] = rules
				scribble(l...)
			} else {
				err = errors.New("not found")
			}
		case "has":
			rm, ok := d.m.GetRoleManager(str(ev, "key"))
			res["ok"] = false
			if !ok {
				err = errors.New("not found")
			} else {
				res["ok"], err = rm.HasLink(d.in.Text(str(ev, "u")), d.in.Text(str(ev, "r")), d.in.Texts(strs(ev["d"]))...)
			}
		case "refuse":
			err = d.refuse(str(ev, "what"))
		default:
			check(fmt.Errorf("engine: unknown op %s", op))
		}
		res["err"] = err != nil
		if err != nil {
			res["msg"] = err.Error()
		}
		if changes[op] {
			d.told()
			evs := d.ev
			if evs == nil {
				evs = []Ev{}
			}
			res["ev"] = evs
		}
	})
	if p != "" {
		res = Ev{"panic": p, "err": true}
	}
	return res
}

func okErr(ok bool) error {
	if ok {
		return nil
	}
	return errors.New("not found")
}

var refusals = []string{"setdef-sec", "setdef-prefix", "setdef-empty", "removedef-sec", "enforcer-model", "enforcer-file", "enforcer-policy",
	"model-file", "model-text", "build", "build-def", "build-def2", "build-syntax", "build-fn", "build-empty", "rm", "matcher", "policy", "rdef", "effector", "fn", "model-key", "ctx-r", "ctx-m", "ctx-m2", "ctx-m3", "ctx-last"}

func (d *engineDomain) refuse(what string) (err error) {
	ok := false
	switch what {
	case "setdef-sec":
		return d.m.SetDef('x', "x", "sub, obj")
	case "setdef-prefix":
		return d.m.SetDef('p', "q", "sub, obj")
	case "setdef-empty":
		return d.m.SetDef('p', "", "sub, obj")
	case "removedef-sec":
		return d.m.RemoveDef('x', "p")
	case "enforcer-model":
		_, err = fastac.NewEnforcer(42, nil)
	case "enforcer-file":
		_, err = fastac.NewEnforcer("/nonexistent/model.conf", nil)
	case "enforcer-policy":
		_, err = fastac.NewEnforcer(model.NewModel(), "/nonexistent/policy.csv")
	case "model-file":
		_, err = model.NewModelFromFile("/nonexistent/model.conf")
	case "model-text":
		err = model.NewModel().LoadModelFromText("[policy_definition]\np = sub\n[matchers]\nm = p.sub ==")
	case "model-key":
		err = model.NewModel().LoadModelFromText("[request_definition]\nr = sub\nq = sub\n[policy_definition]\np = sub\n[matchers]\nm = p.sub == r.sub")
	case "build":
		err = d.m.BuildMatcher("m9")
	case "build-def":
		_, err = d.m.BuildMatcherFromDef(defs.NewMatcherDef("", "p9.sub == 'x'"))
	case "build-def2":
		_, err = d.m.BuildMatcherFromDef(defs.NewMatcherDef("", "g9.user == 'x'"))
	case "build-syntax":
		_, err = d.m.BuildMatcherFromDef(defs.NewMatcherDef("", "(true"))
	case "build-fn":
		_, err = d.m.BuildMatcherFromDef(defs.NewMatcherDef("", "nofunction(true)"))
	case "build-empty":
		_, err = d.m.BuildMatcherFromDef(defs.NewMatcherDef("", ""))
	case "rm":
		_, ok = d.m.GetRoleManager("g9")
		err = okErr(ok)
	case "matcher":
		_, ok = d.m.GetMatcher("m9")
		err = okErr(ok)
	case "policy":
		_, ok = d.m.GetPolicy("p9")
		err = okErr(ok)
	case "rdef":
		_, ok = d.m.GetRequestDef("r9")
		err = okErr(ok)
	case "effector":
		_, ok = d.m.GetEffector("e9")
		err = okErr(ok)
	case "fn":
		err = okErr(d.m.RemoveFunction("nofunction"))
	case "ctx-r":
		_, err = fastac.NewContext(d.m, fastac.SetRequestDef("r9"))
	case "ctx-m":
		_, err = fastac.NewContext(d.m, fastac.SetMatcher("p.sub == "))
	case "ctx-m2":
		_, err = fastac.NewContext(d.m, fastac.SetMatcher(defs.NewMatcherDef("m", "p.sub == ")))
	case "ctx-m3":
		_, err = fastac.NewContext(d.m, fastac.SetMatcher(defs.NewMatcherDef("", "p9.sub == r.sub")))
	case "ctx-last": // one option of many
		_, err = fastac.NewContext(d.m, fastac.SetEffector("some(where (p.eft == allow))"), fastac.SetRequestDef("r9"), fastac.SetRequestDef(defs.NewRequestDef("r", "sub, obj")))
	default:
		check(fmt.Errorf("refuse %s", what))
	}
	return err
}

func init() {
	domains["engine"] = domainSpec{new: func() Domain { return &engineDomain{} }, gen: engineProfiles}
}
