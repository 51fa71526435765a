package main

import (
	"encoding/csv"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/api"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/storage/adapter"
)

// Domain "file": enforcer and file adapters, all files below a scratch directory

type fileDomain struct {
	storageDomain
	dir   string
	fas   []*adapter.FileAdapter
	model string

	sound, spoiled map[int]string // content of spoiled files
}

// spoil inserts a malformed line between two rules
func (d *fileDomain) spoil(a, style int) {
	b, err := os.ReadFile(d.path(a))
	if !os.IsNotExist(err) {
		check(err)
	}
	text := string(b)
	r := csv.NewReader(strings.NewReader(text))
	r.Comment, r.TrimLeadingSpace, r.FieldsPerRecord = '#', true, -1
	ends := []int64{0}
	for {
		if _, err := r.Read(); err != nil {
			break
		}
		ends = append(ends, r.InputOffset())
	}
	at := ends[style%len(ends)]
	line := []string{"p, a\"b, c\n", "p, \"a\"b, c\n", "p, v\"\n"}[style%3]
	if at > 0 && text[at-1] != '\n' {
		line = "\n" + line
	}
	if d.sound == nil {
		d.sound, d.spoiled = map[int]string{}, map[int]string{}
	}
	d.sound[a], d.spoiled[a] = text, text[:at]+line+text[at:]
	check(os.WriteFile(d.path(a), []byte(d.spoiled[a]), 0600))
}

func (d *fileDomain) path(a int) string {
	return filepath.Join(d.dir, fmt.Sprintf("f%d", a), "policy.csv")
}

// rawPolicy writes rules as a person would
func rawPolicy(rules [][]string, style int) string {
	var b strings.Builder
	sep := []string{",", ", ", ",  "}[style%3]
	for i, r := range rules {
		if style%4 == 1 && i%2 == 0 {
			b.WriteString("# a comment, with \"quotes\"\n\n")
		}
		for j, v := range r {
			if j > 0 {
				b.WriteString(sep)
			}
			if style%5 == 2 || strings.ContainsAny(v, ",\"\n\r") || strings.HasPrefix(v, "#") || strings.TrimLeft(v, " \t\n\u00a0\u2003") != v || (v == "" && len(r) == 1) {
				v = `"` + strings.ReplaceAll(v, `"`, `""`) + `"`
			}
			b.WriteString(v)
		}
		if i+1 < len(rules) || style%7 != 3 {
			b.WriteString("\n")
		}
	}
	return b.String()
}

func (d *fileDomain) raw(a int, rules []interface{}, style int) {
	texts := [][]string{}
	for _, r := range rules {
		texts = append(texts, d.in.RuleTexts(strs(r)))
	}
	check(os.MkdirAll(filepath.Dir(d.path(a)), 0700))
	check(os.WriteFile(d.path(a), []byte(rawPolicy(texts, style)), 0600))
}

func (d *fileDomain) Init(ev Ev) {
	var err error
	d.dir, err = os.MkdirTemp("", "verif-file-")
	check(err)
	d.in = newInterner(obj(canon(ev))["texts"])
	for i, t := range specialTexts {
		if boolean(ev, "special") {
			d.in.set(fmt.Sprintf("special%d", i), t)
		}
	}
	if ev["models"] == nil {
		return
	}
	text := storageModel(obj(list(ev["models"])[0]))
	d.model = filepath.Join(d.dir, "model.conf")
	check(os.WriteFile(d.model, []byte(text), 0600))
	for range list(ev["models"]) {
		m := model.NewModel()
		must(m.LoadModelFromText(text))
		d.ms = append(d.ms, m)
	}
	for i, rules := range list(ev["files"]) {
		d.raw(i+1, list(rules), num(ev, "style")+i)
		d.fas = append(d.fas, adapter.NewFileAdapter(d.path(i+1)))
	}
	opts := []fastac.Option{}
	for _, o := range list(ev["opts"]) {
		opts = append(opts, d.option(obj(o)))
	}
	var m, a interface{} = d.ms[0], d.fas[0]
	if str(ev, "form") == "path" {
		m, a = d.model, d.path(1)
	}
	d.e, err = fastac.NewEnforcer(m, a, opts...)
	must(err)
	d.ms[0] = d.e.GetModel()
	for _, f := range d.fas {
		d.ads = append(d.ads, f)
	}
	if str(ev, "form") == "path" {
		d.ads[0] = d.e.GetAdapter()
	}
}

// specialTexts cannot be written as JSON or are too long for it
var specialTexts = []string{"\xff\xfe", "a\x00\x00b", "\xc3", long(70000), strings.Repeat("\"", 300), strings.Repeat("\n", 5), "\u2003em", "\ufeffbom"}

func (d *fileDomain) Close() {
	if d.dir != "" {
		os.RemoveAll(d.dir)
	}
}

// reader records rules
type reader struct{ rules [][]string }

func (r *reader) AddRule(rule []string) (bool, error) {
	r.rules = append(r.rules, copyStrs(rule))
	return true, nil
}

func (r *reader) RangeRules(fn func(rule []string) bool) {
	for _, rule := range r.rules {
		if !fn(rule) {
			return
		}
	}
}

func chars(s string) []string {
	res := []string{}
	for _, c := range s {
		res = append(res, string(c))
	}
	return res
}

func (d *fileDomain) Do(ev Ev) (res Ev) {
	op := str(ev, "op")
	a := num(ev, "a")
	switch op {
	case "fadd", "fdel", "raw", "spoil", "unspoil", "break", "mend", "content", "fresh", "loadstrange", "parse", "line", "roundtrip":
	default:
		res = d.storageDomain.Do(ev)
		delete(res, "calls")
		if res["panic"] == "unexpected" {
			res["panic"] = true // any error of the file system
		}
		return res
	}
	res = Ev{}
	p := guard(func() {
		var err error
		switch op {
		case "fadd", "fdel":
			rules := [][]string{}
			for _, r := range list(ev["rules"]) {
				rules = append(rules, d.rule(r))
			}
			f := d.ads[a-1].(*adapter.FileAdapter)
			switch {
			case len(rules) == 1 && op == "fadd":
				err = f.AddRule(rules[0])
			case len(rules) == 1:
				err = f.RemoveRule(rules[0])
			case op == "fadd":
				err = f.AddRules(rules)
			default:
				err = f.RemoveRules(rules)
			}
		case "raw":
			d.raw(a, list(ev["rules"]), num(ev, "style"))
		case "spoil":
			d.spoil(a, num(ev, "style"))
		case "unspoil":
			// a file which was changed in the meantime is left as it is
			b, err := os.ReadFile(d.path(a))
			check(err)
			if string(b) == d.spoiled[a] {
				check(os.WriteFile(d.path(a), []byte(d.sound[a]), 0600))
			}
		case "break":
			check(os.Rename(filepath.Dir(d.path(a)), filepath.Dir(d.path(a))+".gone"))
		case "mend":
			check(os.Rename(filepath.Dir(d.path(a))+".gone", filepath.Dir(d.path(a))))
		case "content":
			r := &reader{}
			err = adapter.NewFileAdapter(d.path(a)).LoadPolicy(r)
			res["rules"] = d.ruleNames(r.rules)
		case "fresh":
			var e *fastac.Enforcer
			rules := [][]string{}
			if e, err = fastac.NewEnforcer(d.model, d.path(a)); err == nil {
				e.GetModel().(api.IRangeRules).RangeRules(func(rule []string) bool {
					rules = append(rules, copyStrs(rule))
					return true
				})
				// a set of rules lists the same, in any way
				set := adapter.NewRuleSet()
				must(e.GetAdapter().LoadPolicy(set))
				in, all := map[string]bool{}, map[string]bool{}
				for _, rule := range rules {
					in[fmt.Sprintf("%q", rule)] = true
				}
				for _, rule := range set.Rules() {
					all[fmt.Sprintf("%q", rule)] = true
				}
				set.RangeRules(func(rule []string) bool {
					all[fmt.Sprintf("%q", rule)] = true
					return true
				})
				if len(set.Rules()) != len(in) || fmt.Sprint(all) != fmt.Sprint(in) {
					rules = append(set.Rules(), []string{"p", "not", "the", "same"})
				}
			}
			res["rules"] = d.ruleNames(rules)
		case "loadstrange":
			err = d.e.LoadPolicy()
			rules := [][]string{}
			d.e.GetModel().(api.IRangeRules).RangeRules(func(rule []string) bool {
				rules = append(rules, copyStrs(rule))
				return true
			})
			res["rules"] = d.ruleNames(rules)
		case "parse", "line":
			text := strings.Join(strs(ev["text"]), "")
			r := &reader{}
			if op == "line" {
				err = adapter.LoadPolicyLine(text, r)
			} else {
				path := filepath.Join(d.dir, "text.csv")
				check(os.WriteFile(path, []byte(text), 0600))
				err = adapter.NewFileAdapter(path).LoadPolicy(r)
			}
			if err == nil {
				seq := make([][][]string, len(r.rules))
				for i, rule := range r.rules {
					for _, v := range rule {
						seq[i] = append(seq[i], chars(v))
					}
				}
				res["seq"] = seq
			}
		case "roundtrip":
			in := &reader{}
			for _, row := range list(ev["rows"]) {
				rule := []string{}
				for _, v := range list(row) {
					rule = append(rule, strings.Join(strs(v), ""))
				}
				if rule[0] != "" {
					in.rules = append(in.rules, rule)
				}
			}
			path := filepath.Join(d.dir, "text.csv")
			out := &reader{}
			if err = adapter.NewFileAdapter(path).SavePolicy(in); err == nil {
				err = adapter.NewFileAdapter(path).LoadPolicy(out)
			}
			rules := make([][][]string, len(out.rules))
			for i, rule := range out.rules {
				for _, v := range rule {
					rules[i] = append(rules[i], chars(v))
				}
			}
			res["rules"] = rules
		}
		res["err"] = err != nil
		if err != nil {
			res["msg"] = err.Error()
		}
	})
	if op != "parse" && op != "line" && op != "roundtrip" {
		res["panic"] = p != ""
	}
	if p != "" {
		res["err"], res["msg"] = false, p
		res["panic"] = true
	}
	return res
}

// ---------------------------------------------------------------------------------- generator

type fileProfile struct {
	steps, rules int
	nasty        float64
	special      float64
	fault        float64
	big          float64
	strange      float64 // files with rules the model does not know
}

func genFile(p fileProfile) func(h *H) {
	return func(h *H) {
		names := []string{}
		for i := 0; i < 8; i++ {
			names = append(names, fmt.Sprintf("v%d", i))
		}
		texts := h.texts(names, p.nasty)
		for n, t := range texts {
			if strings.Contains(t, "\r") {
				texts[n] = n
			}
		}
		special := h.P(p.special)
		if special {
			for i := range specialTexts {
				if h.P(0.3) {
					names = append(names, fmt.Sprintf("special%d", i))
				}
			}
		}
		def := Ev{"p": []string{"p", "p2"}, "g": []string{"g"}}
		models := []Ev{def}
		if h.P(0.5) {
			models = append(models, def)
		}
		recent := [][]string{}
		rule := func() []string {
			if len(recent) > 0 && h.P(0.55) {
				return recent[h.Intn(len(recent))]
			}
			r := []string{[]string{"p", "p", "p2", "g"}[h.Intn(4)], h.Pick(names), h.Pick(names)}
			recent = append(recent, r)
			if len(recent) > p.rules {
				recent = recent[1:]
			}
			return r
		}
		rules := func(n int) [][]string {
			res := [][]string{}
			for i := h.Intn(n + 1); i > 0; i-- {
				res = append(res, rule())
			}
			return res
		}
		nf := 1 + h.Intn(2)
		files := [][][]string{}
		for i := 0; i < nf; i++ {
			files = append(files, rules(5))
		}
		opts := []Ev{}
		if h.P(0.5) {
			opts = append(opts, Ev{"k": "autosave", "on": true})
		}
		init := Ev{"models": models, "files": files, "texts": texts, "special": special, "opts": opts, "style": h.Intn(420),
			"form": []string{"obj", "path"}[h.Intn(2)]}
		h.Init(init)
		locked := false
		broken, spoiled, strange, ad := map[int]bool{}, map[int]bool{}, map[int]bool{}, 1
		do := func(ev Ev) Ev {
			res := h.Do(ev)
			switch str(ev, "op") {
			case "add", "remove", "madd", "mremove":
				if res["panic"] == true {
					locked = true
				}
			}
			return res
		}
		look := func() {
			for i := 1; i <= nf; i++ {
				if !broken[i] {
					do(Ev{"op": "content", "a": i})
				}
			}
		}
		if h.P(p.big) {
			big := [][]string{}
			for i := 0; i < 40; i++ {
				for j := 0; j < 8; j++ {
					big = append(big, []string{"p", fmt.Sprintf("big%d", i), h.Pick(names)})
				}
			}
			do(Ev{"op": "addrules", "rules": big})
			do(Ev{"op": "flush", "via": 0})
			look()
		}
		for i := 0; i < p.steps; i++ {
			switch h.Intn(18) {
			case 0, 1, 2:
				do(Ev{"op": "add", "rule": rule()})
			case 3, 4:
				do(Ev{"op": "remove", "rule": rule()})
			case 5:
				do(Ev{"op": "addrules", "rules": rules(6)})
			case 6:
				do(Ev{"op": "removerules", "rules": rules(6)})
			case 7:
				do(Ev{"op": "flush", "via": h.Intn(2)})
			case 8, 9:
				if !locked && !spoiled[ad] {
					if strange[ad] && !broken[ad] {
						do(Ev{"op": "loadstrange"})
						do(Ev{"op": "status"})
					} else {
						do(Ev{"op": "load"})
						do(Ev{"op": "list", "i": 1})
					}
				}
			case 10:
				do(Ev{"op": "save"})
				if !broken[ad] {
					delete(spoiled, ad)
					delete(strange, ad)
				}
			case 11:
				a := 1 + h.Intn(nf)
				if !broken[a] || h.P(0.5) {
					if l := rules(4); len(l) > 0 {
						do(Ev{"op": []string{"fadd", "fdel"}[h.Intn(2)], "a": a, "rules": l})
					}
				}
			case 12:
				if a := 1 + h.Intn(nf); !broken[a] {
					delete(spoiled, a)
					delete(strange, a)
					l := rules(5)
					if h.P(p.strange) {
						strange[a] = true
						i := h.Intn(len(l) + 1)
						x := [][]string{{"p9", h.Pick(names), h.Pick(names)}, {"g9", h.Pick(names), h.Pick(names)}, {"x"}, {"g", h.Pick(names)}, {"g"}}[h.Intn(5)]
						l = append(append(append([][]string{}, l[:i]...), x), l[i:]...)
					}
					do(Ev{"op": "raw", "a": a, "rules": l, "style": h.Intn(420)})
					if strange[a] {
						do(Ev{"op": "fresh", "a": a})
					}
				}
			case 13:
				if !locked {
					switch h.Intn(5) {
					case 0:
						do(Ev{"op": "setmodel", "i": 1 + h.Intn(len(models))})
					case 1:
						ad = 1 + h.Intn(nf)
						do(Ev{"op": "setadapter", "a": ad})
					case 2:
						do(Ev{"op": "storage", "on": h.P(0.7), "via": h.Intn(2)})
					default:
						do(Ev{"op": "autosave", "on": h.P(0.5), "via": h.Intn(2)})
					}
				} else {
					do(Ev{"op": "autosave", "on": h.P(0.5), "via": h.Intn(2)})
				}
			case 14:
				a := 1 + h.Intn(nf)
				if spoiled[a] {
					do(Ev{"op": "fresh", "a": a})
				} else if broken[a] {
					do(Ev{"op": "mend", "a": a})
					delete(broken, a)
				} else if h.P(p.fault) {
					do(Ev{"op": "break", "a": a})
					broken[a] = true
				}
			case 16, 17:
				a := 1 + h.Intn(nf)
				if spoiled[a] {
					do(Ev{"op": "unspoil", "a": a})
					delete(spoiled, a)
				} else if !broken[a] && h.P(p.fault) {
					do(Ev{"op": "spoil", "a": a, "style": h.Intn(1000)})
					spoiled[a] = true
					if l := rules(4); len(l) > 0 {
						do(Ev{"op": []string{"fadd", "fdel"}[h.Intn(2)], "a": a, "rules": l[:1+h.Intn(len(l))]})
					}
				}
			case 15:
				do(Ev{"op": "clear", "key": []string{"p", "p2", "g"}[h.Intn(3)]})
			}
			look()
		}
		for i := 1; i <= nf; i++ {
			if broken[i] {
				do(Ev{"op": "mend", "a": i})
				delete(broken, i)
			}
			if spoiled[i] {
				do(Ev{"op": "unspoil", "a": i})
			}
		}
		do(Ev{"op": "flush", "via": 0})
		look()
		do(Ev{"op": "save"})
		look()
		for i := 1; i <= nf; i++ {
			do(Ev{"op": "fresh", "a": i})
		}
		for i := range models {
			do(Ev{"op": "list", "i": i + 1})
		}
	}
}

func init() {
	domains["file"] = domainSpec{
		new: func() Domain { return &fileDomain{} },
		gen: map[string]func(h *H){
			"file": genFile(fileProfile{steps: 25, rules: 8, nasty: 0.7, special: 0.3, fault: 0.4, big: 0.15, strange: 0.4}),
		},
	}
}
