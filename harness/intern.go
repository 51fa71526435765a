package main

import "fmt"

// Interner maps the names used in a trace to the texts used in the calls. A trace (and the
// specification) only knows the names; the texts are arbitrary.
type Interner struct {
	text map[string]string
	name map[string]string
}

func newInterner(v interface{}) *Interner {
	in := &Interner{map[string]string{}, map[string]string{}}
	switch m := v.(type) {
	case map[string]interface{}:
		for k, t := range m {
			s, _ := t.(string)
			in.set(k, s)
		}
	case map[string]string:
		for k, t := range m {
			in.set(k, t)
		}
	}
	return in
}

func (in *Interner) set(name, text string) {
	in.text[name] = text
	in.name[text] = name
}

// Text returns the text of a name, by default the name itself.
func (in *Interner) Text(name string) string {
	if t, ok := in.text[name]; ok {
		return t
	}
	return name
}

func (in *Interner) Texts(names []string) []string {
	res := make([]string, len(names))
	for i, n := range names {
		res[i] = in.Text(n)
	}
	return res
}

// Name is the inverse of Text. Unknown texts get a name which no specification uses.
func (in *Interner) Name(text string) string {
	if n, ok := in.name[text]; ok {
		return n
	}
	if _, ok := in.text[text]; ok {
		return "?" + text // a text that looks like the name of another text
	}
	for i := 0; i < len(text); i++ {
		if text[i] < 32 || text[i] > 126 {
			return fmt.Sprintf("?%x", text)
		}
	}
	return text
}

func (in *Interner) Names(texts []string) []string {
	res := make([]string, len(texts))
	for i, t := range texts {
		res[i] = in.Name(t)
	}
	return res
}

// RuleNames names the columns of a rule, its key is itself
func (in *Interner) RuleNames(rule []string) []string {
	if len(rule) == 0 {
		return []string{}
	}
	return append([]string{rule[0]}, in.Names(rule[1:])...)
}

// RuleTexts is the inverse of RuleNames
func (in *Interner) RuleTexts(names []string) []string {
	if len(names) == 0 {
		return []string{}
	}
	return append([]string{names[0]}, in.Texts(names[1:])...)
}

// nasty are texts with a meaning for some part of the code: separators, quotes, escapes, patterns,
// attribute names, effects, white space, non ASCII, long texts
var nasty = []string{
	"", " ", "a,b", "a", "b", ",", "a,b,c", `a\,b`, `\`, `\\`, `"`, `"a"`, `a"b`, "'", "it's", "#", "#x", " lead", "trail ",
	"new\nline", "\n", "tab\tx", "p", "g", "p, a", "p.sub", "r_sub", "r.obj", "allow", "deny", "*", "/x/:id", ":id", "{id}", "p'a",
	"ä", "日本", "\u00a0", "a b", "a  b", "0", "1", "true", "nil", "%s", "%d%", "a.b", "/", "//", ";", "`", "$1", "${1}", "(", ")", "||",
	"verylong-" + long(300), "verylong-" + long(5000),
}

func long(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%26)
	}
	return string(b)
}

// families are texts which are easily taken for each other, alone or when several are put together
var families = [][]string{
	{"a", "b", "a,b", "b,a", "a,a", ",", "", "a,", ",a", `a\`, `\,a`, `\`, `a\,b`, "b,", ",b", "a,b,a"},
	{"a", "aa", "aaa", "ab", "b", "ba", "aab", "", "bb"},
	{"a", "A", " a", "a ", "á", "a\u0301", "\ta", "a\n", "Ａ", "a\x00"},
	{"0", "00", "0.0", "-0", "1", "1.0", "true", "TRUE", "false", "nil", "null", "", "1e0", "0x1"},
	{"p.sub", "p_sub", "r.sub", "r_sub", "r.obj", "g.x", "p2.x", "p2_x", "r2.act", "rp.x", "p.a p.b", "r.a.b", "p-sub", "psub", "p. sub", "p"},
	{"a:b", "a", "b", "a::b", ":", "a-b", "a.b", "a/b", "a|b", "a;b", "a b", "a_b", "[a b]", "[a", "b]"},
}

// twins have the same sum: CRC-32 (two polynomials), FNV-1, FNV-1a (32 and 64 bits), Adler-32, 31*h + c
var twins = [][]string{{"plumless", "buckeroo"}, {"thegyxgfm", "rtsbzzdhv"}, {"creamwove", "quists"}, {"costarring", "liquid"},
	{"8yn0iYCKYHlIj4-BwPqk", "GReLUrM4wMqfg9yzV3KQ"}, {"acb", "bac"}, {"Aa", "BB"}}

// texts returns a name -> text table for the given names, some of them nasty
func (h *H) texts(names []string, p float64) map[string]string {
	res := map[string]string{}
	from := nasty
	if p > 0 && h.P(0.4) {
		if from = families[h.Intn(len(families))]; h.P(0.5) {
			from, p = families[0], 1
		}
	}
	if p > 0 && h.P(0.15) { // two which are twins, the others as they are
		from = twins[h.Intn(len(twins))]
		for i, n := range h.rng.Perm(len(names)) {
			if res[names[n]] = names[n]; i < 2 {
				res[names[n]] = from[i]
			}
		}
		return res
	}
	if p > 0 && h.P(0.12) { // joined by sep, pairs of them are the same text: x, y.x and x.y, x
		sep := h.Pick([]string{",", ",", ":", "", "|", " ", "/", "\x00", "-", "::", ";", "_", ".", ", "})
		x, y := "a", "b"
		from, p = []string{x, x + sep + y, y + sep + x, y, x + sep + x, y + sep + y}, 1
		if h.P(0.7) {
			for i, n := range h.rng.Perm(len(names)) {
				if res[names[n]] = names[n]; i < len(from) {
					res[names[n]] = from[i]
				}
			}
			return res
		}
	}
	perm := h.rng.Perm(len(from))
	for i, n := range names {
		if i < len(perm) && h.P(p) {
			res[n] = from[perm[i]]
		} else {
			res[n] = n
		}
	}
	// no text may be the name of another one
	for _, n := range names {
		if t := res[n]; t != n {
			if _, clash := res[t]; clash {
				res[n] = n
			}
		}
	}
	return res
}
