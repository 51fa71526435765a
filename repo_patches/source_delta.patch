From 760339a2a78a8682ea297ac01b90669db507e0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:36 +0000
Subject: [PATCH 01/44] fix: support matchers with more than two alternatives

A stage could only hold two children, so a matcher with three or more
alternatives on one level panicked as soon as a rule was added.
---
 model/matcher/matcher.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 47622fe..a666a72 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -27,24 +27,29 @@ import (
 
 type MatcherNode struct {
 	rule     []string
-	children []map[string]*MatcherNode
+	children map[int]map[string]*MatcherNode
 }
 
 func NewMatcherNode(rule []string) *MatcherNode {
 	node := &MatcherNode{}
 	node.rule = rule
-	node.children = make([]map[string]*MatcherNode, 2)
-	node.children[0] = make(map[string]*MatcherNode)
-	node.children[1] = make(map[string]*MatcherNode)
+	node.children = make(map[int]map[string]*MatcherNode)
 	return node
 }
 
+func (n *MatcherNode) set(i int, key string, child *MatcherNode) {
+	if _, ok := n.children[i]; !ok {
+		n.children[i] = make(map[string]*MatcherNode)
+	}
+	n.children[i][key] = child
+}
+
 func (n *MatcherNode) GetOrCreate(i int, key string, rule []string) *MatcherNode {
 	if node, ok := n.children[i][key]; ok {
 		return node
 	}
 	node := NewMatcherNode(rule)
-	n.children[i][key] = node
+	n.set(i, key, node)
 	return node
 }
 
@@ -135,7 +140,7 @@ func (m *Matcher) addRuleHelper(rule []string, exprNode *defs.MatcherStage, node
 			nextNode := node.GetOrCreate(i, key, rule)
 			m.addRuleHelper(rule, nextExpr, nextNode)
 		} else {
-			node.children[i][key] = NewMatcherNode(rule)
+			node.set(i, key, NewMatcherNode(rule))
 		}
 	}
 
-- 
2.43.0


From 1ee174da9c87bcfa9292017064ca43e7c3ecf478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:38 +0000
Subject: [PATCH 02/44] fix: drop empty stages when a rule is removed from a
 matcher

The stages a removed rule leaves behind were kept. The next stage of such
a leftover has no rules and was evaluated against the empty rule, so a
removed rule could still grant access.
---
 model/matcher/matcher.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index a666a72..56db59a 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -44,6 +44,15 @@ func (n *MatcherNode) set(i int, key string, child *MatcherNode) {
 	n.children[i][key] = child
 }
 
+func (n *MatcherNode) isEmpty() bool {
+	for _, children := range n.children {
+		if len(children) > 0 {
+			return false
+		}
+	}
+	return true
+}
+
 func (n *MatcherNode) GetOrCreate(i int, key string, rule []string) *MatcherNode {
 	if node, ok := n.children[i][key]; ok {
 		return node
@@ -165,6 +174,9 @@ func (m *Matcher) removeRuleHelper(rule []string, exprNode *defs.MatcherStage, n
 		if !nextExpr.IsLeafNode() {
 			if nextNode, ok := node.children[i][key]; ok {
 				m.removeRuleHelper(rule, nextExpr, nextNode)
+				if nextNode.isEmpty() {
+					delete(node.children[i], key)
+				}
 			}
 		} else {
 			delete(node.children[i], key)
-- 
2.43.0


From 64e71ba15bc6892343b9a2a6b2ef0e51984f89be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:14 +0000
Subject: [PATCH 03/44] fix: keep every condition when alternatives share
 trailing conditions

append reused the backing array of the pending conditions, so with
(a || b) && (c && d) the second alternative overwrote conditions of
the first one and granted access without checking all of them.
---
 model/defs/matcher_def.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index 09494fa..d2b16e6 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -162,7 +162,8 @@ func buildExprTree(node *MatcherStage, tokens []govaluate.ExpressionToken, and [
 		}
 		return buildExprTree(node, tokens[index+1:], and)
 	} else { // operator.Value == &&
-		return buildExprTree(node, tokens[:index], append(and, tokens[index+1:]))
+		// the capacity is limited, because alternatives must not share the appended tokens
+		return buildExprTree(node, tokens[:index], append(and[:len(and):len(and)], tokens[index+1:]))
 	}
 }
 
-- 
2.43.0


From 04987b9c511681ed4006f78cd8820544e6363b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 04/44] fix: do not split a matcher inside a conditional
 expression

? : and ?? bind weaker than && and ||, but the matcher was split at
the logical operators of their operands, which changed its meaning.
---
 model/defs/matcher_def.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index d2b16e6..5b1da73 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -82,13 +82,18 @@ func nextOperator(tokens []govaluate.ExpressionToken) (int, bool) {
 			if isBracket && clauseCounter == 0 && i != len(tokens)-1 {
 				isBracket = false
 			}
+		case govaluate.TERNARY:
+			// binds weaker than the logical operators, the expression cannot be split
+			if clauseCounter == 0 {
+				return -1, false
+			}
 		case govaluate.LOGICALOP:
 			if clauseCounter != 0 {
 				break
 			}
-			index = i
-			if token.Value == "||" {
-				return index, false
+			// the first || takes precedence over every &&
+			if index == -1 || tokens[index].Value != "||" {
+				index = i
 			}
 		}
 	}
-- 
2.43.0


From 84fc9c192a6000f80f9c0420f9ca1b76012be917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:53 +0000
Subject: [PATCH 05/44] fix: keep the value of literals when a matcher is split
 into stages

Quotes and backslashes in text, numbers which %v prints with an exponent,
times and regular expressions did not survive being written back to
source text, so that such a matcher failed or compared other values.
---
 model/defs/matcher_def.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index 5b1da73..c844838 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -3,7 +3,10 @@ package defs
 import (
 	"errors"
 	"fmt"
+	"regexp"
+	"strconv"
 	"strings"
+	"time"
 
 	"github.com/abichinger/govaluate"
 )
@@ -100,12 +103,25 @@ func nextOperator(tokens []govaluate.ExpressionToken) (int, bool) {
 	return index, isBracket
 }
 
+var literalEscaper = strings.NewReplacer(`\`, `\\`, `'`, `\'`, `"`, `\"`)
+
+// quoteLiteral returns a string literal with the given value
+func quoteLiteral(value string) string {
+	return "'" + literalEscaper.Replace(value) + "'"
+}
+
 func tokensToExpr(tokens []govaluate.ExpressionToken) string {
 	res := ""
 	for i, token := range tokens {
 		switch token.Kind {
 		case govaluate.STRING:
-			res += fmt.Sprintf("'%v'", token.Value)
+			res += quoteLiteral(token.Value.(string))
+		case govaluate.PATTERN:
+			res += quoteLiteral(token.Value.(*regexp.Regexp).String())
+		case govaluate.TIME:
+			res += quoteLiteral(token.Value.(time.Time).UTC().Format(time.RFC3339Nano))
+		case govaluate.NUMERIC:
+			res += strconv.FormatFloat(token.Value.(float64), 'f', -1, 64)
 		case govaluate.CLAUSE:
 			res += "("
 		case govaluate.CLAUSE_CLOSE:
-- 
2.43.0


From 0a0a49232ddbcb0a9da69c7374ce441c3b9f5265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:15 +0000
Subject: [PATCH 06/44] fix: recognise matcher arguments only where they are
 arguments

Text such as "user.name" or "p2_x" inside a literal, field accesses like
r.sub.Owner.Name and names like r.tag_x or r.group_id were taken for
arguments of a policy or request, which changed literals, accessed wrong
fields or picked the wrong policy.
---
 model/defs/defs.go        | 21 ++++++++++++++++++---
 model/defs/matcher_def.go |  7 ++++---
 model/matcher/matcher.go  |  2 +-
 3 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/model/defs/defs.go b/model/defs/defs.go
index 67ee870..36bcbc0 100644
--- a/model/defs/defs.go
+++ b/model/defs/defs.go
@@ -27,9 +27,24 @@ import (
 const DefaultSep = ","
 const DefaultRoleParty = "_"
 
-var ArgReg = regexp.MustCompile(`([prg][0-9]*)(\.|_)([A-Za-z0-9_]+)`)
-var pArgReg = regexp.MustCompile(`([pg][0-9]*)_([A-Za-z0-9_]+)`)
-var rArgReg = regexp.MustCompile(`(r[0-9]*)_([A-Za-z0-9_]+)`)
+var ArgReg = regexp.MustCompile(`\b([prg][0-9]*)(\.|_)([A-Za-z0-9_]+)`)
+var pArgReg = regexp.MustCompile(`\b([pg][0-9]*)_([A-Za-z0-9_]+)`)
+var rArgReg = regexp.MustCompile(`\b(r[0-9]*)_([A-Za-z0-9_]+)`)
+
+// literalReg matches string literals, an escaped character does not end a literal
+var literalReg = regexp.MustCompile(`(?s)['"](?:\\.|[^'"\\])*['"]`)
+
+// EscapeArgs replaces the separator of all arguments (r.sub, p.sub, ...) with an underscore.
+// The content of string literals is left unchanged.
+func EscapeArgs(expr string) string {
+	res := ""
+	start := 0
+	for _, loc := range literalReg.FindAllStringIndex(expr, -1) {
+		res += ArgReg.ReplaceAllString(expr[start:loc[0]], "${1}_${3}") + expr[loc[0]:loc[1]]
+		start = loc[1]
+	}
+	return res + ArgReg.ReplaceAllString(expr[start:], "${1}_${3}")
+}
 
 type IDef interface {
 	String() string
diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index c844838..d60a3f8 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -21,8 +21,9 @@ type MatcherStage struct {
 func NewMatcherStage(expr string) *MatcherStage {
 	stage := &MatcherStage{}
 	stage.expr = expr
-	stage.pArgs = pArgReg.FindAllString(stage.expr, -1)
-	stage.rArgs = rArgReg.FindAllString(stage.expr, -1)
+	code := literalReg.ReplaceAllString(stage.expr, "''")
+	stage.pArgs = pArgReg.FindAllString(code, -1)
+	stage.rArgs = rArgReg.FindAllString(code, -1)
 	return stage
 }
 
@@ -207,7 +208,7 @@ func (def *MatcherDef) Build(functions map[string]govaluate.ExpressionFunction)
 	}()
 
 	def.root = NewMatcherStage("")
-	expr := ArgReg.ReplaceAllString(def.expr, "${1}_${3}")
+	expr := EscapeArgs(def.expr)
 	parsedExpr, err := govaluate.NewEvaluableExpressionWithFunctions(expr, functions)
 	if err != nil {
 		return err
diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 56db59a..541f0bf 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -266,7 +266,7 @@ func generateEvalFunction(fMap fm.FunctionMap, parameters *MatchParameters) gova
 		}
 
 		expression := args[0].(string)
-		expression = defs.ArgReg.ReplaceAllString(expression, "${1}_${3}")
+		expression = defs.EscapeArgs(expression)
 		return eval(expression, functions, parameters)
 	}
 }
-- 
2.43.0


From 8141e0bb1cb544fa49790bee37e15686bab01326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 07/44] fix: evaluate sub rules for every rule

Rules with the same sub rule text shared one evaluation of eval(p.sub_rule),
although the sub rule may refer to other arguments of the rule.
---
 model/defs/matcher_def.go |  9 +++++++++
 model/matcher/matcher.go  | 31 +++++++++++++------------------
 2 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index d60a3f8..4c295a1 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -15,15 +15,19 @@ type MatcherStage struct {
 	expr     string
 	pArgs    []string
 	rArgs    []string
+	hasEval  bool
 	children []*MatcherStage
 }
 
+var evalReg = regexp.MustCompile(`\beval\s*\(`)
+
 func NewMatcherStage(expr string) *MatcherStage {
 	stage := &MatcherStage{}
 	stage.expr = expr
 	code := literalReg.ReplaceAllString(stage.expr, "''")
 	stage.pArgs = pArgReg.FindAllString(code, -1)
 	stage.rArgs = rArgReg.FindAllString(code, -1)
+	stage.hasEval = evalReg.MatchString(code)
 	return stage
 }
 
@@ -53,6 +57,11 @@ func (stage *MatcherStage) RecursiveRequestArgs() []string {
 	return res
 }
 
+// HasEval reports whether the stage evaluates sub rules, which may use any argument of a rule
+func (stage *MatcherStage) HasEval() bool {
+	return stage.hasEval
+}
+
 func (stage *MatcherStage) Children() []*MatcherStage {
 	return stage.children
 }
diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 541f0bf..0cc84a8 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -129,21 +129,24 @@ func (m *Matcher) GetPolicyKey() string {
 	return m.pDef.GetKey()
 }
 
+// stageKey returns the key under which rule is stored in the given stage.
+// Rules with the same key share the evaluation of the stage
+func (m *Matcher) stageKey(rule []string, stage *defs.MatcherStage) string {
+	pArgs := stage.GetPolicyArgs()
+	if len(pArgs) == 0 || stage.IsLeafNode() || stage.HasEval() {
+		return util.Hash(rule)
+	}
+	r, _ := m.pDef.GetParameters(rule, pArgs)
+	return util.Hash(r)
+}
+
 func (m *Matcher) addRule(rule []string) {
 	m.addRuleHelper(rule, m.exprRoot, m.root)
 }
 
 func (m *Matcher) addRuleHelper(rule []string, exprNode *defs.MatcherStage, node *MatcherNode) {
 	for i, nextExpr := range exprNode.Children() {
-		pArgs := nextExpr.GetPolicyArgs()
-
-		var key string
-		if len(pArgs) == 0 || nextExpr.IsLeafNode() {
-			key = util.Hash(rule)
-		} else {
-			r, _ := m.pDef.GetParameters(rule, pArgs)
-			key = util.Hash(r)
-		}
+		key := m.stageKey(rule, nextExpr)
 
 		if !nextExpr.IsLeafNode() {
 			nextNode := node.GetOrCreate(i, key, rule)
@@ -161,15 +164,7 @@ func (m *Matcher) removeRule(rule []string) {
 
 func (m *Matcher) removeRuleHelper(rule []string, exprNode *defs.MatcherStage, node *MatcherNode) {
 	for i, nextExpr := range exprNode.Children() {
-		pArgs := nextExpr.GetPolicyArgs()
-
-		var key string
-		if len(pArgs) == 0 || nextExpr.IsLeafNode() {
-			key = util.Hash(rule)
-		} else {
-			r, _ := m.pDef.GetParameters(rule, pArgs)
-			key = util.Hash(r)
-		}
+		key := m.stageKey(rule, nextExpr)
 
 		if !nextExpr.IsLeafNode() {
 			if nextNode, ok := node.children[i][key]; ok {
-- 
2.43.0


From 014ea44769ff56253cd915d4bbb71e63e87d42a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:05 +0000
Subject: [PATCH 08/44] fix: report errors of later matcher stages

An error raised while evaluating a stage below the first one was dropped
and the rule counted as not matching, so that a request could be allowed
although a denying rule could not be evaluated.
---
 model/matcher/matcher.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 0cc84a8..c394ecb 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -210,17 +210,22 @@ func (m *Matcher) rangeMatches(exprNode *defs.MatcherStage, rules map[string]*Ma
 
 func (m *Matcher) rangeMatchesHelper(exprNode *defs.MatcherStage, node *MatcherNode, params *MatchParameters, functions map[string]govaluate.ExpressionFunction, fn func(rule []string) bool) (bool, error) {
 	for i, nextExpr := range exprNode.Children() {
+		var nestedErr error
 		cont, err := m.rangeMatches(nextExpr, node.children[i], params, functions, func(nextNode *MatcherNode) bool {
 			if nextExpr.IsLeafNode() && !fn(nextNode.rule) {
 				return false //break
 			} else {
 				cont, err := m.rangeMatchesHelper(nextExpr, nextNode, params, functions, fn)
 				if err != nil || !cont {
+					nestedErr = err
 					return false
 				}
 			}
 			return true //continue
 		})
+		if err == nil {
+			err = nestedErr
+		}
 		if err != nil {
 			return false, err
 		}
-- 
2.43.0


From b2fca190d1ccf52fe7f7fa2b9e5d03272eb4f173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:06 +0000
Subject: [PATCH 09/44] fix: report errors of the effector

Enforce returned a nil error when merging the effects failed.
---
 enforcer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/enforcer.go b/enforcer.go
index 6cad9a0..c030e17 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -333,11 +333,14 @@ func (e *Enforcer) enforce(ctx *Context, rvals []interface{}) (bool, error) {
 		return false, err
 	}
 	if eftErr != nil {
-		return false, err
+		return false, eftErr
 	}
 
 	if res == eft.Indeterminate {
-		res, _, _ = ctx.effector.MergeEffects(effects, matches, true)
+		res, _, err = ctx.effector.MergeEffects(effects, matches, true)
+		if err != nil {
+			return false, err
+		}
 	}
 
 	return res == eft.Allow, nil
-- 
2.43.0


From 29fb5a30cea47168fcbc4f62ff8daf1622a4229d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 10/44] fix: allow if any match allows and none denies

The combined effect was taken from the first match, which depends on the
iteration order if another match has neither effect.
---
 model/effector/default_effector.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/model/effector/default_effector.go b/model/effector/default_effector.go
index 7a63f6e..7386b51 100644
--- a/model/effector/default_effector.go
+++ b/model/effector/default_effector.go
@@ -46,6 +46,11 @@ func (e *DefaultEffector) MergeEffects(effects []types.Effect, matches [][]strin
 			if len(matches) == 0 {
 				return eft.Deny, []string{}, nil
 			}
+			for i, effect := range effects {
+				if effect == eft.Allow {
+					return effect, matches[i], nil
+				}
+			}
 			return effects[0], matches[0], nil
 		}
 		return eft.Deny, []string{}, errors.New("unsupported effect")
-- 
2.43.0


From 5934ab65239b919f7e11ea1239189db54513f4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 11/44] fix: keep rules apart whose values contain the
 separator

Hash joined the values of a rule with a comma without escaping, so that
rules like ("a,b", "c") and ("a", "b,c") were treated as the same rule.
---
 util/util.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index 74f217b..a8b0196 100644
--- a/util/util.go
+++ b/util/util.go
@@ -26,6 +26,14 @@ func FileExists(path string) (bool, error) {
 	return false, err
 }
 
+// hashEscaper escapes the separator and the escape character
+var hashEscaper = strings.NewReplacer(`\`, `\\`, DefaultSep, `\`+DefaultSep)
+
+// Hash returns a key for rule, different rules have different keys
 func Hash(rule []string) string {
-	return strings.Join(rule, DefaultSep)
+	escaped := make([]string, len(rule))
+	for i, value := range rule {
+		escaped[i] = hashEscaper.Replace(value)
+	}
+	return strings.Join(escaped, DefaultSep)
 }
-- 
2.43.0


From c12b1812cff5d6ab3ad571bf540e04313be2452d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 12/44] fix: notify matchers when a role policy is cleared

Matchers over grouping rules kept the rules of a cleared role policy.
---
 rbac/role_policy.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rbac/role_policy.go b/rbac/role_policy.go
index f1193e3..caf1dc9 100644
--- a/rbac/role_policy.go
+++ b/rbac/role_policy.go
@@ -45,7 +45,11 @@ func (p *RolePolicy) GetDistinct(columns []int) ([][]string, error) {
 }
 
 func (p *RolePolicy) Clear() error {
-	return p.rm.Clear()
+	if err := p.rm.Clear(); err != nil {
+		return err
+	}
+	p.Emitter.EmitEvent(policy.EVT_CLEARED)
+	return nil
 }
 
 func (p *RolePolicy) GetRoleManager() IRoleManager {
-- 
2.43.0


From ed65dc403863b03aafdc1d445e26037f14542a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 13/44] fix: update the value when a key is put again into the
 LRU cache

---
 util/cache.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/cache.go b/util/cache.go
index 3ace430..3c8737b 100644
--- a/util/cache.go
+++ b/util/cache.go
@@ -71,6 +71,7 @@ func (cache *LRUCache) Put(key interface{}, value interface{}) {
 	n, ok := cache.m[key]
 	if ok {
 		cache.remove(n, false)
+		n.value = value
 	} else {
 		n = &node{key, value, nil, nil}
 		if len(cache.m) >= cache.capacity {
-- 
2.43.0


From 9cdd27dc7cc51cd2405b299cd16aa96044da139c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 14/44] fix: lock the synchronized LRU cache exclusively on Get

Get moves the element to the head of the list, concurrent readers
corrupted the list.
---
 util/cache.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/util/cache.go b/util/cache.go
index 3c8737b..fa43ec7 100644
--- a/util/cache.go
+++ b/util/cache.go
@@ -82,7 +82,7 @@ func (cache *LRUCache) Put(key interface{}, value interface{}) {
 }
 
 type SyncLRUCache struct {
-	rwm sync.RWMutex
+	mu sync.Mutex
 	*LRUCache
 }
 
@@ -93,13 +93,14 @@ func NewSyncLRUCache(capacity int) *SyncLRUCache {
 }
 
 func (cache *SyncLRUCache) Get(key interface{}) (value interface{}, ok bool) {
-	cache.rwm.RLock()
-	defer cache.rwm.RUnlock()
+	// a read updates the order of the elements
+	cache.mu.Lock()
+	defer cache.mu.Unlock()
 	return cache.LRUCache.Get(key)
 }
 
 func (cache *SyncLRUCache) Put(key interface{}, value interface{}) {
-	cache.rwm.Lock()
-	defer cache.rwm.Unlock()
+	cache.mu.Lock()
+	defer cache.mu.Unlock()
 	cache.LRUCache.Put(key, value)
 }
-- 
2.43.0


From a48ab50c44ec6bd310dbc33b49c1d7deab77cd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 15/44] fix: keep updates in the queue until the adapter has
 accepted them

Flush removed updates from the queue before passing them to the adapter,
a failing adapter lost them, and the whole batch with a batch adapter.
---
 storage/controller.go | 31 +++++++++----------------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/storage/controller.go b/storage/controller.go
index 2c9e208..6879e23 100644
--- a/storage/controller.go
+++ b/storage/controller.go
@@ -128,43 +128,30 @@ func (sc *StorageController) AutosaveEnabled() bool {
 func (sc *StorageController) flush() error {
 	for len(sc.q) > 0 {
 		operation := sc.q[0]
-		sc.q = sc.q[1:]
 		if err := sc.run(operation.opc, operation.rule); err != nil {
 			return err
 		}
+		sc.q = sc.q[1:]
 	}
 	return nil
 }
 
 func (sc *StorageController) batchFlush() error {
-
-	rules := [][]string{}
-
-	var currentOpc opcode
-	if len(sc.q) > 0 {
-		currentOpc = sc.q[0].opc
-	}
-
 	for len(sc.q) > 0 {
+		opc := sc.q[0].opc
+		rules := [][]string{}
 
-		operation := sc.q[0]
-		sc.q = sc.q[1:]
-
-		if currentOpc == operation.opc {
-			rules = append(rules, operation.rule)
-		} else {
-			if err := sc.runBatch(currentOpc, rules); err != nil {
-				return err
+		for _, operation := range sc.q {
+			if operation.opc != opc {
+				break
 			}
-			currentOpc = operation.opc
-			rules = [][]string{operation.rule}
+			rules = append(rules, operation.rule)
 		}
-	}
 
-	if len(rules) > 0 {
-		if err := sc.runBatch(currentOpc, rules); err != nil {
+		if err := sc.runBatch(opc, rules); err != nil {
 			return err
 		}
+		sc.q = sc.q[len(rules):]
 	}
 	return nil
 }
-- 
2.43.0


From 51755a1ef0531344e7c9df12b44f7bd6a98c21c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:05 +0000
Subject: [PATCH 16/44] fix: store the updates of the new model after SetModel

The storage controller kept listening to the replaced model.
---
 enforcer.go           |  1 +
 storage/controller.go | 10 ++++++++++
 2 files changed, 11 insertions(+)

diff --git a/enforcer.go b/enforcer.go
index c030e17..c316c30 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -348,6 +348,7 @@ func (e *Enforcer) enforce(ctx *Context, rvals []interface{}) (bool, error) {
 
 func (e *Enforcer) SetModel(model m.IModel) {
 	e.model = model
+	e.sc.SetEmitter(model)
 }
 
 func (e *Enforcer) GetModel() m.IModel {
diff --git a/storage/controller.go b/storage/controller.go
index 6879e23..2074a48 100644
--- a/storage/controller.go
+++ b/storage/controller.go
@@ -100,6 +100,16 @@ func (sc *StorageController) Disable() {
 	sc.listeners = []listener{}
 }
 
+// SetEmitter changes the source of rule updates
+func (sc *StorageController) SetEmitter(eventemitter api.IAddRemoveListener) {
+	enabled := sc.Enabled()
+	sc.Disable()
+	sc.em = eventemitter
+	if enabled {
+		sc.Enable()
+	}
+}
+
 func (sc *StorageController) addOp(opc opcode, rule []string) {
 	sc.q = append(sc.q, operation{opc, rule})
 	if sc.autosave {
-- 
2.43.0


From 94539f7a14b1129f582ca6a113a3710cdb706176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 17/44] fix: use the file adapter of a policy path

NewEnforcer loaded the policy from the path but dropped the adapter, so
that Flush failed and LoadPolicy and SavePolicy panicked.
---
 enforcer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enforcer.go b/enforcer.go
index c316c30..f2f9df7 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -98,7 +98,7 @@ func NewEnforcer(model interface{}, adapter interface{}, options ...Option) (*En
 	var a3 storage.Adapter
 	switch a2 := adapter.(type) {
 	case string:
-		a3 := a.NewFileAdapter(a2)
+		a3 = a.NewFileAdapter(a2)
 		if err := a3.LoadPolicy(e.model); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From fe9321de53eb77f7a7550cc99a00292a11a4d2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 18/44] fix: store and load any text with the file adapter

Values with separators, quotes, line feeds or leading spaces were written
unquoted and came back as different rules, and lines were limited to 64KB.
---
 storage/adapter/fileadapter.go | 50 ++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/storage/adapter/fileadapter.go b/storage/adapter/fileadapter.go
index 682f49e..fcd4c3c 100644
--- a/storage/adapter/fileadapter.go
+++ b/storage/adapter/fileadapter.go
@@ -17,8 +17,10 @@ package adapter
 import (
 	"bufio"
 	"encoding/csv"
+	"io"
 	"os"
 	"strings"
+	"unicode"
 
 	"github.com/abichinger/fastac/api"
 	"github.com/abichinger/fastac/model/defs"
@@ -26,18 +28,34 @@ import (
 	"github.com/abichinger/fastac/util"
 )
 
+func newReader(reader io.Reader) *csv.Reader {
+	r := csv.NewReader(reader)
+	r.Comma = ','
+	r.Comment = '#'
+	r.TrimLeadingSpace = true
+	r.FieldsPerRecord = -1
+	return r
+}
+
+// formatRule returns the line of a rule, values are quoted only if necessary
+func formatRule(rule []string) string {
+	values := make([]string, len(rule))
+	for i, value := range rule {
+		if strings.ContainsAny(value, ",\"\r\n#") || value != strings.TrimLeftFunc(value, unicode.IsSpace) {
+			value = `"` + strings.ReplaceAll(value, `"`, `""`) + `"`
+		}
+		values[i] = value
+	}
+	return strings.Join(values, ", ") + "\n"
+}
+
 // LoadPolicyLine loads a text line as a policy rule to model.
 func LoadPolicyLine(line string, m api.IAddRuleBool) error {
 	if line == "" || strings.HasPrefix(line, "#") {
 		return nil
 	}
 
-	r := csv.NewReader(strings.NewReader(line))
-	r.Comma = ','
-	r.Comment = '#'
-	r.TrimLeadingSpace = true
-
-	tokens, err := r.Read()
+	tokens, err := newReader(strings.NewReader(line)).Read()
 	if err != nil {
 		return err
 	}
@@ -85,14 +103,22 @@ func (a *FileAdapter) LoadPolicy(model api.IAddRuleBool) error {
 	}
 	defer file.Close()
 
-	scanner := bufio.NewScanner(file)
-	for scanner.Scan() {
-		if err := LoadPolicyLine(scanner.Text(), model); err != nil {
+	r := newReader(file)
+	for {
+		tokens, err := r.Read()
+		if err == io.EOF {
+			return nil
+		}
+		if err != nil {
+			return err
+		}
+		if len(tokens) == 1 && tokens[0] == "" {
+			continue // blank line
+		}
+		if _, err := model.AddRule(tokens); err != nil {
 			return err
 		}
 	}
-
-	return scanner.Err()
 }
 
 func getWriter(path string) (*bufio.Writer, error) {
@@ -119,7 +145,7 @@ func (a *FileAdapter) SavePolicy(model api.IRangeRules) error {
 		return err
 	}
 	model.RangeRules(func(rule []string) bool {
-		if _, err = writer.WriteString(strings.Join(rule, ", ") + "\n"); err != nil {
+		if _, err = writer.WriteString(formatRule(rule)); err != nil {
 			return false
 		}
 		return true
-- 
2.43.0


From bc4e777f61dd7d39bac4c2f77c3ce32a82624dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:30 +0000
Subject: [PATCH 19/44] fix: replace the policy file atomically

SavePolicy removed the policy file before writing the new one, an error
or a crash in between lost the policy. It also leaked two file handles.
---
 storage/adapter/fileadapter.go | 65 ++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 26 deletions(-)

diff --git a/storage/adapter/fileadapter.go b/storage/adapter/fileadapter.go
index fcd4c3c..7909b9b 100644
--- a/storage/adapter/fileadapter.go
+++ b/storage/adapter/fileadapter.go
@@ -19,13 +19,13 @@ import (
 	"encoding/csv"
 	"io"
 	"os"
+	"path/filepath"
 	"strings"
 	"unicode"
 
 	"github.com/abichinger/fastac/api"
 	"github.com/abichinger/fastac/model/defs"
 	"github.com/abichinger/fastac/model/policy"
-	"github.com/abichinger/fastac/util"
 )
 
 func newReader(reader io.Reader) *csv.Reader {
@@ -121,40 +121,53 @@ func (a *FileAdapter) LoadPolicy(model api.IAddRuleBool) error {
 	}
 }
 
-func getWriter(path string) (*bufio.Writer, error) {
-	if exists, err := util.FileExists(path); err != nil {
-		return nil, err
-	} else if exists {
-		if err := os.Remove(path); err != nil {
-			return nil, err
-		}
-	}
-	if _, err := os.Create(path); err != nil {
-		return nil, err
-	}
-	f, err := os.OpenFile(path, os.O_WRONLY, 0600)
-	if err != nil {
-		return nil, err
+// replaceFile atomically replaces the file at path with the content produced by write.
+// The file is unchanged, if an error occurs
+func replaceFile(path string, write func(w *bufio.Writer) error) (err error) {
+	mode := os.FileMode(0644)
+	if info, err := os.Stat(path); err == nil {
+		mode = info.Mode().Perm()
 	}
-	return bufio.NewWriter(f), nil
-}
 
-func (a *FileAdapter) SavePolicy(model api.IRangeRules) error {
-	writer, err := getWriter(a.path)
+	f, err := os.CreateTemp(filepath.Dir(path), filepath.Base(path)+".tmp")
 	if err != nil {
 		return err
 	}
-	model.RangeRules(func(rule []string) bool {
-		if _, err = writer.WriteString(formatRule(rule)); err != nil {
-			return false
+	defer func() {
+		if err != nil {
+			f.Close()
+			os.Remove(f.Name())
 		}
-		return true
-	})
-	if err != nil {
+	}()
+
+	writer := bufio.NewWriter(f)
+	if err = write(writer); err != nil {
 		return err
 	}
+	if err = writer.Flush(); err != nil {
+		return err
+	}
+	if err = f.Chmod(mode); err != nil {
+		return err
+	}
+	if err = f.Sync(); err != nil {
+		return err
+	}
+	if err = f.Close(); err != nil {
+		return err
+	}
+	return os.Rename(f.Name(), path)
+}
 
-	return writer.Flush()
+func (a *FileAdapter) SavePolicy(model api.IRangeRules) error {
+	return replaceFile(a.path, func(w *bufio.Writer) error {
+		var err error
+		model.RangeRules(func(rule []string) bool {
+			_, err = w.WriteString(formatRule(rule))
+			return err == nil
+		})
+		return err
+	})
 }
 
 func (a *FileAdapter) AddRule(rule []string) error {
-- 
2.43.0


From 58b19972d6f5af06cf0468255510f9a9d5c23a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 20/44] fix: return errors for unknown names and incomplete
 rules

Unknown role managers and request definitions, rules without a key,
grouping rules with less than two values, models without a request
definition or matcher and Enforce with a matcher over grouping rules
panicked. GetPolicy returned a non-nil interface for an unknown key.
---
 context.go          |  8 ++++++--
 enforcer.go         |  7 ++++++-
 model/model.go      | 29 ++++++++++++++++++++++-------
 rbac/role_policy.go |  9 +++++++++
 str/errors.go       |  2 ++
 5 files changed, 45 insertions(+), 10 deletions(-)

diff --git a/context.go b/context.go
index e0caff9..aa866ad 100644
--- a/context.go
+++ b/context.go
@@ -103,10 +103,14 @@ func NewContext(model model.IModel, options ...ContextOption) (*Context, error)
 	}
 
 	if ctx.rDef == nil {
-		_ = SetRequestDef("r")(ctx)
+		if err := SetRequestDef("r")(ctx); err != nil {
+			return nil, err
+		}
 	}
 	if ctx.matcher == nil {
-		_ = SetMatcher("m")(ctx)
+		if err := SetMatcher("m")(ctx); err != nil {
+			return nil, err
+		}
 	}
 	if ctx.effector == nil {
 		_ = SetEffector("e")(ctx)
diff --git a/enforcer.go b/enforcer.go
index f2f9df7..f237f89 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -16,6 +16,7 @@ package fastac
 
 import (
 	"errors"
+	"fmt"
 	"time"
 
 	log "github.com/abichinger/fastac/log"
@@ -309,7 +310,11 @@ func (e *Enforcer) RangeMatchesWithContext(ctx *Context, rvals []interface{}, fn
 }
 
 func (e *Enforcer) enforce(ctx *Context, rvals []interface{}) (bool, error) {
-	def, _ := e.model.GetDef(m.P_SEC, ctx.matcher.GetPolicyKey())
+	pKey := ctx.matcher.GetPolicyKey()
+	def, ok := e.model.GetDef(m.P_SEC, pKey)
+	if !ok {
+		return false, fmt.Errorf(str.ERR_POLICY_NOT_FOUND, pKey)
+	}
 	pDef := def.(*defs.PolicyDef)
 	res := eft.Indeterminate
 	effects := []types.Effect{}
diff --git a/model/model.go b/model/model.go
index 88b8d5d..85d0466 100644
--- a/model/model.go
+++ b/model/model.go
@@ -15,6 +15,7 @@
 package model
 
 import (
+	"errors"
 	"fmt"
 	"sort"
 
@@ -168,7 +169,7 @@ func (m *Model) SetDef(sec byte, key string, value string) error {
 	if !ok {
 		return fmt.Errorf(str.ERR_INVALID_SEC, sec)
 	}
-	if key[0] != secDef.keyPrefix {
+	if key == "" || key[0] != secDef.keyPrefix {
 		return fmt.Errorf(str.ERR_INVALID_KEY_PREFIX, secDef.name, secDef.keyPrefix)
 	}
 	if err := secDef.handler(m, key, value); err != nil {
@@ -246,6 +247,9 @@ func (m *Model) BuildMatcherFromDef(mDef *defs.MatcherDef) (matcher.IMatcher, er
 }
 
 func (m *Model) AddRule(rule []string) (bool, error) {
+	if len(rule) == 0 || rule[0] == "" {
+		return false, errors.New(str.ERR_MISSING_POLICY_KEY)
+	}
 	key := rule[0]
 	sec := key[0]
 	var added bool
@@ -265,6 +269,9 @@ func (m *Model) AddRule(rule []string) (bool, error) {
 }
 
 func (m *Model) RemoveRule(rule []string) (bool, error) {
+	if len(rule) == 0 || rule[0] == "" {
+		return false, errors.New(str.ERR_MISSING_POLICY_KEY)
+	}
 	key := rule[0]
 	sec := key[0]
 	var removed bool
@@ -315,11 +322,13 @@ func (m *Model) removeRoleRule(key string, rule []string) (bool, error) {
 }
 
 func (m *Model) GetPolicy(key string) (policy.IPolicy, bool) {
-	p, ok := m.pMap[key]
-	if !ok {
-		p, ok = m.rpMap[key]
+	if p, ok := m.pMap[key]; ok {
+		return p, true
+	}
+	if rp, ok := m.rpMap[key]; ok {
+		return rp, true
 	}
-	return p, ok
+	return nil, false
 }
 
 func (m *Model) SetPolicy(key string, policy policy.IPolicy) {
@@ -328,7 +337,10 @@ func (m *Model) SetPolicy(key string, policy policy.IPolicy) {
 
 func (m *Model) GetRoleManager(key string) (rbac.IRoleManager, bool) {
 	rp, ok := m.rpMap[key]
-	return rp.GetRoleManager(), ok
+	if !ok {
+		return nil, false
+	}
+	return rp.GetRoleManager(), true
 }
 
 func (m *Model) SetRoleManager(key string, rm rbac.IRoleManager) {
@@ -347,7 +359,10 @@ func (m *Model) SetMatcher(key string, matcher matcher.IMatcher) {
 
 func (m *Model) GetRequestDef(key string) (*defs.RequestDef, bool) {
 	def, ok := m.defs[R_SEC][key]
-	return def.(*defs.RequestDef), ok
+	if !ok {
+		return nil, false
+	}
+	return def.(*defs.RequestDef), true
 }
 
 func (m *Model) SetRequestDef(key string, def *defs.RequestDef) {
diff --git a/rbac/role_policy.go b/rbac/role_policy.go
index caf1dc9..093f634 100644
--- a/rbac/role_policy.go
+++ b/rbac/role_policy.go
@@ -1,7 +1,10 @@
 package rbac
 
 import (
+	"errors"
+
 	"github.com/abichinger/fastac/model/policy"
+	"github.com/abichinger/fastac/str"
 	em "github.com/vansante/go-event-emitter"
 )
 
@@ -16,6 +19,9 @@ func NewRolePolicy(rm IRoleManager) *RolePolicy {
 }
 
 func (p *RolePolicy) AddRule(rule []string) (bool, error) {
+	if len(rule) < 2 {
+		return false, errors.New(str.ERR_ROLE_RULE_TOO_SHORT)
+	}
 	added, err := p.rm.AddLink(rule[0], rule[1], rule[2:]...)
 	if !added || err != nil {
 		return added, err
@@ -25,6 +31,9 @@ func (p *RolePolicy) AddRule(rule []string) (bool, error) {
 }
 
 func (p *RolePolicy) RemoveRule(rule []string) (bool, error) {
+	if len(rule) < 2 {
+		return false, errors.New(str.ERR_ROLE_RULE_TOO_SHORT)
+	}
 	removed, err := p.rm.DeleteLink(rule[0], rule[1], rule[2:]...)
 	if !removed || err != nil {
 		return removed, err
diff --git a/str/errors.go b/str/errors.go
index b8b0b6b..a124c95 100644
--- a/str/errors.go
+++ b/str/errors.go
@@ -23,4 +23,6 @@ const (
 	ERR_REQUESTDEF_NOT_FOUND = "error: request definition %s not found"
 	ERR_EFFECTOR_NOT_FOUND   = "error: effect definition %s not found"
 	ERR_INVALID_MODEL        = "invalid model"
+	ERR_MISSING_POLICY_KEY   = "error: rule has no policy key"
+	ERR_ROLE_RULE_TOO_SHORT  = "error: grouping rule needs a user and a role"
 )
-- 
2.43.0


From 86999a3fb6ea09721ee9811101e63b0f6df2b23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:10 +0000
Subject: [PATCH 21/44] fix: do not remember the domain pattern of a query

A query for an unknown domain pattern registered the pattern without a
role manager, adding a matching domain panicked afterwards.
---
 rbac/domain_manager.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index 135ad93..aaf444c 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -143,7 +143,9 @@ func (dm *DomainManager) getRoleManager(domain string, store bool, subdomains ..
 		}
 		if dm.domainMatcher != nil {
 			if dm.domainMatcher.IsPattern(domain) {
-				dm.patternMap.Store(domain, nil)
+				if store {
+					dm.patternMap.Store(domain, nil)
+				}
 			} else {
 				dm.rangeMatchingPatterns(domain, func(rm2 IRoleManager) {
 					rm2.Range(func(name1, name2 string, domain ...string) bool {
-- 
2.43.0


From df6bf8faee9869772d4c405d2ee144c203ba21d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:40 +0000
Subject: [PATCH 22/44] fix: keep direct links and links inherited from domain
 patterns apart

A link which was stored for a domain and for a matching domain pattern was
kept once. Removing one of them removed the other, SavePolicy lost the
direct link, and changing the role matcher dropped all inherited links.
---
 rbac/domain_manager.go |  4 ++--
 rbac/role.go           | 49 +++++++++++++++++++++++++++++++++++++++++-
 rbac/role_manager.go   | 33 ++++++++++++++--------------
 3 files changed, 67 insertions(+), 19 deletions(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index aaf444c..561f285 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -169,7 +169,7 @@ func (dm *DomainManager) AddLink(name1 string, name2 string, domains ...string)
 	roleManager := dm.getRoleManager(domain, true, subdomains...) //create role manager if it does not exist
 	added, _ := roleManager.AddLink(name1, name2, subdomains...)
 
-	if dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domain) {
+	if added && dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domain) {
 		dm.rangeMatchingRMs(domain, func(rm IRoleManager) {
 			_, _ = rm.AddLink(name1, name2, append(subdomains, REDUNDANT_ROLE)...)
 		})
@@ -187,7 +187,7 @@ func (dm *DomainManager) DeleteLink(name1 string, name2 string, domains ...strin
 	roleManager := dm.getRoleManager(domain, true, subdomains...) //create role manager if it does not exist
 	removed, _ := roleManager.DeleteLink(name1, name2, subdomains...)
 
-	if dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domain) {
+	if removed && dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domain) {
 		dm.rangeMatchingRMs(domain, func(rm IRoleManager) {
 			_, _ = rm.DeleteLink(name1, name2, append(subdomains, REDUNDANT_ROLE)...)
 		})
diff --git a/rbac/role.go b/rbac/role.go
index f8976c8..05c344a 100644
--- a/rbac/role.go
+++ b/rbac/role.go
@@ -26,7 +26,8 @@ type Role struct {
 	users     *sync.Map
 	matched   *sync.Map
 	matchedBy *sync.Map
-	redundant *sync.Map //string set of redundant roles
+	direct    *sync.Map //string set of roles, which have been added directly
+	redundant *sync.Map //number of domain patterns a role was inherited from
 }
 
 func newRole(name string) *Role {
@@ -36,6 +37,7 @@ func newRole(name string) *Role {
 	r.users = &sync.Map{}
 	r.matched = &sync.Map{}
 	r.matchedBy = &sync.Map{}
+	r.direct = &sync.Map{}
 	r.redundant = &sync.Map{}
 	return &r
 }
@@ -63,6 +65,51 @@ func (r *Role) removeRole(role *Role) bool {
 	return true
 }
 
+// addLink adds a direct or an inherited link to role
+func (r *Role) addLink(role *Role, redundant bool) bool {
+	if redundant {
+		r.redundant.Store(role.name, r.redundantCount(role.name)+1)
+	} else if _, ok := r.direct.LoadOrStore(role.name, nil); ok {
+		return false
+	}
+	r.addRole(role)
+	return true
+}
+
+// removeLink removes a direct or an inherited link to role
+// The role is kept as long as another link to the role is left
+func (r *Role) removeLink(role *Role, redundant bool) bool {
+	count := r.redundantCount(role.name)
+	_, direct := r.direct.Load(role.name)
+
+	if redundant {
+		if count == 0 {
+			return false
+		}
+		count--
+		r.redundant.Store(role.name, count)
+	} else {
+		if !direct {
+			return false
+		}
+		r.direct.Delete(role.name)
+		direct = false
+	}
+
+	if !direct && count == 0 {
+		r.redundant.Delete(role.name)
+		r.removeRole(role)
+	}
+	return true
+}
+
+func (r *Role) redundantCount(name string) int {
+	if count, ok := r.redundant.Load(name); ok {
+		return count.(int)
+	}
+	return 0
+}
+
 //should only be called inside addRole
 func (r *Role) addUser(user *Role) {
 	r.users.Store(user.name, user)
diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index 098da72..9133ebd 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -57,6 +57,15 @@ func (rm *RoleManager) rebuild() {
 		_, _ = rm.AddLink(name1, name2, domain...)
 		return true
 	})
+	roles.Range(func(name, value interface{}) bool {
+		value.(*Role).redundant.Range(func(roleName, count interface{}) bool {
+			for i := 0; i < count.(int); i++ {
+				_, _ = rm.AddLink(name.(string), roleName.(string), REDUNDANT_ROLE)
+			}
+			return true
+		})
+		return true
+	})
 }
 
 func (rm *RoleManager) match(str string, pattern string) bool {
@@ -158,17 +167,17 @@ func (rm *RoleManager) Clear() error {
 	return nil
 }
 
+func isRedundant(domains []string) bool {
+	return len(domains) > 0 && domains[0] == REDUNDANT_ROLE
+}
+
 // AddLink adds the inheritance link between role: name1 and role: name2.
 // aka role: name1 inherits role: name2.
 func (rm *RoleManager) AddLink(name1 string, name2 string, domains ...string) (bool, error) {
 	user, _ := rm.getRole(name1)
 	role, _ := rm.getRole(name2)
 
-	if len(domains) > 0 && domains[0] == REDUNDANT_ROLE {
-		user.redundant.LoadOrStore(name2, nil)
-	}
-
-	return user.addRole(role), nil
+	return user.addLink(role, isRedundant(domains)), nil
 }
 
 // DeleteLink deletes the inheritance link between role: name1 and role: name2.
@@ -177,11 +186,7 @@ func (rm *RoleManager) DeleteLink(name1 string, name2 string, domains ...string)
 	user, _ := rm.getRole(name1)
 	role, _ := rm.getRole(name2)
 
-	if len(domains) > 0 && domains[0] == REDUNDANT_ROLE {
-		user.redundant.Delete(name2)
-	}
-
-	return user.removeRole(role), nil
+	return user.removeLink(role, isRedundant(domains)), nil
 }
 
 // HasLink determines whether role: name1 inherits role: name2.
@@ -254,12 +259,8 @@ func (rm *RoleManager) GetAllDomains() ([]string, error) {
 func rangeLinks(users *sync.Map, fn func(name1, name2 string, domain ...string) bool) {
 	users.Range(func(_, value interface{}) bool {
 		user := value.(*Role)
-		user.roles.Range(func(key, _ interface{}) bool {
-			roleName := key.(string)
-			if _, ok := user.redundant.Load(roleName); !ok {
-				return fn(user.name, roleName)
-			}
-			return true
+		user.direct.Range(func(key, _ interface{}) bool {
+			return fn(user.name, key.(string))
 		})
 		return true
 	})
-- 
2.43.0


From eadc1bd7cc7d8dc5cfc8956d7118f48ad7f90445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 23/44] fix: do not apply domain patterns to links without a
 domain

The internal name of the manager for links without a domain was matched
against the domain patterns, so a role in d1/* was also held in d1 itself.
---
 rbac/domain_manager.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index 561f285..1e41507 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -107,7 +107,7 @@ func (dm *DomainManager) load(name interface{}) (value IDefaultRoleManager, ok b
 func (dm *DomainManager) rangeMatchingRMs(pattern string, fn func(rm IRoleManager)) {
 	dm.rmMap.Range(func(key, value interface{}) bool {
 		domain := key.(string)
-		if pattern != domain && dm.match(domain, pattern) {
+		if domain != defaultDomain && pattern != domain && dm.match(domain, pattern) {
 			fn(value.(IRoleManager))
 		}
 		return true
@@ -141,7 +141,7 @@ func (dm *DomainManager) getRoleManager(domain string, store bool, subdomains ..
 		if store {
 			dm.rmMap.Store(domain, rm)
 		}
-		if dm.domainMatcher != nil {
+		if dm.domainMatcher != nil && domain != defaultDomain {
 			if dm.domainMatcher.IsPattern(domain) {
 				if store {
 					dm.patternMap.Store(domain, nil)
@@ -169,7 +169,7 @@ func (dm *DomainManager) AddLink(name1 string, name2 string, domains ...string)
 	roleManager := dm.getRoleManager(domain, true, subdomains...) //create role manager if it does not exist
 	added, _ := roleManager.AddLink(name1, name2, subdomains...)
 
-	if added && dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domain) {
+	if added && domain != defaultDomain && dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domain) {
 		dm.rangeMatchingRMs(domain, func(rm IRoleManager) {
 			_, _ = rm.AddLink(name1, name2, append(subdomains, REDUNDANT_ROLE)...)
 		})
@@ -187,7 +187,7 @@ func (dm *DomainManager) DeleteLink(name1 string, name2 string, domains ...strin
 	roleManager := dm.getRoleManager(domain, true, subdomains...) //create role manager if it does not exist
 	removed, _ := roleManager.DeleteLink(name1, name2, subdomains...)
 
-	if removed && dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domain) {
+	if removed && domain != defaultDomain && dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domain) {
 		dm.rangeMatchingRMs(domain, func(rm IRoleManager) {
 			_, _ = rm.DeleteLink(name1, name2, append(subdomains, REDUNDANT_ROLE)...)
 		})
-- 
2.43.0


From 1741c92b170cd5cbfc867524c0562ed5b63f6f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:56 +0000
Subject: [PATCH 24/44] fix: do not change the role manager while answering
 queries

Queries added temporary roles to the role manager and removed them
afterwards, concurrent queries lost each other's roles and gave wrong
answers, and a failing name matcher left the temporary roles behind.
---
 rbac/domain_manager.go |  5 +--
 rbac/role.go           | 16 --------
 rbac/role_manager.go   | 84 +++++++++++++++++++++---------------------
 3 files changed, 42 insertions(+), 63 deletions(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index 1e41507..bc254d5 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -248,10 +248,7 @@ func (dm *DomainManager) GetDomains(name string) ([]string, error) {
 	res := []string{}
 	for _, domains := range domainArr {
 		rm := dm.resolveRoleManager(domains...)
-		role, created := rm.getRole(name)
-		if created {
-			defer rm.removeRole(role.name)
-		}
+		role := rm.findRole(name)
 		if len(role.getUsers()) > 0 || len(role.getRoles()) > 0 {
 			res = append(res, strings.Join(domains, "/"))
 		}
diff --git a/rbac/role.go b/rbac/role.go
index 05c344a..cec623c 100644
--- a/rbac/role.go
+++ b/rbac/role.go
@@ -125,22 +125,6 @@ func (r *Role) addMatch(role *Role) {
 	role.matchedBy.Store(r.name, r)
 }
 
-func (r *Role) removeMatch(role *Role) {
-	r.matched.Delete(role.name)
-	role.matchedBy.Delete(r.name)
-}
-
-func (r *Role) removeMatches() {
-	r.matched.Range(func(key, value interface{}) bool {
-		r.removeMatch(value.(*Role))
-		return true
-	})
-	r.matchedBy.Range(func(key, value interface{}) bool {
-		value.(*Role).removeMatch(r)
-		return true
-	})
-}
-
 func (r *Role) rangeRoles(fn func(key, value interface{}) bool) {
 	r.roles.Range(fn)
 	r.roles.Range(func(key, value interface{}) bool {
diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index 9133ebd..2fb59e8 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -108,11 +108,9 @@ func (rm *RoleManager) load(name interface{}) (value *Role, ok bool) {
 }
 
 // loads or creates a role
-func (rm *RoleManager) getRole(name string) (r *Role, created bool) {
-	var role *Role
-	var ok bool
-
-	if role, ok = rm.load(name); !ok {
+func (rm *RoleManager) getRole(name string) *Role {
+	role, ok := rm.load(name)
+	if !ok {
 		role = newRole(name)
 		rm.allRoles.Store(name, role)
 
@@ -129,23 +127,30 @@ func (rm *RoleManager) getRole(name string) (r *Role, created bool) {
 			}
 		}
 	}
-
-	return role, !ok
+	return role
 }
 
-func loadAndDelete(m *sync.Map, name string) (value interface{}, loaded bool) {
-	value, loaded = m.Load(name)
-	if loaded {
-		m.Delete(name)
-	}
-	return value, loaded
-}
+// findRole loads a role without changing the role manager.
+// If the role does not exist, a temporary role is returned. A temporary role knows
+// its matching roles and patterns, but it is not known by them.
+func (rm *RoleManager) findRole(name string) *Role {
+	role, ok := rm.load(name)
+	if !ok {
+		role = newRole(name)
 
-func (rm *RoleManager) removeRole(name string) {
-	if role, ok := loadAndDelete(rm.allRoles, name); ok {
-		role.(*Role).removeMatches()
+		if rm.matcher != nil {
+			if rm.matcher.IsPattern(name) {
+				rm.rangeMatchingRoles(name, func(r *Role) {
+					role.matched.Store(r.name, r)
+				})
+			} else {
+				rm.rangeMatchingPatterns(name, func(r *Role) {
+					role.matchedBy.Store(r.name, r)
+				})
+			}
+		}
 	}
-	rm.patternRoles.Delete(name)
+	return role
 }
 
 // SetMatcher support use pattern in g
@@ -174,8 +179,8 @@ func isRedundant(domains []string) bool {
 // AddLink adds the inheritance link between role: name1 and role: name2.
 // aka role: name1 inherits role: name2.
 func (rm *RoleManager) AddLink(name1 string, name2 string, domains ...string) (bool, error) {
-	user, _ := rm.getRole(name1)
-	role, _ := rm.getRole(name2)
+	user := rm.getRole(name1)
+	role := rm.getRole(name2)
 
 	return user.addLink(role, isRedundant(domains)), nil
 }
@@ -183,8 +188,8 @@ func (rm *RoleManager) AddLink(name1 string, name2 string, domains ...string) (b
 // DeleteLink deletes the inheritance link between role: name1 and role: name2.
 // aka role: name1 does not inherit role: name2 any more.
 func (rm *RoleManager) DeleteLink(name1 string, name2 string, domains ...string) (bool, error) {
-	user, _ := rm.getRole(name1)
-	role, _ := rm.getRole(name2)
+	user := rm.getRole(name1)
+	role := rm.getRole(name2)
 
 	return user.removeLink(role, isRedundant(domains)), nil
 }
@@ -195,54 +200,47 @@ func (rm *RoleManager) HasLink(name1 string, name2 string, domains ...string) (b
 		return true, nil
 	}
 
-	user, userCreated := rm.getRole(name1)
-	role, roleCreated := rm.getRole(name2)
-
-	if userCreated {
-		defer rm.removeRole(user.name)
-	}
-	if roleCreated {
-		defer rm.removeRole(role.name)
-	}
+	user := rm.findRole(name1)
+	role := rm.findRole(name2)
 
-	return rm.hasLinkHelper(role.name, map[string]*Role{user.name: user}, rm.maxHierarchyLevel), nil
+	return rm.hasLinkHelper(role, map[string]*Role{user.name: user}, rm.maxHierarchyLevel), nil
 }
 
-func (rm *RoleManager) hasLinkHelper(targetName string, roles map[string]*Role, level int) bool {
+func (rm *RoleManager) hasLinkHelper(target *Role, roles map[string]*Role, level int) bool {
 	if level <= 0 || len(roles) == 0 {
 		return false
 	}
 
 	nextRoles := map[string]*Role{}
 	for _, role := range roles {
-		if targetName == role.name || (rm.matcher != nil && rm.match(role.name, targetName)) {
+		if target.name == role.name || (rm.matcher != nil && rm.match(role.name, target.name)) {
 			return true
 		}
 		role.rangeRoles(func(key, value interface{}) bool {
 			nextRoles[key.(string)] = value.(*Role)
 			return true
 		})
+		target.matchedBy.Range(func(key, _ interface{}) bool {
+			if _, ok := role.roles.Load(key); ok {
+				nextRoles[target.name] = target
+			}
+			return true
+		})
 	}
 
-	return rm.hasLinkHelper(targetName, nextRoles, level-1)
+	return rm.hasLinkHelper(target, nextRoles, level-1)
 }
 
 // GetRoles gets the roles that a user inherits.
 func (rm *RoleManager) GetRoles(name string, domains ...string) ([]string, error) {
-	user, created := rm.getRole(name)
-	if created {
-		defer rm.removeRole(user.name)
-	}
+	user := rm.findRole(name)
 	return user.getRoles(), nil
 }
 
 // GetUsers gets the users of a role.
 // domain is an unreferenced parameter here, may be used in other implementations.
 func (rm *RoleManager) GetUsers(name string, domain ...string) ([]string, error) {
-	role, created := rm.getRole(name)
-	if created {
-		defer rm.removeRole(role.name)
-	}
+	role := rm.findRole(name)
 	return role.getUsers(), nil
 }
 
-- 
2.43.0


From d93a4248fea2dc7c0d51502c1eebb05447d7ccad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 25/44] fix: follow links between two role patterns

Names matching the pattern of a user did not reach the names matching the
pattern of its role.
---
 rbac/role.go         | 34 ++++++++++++++++++++--------------
 rbac/role_manager.go |  4 ++--
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/rbac/role.go b/rbac/role.go
index cec623c..a3d0cee 100644
--- a/rbac/role.go
+++ b/rbac/role.go
@@ -125,30 +125,36 @@ func (r *Role) addMatch(role *Role) {
 	role.matchedBy.Store(r.name, r)
 }
 
-func (r *Role) rangeRoles(fn func(key, value interface{}) bool) {
+// rangeLinkedRoles iterates over the roles, which are linked to r or to a pattern of r
+func (r *Role) rangeLinkedRoles(fn func(key, value interface{}) bool) {
 	r.roles.Range(fn)
-	r.roles.Range(func(key, value interface{}) bool {
-		role := value.(*Role)
-		role.matched.Range(fn)
+	r.matchedBy.Range(func(key, value interface{}) bool {
+		value.(*Role).roles.Range(fn)
 		return true
 	})
+}
+
+// rangeLinkedUsers iterates over the users, which are linked to r or to a pattern of r
+func (r *Role) rangeLinkedUsers(fn func(key, value interface{}) bool) {
+	r.users.Range(fn)
 	r.matchedBy.Range(func(key, value interface{}) bool {
-		role := value.(*Role)
-		role.roles.Range(fn)
+		value.(*Role).users.Range(fn)
 		return true
 	})
 }
 
-func (r *Role) rangeUsers(fn func(key, value interface{}) bool) {
-	r.users.Range(fn)
-	r.users.Range(func(key, value interface{}) bool {
-		role := value.(*Role)
-		role.matched.Range(fn)
+func (r *Role) rangeRoles(fn func(key, value interface{}) bool) {
+	r.rangeLinkedRoles(fn)
+	r.rangeLinkedRoles(func(key, value interface{}) bool {
+		value.(*Role).matched.Range(fn)
 		return true
 	})
-	r.matchedBy.Range(func(key, value interface{}) bool {
-		role := value.(*Role)
-		role.users.Range(fn)
+}
+
+func (r *Role) rangeUsers(fn func(key, value interface{}) bool) {
+	r.rangeLinkedUsers(fn)
+	r.rangeLinkedUsers(func(key, value interface{}) bool {
+		value.(*Role).matched.Range(fn)
 		return true
 	})
 }
diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index 2fb59e8..4c7dff3 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -220,8 +220,8 @@ func (rm *RoleManager) hasLinkHelper(target *Role, roles map[string]*Role, level
 			nextRoles[key.(string)] = value.(*Role)
 			return true
 		})
-		target.matchedBy.Range(func(key, _ interface{}) bool {
-			if _, ok := role.roles.Load(key); ok {
+		role.rangeLinkedRoles(func(key, _ interface{}) bool {
+			if _, ok := target.matchedBy.Load(key); ok {
 				nextRoles[target.name] = target
 			}
 			return true
-- 
2.43.0


From dcf21e6733752eee278b69107251ac50aed75697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:24 +0000
Subject: [PATCH 26/44] fix: stop enumerations when the callback returns false

Model.RangeRules continued with the next policy and role managers with the
next user or domain.
---
 model/model.go         | 24 ++++++++++++++++--------
 rbac/domain_manager.go |  7 ++++---
 rbac/role_manager.go   |  6 ++++--
 3 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/model/model.go b/model/model.go
index 85d0466..780159d 100644
--- a/model/model.go
+++ b/model/model.go
@@ -419,17 +419,25 @@ func (m *Model) String() string {
 }
 
 func (m *Model) RangeRules(fn func(rule []string) bool) {
-	for pKey, p := range m.pMap {
-		ruleKey := []string{pKey}
+	cont := true
+	rangePolicy := func(key string, p policy.IPolicy) bool {
+		ruleKey := []string{key}
 		p.Range(func(rule []string) bool {
-			return fn(append(ruleKey, rule...))
+			cont = fn(append(ruleKey, rule...))
+			return cont
 		})
+		return cont
 	}
-	for gKey, rm := range m.rpMap {
-		ruleKey := []string{gKey}
-		rm.Range(func(rule []string) bool {
-			return fn(append(ruleKey, rule...))
-		})
+
+	for pKey, p := range m.pMap {
+		if !rangePolicy(pKey, p) {
+			return
+		}
+	}
+	for gKey, rp := range m.rpMap {
+		if !rangePolicy(gKey, rp) {
+			return
+		}
 	}
 }
 
diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index bc254d5..822a946 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -292,12 +292,13 @@ func (dm *DomainManager) rangeLinks(rmMap *sync.Map, fn func(name1, name2 string
 			domains = append(domains, d)
 		}
 
+		cont := true
 		roleManager.Range(func(name1, name2 string, domain ...string) bool {
-			fn(name1, name2, append(domains, domain...)...)
-			return true
+			cont = fn(name1, name2, append(domains, domain...)...)
+			return cont
 		})
 
-		return true
+		return cont
 	})
 }
 
diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index 4c7dff3..0bed812 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -257,10 +257,12 @@ func (rm *RoleManager) GetAllDomains() ([]string, error) {
 func rangeLinks(users *sync.Map, fn func(name1, name2 string, domain ...string) bool) {
 	users.Range(func(_, value interface{}) bool {
 		user := value.(*Role)
+		cont := true
 		user.direct.Range(func(key, _ interface{}) bool {
-			return fn(user.name, key.(string))
+			cont = fn(user.name, key.(string))
+			return cont
 		})
-		return true
+		return cont
 	})
 }
 
-- 
2.43.0


From 8d4ce3e0f3746303b35c8589ca9bb9756eb47ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:47 +0000
Subject: [PATCH 27/44] fix: do not mix up cached matches

The cache key joined name and pattern with a separator which both may
contain, so the answer for one pair could be used for another one.
---
 rbac/domain_manager.go | 2 +-
 rbac/role_manager.go   | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index 822a946..e747942 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -87,7 +87,7 @@ func (dm *DomainManager) getDomain(domains ...string) (domain string, subdomains
 }
 
 func (dm *DomainManager) match(str string, pattern string) bool {
-	cacheKey := strings.Join([]string{str, pattern}, "$$")
+	cacheKey := [2]string{str, pattern}
 	if v, has := dm.matchingFuncCache.Get(cacheKey); has {
 		return v.(bool)
 	} else {
diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index 0bed812..e6ca65a 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -15,7 +15,6 @@
 package rbac
 
 import (
-	"strings"
 	"sync"
 
 	"github.com/abichinger/fastac/util"
@@ -69,7 +68,7 @@ func (rm *RoleManager) rebuild() {
 }
 
 func (rm *RoleManager) match(str string, pattern string) bool {
-	cacheKey := strings.Join([]string{str, pattern}, "$$")
+	cacheKey := [2]string{str, pattern}
 	if v, has := rm.matchingFuncCache.Get(cacheKey); has {
 		return v.(bool)
 	} else {
-- 
2.43.0


From b0f86c9337334a2f9da6c876aa42e388fa59fa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 28/44] fix: do not write into the caller's slice of domains

Appending the marker of inherited links overwrote the element behind the
passed domains, if the slice had spare capacity.
---
 rbac/domain_manager.go | 6 +++---
 rbac/role_manager.go   | 5 +++++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index e747942..61ed712 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -149,7 +149,7 @@ func (dm *DomainManager) getRoleManager(domain string, store bool, subdomains ..
 			} else {
 				dm.rangeMatchingPatterns(domain, func(rm2 IRoleManager) {
 					rm2.Range(func(name1, name2 string, domain ...string) bool {
-						_, _ = rm.AddLink(name1, name2, append(domain, REDUNDANT_ROLE)...)
+						_, _ = rm.AddLink(name1, name2, withRedundant(domain)...)
 						return true
 					})
 				})
@@ -171,7 +171,7 @@ func (dm *DomainManager) AddLink(name1 string, name2 string, domains ...string)
 
 	if added && domain != defaultDomain && dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domain) {
 		dm.rangeMatchingRMs(domain, func(rm IRoleManager) {
-			_, _ = rm.AddLink(name1, name2, append(subdomains, REDUNDANT_ROLE)...)
+			_, _ = rm.AddLink(name1, name2, withRedundant(subdomains)...)
 		})
 	}
 	return added, nil
@@ -189,7 +189,7 @@ func (dm *DomainManager) DeleteLink(name1 string, name2 string, domains ...strin
 
 	if removed && domain != defaultDomain && dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domain) {
 		dm.rangeMatchingRMs(domain, func(rm IRoleManager) {
-			_, _ = rm.DeleteLink(name1, name2, append(subdomains, REDUNDANT_ROLE)...)
+			_, _ = rm.DeleteLink(name1, name2, withRedundant(subdomains)...)
 		})
 	}
 	return removed, nil
diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index e6ca65a..40c4e05 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -171,6 +171,11 @@ func (rm *RoleManager) Clear() error {
 	return nil
 }
 
+// withRedundant returns a copy of domains, which marks a link as inherited
+func withRedundant(domains []string) []string {
+	return append(append([]string{}, domains...), REDUNDANT_ROLE)
+}
+
 func isRedundant(domains []string) bool {
 	return len(domains) > 0 && domains[0] == REDUNDANT_ROLE
 }
-- 
2.43.0


From 2f909b941ab8b31e0750d8871533b3cb2db82e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 29/44] fix: copy rules which are passed to the model

The slice of the caller was stored in the policy, the matchers and the
storage queue, modifying it afterwards changed the stored rules.
---
 model/model.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/model/model.go b/model/model.go
index 780159d..2e72c56 100644
--- a/model/model.go
+++ b/model/model.go
@@ -250,6 +250,7 @@ func (m *Model) AddRule(rule []string) (bool, error) {
 	if len(rule) == 0 || rule[0] == "" {
 		return false, errors.New(str.ERR_MISSING_POLICY_KEY)
 	}
+	rule = append([]string{}, rule...) // the caller may reuse the slice
 	key := rule[0]
 	sec := key[0]
 	var added bool
@@ -272,6 +273,7 @@ func (m *Model) RemoveRule(rule []string) (bool, error) {
 	if len(rule) == 0 || rule[0] == "" {
 		return false, errors.New(str.ERR_MISSING_POLICY_KEY)
 	}
+	rule = append([]string{}, rule...) // the caller may reuse the slice
 	key := rule[0]
 	sec := key[0]
 	var removed bool
-- 
2.43.0


From daf288e9dbc2b562de0c60ff8083ae77a9adb7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:19 +0000
Subject: [PATCH 30/44] fix: do not list a rule if the policy is empty

Filter and RangeMatches returned an empty rule, which does not exist, if
the matcher accepts it.
---
 enforcer.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/enforcer.go b/enforcer.go
index f237f89..544d75d 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -306,9 +306,26 @@ func (e *Enforcer) RangeMatches(params []interface{}, fn func(rule []string) boo
 }
 
 func (e *Enforcer) RangeMatchesWithContext(ctx *Context, rvals []interface{}, fn func(rule []string) bool) error {
+	// matchers evaluate an empty policy with an empty rule, which is only relevant for a decision
+	if e.isEmpty(ctx.matcher.GetPolicyKey()) {
+		return nil
+	}
 	return e.model.RangeMatches(ctx.matcher, ctx.rDef, rvals, fn)
 }
 
+func (e *Enforcer) isEmpty(pKey string) bool {
+	policy, ok := e.model.GetPolicy(pKey)
+	if !ok {
+		return false
+	}
+	empty := true
+	policy.Range(func(rule []string) bool {
+		empty = false
+		return false
+	})
+	return empty
+}
+
 func (e *Enforcer) enforce(ctx *Context, rvals []interface{}) (bool, error) {
 	pKey := ctx.matcher.GetPolicyKey()
 	def, ok := e.model.GetDef(m.P_SEC, pKey)
@@ -321,7 +338,7 @@ func (e *Enforcer) enforce(ctx *Context, rvals []interface{}) (bool, error) {
 	matches := [][]string{}
 
 	var eftErr error = nil
-	err := e.RangeMatchesWithContext(ctx, rvals, func(rule []string) bool {
+	err := e.model.RangeMatches(ctx.matcher, ctx.rDef, rvals, func(rule []string) bool {
 		effect := pDef.GetEft(rule)
 
 		effects = append(effects, effect)
-- 
2.43.0


From a0248f427ba59aca0a12fdad7f20caaa431bb214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:19 +0000
Subject: [PATCH 31/44] fix: allow concurrent requests with the default logger

The logger was created on first use without synchronization.
---
 log/log.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log/log.go b/log/log.go
index f7858f5..d70759f 100644
--- a/log/log.go
+++ b/log/log.go
@@ -6,7 +6,7 @@ import (
 	log "github.com/sirupsen/logrus"
 )
 
-var defaultLogger log.FieldLogger
+var defaultLogger log.FieldLogger = NullLogger()
 
 func NullLogger() log.FieldLogger {
 	log := log.New()
-- 
2.43.0


From f3cf15bfffbd5f96230cff74c506dc361681816f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:23 +0000
Subject: [PATCH 32/44] fix: do not share the eval function between requests

Every request stored its eval function in the function map of the model.
Concurrent requests crashed with concurrent map writes or evaluated a sub
rule with the parameters of another request.
---
 model/matcher/matcher.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index c394ecb..afc0f6f 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -238,8 +238,13 @@ func (m *Matcher) rangeMatchesHelper(exprNode *defs.MatcherStage, node *MatcherN
 
 func (m *Matcher) RangeMatches(rDef defs.RequestDef, rvals []interface{}, fMap fm.FunctionMap, fn func(rule []string) bool) error {
 	params := NewMatchParameters(*m.pDef, nil, rDef, rvals)
-	fMap.SetFunction("eval", generateEvalFunction(fMap, params))
-	functions := fMap.GetFunctions()
+
+	// eval depends on the parameters, the function map is shared between requests
+	functions := make(map[string]govaluate.ExpressionFunction)
+	for name, function := range fMap.GetFunctions() {
+		functions[name] = function
+	}
+	functions["eval"] = generateEvalFunction(functions, params)
 
 	_, err := m.rangeMatchesHelper(m.exprRoot, m.root, params, functions, fn)
 	if err != nil {
@@ -257,9 +262,7 @@ func eval(expression string, functions map[string]govaluate.ExpressionFunction,
 	return expr.Eval(parameters)
 }
 
-func generateEvalFunction(fMap fm.FunctionMap, parameters *MatchParameters) govaluate.ExpressionFunction {
-	functions := fMap.GetFunctions()
-
+func generateEvalFunction(functions map[string]govaluate.ExpressionFunction, parameters *MatchParameters) govaluate.ExpressionFunction {
 	return func(args ...interface{}) (interface{}, error) {
 		if err := util.ValidateVariadicArgs(1, args...); err != nil {
 			return false, fmt.Errorf("%s: %s", "eval", err)
-- 
2.43.0


From baa9ab861a86fe8282293d49542c3126075427aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:40 +0000
Subject: [PATCH 33/44] fix: return an error if a function panics while a
 matcher is evaluated

---
 model/matcher/matcher.go | 13 ++++++++++++-
 rbac/role_manager_api.go | 27 ++++++++++++++++-----------
 str/errors.go            |  2 ++
 3 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index afc0f6f..ec14d17 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -194,7 +194,7 @@ func (m *Matcher) rangeMatches(exprNode *defs.MatcherStage, rules map[string]*Ma
 
 	for _, child := range rules {
 		params.pvals = child.rule
-		res, err := expr.Eval(params)
+		res, err := evaluate(expr, params)
 		if err != nil {
 			return false, err
 		}
@@ -254,6 +254,17 @@ func (m *Matcher) RangeMatches(rDef defs.RequestDef, rvals []interface{}, fMap f
 	return nil
 }
 
+// evaluate evaluates expr. A function which panics, because it cannot handle
+// a value of the request or the rule, results in an error
+func evaluate(expr *govaluate.EvaluableExpression, params *MatchParameters) (res interface{}, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			res, err = nil, fmt.Errorf("failed to evaluate matcher: %v", r)
+		}
+	}()
+	return expr.Eval(params)
+}
+
 func eval(expression string, functions map[string]govaluate.ExpressionFunction, parameters *MatchParameters) (interface{}, error) {
 	expr, err := govaluate.NewEvaluableExpressionWithFunctions(expression, functions)
 	if err != nil {
diff --git a/rbac/role_manager_api.go b/rbac/role_manager_api.go
index 62612dd..5f845f8 100644
--- a/rbac/role_manager_api.go
+++ b/rbac/role_manager_api.go
@@ -15,6 +15,9 @@
 package rbac
 
 import (
+	"fmt"
+
+	"github.com/abichinger/fastac/str"
 	"github.com/abichinger/fastac/util"
 	"github.com/abichinger/govaluate"
 )
@@ -53,19 +56,21 @@ type IDefaultRoleManager interface {
 func GenerateGFunction(rm IRoleManager) govaluate.ExpressionFunction {
 
 	return func(args ...interface{}) (interface{}, error) {
-		name1 := args[0].(string)
-		name2 := args[1].(string)
+		if len(args) < 2 {
+			return false, fmt.Errorf(str.ERR_ROLE_FUNCTION_ARGS, len(args))
+		}
+		names := make([]string, len(args))
+		for i, arg := range args {
+			name, ok := arg.(string)
+			if !ok {
+				return false, fmt.Errorf(str.ERR_ROLE_FUNCTION_TYPE, arg)
+			}
+			names[i] = name
+		}
 
 		if rm == nil {
-			return name1 == name2, nil
-		} else if len(args) == 2 {
-			return rm.HasLink(name1, name2)
-		} else {
-			domains := []string{}
-			for _, domain := range args[2:] {
-				domains = append(domains, domain.(string))
-			}
-			return rm.HasLink(name1, name2, domains...)
+			return names[0] == names[1], nil
 		}
+		return rm.HasLink(names[0], names[1], names[2:]...)
 	}
 }
diff --git a/str/errors.go b/str/errors.go
index a124c95..f9449de 100644
--- a/str/errors.go
+++ b/str/errors.go
@@ -25,4 +25,6 @@ const (
 	ERR_INVALID_MODEL        = "invalid model"
 	ERR_MISSING_POLICY_KEY   = "error: rule has no policy key"
 	ERR_ROLE_RULE_TOO_SHORT  = "error: grouping rule needs a user and a role"
+	ERR_ROLE_FUNCTION_ARGS   = "error: role function expected at least 2 arguments, got %d"
+	ERR_ROLE_FUNCTION_TYPE   = "error: role function expected string arguments, got %T"
 )
-- 
2.43.0


From 292ff8cae39d19e62dfee11d008a063e94738544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:48 +0000
Subject: [PATCH 34/44] fix: keep attributes of objects apart from a following
 operator

---
 model/defs/matcher_def.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index 4c295a1..527a4d6 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -153,8 +153,8 @@ func tokensToExpr(tokens []govaluate.ExpressionToken) string {
 		case govaluate.PREFIX, govaluate.CLAUSE, govaluate.FUNCTION:
 			break
 		case govaluate.ACCESSOR:
-			if nextKind == govaluate.CLAUSE {
-				break
+			if nextKind == govaluate.COMPARATOR {
+				res += " "
 			}
 		default:
 			if i != len(tokens)-1 && nextKind != govaluate.CLAUSE_CLOSE && nextKind != govaluate.SEPARATOR {
-- 
2.43.0


From f1077f15a404e0dd334a5d31b4e477195d562d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:36 +0000
Subject: [PATCH 35/44] fix: don't share the evaluation of a stage between
 rules which lack one of its arguments

---
 model/matcher/matcher.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index ec14d17..8145de0 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -136,7 +136,11 @@ func (m *Matcher) stageKey(rule []string, stage *defs.MatcherStage) string {
 	if len(pArgs) == 0 || stage.IsLeafNode() || stage.HasEval() {
 		return util.Hash(rule)
 	}
-	r, _ := m.pDef.GetParameters(rule, pArgs)
+	r, err := m.pDef.GetParameters(rule, pArgs)
+	if err != nil {
+		// without the arguments, the results of different rules may differ
+		return util.Hash(rule)
+	}
 	return util.Hash(r)
 }
 
-- 
2.43.0


From 1c9d264c6285be848163fa4077fb9567d78d9108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:09 +0000
Subject: [PATCH 36/44] fix: saving a policy file replaces a symbolic link
 instead of its target

---
 storage/adapter/fileadapter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/storage/adapter/fileadapter.go b/storage/adapter/fileadapter.go
index 7909b9b..43e4196 100644
--- a/storage/adapter/fileadapter.go
+++ b/storage/adapter/fileadapter.go
@@ -124,6 +124,9 @@ func (a *FileAdapter) LoadPolicy(model api.IAddRuleBool) error {
 // replaceFile atomically replaces the file at path with the content produced by write.
 // The file is unchanged, if an error occurs
 func replaceFile(path string, write func(w *bufio.Writer) error) (err error) {
+	if target, err := filepath.EvalSymlinks(path); err == nil {
+		path = target // replace the file, not the link to it
+	}
 	mode := os.FileMode(0644)
 	if info, err := os.Stat(path); err == nil {
 		mode = info.Mode().Perm()
-- 
2.43.0


From f5d7dcbd88fe784d6f12d3bfd791cc373033a34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:56 +0000
Subject: [PATCH 37/44] fix: listing the matches of a removed policy reports an
 error

---
 enforcer.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/enforcer.go b/enforcer.go
index 544d75d..c00ba5f 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -307,23 +307,24 @@ func (e *Enforcer) RangeMatches(params []interface{}, fn func(rule []string) boo
 
 func (e *Enforcer) RangeMatchesWithContext(ctx *Context, rvals []interface{}, fn func(rule []string) bool) error {
 	// matchers evaluate an empty policy with an empty rule, which is only relevant for a decision
-	if e.isEmpty(ctx.matcher.GetPolicyKey()) {
-		return nil
+	empty, err := e.isEmpty(ctx.matcher.GetPolicyKey())
+	if err != nil || empty {
+		return err
 	}
 	return e.model.RangeMatches(ctx.matcher, ctx.rDef, rvals, fn)
 }
 
-func (e *Enforcer) isEmpty(pKey string) bool {
+func (e *Enforcer) isEmpty(pKey string) (bool, error) {
 	policy, ok := e.model.GetPolicy(pKey)
 	if !ok {
-		return false
+		return false, fmt.Errorf(str.ERR_POLICY_NOT_FOUND, pKey)
 	}
 	empty := true
 	policy.Range(func(rule []string) bool {
 		empty = false
 		return false
 	})
-	return empty
+	return empty, nil
 }
 
 func (e *Enforcer) enforce(ctx *Context, rvals []interface{}) (bool, error) {
-- 
2.43.0


From 8a37878f360b2a5548fa9348d2b322f2f5ceb024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:06 +0000
Subject: [PATCH 38/44] fix: distinct values of a missing column are reported
 as an error instead of a crash

---
 model/policy/policy_api.go | 11 +++++++++++
 str/errors.go              |  1 +
 2 files changed, 12 insertions(+)

diff --git a/model/policy/policy_api.go b/model/policy/policy_api.go
index 45381d1..c25e08d 100644
--- a/model/policy/policy_api.go
+++ b/model/policy/policy_api.go
@@ -1,7 +1,10 @@
 package policy
 
 import (
+	"fmt"
+
 	"github.com/abichinger/fastac/api"
+	"github.com/abichinger/fastac/str"
 	"github.com/abichinger/fastac/util"
 	em "github.com/vansante/go-event-emitter"
 )
@@ -23,14 +26,22 @@ type IPolicy interface {
 
 func GetDistinct(p IPolicy, columns []int) ([][]string, error) {
 	resMap := make(map[string][]string)
+	var err error
 	p.Range(func(rule []string) bool {
 		values := make([]string, len(columns))
 		for i, column := range columns {
+			if column < 0 || column >= len(rule) {
+				err = fmt.Errorf(str.ERR_INVALID_COLUMN, column)
+				return false
+			}
 			values[i] = rule[column]
 		}
 		resMap[util.Hash(values)] = values
 		return true
 	})
+	if err != nil {
+		return nil, err
+	}
 	res := make([][]string, 0)
 	for _, values := range resMap {
 		res = append(res, values)
diff --git a/str/errors.go b/str/errors.go
index f9449de..ae9fb0b 100644
--- a/str/errors.go
+++ b/str/errors.go
@@ -24,6 +24,7 @@ const (
 	ERR_EFFECTOR_NOT_FOUND   = "error: effect definition %s not found"
 	ERR_INVALID_MODEL        = "invalid model"
 	ERR_MISSING_POLICY_KEY   = "error: rule has no policy key"
+	ERR_INVALID_COLUMN       = "error: rule has no column %d"
 	ERR_ROLE_RULE_TOO_SHORT  = "error: grouping rule needs a user and a role"
 	ERR_ROLE_FUNCTION_ARGS   = "error: role function expected at least 2 arguments, got %d"
 	ERR_ROLE_FUNCTION_TYPE   = "error: role function expected string arguments, got %T"
-- 
2.43.0


From 311d514b9255a0c3b0a003a91a0ffaf650728a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:56 +0000
Subject: [PATCH 39/44] fix: matchers about grouping rules with several domain
 levels read the wrong columns

---
 model/model.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/model/model.go b/model/model.go
index 2e72c56..85f145e 100644
--- a/model/model.go
+++ b/model/model.go
@@ -233,7 +233,14 @@ func (m *Model) BuildMatcherFromDef(mDef *defs.MatcherDef) (matcher.IMatcher, er
 		}
 		pDef = def.(*defs.PolicyDef)
 	case G_SEC:
-		pDef = defs.NewPolicyDef(pKey, "user, role, domain")
+		args := "user, role, domain"
+		if def, ok := m.defs[G_SEC][pKey].(*defs.RoleDef); ok {
+			// further domain levels: domain2, domain3, ...
+			for i := 4; i <= def.NArgs(); i++ {
+				args += fmt.Sprintf(", domain%d", i-2)
+			}
+		}
+		pDef = defs.NewPolicyDef(pKey, args)
 	default:
 		return nil, fmt.Errorf(str.ERR_POLICY_NOT_FOUND, pKey)
 	}
-- 
2.43.0


From 286cf030695c6c27d5590b0f75ff66bf88630541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:50 +0000
Subject: [PATCH 40/44] fix: concurrent requests can share a matcher definition

---
 model/defs/matcher_def.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index 527a4d6..8772d9c 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -6,6 +6,7 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/abichinger/govaluate"
@@ -78,6 +79,7 @@ type MatcherDef struct {
 	key  string
 	expr string
 	root *MatcherStage
+	mu   sync.RWMutex // guards root, a definition may be built by concurrent requests
 }
 
 //nextOperator returns the index of the next logical operator, or -1
@@ -199,7 +201,7 @@ func buildExprTree(node *MatcherStage, tokens []govaluate.ExpressionToken, and [
 }
 
 func NewMatcherDef(key string, expr string) *MatcherDef {
-	return &MatcherDef{key, expr, nil}
+	return &MatcherDef{key: key, expr: expr}
 }
 
 func (def *MatcherDef) Build(functions map[string]govaluate.ExpressionFunction) (err error) {
@@ -216,16 +218,25 @@ func (def *MatcherDef) Build(functions map[string]govaluate.ExpressionFunction)
 		}
 	}()
 
-	def.root = NewMatcherStage("")
+	root := NewMatcherStage("")
 	expr := EscapeArgs(def.expr)
 	parsedExpr, err := govaluate.NewEvaluableExpressionWithFunctions(expr, functions)
 	if err != nil {
 		return err
 	}
-	return buildExprTree(def.root, parsedExpr.Tokens(), nil)
+	if err := buildExprTree(root, parsedExpr.Tokens(), nil); err != nil {
+		return err
+	}
+
+	def.mu.Lock()
+	defer def.mu.Unlock()
+	def.root = root
+	return nil
 }
 
 func (def *MatcherDef) Root() *MatcherStage {
+	def.mu.RLock()
+	defer def.mu.RUnlock()
 	return def.root
 }
 
@@ -234,11 +245,11 @@ func (def *MatcherDef) GetKey() string {
 }
 
 func (def *MatcherDef) GetPolicyArgs() []string {
-	return def.root.RecursivePolicyArgs()
+	return def.Root().RecursivePolicyArgs()
 }
 
 func (def *MatcherDef) GetRequestArgs() []string {
-	return def.root.RecursiveRequestArgs()
+	return def.Root().RecursiveRequestArgs()
 }
 
 func (def *MatcherDef) GetPolicyKey() string {
-- 
2.43.0


From e6add3aeff41b4b79d209d7e46af160db459782e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:58 +0000
Subject: [PATCH 41/44] fix: a rule without an argument of a stage shares the
 results of another rule whose arguments read alike

---
 model/matcher/matcher.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 8145de0..4ddf50d 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -138,8 +138,9 @@ func (m *Matcher) stageKey(rule []string, stage *defs.MatcherStage) string {
 	}
 	r, err := m.pDef.GetParameters(rule, pArgs)
 	if err != nil {
-		// without the arguments, the results of different rules may differ
-		return util.Hash(rule)
+		// without the arguments, the results of different rules may differ,
+		// the prefix is not the start of any hash
+		return `\-` + util.Hash(rule)
 	}
 	return util.Hash(r)
 }
-- 
2.43.0


From 1d9e9b6817a1b6fc695b195d2b7900684c974d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:00 +0000
Subject: [PATCH 42/44] fix: models made at the same time race on the map of
 global functions

---
 model/fm/global.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/model/fm/global.go b/model/fm/global.go
index 5fc592f..f22fc61 100644
--- a/model/fm/global.go
+++ b/model/fm/global.go
@@ -2,12 +2,9 @@ package fm
 
 import "github.com/abichinger/govaluate"
 
-var globalFns *FunctionMap
+var globalFns = NewFunctionMap()
 
 func getGlobalFunctionMap() *FunctionMap {
-	if globalFns == nil {
-		globalFns = NewFunctionMap()
-	}
 	return globalFns
 }
 
-- 
2.43.0


From f6e5286885ae5e31adc39a2fcac542b453679a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:34 +0000
Subject: [PATCH 43/44] fix: PathMatchHelper takes only the first character of
 a longer separator off

---
 util/builtin_operators.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/builtin_operators.go b/util/builtin_operators.go
index f6b7bcf..38ce25f 100755
--- a/util/builtin_operators.go
+++ b/util/builtin_operators.go
@@ -150,10 +150,10 @@ func WrapMatchingFunc(fn MatchingFunc) govaluate.ExpressionFunction {
 
 func nextSegment(path, sep string) (seg string, remaining string, last bool) {
 	i := strings.Index(path, sep)
-	if i == -1 {
+	if i == -1 || sep == "" {
 		return path, "", true
 	}
-	return path[:i], path[i+1:], false
+	return path[:i], path[i+len(sep):], false
 }
 
 func isDynamicSegment(segment string, prefix, suffix byte) bool {
-- 
2.43.0


From 7dea3df5e91217515713a08b929a3c93c8dfcef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:49 +0000
Subject: [PATCH 44/44] fix: a segment * of a path ends what * of the pattern
 stands for

---
 util/builtin_operators.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/util/builtin_operators.go b/util/builtin_operators.go
index 38ce25f..9aeb9fe 100755
--- a/util/builtin_operators.go
+++ b/util/builtin_operators.go
@@ -175,12 +175,6 @@ func PathMatchHelper(path, pattern, sep string, prefix, suffix byte) bool {
 	pathS, path, lastPathSeg = nextSegment(path, sep)
 	patternS, pattern, lastPatternSeg = nextSegment(pattern, sep)
 
-	if pathS == patternS || isDynamicSegment(patternS, prefix, suffix) {
-		if lastPathSeg != lastPatternSeg {
-			return false
-		}
-		return PathMatchHelper(path, pattern, sep, prefix, suffix)
-	}
 	if patternS == "*" {
 		if !lastPatternSeg && lastPathSeg {
 			return false
@@ -188,6 +182,12 @@ func PathMatchHelper(path, pattern, sep string, prefix, suffix byte) bool {
 		return PathMatchHelper(path, pattern, sep, prefix, suffix) ||
 			PathMatchHelper(path, "*"+sep+pattern, sep, prefix, suffix)
 	}
+	if pathS == patternS || isDynamicSegment(patternS, prefix, suffix) {
+		if lastPathSeg != lastPatternSeg {
+			return false
+		}
+		return PathMatchHelper(path, pattern, sep, prefix, suffix)
+	}
 	return false
 }
 
-- 
2.43.0

