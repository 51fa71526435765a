------------------------------ MODULE RbacImpl ------------------------------
(* How rbac/ keeps the links: one role manager per domain that was ever mentioned in a change,   *)
(* links which a domain receives through a domain pattern are counted apart from those stored for  *)
(* it, names which match a name pattern are found when either is first mentioned. Every change has *)
(* to keep the answers those of Rbac.                                                       *)
(*   rm    domain -> [dir: links stored, red: link -> how many patterns give it,               *)
(*                    known: names mentioned, mat: <<name, pattern>> found]                   *)
(*   pats  domain patterns among the domains mentioned, as far as the matcher knew them        *)
(* Variants, all of which must be refuted:                                                  *)
(*   shared     links stored and links received are not told apart                             *)
(*   once       it is not counted how many patterns give a link                                *)
(*   late       a domain mentioned later does not receive the links of patterns                  *)
(*   default    the links of patterns are given to the domain without a name                     *)
(*   keep       installing a matcher keeps the links received with the one before                 *)
(*   lateName   a name mentioned after a pattern does not take part                              *)
(*   latePat    a pattern mentioned after a name does not apply to it                            *)
(*   ask        a name in a question is found only if it was mentioned in a change                *)
(*   pass       a chain does not continue through the patterns of a name on the way               *)
(*   level      a chain may be one link too long                                              *)
EXTENDS Rbac
CONSTANTS Variant, Universe
VARIABLES m, rm, pats
vars == <<m, rm, pats>>

Dom == Universe = "dom"
Limit == IF Dom THEN 4 ELSE 3
NoD == "-"      \* the domain without a name
Names == IF Dom THEN {"a", "r"} ELSE {"a", "b", "c", "P"}
Domains == IF Dom THEN {NoD, "d", "e", "D", "E"} ELSE {NoD}
IsPat(x) == x \in {"P", "D", "E"}
NmSets == IF Dom THEN {{}} ELSE {{}, {<<"b", "P">>, <<"c", "P">>}, {<<"a", "P">>}}
DmSets == IF Dom THEN {{}, {<<"d", "D">>, <<"e", "D">>, <<"d", "E">>}, {<<"e", "E">>}} ELSE {{}}
Path(d) == IF d = NoD THEN << >> ELSE <<d>>
LinkSet == {l \in Names \X Names : l[1] # l[2] /\ (Dom => l = <<"a", "r">> \/ l = <<"r", "a">>)}

(* ---- one role manager ---- *)
New == [dir |-> {}, red |-> [l \in LinkSet |-> 0], known |-> {}, mat |-> {}]
Mention(r, nm, n) ==
  IF n \in r.known THEN r
  ELSE [r EXCEPT !.known = @ \cup {n},
                 !.mat = @ \cup (IF IsPat(n) THEN (IF Variant = "latePat" THEN {} ELSE {pr \in nm : pr[2] = n /\ pr[1] \in r.known})
                                 ELSE (IF Variant = "lateName" THEN {} ELSE {pr \in nm : pr[1] = n /\ pr[2] \in r.known}))]
Both(r, nm, l) == Mention(Mention(r, nm, l[1]), nm, l[2])
Give(r, nm, l) == [Both(r, nm, l) EXCEPT !.red[l] = IF Variant = "once" THEN 1 ELSE IF Variant = "shared" THEN 0 ELSE @ + 1,
                                         !.dir = IF Variant = "shared" THEN @ \cup {l} ELSE @]
Take(r, nm, l) == [Both(r, nm, l) EXCEPT !.red[l] = IF @ = 0 \/ Variant = "once" THEN 0 ELSE @ - 1,
                                         !.dir = IF Variant = "shared" THEN @ \ {l} ELSE @]
RECURSIVE GiveAll(_, _, _)
GiveAll(r, nm, ls) == IF ls = {} THEN r ELSE LET l == CHOOSE x \in ls : TRUE IN GiveAll(Give(r, nm, l), nm, ls \ {l})
RECURSIVE FromPats(_, _, _, _)
FromPats(r, nm, f, ps) == IF ps = {} THEN r ELSE LET p == CHOOSE x \in ps : TRUE IN FromPats(GiveAll(r, nm, f[p].dir), nm, f, ps \ {p})
(* the manager of a domain, made if there is none *)
ManagerOf(f, ps, nm, dm, d) ==
  IF d \in DOMAIN f THEN f[d]
  ELSE IF (d = NoD /\ Variant # "default") \/ IsPat(d) \/ Variant = "late" THEN New
  ELSE FromPats(New, nm, f, {p \in ps : IF d = NoD THEN TRUE ELSE <<d, p>> \in dm})
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
(* what = "add" or "del" *)
Change(f, ps, nm, dm, what, l, d) ==
  LET r == ManagerOf(f, ps, nm, dm, d)
      eff == (l \in r.dir) = (what = "del")
      b == Both(r, nm, l)
      r2 == [b EXCEPT !.dir = IF what = "add" THEN @ \cup {l} ELSE @ \ {l}]
      f2 == Upd(f, d, r2)
      on == dm # {} /\ IsPat(d)
      to == {x \in DOMAIN f2 : (x # NoD \/ Variant = "default") /\ x # d /\ (IF x = NoD THEN TRUE ELSE <<x, d>> \in dm)}
  IN [f |-> IF eff /\ on THEN [x \in DOMAIN f2 |-> IF x \in to THEN (IF what = "add" THEN Give(f2[x], nm, l) ELSE Take(f2[x], nm, l)) ELSE f2[x]] ELSE f2,
      ps |-> IF on /\ d \notin DOMAIN f THEN ps \cup {d} ELSE ps, ok |-> eff]
RECURSIVE AddAll(_, _, _, _, _)
AddAll(f, ps, nm, dm, ls) ==
  IF ls = {} THEN [f |-> f, ps |-> ps]
  ELSE LET x == CHOOSE y \in ls : TRUE
           c == Change(f, ps, nm, dm, "add", x[1], x[2]) IN AddAll(c.f, c.ps, nm, dm, ls \ {x})
Stored(f) == UNION {{<<l, d>> : l \in f[d].dir} : d \in DOMAIN f}
(* a matcher for names: each manager is filled again from its links *)
Refill(r, nm) == LET a == [r EXCEPT !.known = {}, !.mat = {}]
                        ends == UNION {{l[1], l[2]} : l \in r.dir \cup {x \in LinkSet : r.red[x] > 0}} IN
                    FoldLeft(LAMBDA x, y : Mention(x, nm, y), a, SetToSeq(ends))

(* ---- questions ---- *)
HasRole(r, x) == {l[2] : l \in {y \in r.dir \cup {z \in LinkSet : r.red[z] > 0} : y[1] = x}}
HasUser(r, x) == {l[1] : l \in {y \in r.dir \cup {z \in LinkSet : r.red[z] > 0} : y[2] = x}}
\* patterns of a name and names of a pattern; a name nobody has mentioned is looked up
MatchedBy(r, nm, x) == {pr[2] : pr \in {q \in (IF x \in r.known THEN r.mat ELSE IF Variant = "ask" THEN {} ELSE {p \in nm : p[2] \in r.known}) : q[1] = x}}
Matched(r, x) == {pr[1] : pr \in {q \in r.mat : q[2] = x}}
LinkedRoles(r, nm, x) == HasRole(r, x) \cup (UNION {HasRole(r, p) : p \in MatchedBy(r, nm, x)})
LinkedUsers(r, nm, x) == HasUser(r, x) \cup (UNION {HasUser(r, p) : p \in MatchedBy(r, nm, x)})
Wide(r, s) == s \cup (IF Variant = "pass" THEN {} ELSE UNION {Matched(r, y) : y \in s})
RECURSIVE Search(_, _, _, _, _)
Search(r, nm, t, xs, level) ==
  IF level <= 0 \/ xs = {} THEN FALSE
  ELSE \/ \E x \in xs : x = t \/ <<x, t>> \in nm
       \/ Search(r, nm, t, UNION {Wide(r, LinkedRoles(r, nm, x)) \cup (IF LinkedRoles(r, nm, x) \cap MatchedBy(r, nm, t) # {} THEN {t} ELSE {}) : x \in xs}, level - 1)
AskLink(f, ps, nm, dm, x, t, d) ==
  x = t \/ <<x, t>> \in nm \/ Search(ManagerOf(f, ps, nm, dm, d), nm, t, {x}, Limit - (IF Dom THEN (IF d = NoD THEN 1 ELSE 2) ELSE 0) + (IF Variant = "level" THEN 1 ELSE 0))

(* ---- histories ---- *)
Init == m = NewManager(IF Dom THEN "dm" ELSE "rm", Limit) /\ rm = << >> /\ pats = {}
Do(what, l, d) == LET c == Change(rm, pats, m.nm, m.dm, what, l, d) IN
                  /\ rm' = c.f /\ pats' = c.ps
                  /\ m' = IF what = "add" THEN AddLink(m, Link(l[1], l[2], Path(d))) ELSE DelLink(m, Link(l[1], l[2], Path(d)))
InstallNM(nm) == nm # m.nm /\ m' = SetNM(m, nm) /\ pats' = pats /\ rm' = [d \in DOMAIN rm |-> Refill(rm[d], nm)]
InstallDM(dm) == dm # m.dm /\ m' = SetDM(m, dm)
                 /\ IF Variant = "keep" THEN rm' = rm /\ pats' = {d \in DOMAIN rm : IsPat(d) /\ dm # {}}
                    ELSE LET a == AddAll(<< >>, {}, m.nm, dm, Stored(rm)) IN rm' = a.f /\ pats' = a.ps
Next == \/ \E what \in {"add", "del"}, l \in LinkSet, d \in Domains : Do(what, l, d)
        \/ \E nm \in NmSets : InstallNM(nm)
        \/ \E dm \in DmSets : InstallDM(dm)
Spec == Init /\ [][Next]_vars

(* ---- the answers ---- *)
Asked == Domains \ {"D", "E"}
People == Names \ {"P"}
SameLinks == Stored(rm) = {<<<<l.u, l.r>>, IF l.d = << >> THEN NoD ELSE l.d[1]>> : l \in m.links}
SameAnswers == \A d \in Asked : \A x, t \in People : AskLink(rm, pats, m.nm, m.dm, x, t, d) = HasLink(m, x, t, Path(d))
SameLists == \A d \in Asked : \A x \in People :
  LET r == ManagerOf(rm, pats, m.nm, m.dm, d)
      roles == Wide(r, LinkedRoles(r, m.nm, x))
      users == Wide(r, LinkedUsers(r, m.nm, x)) IN
  /\ RolesMust(m, x, Path(d)) \subseteq roles /\ roles \subseteq RolesMay(m, x, Path(d))
  /\ UsersMust(m, x, Path(d)) \subseteq users /\ users \subseteq UsersMay(m, x, Path(d))
SameReplies == \A l \in LinkSet, d \in Domains : \A what \in {"add", "del"} :
  Change(rm, pats, m.nm, m.dm, what, l, d).ok = ((Link(l[1], l[2], Path(d)) \in m.links) = (what = "del"))
=============================================================================
