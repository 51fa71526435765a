-------------------------------- MODULE Rbac --------------------------------
(* Role managers as their callers see them (rbac/).                                      *)
(*                                                                                       *)
(* A manager is a record                                                                 *)
(*   kind   "rm" (RoleManager, no domains) or "dm" (DomainManager)                       *)
(*   limit  the hierarchy limit it was created with                                      *)
(*   links  set of [u, r, d]: u inherits r in domain d (a sequence, << >> = no domain)   *)
(*   nm     set of <<name, pattern>>: name matches the role name pattern                 *)
(*   dm     set of <<domain, pattern>>: the domain matches the domain pattern            *)
(* nm and dm are the match relations of the matchers now installed ({} without matcher). *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt

NewManager(kind, limit) == [kind |-> kind, limit |-> limit, links |-> {}, nm |-> {}, dm |-> {}]
Link(u, r, d) == [u |-> u, r |-> r, d |-> d]

(* ---- domains: a link stored for `have` acts in the concrete domain `want` ---- *)
DomOK(m, have, want) == /\ Len(have) = Len(want)
                        /\ \A i \in 1..Len(have) : have[i] = want[i] \/ <<want[i], have[i]>> \in m.dm
Edges(m, d) == {<<l.u, l.r>> : l \in {x \in m.links : DomOK(m, x.d, d)}}

(* ---- names: x acts as itself and as every pattern it matches ---- *)
As(m, x) == {x} \cup {pr[2] : pr \in {q \in m.nm : q[1] = x}}
Matching(m, P) == {pr[1] : pr \in {q \in m.nm : q[2] \in P}}
Roles1(m, E, x) == LET a == As(m, x) IN {e[2] : e \in {f \in E : f[1] \in a}}
Users1(m, E, x) == LET a == As(m, x) IN {e[1] : e \in {f \in E : f[2] \in a}}
Succ(m, E, x) == LET b == Roles1(m, E, x) IN b \cup Matching(m, b)

RECURSIVE ReachIn(_, _, _, _)
ReachIn(m, E, S, k) == IF k <= 0 THEN S
                       ELSE LET n == S \cup UNION {Succ(m, E, x) : x \in S}
                            IN IF n = S THEN S ELSE ReachIn(m, E, n, k - 1)
(* number of links a chain may have: one less than the limit of the manager of the domain *)
MaxChain(m, d) == IF m.kind = "rm" THEN m.limit - 1 ELSE m.limit - 2 - Len(d)

HasLink(m, x, t, d) ==
  \/ x = t
  \/ <<x, t>> \in m.nm
  \/ \E y \in ReachIn(m, Edges(m, d), {x}, MaxChain(m, d)) : y = t \/ <<y, t>> \in m.nm

(* ---- listings. Without name patterns Must = May = the direct neighbours. With patterns ---- *)
(* a listing may also name concrete names that match a pattern listed, and has to if they   *)
(* occur in a stored link of the domain                                                     *)
Known(E) == {e[1] : e \in E} \cup {e[2] : e \in E}
RolesMust(m, x, d) == LET E == Edges(m, d)
                          b == Roles1(m, E, x) IN b \cup (Matching(m, b) \cap Known(E))
RolesMay(m, x, d) == LET b == Roles1(m, Edges(m, d), x) IN b \cup Matching(m, b)
UsersMust(m, x, d) == LET E == Edges(m, d)
                          b == Users1(m, E, x) IN b \cup (Matching(m, b) \cap Known(E))
UsersMay(m, x, d) == LET b == Users1(m, Edges(m, d), x) IN b \cup Matching(m, b)

(* domains in which links are stored, and those among them in which x has a link *)
AllDomains(m) == {l.d : l \in m.links}
DomainsOf(m, x) == {d \in AllDomains(m) : LET E == Edges(m, d) IN Roles1(m, E, x) # {} \/ Users1(m, E, x) # {}}

(* ---- actions ---- *)
AddLink(m, l) == [m EXCEPT !.links = @ \cup {l}]
DelLink(m, l) == [m EXCEPT !.links = @ \ {l}]
ClearLinks(m) == [m EXCEPT !.links = {}]
SetNM(m, pairs) == [m EXCEPT !.nm = pairs]
SetDM(m, pairs) == [m EXCEPT !.dm = pairs]
=============================================================================
