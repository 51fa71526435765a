----------------------------- MODULE RbacSteps -----------------------------
(* Events of a role manager history: next state and allowed replies.                       *)
(*   init       kind, limit, nms / dms: sequences of match relations (sequences of pairs)   *)
(*   add, del   u, r, d            reply ok                                                *)
(*   has        u, r, d            reply ok                                                *)
(*   roles, users  u, d            reply names (a sequence)                                *)
(*   domains    u                  reply domains (a sequence of paths)                     *)
(*   alldomains                    reply domains                                           *)
(*   range      stop               reply links: links seen until the stop-th (0 = all)     *)
(*   clear                                                                                 *)
(*   setnm, setdm  i               install the i-th match relation (0 = no matcher)        *)
EXTENDS Rbac
RbacInit(e) == [m |-> NewManager(e.kind, e.limit),
                nms |-> [i \in 1..Len(e.nms) |-> ToSet(e.nms[i])],
                dms |-> [i \in 1..Len(e.dms) |-> ToSet(e.dms[i])]]
RbacStep(s, e) ==
  CASE e.op = "add"   -> [s EXCEPT !.m = AddLink(@, Link(e.u, e.r, e.d))]
    [] e.op = "del"   -> [s EXCEPT !.m = DelLink(@, Link(e.u, e.r, e.d))]
    [] e.op = "clear" -> [s EXCEPT !.m = ClearLinks(@)]
    [] e.op = "setnm" -> [s EXCEPT !.m = SetNM(@, IF e.i = 0 THEN {} ELSE s.nms[e.i])]
    [] e.op = "setdm" -> [s EXCEPT !.m = SetDM(@, IF e.i = 0 THEN {} ELSE s.dms[e.i])]
    [] OTHER          -> s
NoDup(q) == Cardinality(ToSet(q)) = Len(q)
Between(q, must, may) == must \subseteq ToSet(q) /\ ToSet(q) \subseteq may
LinkSeqOK(s, q, stop) ==
  LET got == {Link(x.u, x.r, x.d) : x \in ToSet(q)}
      n == Cardinality(s.m.links)
  IN /\ Cardinality(got) = Len(q)
     /\ got \subseteq s.m.links
     /\ Len(q) = IF stop > 0 /\ stop < n THEN stop ELSE n
RbacConforms(s, e) ==
  LET m == s.m
      r == e.res
  IN IF "panic" \in DOMAIN r \/ r.err THEN FALSE
     ELSE CASE e.op = "add" -> r.ok = (Link(e.u, e.r, e.d) \notin m.links)
            [] e.op = "del" -> r.ok = (Link(e.u, e.r, e.d) \in m.links)
            [] e.op = "has" -> r.ok = HasLink(m, e.u, e.r, e.d)
            [] e.op = "roles" -> Between(r.names, RolesMust(m, e.u, e.d), RolesMay(m, e.u, e.d)) /\ (m.nm = {} => NoDup(r.names))
            [] e.op = "users" -> Between(r.names, UsersMust(m, e.u, e.d), UsersMay(m, e.u, e.d)) /\ (m.nm = {} => NoDup(r.names))
            [] e.op = "domains" -> NoDup(r.domains) /\ ToSet(r.domains) = (IF m.kind = "rm" THEN {} ELSE DomainsOf(m, e.u))
            [] e.op = "alldomains" -> NoDup(r.domains) /\ ToSet(r.domains) = (IF m.kind = "rm" THEN {} ELSE AllDomains(m))
            [] e.op = "range" -> LinkSeqOK(s, r.links, e.stop)
            [] OTHER -> TRUE
(* for the report *)
RbacExpected(s, e) ==
  LET m == s.m IN
  CASE e.op = "add" -> [ok |-> Link(e.u, e.r, e.d) \notin m.links]
    [] e.op = "del" -> [ok |-> Link(e.u, e.r, e.d) \in m.links]
    [] e.op = "has" -> [ok |-> HasLink(m, e.u, e.r, e.d), links |-> m.links]
    [] e.op = "roles" -> [must |-> RolesMust(m, e.u, e.d), may |-> RolesMay(m, e.u, e.d)]
    [] e.op = "users" -> [must |-> UsersMust(m, e.u, e.d), may |-> UsersMay(m, e.u, e.d)]
    [] e.op = "domains" -> [domains |-> DomainsOf(m, e.u)]
    [] e.op = "alldomains" -> [domains |-> AllDomains(m)]
    [] OTHER -> [links |-> m.links]
=============================================================================
