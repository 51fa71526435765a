#!/usr/bin/env python3
"""Single source of properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, state, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

prop("C01", "A decision is the effect over exactly the matching rules",
 "Enforce answers allow exactly when the policy effect in force holds over the set of stored rules that the matcher accepts for the request: 'some allow' needs at least one allowing match, 'no deny' needs no denying match, the combination needs both. A rule allows if the policy has no effect column or the column is empty or 'allow', denies if it is 'deny', and otherwise does neither; a policy without any rule is judged as if it held one rule whose columns are all empty. An effector supplied by the caller is given the effect of each matching rule, together with the rule, and of no other, and its verdict (or its error) is the answer. The answer never depends on the order in which rules were added or are visited, nor on rules that do not match.",
 ["inputs", "histories", "configurations"],
 "for every model (request, policy, effect and matcher definitions, including several of each), every set of well-formed rules in every insertion order, and every request, also with per-request options",
 "model_test.go and enforcer_test.go check fixed requests on the example policies, never with a rule of a third effect next to an allow, and map iteration order makes an order-dependent answer pass most runs",
 ["enforcer.go", "model/effector/default_effector.go", "model/defs/defs.go", "model/matcher/matcher.go"],
 [("matching rules", "the rules the matcher accepts for this request", "Enforcer.enforce"), ("effects", "effects merged so far", "Enforcer.enforce / MergeEffects")],
 [("incremental merge with early exit, final merge on completion", "DefaultEffector.MergeEffects"), ("effect column reading", "PolicyDef.GetEft")],
 ["Enforcer.Enforce / EnforceWithContext result"])

prop("C02", "Matching sees exactly the rules currently stored",
 "After any history of adding, removing, clearing and loading rules, every matcher - named in the model or supplied with the request, over policy or grouping rules, built before or after the changes - finds for a request every stored rule that satisfies it and no other rule. In particular a removed or cleared rule never grants or shows up again, an added rule takes effect at once, and a policy without rules yields no rule to a query that lists matches.",
 ["histories", "inputs", "configurations"],
 "for every sequence of rule additions, removals, clears and loads (single and bulk, repeated and interleaved), every set of live matchers, every request",
 "the tests add rules, query, and at most remove one rule of a flat matcher; the index tree of staged matchers and its removal path are only exercised on the way up",
 ["model/matcher/matcher.go", "model/policy/policy.go", "rbac/role_policy.go", "model/model.go", "enforcer.go"],
 [("rule set", "the rules of each policy key", "Policy.ruleMap / RoleManager links"), ("index tree", "per matcher tree of rules by stage key", "Matcher.root")],
 [("listeners keep each matcher's tree in step with the policy", "NewMatcher, addRuleHelper, removeRuleHelper"), ("clear event", "Policy.Clear / RolePolicy.Clear")],
 ["Enforcer.Filter / RangeMatches / Enforce results after each change"])

prop("C03", "A matcher means what its expression says",
 "A matcher accepts a rule for a request exactly when its expression, read as ordinary Boolean logic with && binding tighter than ||, brackets, negation and the ternary conditional, is true for that rule and request. This holds however the expression is nested, spaced or ordered and however many alternatives it has, for attribute access with '.' or '_', and for literals of any content: text with quotes, backslashes or text that looks like an attribute, large and small numbers, regular expressions; a sub-rule passed to eval is read the same way.",
 ["programs", "inputs"],
 "for every matcher expression over rule and request attributes, constants and functions that the expression language accepts, every rule and every request for which its evaluation raises no error",
 "matcher_test.go and defs_test.go build a dozen fixed expressions; precedence, re-serialisation and slice sharing faults need particular shapes and literals",
 ["model/defs/matcher_def.go", "model/defs/defs.go", "model/matcher/matcher.go"],
 [("stage tree", "the expression split at && and || into a tree of stages", "MatcherDef.root")],
 [("splitting", "buildExprTree / nextOperator"), ("re-serialisation of tokens", "tokensToExpr"), ("attribute rewriting", "ArgReg, pArgReg, rArgReg"), ("evaluation along the tree", "Matcher.rangeMatches / rangeMatchesHelper")],
 ["Enforcer.Filter with a matcher string; Enforcer.Enforce"])

prop("C04", "A failing evaluation never grants and never looks like success",
 "If deciding a request raises an error - a matcher or function that fails or panics on a rule or request value, a missing attribute, an unsupported effect - then Enforce never returns allow together with that error, and it returns a decision without an error only if the failing evaluation could not have changed that decision. Listing the matches of a request reports an error instead of a list from which matching rules may be missing. The enforcer stays usable: later requests are answered as if the failed one had never happened.",
 ["inputs", "fault_sequences"],
 "for every matcher, effect and rule set, every position at which an evaluation can fail (first stage, nested stage, any rule), every request value including ones of the wrong type",
 "no test makes an evaluation fail; nested stages and custom functions fail only for particular rules",
 ["enforcer.go", "model/matcher/matcher.go", "rbac/role_manager_api.go", "util/builtin_operators.go", "model/effector/default_effector.go"],
 [("pending error", "the error of the evaluation in progress", "rangeMatchesHelper, Enforcer.enforce")],
 [("error propagation through the stage callbacks", "Matcher.rangeMatchesHelper"), ("error check before the decision", "Enforcer.enforce")],
 ["Enforcer.Enforce / Filter result and error"])

prop("C05", "The rule set behaves as a set of exact rules",
 "Adding a rule reports true exactly if it was absent, removing reports true exactly if it was present, two rules are the same only if all their columns are equal, and enumeration yields every stored rule exactly once and nothing else. Each effective change is announced exactly once to listeners, after it took effect, ineffective calls announce nothing; clearing a policy removes its rules and only its rules. Rules are values: changing a slice after handing it in does not change what is stored, and clearing, distinct-value listing and bulk operations follow the same set semantics.",
 ["histories", "inputs"],
 "for every sequence of AddRule(s), RemoveRule(s), ClearPolicy and enumeration over several policy and role definitions, every column content including separators, quotes and empty text",
 "tests use plain alphanumeric columns, short sequences and one policy key; they do not look at events, slice reuse or separator characters",
 ["model/model.go", "model/policy/policy.go", "model/policy/policy_api.go", "rbac/role_policy.go", "util/util.go", "enforcer.go"],
 [("rule set", "stored rules per key", "Policy.ruleMap, RoleManager.allRoles"), ("event log", "rule_added / rule_removed notifications", "Model.Emitter")],
 [("hash keyed map", "Policy.AddRule / util.Hash"), ("event emission", "Model.AddRule / RemoveRule")],
 ["return values, Model.RangeRules, Policy.GetDistinct, listeners"])

prop("C06", "Role membership is reachability over the current role links",
 "Without name patterns, a user has a role exactly when the two names are equal or a chain of currently stored links leads from one to the other within the configured hierarchy limit (a manager created with limit n follows at most n-1 links, cycles and diamonds included). This holds after any sequence of link additions and removals, so removing the last connecting link ends the membership and removing another one does not. Listing the roles of a user and the users of a role yields exactly the direct links, seen from both ends.",
 ["histories", "inputs"],
 "for every history of AddLink / DeleteLink / Clear and every pair of names, any graph shape including cycles, self links, long chains around the limit",
 "role_manager_test.go checks a few fixed trees with at most two removals and no chain near the limit",
 ["rbac/role_manager.go", "rbac/role.go", "rbac/role_policy.go", "rbac/role_manager_api.go"],
 [("links", "direct user-role links", "Role.roles / Role.users")],
 [("bounded breadth-first search", "RoleManager.hasLinkHelper"), ("two-sided bookkeeping", "Role.addRole / removeRole")],
 ["HasLink, GetRoles, GetUsers, Range, g() in matchers"])

prop("C07", "Role links act only in their own domain",
 "A role link stored for a domain is visible in that domain only: membership, role and user listings for one domain (path) never use a link of another, and links without a domain belong to none of the named domains. Adding or removing a link in one domain leaves every answer for all other domains unchanged. The domain listings name exactly the domains that hold a link (of that user).",
 ["histories", "inputs"],
 "for every history of link changes over several domains and nested sub-domains, every query domain including unknown ones, without domain patterns",
 "tests check two fixed domains; a leak needs a particular combination of domains, names and removals",
 ["rbac/domain_manager.go", "rbac/role_manager.go"],
 [("role manager per domain", "links of each domain", "DomainManager.rmMap")],
 [("dispatch on the first domain element", "DomainManager.getDomain / getRoleManager")],
 ["HasLink, GetRoles, GetUsers, GetDomains, GetAllDomains with domains"])

prop("C08", "Role name patterns apply to every matching name, whenever added",
 "With a name matcher installed, a name that matches a pattern takes part in every link of that pattern - as user and as role - exactly as long as the link is stored, and names that do not match are unaffected. The answers depend only on the set of stored links, not on whether links, names or the matcher came first, nor on how many matching questions were asked before.",
 ["histories", "inputs", "configurations"],
 "for every set of non-overlapping patterns, every order of adding and removing links and installing the matcher, every plain name queried, with custom, path and regex matchers",
 "tests install the matcher first and check one fixed set; stale or missing match bookkeeping needs other orders and removals",
 ["rbac/role_manager.go", "rbac/role.go", "util/builtin_operators.go"],
 [("match relation", "pattern role to matching role", "Role.matched / matchedBy"), ("pattern set", "names that are patterns", "RoleManager.patternRoles"), ("match cache", "memoised matcher answers", "RoleManager.matchingFuncCache")],
 [("match bookkeeping on creation and removal of a name", "RoleManager.getRole / removeRole"), ("rebuild on matcher change", "RoleManager.SetMatcher")],
 ["HasLink, GetRoles, GetUsers after each change"])

prop("C09", "Domain patterns apply to every matching domain and nothing is lost",
 "With a domain matcher installed, a link stored for a domain pattern holds in every concrete domain that matches it, for as long as it is stored, and in no other domain, whichever of link, domain and matcher came first. A link stored directly and the same link received through a pattern are independent: removing either keeps the other in force. Enumeration, saving and return values speak about the directly stored links only.",
 ["histories", "inputs", "configurations"],
 "for every history of link additions and removals in concrete and pattern domains (patterns do not match each other), matcher installed before, between or after, every concrete query domain",
 "one fixed example (RBAC with all-pattern) with additions only; combinations of direct and inherited links and removals are not exercised",
 ["rbac/domain_manager.go", "rbac/role_manager.go"],
 [("inherited links", "links copied from pattern domains", "Role.redundant"), ("pattern domains", "domains that are patterns", "DomainManager.patternMap")],
 [("propagation to matching managers", "DomainManager.AddLink / DeleteLink / getRoleManager"), ("marking of inherited links", "RoleManager.AddLink with REDUNDANT_ROLE")],
 ["HasLink, GetRoles, Range, AddLink/DeleteLink results"])

prop("C10", "Asking questions changes nothing",
 "Enforce, Filter, RangeMatches, membership queries and listings leave the observable state unchanged: any sequence of them, about known or unknown users, roles, domains, patterns and matchers, gives the same answers in any order and changes neither the stored rules nor later answers. Options passed with a request (matcher, request definition, effect) apply to that request only. Rules handed out by a query are the caller's to modify without effect on the stored rules.",
 ["histories", "inputs"],
 "for every interleaving of queries with rule changes, every name including unknown ones and ones that are patterns, every per-request option",
 "tests ask each question once; temporary entries left by a question show only in later, different questions",
 ["rbac/role_manager.go", "rbac/domain_manager.go", "enforcer.go", "context.go", "model/matcher/matcher.go", "model/model.go"],
 [("temporary roles", "entries created for the time of a query", "RoleManager.getRole created flag"), ("request context", "matcher, request and effect of one request", "Context")],
 [("removal of temporary entries", "RoleManager.HasLink / GetRoles / GetUsers"), ("no store for queried domains", "DomainManager.getRoleManager(store=false)")],
 ["answers and enumerations before and after queries"])

prop("C11", "The storage receives every rule change once and in order",
 "While storage is enabled, each effective rule change is handed to the adapter exactly once, in the order the changes took effect, ineffective calls and changes made while storage is disabled never are: with autosave by the time the change returns (or, when a wait count was set, when that many changes have accumulated), without autosave on the next flush and not before. A batch adapter receives the same sequence grouped into maximal runs of additions and of removals. Bulk operations under autosave are written once, after the last change, and autosave stays switched on.",
 ["histories", "configurations"],
 "for every sequence of rule changes, bulk changes, flushes, enabling/disabling of storage and autosave and wait counts, with simple and batch adapters",
 "controller_test.go replays three fixed sequences; interleavings of mode switches with pending changes are not covered",
 ["storage/controller.go", "enforcer.go"],
 [("queue", "changes not yet written", "StorageController.q"), ("wait", "changes to accumulate before an automatic flush", "StorageController.wait"), ("autosave/enabled", "mode switches", "StorageController.autosave, listeners")],
 [("listener to queue", "StorageController.addOp"), ("flush loops", "flush / batchFlush")],
 ["calls received by a recording adapter"])

prop("C12", "A failed write to storage is never forgotten",
 "When the adapter fails during a flush, the error is reported, and the failed change and all changes after it stay pending: after the fault is gone, later flushes deliver exactly the undelivered changes, in order. A change the adapter has accepted is not delivered again. So whatever the pattern of failures, once a flush succeeds the sequence of accepted changes equals the sequence of rule changes.",
 ["fault_sequences", "histories"],
 "for every sequence of changes and flushes and every pattern of adapter failures, with simple and batch adapters",
 "no test uses an adapter that fails",
 ["storage/controller.go", "enforcer.go"],
 [("queue", "changes not yet accepted by the adapter", "StorageController.q")],
 [("drop from the queue only after success", "StorageController.flush / batchFlush")],
 ["Flush result and calls received by a failing recording adapter"])

prop("C13", "Saving and loading preserve the rules, loading does not echo",
 "Rules saved to a file and loaded into an empty model of the same definitions are exactly the same rules, whatever text their columns hold (separators, quotes, comment signs, spaces, line feeds, empty and very long values; carriage returns excepted), and single or bulk updates of the file change just the given rules. Loading adds the stored rules to those present and reports malformed content as an error; it never writes back to the storage, leaves storage enabled or disabled as it was, and later changes are stored as usual.",
 ["inputs", "histories"],
 "for every set of rules with arbitrary column text (well formed for a model), every file size, every mix of load, save and change operations",
 "adapter_test.go saves one plain policy; quoting, long lines and load/flush interplay are not exercised",
 ["storage/adapter/fileadapter.go", "enforcer.go", "storage/controller.go"],
 [("policy file", "one rule per record", "FileAdapter.path")],
 [("CSV reading and writing", "FileAdapter.LoadPolicy / SavePolicy"), ("storage disabled while loading", "Enforcer.LoadPolicy")],
 ["reloaded rules, adapter calls during load, file content through a second adapter"])

prop("C14", "An interrupted save leaves the old or the new policy, never a part",
 "If the process dies or an I/O error occurs at any point while the policy file is written - full save or single-rule update - a later load finds either the complete previous policy or the complete new one. An I/O error is reported to the caller. A completed save is complete on disk as seen by any other process, and saving repeatedly does not exhaust file handles. A save leaves nothing else behind, also if it failed, and a completed one keeps the permissions of the file and a link to it.",
 ["crash_points", "fault_sequences"],
 "for every rule set size (within and beyond any buffer), every system call at which the process is killed or the call fails",
 "tests never interrupt a save",
 ["storage/adapter/fileadapter.go"],
 [("file content", "policy as a later load sees it", "FileAdapter.path")],
 [("replace by rename", "FileAdapter.SavePolicy / getWriter")],
 ["policy loaded after a kill or fault injected at each system call"])

prop("C15", "The LRU cache returns the latest value and evicts the oldest use",
 "A cache of capacity n > 0 behaves as a map restricted to the n most recently used keys: a lookup returns the value last put for the key if the key is among them and nothing otherwise, both lookups that hit and puts count as use, and inserting a new key into a full cache evicts exactly the least recently used one. The synchronised variant gives the same guarantee, as if concurrent operations happened one after the other.",
 ["histories", "schedules"],
 "for every sequence of Get and Put on every capacity, for the synchronised cache every interleaving of concurrent callers",
 "cache_test.go plays one sequence on capacity 3, never puts an existing key and never runs concurrently",
 ["util/cache.go"],
 [("recency list", "keys by last use", "LRUCache.head .. tail"), ("map", "key to node", "LRUCache.m")],
 [("move to head on use, drop tail when full", "LRUCache.Get / Put"), ("lock", "SyncLRUCache")],
 ["Get results"])

prop("C16", "Concurrent questions on a fixed policy get the right answers",
 "As long as no rule or definition changes, any number of goroutines may call Enforce, Filter and the role membership queries at the same time: each gets the answer it would get alone, and no call crashes, deadlocks or races on memory. This includes names, domains and patterns never seen before, matchers that use eval, functions and role functions, options (contexts, matchers, definitions) which are used for several requests at a time, questions which the functions, callbacks and effectors of the caller ask themselves, and more different questions than internal caches hold.",
 ["schedules", "inputs"],
 "for every interleaving of concurrent queries on one enforcer or role manager, for every fixed policy",
 "the tests are sequential; temporary bookkeeping and lazily initialised state are visible only between concurrent calls",
 ["rbac/role_manager.go", "rbac/domain_manager.go", "model/matcher/matcher.go", "model/fm/function.go", "util/cache.go", "log/log.go"],
 [("temporary roles", "entries created during a query", "RoleManager.allRoles"), ("function map", "functions visible to a matcher", "FunctionMap.fns"), ("match cache", "memoised matches", "SyncLRUCache")],
 [("locks / sync.Map", "rbac, util"), ("per-call state", "Matcher.RangeMatches")],
 ["results of concurrent calls; race detector reports"])

prop("C17", "Path patterns match by segments as documented",
 "pathMatch(path, pattern) is true exactly when the pattern's '/'-separated segments match the path's: a parameter segment (':name', or '{name}' for pathMatch2) stands for any one segment, '*' for one or more segments, any other segment for itself. A text is recognised as a path pattern exactly if it has a '*' or parameter segment. The same holds for the exported helpers PathMatchHelper and IsPathPatternHelper with another separator (of one or more characters) and other marks of a parameter, and through the matcher functions and the path matchers used for role and domain names, and the wrapped functions reject a wrong number or type of arguments with an error.",
 ["inputs"],
 "for every path and pattern over '/'-separated segments, of any length, with empty, repeated and mixed segments",
 "builtin_operators_test.go lists a few dozen pairs; '*' in the middle with backtracking and empty segments are not covered",
 ["util/builtin_operators.go"],
 [],
 [("segment-wise recursion with backtracking on '*'", "PathMatchHelper")],
 ["PathMatch, PathMatch2, IsPathPattern(2), PathMatchFunc(2), pathMatch() in matchers"])

prop("C18", "Unknown names and malformed input are refused without side effects",
 "An operation that needs a policy, role, matcher, request or effect definition that does not exist, an empty rule, a grouping rule with too few names, or a definition that cannot be used is answered with an error - it does not crash the process and does not count as success. After the refusal rules, definitions and all answers are as before and no change is announced or written to storage.",
 ["inputs", "histories"],
 "for every public operation of enforcer and model, every unknown or malformed name, key or rule, at any point of a history",
 "tests only use valid names",
 ["model/model.go", "context.go", "enforcer.go", "rbac/role_policy.go", "model/defs/defs.go"],
 [("definitions", "known keys per section", "Model.defs, pMap, rpMap, mMap, eMap")],
 [("lookups that report absence", "Model.AddRule, GetRoleManager, GetRequestDef, BuildMatcherFromDef, context options")],
 ["returned errors, state afterwards"])

prop("C19", "Storage follows the model, adapter and options in force",
 "After replacing the model, the adapter or an option of an enforcer, rule changes made through the enforcer reach the adapter now in force and only that one, according to the storage and autosave settings in force; nothing reaches a replaced adapter and no change is delivered twice. Loading, saving, enforcing and filtering use the model and adapter now in force.",
 ["histories", "configurations"],
 "for every sequence of model/adapter/option replacements interleaved with rule changes, flushes, loads and requests (no changes pending at the moment of replacement)",
 "no test replaces model or adapter of a live enforcer",
 ["enforcer.go", "storage/controller.go"],
 [("wiring", "listeners connecting model and storage controller", "StorageController.listeners, Enforcer.sc")],
 [("rewiring", "Enforcer.SetAdapter / SetModel / SetOption")],
 ["calls received by recording adapters; decisions"])

prop("C20", "An enumeration ends when its consumer says stop",
 "When the consumer of an enumeration - of all rules, the rules of a policy, role links or the matches of a request - asks to stop, it is not called again, whatever number of policies, roles, domains, alternatives or stages remain, and the enumeration reports no error. Until then every element is delivered, so a consumer that never stops sees them all.",
 ["inputs", "histories"],
 "for every enumeration, every content, every element at which the consumer stops",
 "tests never stop an enumeration",
 ["model/model.go", "model/policy/policy.go", "rbac/role_manager.go", "rbac/domain_manager.go", "model/matcher/matcher.go"],
 [],
 [("propagation of the callback result", "Model.RangeRules, rangeLinks, Matcher.rangeMatchesHelper")],
 ["number of callbacks after a stop"])

prop("C21", "Decisions follow the definitions in force, which the model's text lists",
 "Every decision and listing is made by the request, policy, effect, role and matcher definitions and the functions which are in force when it is asked for: a definition which was set, replaced or removed, a matcher which was (re)built, a part which was put in place and a function which was registered, replaced or removed changes the answers given under its name from then on, and those given under no other name. A name which is not defined is reported as an error. The text a model prints lists exactly the definitions in force, and a model read from that text has the same definitions and decides every request alike.",
 ["histories", "programs"],
 "for every history of definitions, removals, builds, replaced parts and functions, interleaved with rule changes, requests and listings",
 "tests build a model once from a file; definitions which change between requests and the round trip through the text are hardly tried",
 ["model/model.go", "model/defs/*.go", "model/matcher/matcher.go", "enforcer.go"],
 [("definitions", "request, policy, effect and matcher definitions of the model and the parts built from them", "Model.rDefMap, pDefMap, mDefMap, eDefMap, pMap, rmMap, mMap"), ("functions", "the functions expressions may call", "Model.fm")],
 [("definition", "Model.SetDef, RemoveDef, GetDef"), ("building", "Model.BuildMatcher, BuildMatchers"), ("placing a part", "Model.SetPolicy, SetRoleManager, SetRequestDef, SetEffector, SetMatcher"), ("functions", "Model.SetFunction, RemoveFunction"), ("text", "Model.String, NewModelFromString")],
 ["Enforcer.Enforce and Filter after each change of a definition; Model.String"])

prop("C22", "Built-in and registered functions decide as documented, for their models only",
 "regexMatch(text, expression) is true exactly if the expression matches somewhere in the text; globMatch(text, glob) exactly if the glob covers the whole text, where '*' and '?' do not stand for a slash; ipMatch(address, other) exactly if the second is the same address or a network which contains the first. The answer is the same when the function is called directly, through its wrapper, in a matcher or through a (prefix) matcher of names; a pattern or address which cannot be used is an error and never an answer. A function registered for all models is known under its name, also in place of a built-in one, in every model made afterwards and in none made before; setting or removing a function of one model changes that model only.",
 ["inputs", "histories"],
 "for every text and pattern, address and network, in every written form; for every history of registering, setting and removing functions of several models",
 "builtin_operators_test.go lists a few dozen pairs; no test registers a function for all models or uses two models",
 ["util/builtin_operators.go", "model/fm/function.go", "model/fm/global.go", "model/model.go"],
 [("function tables", "the functions of each model and those registered for all models", "Model.fm, fm.globalFns")],
 [("matching", "RegexMatch, GlobMatch, IPMatch"), ("wrapping", "WrapMatchingFunc, GlobMatchFunc, PrefixMatcher"), ("tables", "DefaultFunctionMap, FunctionMap.SetFunction, RemoveFunction")],
 ["the functions, Enforce with matchers which call them, RoleManager.HasLink with RegexMatcher"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
