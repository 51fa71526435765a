"""What each check runs. See DESIGN.md for what is decided by which part."""
import re
import vlib

CHECKS = {}


def check(prop, *assumptions):
    def deco(fn):
        CHECKS[prop] = (fn, list(assumptions))
        return fn
    return deco


# ------------------------------------------------------------------------------------------ C15
def linearizable(run, n, seed, race):
    f = run.tmp("conc.ndjson")
    run.run_h(["gen", "lru", "conc", seed, n, f], race=race)
    lines, gen, dist, bad = run.tlc("LRUConc", "LRUConc.cfg", env={"TRACE": f})
    if bad:
        raise vlib.CheckError("LRUConc: %s" % bad)
    seen = {int(m.group(1)) for m in (re.match(r'<<"LINEARIZED", (\d+)>>', l) for l in lines) if m}
    evs = open(f).readlines()
    missing = sorted(set(range(1, len(evs) + 1)) - seen)
    run.add(states=dist, transitions=gen)
    if missing:
        import json
        run.violation("concurrent history of the cache is not linearizable", {"history": json.loads(evs[missing[0] - 1])})
        return
    run.add(traces_validated_against_impl=len(evs))
    run.part(kind="code->spec", module="LRUConc", histories=len(evs), states=dist, race=race)


@check("C15", "capacity 0 is outside the property", "concurrent histories: those the scheduler produced in this run")
def c15(run):
    run.go(run.design, "LRUImpl", "LRUImpl.cfg", refute={"Variant": ['"stale"', '"nomove"', '"evictNewest"', '"leak"']})
    run.go(run.design, "LRUSync", "LRUSync.cfg", refute={"Lock": ['"shared"']})
    for sync in ("FALSE", "TRUE"):
        run.go(run.generated, "lru", "LRUGen", "LRUGen.cfg", consts={"Sync": sync})
    run.trace("lru", "seq", "LRUTrace", "LRUTrace.cfg", run.scale(200, 4000), shards=run.scale(2, 8))
    for i in range(run.scale(2, 8)):
        run.go(linearizable, run, run.scale(400, 4000), run.seed * 1000 + i, i % 2 == 1)


# ------------------------------------------------------------------------------------------ C06 - C09
RBAC = ("name patterns of one manager do not overlap (no name matches two of them, no pattern matches a pattern)",
        "questions name concrete domains",
        "wrong numbers of names in a grouping rule are outside the property")


def rbac_trace(run, profile, quick, thorough, race=False):
    run.trace("rbac", profile, "RbacTrace", "RbacTrace.cfg", run.scale(quick, thorough), shards=run.scale(4, 8), race=race)


def rbac_gen(run, universe, k):
    run.go(run.generated, "rbac", "RbacGen", "RbacGen.cfg", consts={"Universe": '"%s"' % universe, "K": k}, timeout=850)


def rbac_design(run, universe, *variants):
    run.go(run.design, "RbacImpl", "RbacImpl.cfg", consts={"Universe": '"%s"' % universe}, refute={"Variant": ['"%s"' % v for v in variants]})


@check("C06", *RBAC)
def c06(run):
    rbac_design(run, "name", "level")
    rbac_gen(run, "reach", 1)
    rbac_gen(run, "limit", run.scale(0, 1))
    rbac_trace(run, "reach", 120, 2000)
    rbac_trace(run, "wide", 40, 800)


@check("C07", *RBAC)
def c07(run):
    rbac_design(run, "dom", "default")
    rbac_gen(run, "domain", run.scale(0, 1))
    rbac_gen(run, "limit", run.scale(0, 1))
    rbac_gen(run, "dpat2", run.scale(0, 1))
    rbac_trace(run, "domain", 120, 2000)
    rbac_trace(run, "wide", 40, 800)


@check("C08", *RBAC)
def c08(run):
    rbac_design(run, "name", "lateName", "latePat", "ask", "pass")
    rbac_gen(run, "npat", 1)
    rbac_trace(run, "npat", 120, 2000)
    rbac_trace(run, "wide", 40, 800)


@check("C09", *RBAC)
def c09(run):
    rbac_design(run, "dom", "shared", "once", "late", "keep")
    rbac_gen(run, "dpat", 1)
    rbac_gen(run, "dpat2", 1)
    rbac_trace(run, "dpat", 120, 2000)
    rbac_trace(run, "wide", 40, 800)


# ------------------------------------------------------------------------------------------ C01 - C05, C10, C16, C18, C20
ENGINE = ("rules and requests have the number of values their definition asks for (shorter requests are covered, longer ones are not)",
          "reserved names (RoleManager, redundant_role) are not used",
          "eval does not recurse without end")


def engine_trace(run, profile, quick, thorough, race=False, shards=None):
    run.trace("engine", profile, "EngineTrace", "EngineTrace.cfg", run.scale(quick, thorough), shards=shards or run.scale(4, 8), race=race)


def engine_gen(run, universe, k):
    run.go(run.generated, "engine", "EngineGen", "EngineGen.cfg", consts={"Universe": '"%s"' % universe, "K": k}, timeout=850)


@check("C01", *ENGINE)
def c01(run):
    run.go(run.design, "Merge", "Merge.cfg", consts={"N": run.scale(3, 4)}, refute={"Variant": ['"eager"', '"last"', '"neither"', '"empty"']})
    engine_gen(run, "decide", run.scale(0, 1))
    engine_gen(run, "decide2", run.scale(0, 1))
    engine_trace(run, "decide", 160, 4000)
    engine_trace(run, "crowd", 24, 600)
    engine_trace(run, "wide", 8, 200)


@check("C02", *ENGINE)
def c02(run):
    index_design(run, "keepempty", "leafkey", "noclear")
    engine_gen(run, "history", run.scale(0, 1))
    engine_gen(run, "stages", 0)
    engine_trace(run, "history", 100, 2500)
    engine_trace(run, "wide", 8, 200)


def index_design(run, *variants):
    run.go(run.design, "Index", "Index.cfg", consts={"Depth": run.scale(0, 1)}, refute={"Variant": ['"%s"' % v for v in variants]}, timeout=850)


@check("C03", *ENGINE)
def c03(run):
    index_design(run, "first", "lostand", "concat")
    engine_gen(run, "expr", run.scale(0, 1))
    engine_gen(run, "expr4", run.scale(0, 1))
    engine_trace(run, "expr", 160, 4000)
    engine_trace(run, "defs", 80, 1000)
    engine_trace(run, "fail", 60, 1000)


@check("C04", *ENGINE)
def c04(run):
    index_design(run, "swallow", "evalkey")
    engine_gen(run, "fail", run.scale(0, 1))
    engine_gen(run, "missing", 1)
    engine_trace(run, "fail", 160, 4000)


@check("C05", *ENGINE)
def c05(run):
    engine_gen(run, "set", run.scale(0, 1))
    engine_trace(run, "set", 160, 4000)
    engine_trace(run, "wide", 8, 200)


@check("C10", *ENGINE)
def c10(run):
    engine_gen(run, "query", run.scale(0, 1))
    engine_trace(run, "query", 100, 3000)
    engine_trace(run, "defs", 60, 1000)
    rbac_trace(run, "query", 60, 1500)


@check("C16", "concurrent questions: the interleavings the scheduler and the race detector produced in this run", *ENGINE)
def c16(run):
    run.harness(True)
    for u in ["one", "eval", "mix", "adhoc", "roles"]:
        c = {"Universe": '"%s"' % u}
        if u in ("one", "roles"):
            run.go(run.design, "Interleave", "Interleave.cfg", consts=c, refute={"Variant": ['"req"', '"rule"', '"found"']})
        run.go(run.generated, "engine", "Interleave", "InterleaveGen.cfg", consts=c, timeout=850)
    engine_trace(run, "conc", 60, 1500, race=True)
    engine_trace(run, "nested", 80, 2000)
    rbac_trace(run, "conc", 40, 1500, race=True)
    run.trace("fn", "conc", "FnTrace", "FnTrace.cfg", run.scale(12, 400), shards=run.scale(1, 4), race=True)
    run.trace("path", "conc", "PathMatchTrace", "PathMatchTrace.cfg", run.scale(12, 400), shards=run.scale(1, 4), race=True)


@check("C18", *ENGINE)
def c18(run):
    engine_gen(run, "set", run.scale(0, 1))
    engine_trace(run, "refuse", 160, 4000)
    engine_trace(run, "defs", 80, 1000)
    run.trace("file", "file", "FileTrace", "FileTrace.cfg", run.scale(60, 1000), shards=run.scale(2, 4))


@check("C21", "after a new definition of a policy or role the matchers over its rules are built again", *ENGINE)
def c21(run):
    engine_gen(run, "defs", run.scale(0, 1))
    engine_trace(run, "defs", 160, 4000)


@check("C20", *ENGINE)
def c20(run):
    engine_gen(run, "stop", run.scale(0, 1))
    engine_trace(run, "stop", 120, 3000)
    engine_trace(run, "wide", 8, 200)
    rbac_trace(run, "stop", 60, 1500)
    rbac_trace(run, "wide", 40, 800)


# ------------------------------------------------------------------------------------------ C11, C12, C19
STORAGE = ("after a write failed under autosave during a single change (reported by a panic inside the event emitter) no listener is added or removed",
           "clearing a policy is in memory only",
           "what happens to pending changes when the adapter is replaced is open")


def storage_trace(run, profile, quick, thorough):
    run.trace("storage", profile, "StorageTrace", "StorageTrace.cfg", run.scale(quick, thorough), shards=run.scale(4, 8))


def storage_gen(run, universe, k):
    run.go(run.generated, "storage", "StorageGen", "StorageGen.cfg", consts={"Universe": '"%s"' % universe, "K": k}, timeout=850)


def storage_design(run, universe, *variants):
    run.go(run.design, "StorageGen", "StorageDesign.cfg", consts={"Universe": '"%s"' % universe}, refute={"Variant": ['"%s"' % v for v in variants]})


@check("C11", *STORAGE)
def c11(run):
    storage_design(run, "batch", "mixed", "echo", "autooff", "loadecho")
    storage_gen(run, "simple", run.scale(0, 1))
    storage_gen(run, "batch", run.scale(0, 1))
    storage_trace(run, "order", 160, 4000)
    storage_trace(run, "long", 16, 240)


@check("C12", *STORAGE)
def c12(run):
    storage_design(run, "batchfault", "forget", "skip")
    storage_gen(run, "fault", run.scale(0, 1))
    storage_gen(run, "batchfault", run.scale(0, 1))
    storage_trace(run, "fault", 160, 4000)
    storage_trace(run, "long", 16, 240)


@check("C19", *STORAGE)
def c19(run):
    storage_gen(run, "switch", 0)
    storage_trace(run, "switch", 160, 4000)


# ------------------------------------------------------------------------------------------ C13
@check("C13", "columns without carriage returns; the text written by a person uses line feeds or a file without a final one",
       "repeated lines in a file count once", *STORAGE[:2])
def c13(run):
    run.go(run.generated, "file", "PolicyTextGen", "PolicyTextGen.cfg", consts={"N": run.scale(4, 6), "C": run.scale(2, 3)}, timeout=850)
    run.trace("file", "file", "FileTrace", "FileTrace.cfg", run.scale(160, 4000), shards=run.scale(4, 8))


# ------------------------------------------------------------------------------------------ C14
@check("C14", "the process dies, the system does not: what a dead process has written is on the file system",
       "a system call fails, is cut short or is the last one; single faults per operation, at every call which concerns the directory")
def c14(run):
    run.go(run.design, "FileSave", "FileSave.cfg", consts={"Rounds": run.scale(3, 5), "Size": run.scale(4, 6)},
           refute={"Variant": ['"inplace"', '"renameearly"', '"noflush"', '"swallow"', '"unchecked"']})
    run.trace("crash", "crash", "FileCrash", "FileCrash.cfg", run.scale(160, 3000), shards=run.scale(4, 8))
    run.trace("crash", "many", "FileCrash", "FileCrash.cfg", run.scale(60, 400), shards=run.scale(2, 4))


# ------------------------------------------------------------------------------------------ C17
@check("C17", "a segment ':' or '{}' without a name counts as a parameter", "an empty segment is a segment")
def c17(run):
    run.go(run.design, "PathMatchGen", "PathMatchDesign.cfg", consts={"P": run.scale(3, 4)},
           refute={"Variant": ['"starzero"', '"starone"', '"greedy"', '"paramempty"']})
    run.go(run.design, "PathMatchGen", "PathMatchDesign.cfg", consts={"Universe": '"helper"', "P": 3}, refute={"Variant": ['"shortsep"']})
    run.go(run.generated, "path", "PathMatchGen", "PathMatchGen.cfg", consts={"N": run.scale(4, 5), "P": run.scale(4, 5)}, timeout=850)
    run.go(run.generated, "path", "PathMatchGen", "PathMatchGen.cfg", consts={"Universe": '"helper"', "N": run.scale(4, 5), "P": run.scale(4, 5)}, timeout=850)
    run.go(run.generated, "path", "PathMatchGen", "PathMatchGen.cfg", consts={"Universe": '"segs"', "N": run.scale(3, 4), "P": 3}, timeout=850)
    run.trace("path", "path", "PathMatchTrace", "PathMatchTrace.cfg", run.scale(120, 2000), shards=run.scale(2, 8))
    run.trace("path", "args", "PathMatchTrace", "PathMatchTrace.cfg", run.scale(60, 600), shards=1)


# ------------------------------------------------------------------------------------------ C22
@check("C22", "a negated class of a glob is not asked for slashes, globs are asked for ASCII texts", "addresses with zones are unusable; networks are not written as mapped addresses")
def c22(run):
    for u, variants in (("regexMatch", ["dotall", "anchored"]), ("globMatch", ["prefix", "cross"]), ("ipMatch", ["bytes", "family", "mapped"])):
        run.go(run.design, "FnGen", "FnDesign.cfg", consts={"Universe": '"%s"' % u, "N": run.scale(1, 2)}, refute={"Variant": ['"%s"' % v for v in variants]}, timeout=850)
        run.go(run.generated, "fn", "FnGen", "FnGen.cfg", consts={"Universe": '"%s"' % u, "N": 2 if u == "globMatch" else run.scale(1, 2), "P": run.scale(4, 5)}, timeout=850)
    run.go(run.design, "FnTableGen", "FnTableGen.cfg", refute={"Variant": ['"builtin"', '"everywhere"', '"live"']})
    run.go(run.generated, "fn", "FnTableGen", "FnTableGen.cfg", consts={"D": run.scale(5, 6)}, timeout=850)
    for p in ("regex", "glob", "ip"):
        run.trace("fn", p, "FnTrace", "FnTrace.cfg", run.scale(150, 4000), shards=run.scale(1, 2))
    run.trace("fn", "table", "FnTrace", "FnTrace.cfg", run.scale(150, 2000), shards=1)


# method and assurance of each check, for MANIFEST.json
TV = "validation of recorded histories"
GEN = "replay of generated behaviours and validation of recorded histories"
SPEC = "Exhaustive on the specification within small constants; on the code: every reply of the seeded histories of this run (and of every generated behaviour) is checked against the specification. Not a proof for all inputs. "
NOTES = {
    "C01": (GEN, SPEC), "C02": (GEN, SPEC), "C03": (GEN, SPEC), "C04": (GEN, SPEC), "C05": (GEN, SPEC),
    "C06": (GEN, SPEC + "Chains beyond the configured limit are outside."), "C07": (GEN, SPEC), "C08": (GEN, SPEC + "Patterns do not overlap."), "C09": (GEN, SPEC),
    "C10": (GEN, SPEC), "C15": (GEN, SPEC + "Concurrent histories are checked for linearizability."),
    "C16": (TV + " of concurrent questions under the race detector", SPEC + "Interleavings are those the scheduler produced."),
    "C11": (GEN, SPEC), "C12": (GEN, SPEC), "C19": (GEN, SPEC),
    "C13": (GEN, SPEC), "C14": ("design check and validation of recorded runs under fault injection (ptrace)", SPEC + "Faults at every system call of the recorded saves, one per run."), "C18": (GEN, SPEC), "C20": (GEN, SPEC), "C21": (GEN, SPEC), "C22": (GEN, SPEC),
}
