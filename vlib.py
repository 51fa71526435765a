"""Orchestration shared by all checks: builds the harness from /repo's working tree, runs TLC, binds both.

Outcomes: a Violation is only ever recorded from the behaviour of the real code (a reply, crash, hang
or race of the harness process that the specification does not allow). Everything else that goes
wrong is a CheckError (exit 2)."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    pass


class Violation(Exception):
    pass


def go_env():
    env = dict(os.environ)
    env.setdefault("HOME", "/root")
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", CGO_ENABLED="1", GOWORK="off")
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    env.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    return env


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.t0 = time.time()
        self.lock = threading.Lock()
        self.build_lock = threading.Lock()
        self.built = {}
        self.violations = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                    "trace_events": 0, "generated_tests": 0, "generated_test_events": 0, "parts": []}
        self.pool = cf.ThreadPoolExecutor(max_workers=8)
        self.futures = []
        self.n = 0
        self.replay_dir = os.path.join(VERIF, "evidence", "replay")
        self.slots = threading.Semaphore(8)

    # ---------------------------------------------------------------- utilities
    def tmp(self, name):
        with self.lock:
            self.n += 1
            return os.path.join(self.work, "%03d-%s" % (self.n, name))

    def part(self, **kw):
        with self.lock:
            self.cov["parts"].append(kw)

    def add(self, **kw):
        with self.lock:
            for k, v in kw.items():
                self.cov[k] = self.cov.get(k, 0) + v

    def sample(self, s):
        with self.lock:
            if len(self.cov["samples"]) < 6:
                self.cov["samples"].append(s)

    def violation(self, what, data):
        os.makedirs(self.replay_dir, exist_ok=True)
        with self.lock:
            path = os.path.join(self.replay_dir, "%s-%d.json" % (self.prop, len(self.violations) + 1))
            self.violations.append((what, path))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "what": what, "seed": self.seed, "data": data}, f, indent=1)
            f.write("\n")

    def scale(self, quick, thorough):
        return quick if self.quick else thorough

    # ---------------------------------------------------------------- build
    def harness(self, race=False):
        with self.build_lock:
            if race in self.built:
                return self.built[race]
            src = os.path.join(self.work, "harness-race" if race else "harness")
            shutil.copytree(os.path.join(VERIF, "harness"), src)
            mod = open(os.path.join(src, "go.mod")).read().replace("=> /repo", "=> " + REPO)
            open(os.path.join(src, "go.mod"), "w").write(mod)
            out = os.path.join(self.work, "h-race" if race else "h")
            cmd = ["go", "build", "-o", out] + (["-race"] if race else []) + ["."]
            p = subprocess.run(cmd, cwd=src, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
            if p.returncode != 0:
                raise CheckError("build of the harness failed:\n" + p.stdout[-4000:])
            self.built[race] = out
            return out

    # ---------------------------------------------------------------- harness processes
    def run_h(self, args, race=False, timeout=600, env=None, what=""):
        """Runs the harness. A crash, hang or data race of the code under test is a violation."""
        exe = self.harness(race)
        e = dict(os.environ)
        e.setdefault("HOME", "/root")
        e["GORACE"] = "halt_on_error=1 exitcode=66"
        if env:
            e.update(env)
        with self.slots:
            try:
                p = subprocess.run([exe] + [str(a) for a in args], cwd=self.work, env=e, text=True, errors="replace",
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise CheckError("harness %s did not finish in %ds" % (args, timeout))
        if p.returncode == 0:
            return p.stdout
        err = p.stderr
        if p.returncode == 66 and "DATA RACE" in err:
            tops = re.findall(r"(?:[Rr]ead|[Ww]rite) at 0x\w+ by .*\n\s+(\S+)", err)
            if tops and all(t.startswith("main.") for t in tops):
                raise CheckError("data race inside the harness:\n" + err[:3000])
            self.violation("data race", {"args": args, "stderr": err[:20000]})
            raise Violation("data race in the code under test")
        if p.returncode == 42 and "HANG" in err:
            self.violation("hang", {"args": args, "stderr": err[:20000]})
            raise Violation("the code under test hangs")
        if p.returncode == 2 and "fatal error:" in err and "out of memory" not in err:
            self.violation("crash", {"args": args, "stderr": err[:20000]})
            raise Violation("the code under test crashes the process")
        raise CheckError("harness %s failed (%d): %s" % (args, p.returncode, err[-3000:]))

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=1, timeout=600, consts=None, extra=(), heap="3g"):
        """Runs TLC on spec/module.tla. Returns (stdout lines, generated, distinct, violated)."""
        spec = os.path.join(VERIF, "spec")
        text = open(os.path.join(spec, cfg)).read()
        for k, v in (consts or {}).items():
            text, n = re.subn(r"(?m)^(\s*)%s\s*=.*$" % re.escape(k), lambda m: "%s%s = %s" % (m.group(1), k, v), text)
            if n != 1:
                raise CheckError("constant %s not found in %s" % (k, cfg))
        cfgfile = self.tmp(cfg)
        open(cfgfile, "w").write(text)
        meta = self.tmp("meta")
        os.mkdir(meta)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + meta, "-cp", JAR, "tlc2.TLC", "-workers", str(workers),
               "-metadir", meta, "-noGenerateSpecTE", "-config", cfgfile] + list(extra) + [module + ".tla"]
        with self.slots:
            try:
                p = subprocess.run(cmd, cwd=spec, env=e, text=True, errors="replace", stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise CheckError("TLC %s/%s did not finish in %ds" % (module, cfg, timeout))
        shutil.rmtree(meta, ignore_errors=True)
        lines = p.stdout.splitlines()
        gen = dist = 0
        for line in lines:
            m = re.match(r"^([\d,]+) states generated, ([\d,]+) distinct states found", line)
            if m:
                gen, dist = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
            m = re.match(r"^The number of states generated: ([\d,]+)", line)
            if m:
                gen = dist = int(m.group(1).replace(",", ""))
        violated = [l for l in lines if re.match(r"^Error: (Invariant|Action property|Temporal properties|.*is violated)", l)]
        ok = any("Model checking completed. No error has been found." in l for l in lines) or (
            "-simulate" in extra and p.returncode == 0)
        if not ok and not violated:
            raise CheckError("TLC %s/%s failed (%d):\n%s" % (module, cfg, p.returncode, "\n".join(
                [l for l in lines if not l.startswith('"') and "Semantic" not in l and "Linting" not in l and "Parsing" not in l][-40:])))
        return lines, gen, dist, violated

    def design(self, module, cfg, consts=None, refute=None, workers=2, timeout=600):
        """Design check: the specification itself satisfies its properties; wrong variants are refuted."""
        lines, gen, dist, bad = self.tlc(module, cfg, consts=consts, workers=workers, timeout=timeout)
        if bad:
            raise CheckError("design check %s/%s %s: %s" % (module, cfg, consts, bad))
        self.add(states=dist, transitions=gen)
        self.part(kind="design", module=module, cfg=cfg, consts=consts or {}, states=dist, transitions=gen)
        for var, values in (refute or {}).items():
            for v in values:
                c = dict(consts or {})
                c[var] = v
                _, _, _, bad = self.tlc(module, cfg, consts=c, workers=workers, timeout=timeout)
                if not bad:
                    raise CheckError("design check %s/%s: wrong variant %s = %s is not refuted" % (module, cfg, var, v))
                self.part(kind="refuted variant", module=module, variant=v, by=bad[0])

    # ---------------------------------------------------------------- spec -> code
    def generated(self, domain, module, cfg, consts=None, extra=(), timeout=600, race=False, limit=None):
        """TLC prints behaviours, the harness runs them on the real code and compares every reply."""
        lines, gen, dist, bad = self.tlc(module, cfg, consts=consts, extra=extra, timeout=timeout)
        if bad:
            raise CheckError("generator %s/%s: %s" % (module, cfg, bad))
        tests = [json.loads(l) for l in lines if l.startswith('"[')]
        if not tests:
            raise CheckError("generator %s/%s printed no behaviour" % (module, cfg))
        n = max(1, min(6, len(tests) // 8000))
        files = []
        for i in range(n):
            files.append(self.tmp("tests.ndjson"))
            with open(files[-1], "w") as o:
                o.write("\n".join(tests[i::n]) + "\n")
        with cf.ThreadPoolExecutor(max_workers=n) as ex:
            outs = list(ex.map(lambda f: self.run_h(["replay", domain, f], race=race, timeout=timeout), files))
        for f in files:
            os.remove(f)
        counts, ops, mismatches = [0, 0, 0], {}, []
        for out in outs:
            m = re.search(r"tests=(\d+) events=(\d+) mismatches=(\d+) ops=(.*)", out)
            if not m:
                raise CheckError("replay of %s/%s: no summary: %s" % (module, cfg, out[-500:]))
            for i in range(3):
                counts[i] += int(m.group(i + 1))
            for k, v in json.loads(m.group(4)).items():
                ops[k] = ops.get(k, 0) + v
            mismatches += [l for l in out.splitlines() if l.startswith("MISMATCH ")]
        self.add(states=dist, transitions=gen, generated_tests=counts[0], generated_test_events=counts[1],
                 traces_validated_against_impl=counts[0])
        self.part(kind="spec->code", module=module, cfg=cfg, consts=consts or {}, states=dist, transitions=gen,
                  tests=counts[0], events=counts[1], ops=ops)
        self.sample({"kind": "behaviour generated by TLC from %s, replayed on the code" % module, "behaviour": json.loads(tests[len(tests) // 2])})
        if mismatches:
            evs = json.loads(min(mismatches, key=len)[9:])
            self.violation("reply differs from the specification (%s)" % module,
                           {"domain": domain, "behaviour": evs, "got": evs[-1].get("res"), "expected": evs[-1].get("expected")})
        elif counts[2]:
            raise CheckError("mismatches without a report")

    # ---------------------------------------------------------------- code -> spec
    def trace(self, domain, profile, module, cfg, histories, shards=4, race=False, timeout=600, env=None):
        """Seeded histories of the real code, validated by TLC; shards run in parallel."""
        for i in range(shards):
            self.go(self._trace, domain, profile, module, cfg, max(1, histories // shards), self.seed * 1000 + i, race, timeout, env)

    def _trace(self, domain, profile, module, cfg, n, seed, race, timeout, env):
        f = self.tmp("%s-%s.ndjson" % (domain, profile))
        out = self.run_h(["gen", domain, profile, seed, n, f], race=race, timeout=timeout, env=env)
        if not os.path.getsize(f):
            raise CheckError("empty trace %s/%s" % (domain, profile))
        lines, gen, dist, bad = self.tlc(module, cfg, env={"TRACE": f}, timeout=timeout)
        ops = {}
        with open(f) as t:
            evs = t.readlines()
        for l in evs:
            m = re.search(r'"op":"(\w+)"', l)
            if m:
                ops[m.group(1)] = ops.get(m.group(1), 0) + 1
        nonconf = [l for l in lines if "NONCONFORM" in l]
        if bad or nonconf:
            m = re.search(r'"NONCONFORM",\s*(\d+)', "\n".join(lines))  # TLC breaks long tuples into lines
            at = int(m.group(1)) if m else None
            if at is None:
                raise CheckError("TLC %s/%s: %s without a position" % (module, cfg, bad))
            start = at
            while start > 1 and '"op":"init"' not in evs[start - 1]:
                start -= 1
            i = next(k for k, l in enumerate(lines) if "NONCONFORM" in l)
            expected = []
            for l in lines[i:i + 60]:
                if l.startswith("Error") or l.startswith("Progress"):
                    break
                expected.append(l)
            self.violation("history of the real code is not a behaviour of the specification (%s)" % module,
                           {"domain": domain, "profile": profile, "seed": seed, "line": at,
                            "history": [json.loads(l) for l in evs[start - 1:at]], "specification": "\n".join(expected)[:8000]})
            return
        if dist != len(evs) + 1:
            raise CheckError("TLC %s/%s consumed %d of %d events" % (module, cfg, dist - 1, len(evs)))
        self.add(states=dist, transitions=gen, traces_validated_against_impl=n, trace_events=len(evs))
        self.part(kind="code->spec", module=module, domain=domain, profile=profile, seed=seed, histories=n, events=len(evs), ops=ops)
        with self.lock:
            have = any(s.get("profile") == profile for s in self.cov["samples"])
        if not have:
            self.sample({"kind": "start of a history recorded from the code, validated against %s" % module, "profile": profile,
                         "events": [json.loads(l) for l in evs[:6]]})

    # ---------------------------------------------------------------- running
    def go(self, fn, *args, **kw):
        self.futures.append(self.pool.submit(fn, *args, **kw))

    def wait(self):
        errors = []
        while self.futures:
            fs, self.futures = self.futures, []
            for f in fs:
                try:
                    f.result()
                except Violation:
                    pass
                except Exception as e:  # noqa
                    errors.append(e)
        if errors and not self.violations:
            raise errors[0]
        return errors

    def finish(self, assumptions, error=None):
        wall = round(time.time() - self.t0, 1)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": self.cov,
              "assumptions": assumptions, "wall_s": wall, "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        self.pool.shutdown(wait=False)
        shutil.rmtree(self.work, ignore_errors=True)
