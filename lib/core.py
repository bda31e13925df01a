"""Shared machinery of the checks: building the drivers from the current
tree, running them in parallel, validating their traces with TLC, and
writing evidence.  Exit codes: 0 held, 1 violation, 2 tool error."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
NCPU = 8
MOD = "github.com/lightstep/otel-launcher-go"


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, record):
        super().__init__(what)
        self.what, self.record = what, record


def goenv():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"))
    for k in list(e):
        if k.startswith(("OTEL_", "LS_")) or k in ("HTTP_PROXY", "HTTPS_PROXY", "http_proxy", "https_proxy"):
            del e[k]
    return e


def run(cmd, timeout, env=None, cwd=None, ok=(0,), what=None):
    """Runs cmd and returns (rc, stdout, stderr); ToolError unless rc in ok."""
    try:
        p = subprocess.run(cmd, env=env or goenv(), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError("timeout after %ss: %s" % (timeout, " ".join(cmd)[:200]))
    if ok is not None and p.returncode not in ok:
        raise ToolError("%s: rc %d\n%s\n%s" % (what or " ".join(cmd)[:200], p.returncode, p.stdout[-3000:], p.stderr[-6000:]))
    return p.returncode, p.stdout, p.stderr


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = os.path.join(VERIF, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.notes = []
        self.instr = None
        self.n = 0

    @property
    def quick(self):
        return self.tier == "quick"

    def secs(self, q, t):
        return q if self.quick else t

    def tmp(self, name):
        self.n += 1
        d = os.path.join(self.work, "%02d-%s" % (self.n, name))
        os.makedirs(d)
        return d

    def add(self, k, v):
        self.cov[k] = self.cov.get(k, 0) + v

    def sample(self, x):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(x)

    # ---- building ----
    def copy_module(self, d, path, dirs, flags, mod):
        """Uses an instrumented copy of a dependency (module cache files cannot be overlaid)."""
        src = run(["go1.24", "list", "-m", "-f", "{{.Dir}}", path], 120, cwd=REPO)[1].strip()
        dst, empty, ov = os.path.join(d, "mod"), os.path.join(d, "empty"), os.path.join(d, "mod.json")
        os.makedirs(empty)
        shutil.copytree(src, dst, copy_function=shutil.copyfile, ignore=shutil.ignore_patterns("*_test.go"))
        for root, ds, _ in os.walk(dst):
            os.chmod(root, 0o755)
        run([self.instr, "-repo", dst, "-out", empty, "-harness", empty, "-overlay", ov] + flags + list(dirs), 120)
        for to, frm in json.load(open(ov))["Replace"].items():
            shutil.copyfile(frm, to)
        run(["go1.24", "mod", "edit", "-replace", "%s=%s" % (path, dst), mod], 60)

    def build(self, target, mode="none", fine=False, pkgs=(), go="go1.24", test=False, extra=(), mods=()):
        """Builds harness package `target` against the current tree."""
        d = self.tmp("build-" + target)
        if not self.instr:
            self.instr = os.path.join(self.work, "instr")
            run(["go1.24", "build", "-o", self.instr, "."], 300, cwd=os.path.join(VERIF, "tools", "instr"))
        ov = os.path.join(d, "overlay.json")
        cmd = [self.instr, "-repo", REPO, "-out", d, "-harness", os.path.join(VERIF, "harness"), "-overlay", ov, "-mode", mode]
        if fine:
            cmd.append("-fine")
        run(cmd + list(pkgs), 120)
        mod = os.path.join(d, "go.mod")
        shutil.copy(os.path.join(REPO, "go.mod"), mod)
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(d, "go.sum"))
        for path, dirs in mods:
            self.copy_module(d, path, dirs, ["-mode", mode] + (["-fine", "-noloop"] if fine else []), mod)
        out = os.path.join(d, target)
        if test:
            cmd = [go, "test", "-c", "-vet=off"]
        else:
            cmd = [go, "build"]
        cmd += ["-modfile", mod, "-overlay", ov, "-o", out] + list(extra) + ["./zzverif/" + target]
        run(cmd, 800, cwd=REPO, what="building " + target)
        return out

    # ---- drivers ----
    def drive(self, binary, name, args, secs, shards=NCPU, env=None):
        """Runs `shards` processes of a driver, each with its own seed; returns
        the list of trace files."""
        d = self.tmp("run-" + name)
        e = goenv()
        e["TMPDIR"] = d
        if env:
            e.update(env)

        def one(i):
            out = os.path.join(d, "t%d.ndjson" % i)
            cmd = [binary, "-seed", str(self.seed * 100 + i), "-secs", str(secs), "-out", out] + list(args)
            rc, so, se = run(cmd, secs * 4 + 120, env=e, ok=None, what="driver " + name)
            if rc != 0:
                m = re.search(r"^(panic: |fatal error: ).*", se, re.M)
                if m and "goroutine" in se and "out of memory" not in se:
                    # the code under test brought the process down
                    raise Violation("driver %s crashed: %s" % (name, m.group(0)[:300]), {"cmd": cmd, "stderr": se[:8000]})
                raise ToolError("driver %s: rc %d\n%s" % (name, rc, se[-4000:]))
            return out, se

        with ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(one, range(shards)))
        tot = {}
        for out, se in res:
            for line in se.splitlines():
                if line.startswith("{"):
                    try:
                        st = json.loads(line)
                    except ValueError:
                        continue  # something else that was logged
                    if all(isinstance(v, int) for v in st.values()):
                        for k, v in st.items():
                            tot[k] = tot.get(k, 0) + v
        for k, v in tot.items():
            self.add(name + "_" + k, v)
        return [r[0] for r in res]

    # ---- TLC ----
    def tlc(self, module, cfg=None, env=None, workers=NCPU, timeout=700, extra=(), heap="6g"):
        d = self.tmp("tlc-" + module)
        e = dict(os.environ)
        e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss16m -Djava.io.tmpdir=%s" % (heap, d)
        if env:
            e.update(env)
        cmd = ["tlc", "-workers", str(workers), "-noGenerateSpecTE", "-metadir", d,
               "-config", os.path.join(SPEC, cfg or module + ".cfg")] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        rc, so, se = run(cmd, timeout, env=e, cwd=SPEC, ok=None, what="tlc " + module)
        open(os.path.join(d, "out.txt"), "w").write(so + se)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", so)
        st = (int(m[-1][1].replace(",", "")), int(m[-1][0].replace(",", ""))) if m else (0, 0)
        return rc, so, st

    def model(self, module, cfg=None, timeout=700, workers=NCPU, extra=(), heap="6g"):
        """Exhaustive check of a model; anything but success is a tool error
        (a counterexample in the model alone is not a verdict on the code)."""
        t = time.time()
        rc, so, st = self.tlc(module, cfg, timeout=timeout, workers=workers, extra=extra, heap=heap)
        if rc != 0 or "Model checking completed. No error has been found." not in so:
            raise ToolError("model %s %s: rc %d\n%s" % (module, cfg, rc, so[-4000:]))
        self.add("states", st[0])
        self.add("transitions", st[1])
        self.cov.setdefault("models", []).append({"module": module, "config": cfg or module + ".cfg", "distinct_states": st[0],
                                                  "states_generated": st[1], "wall_s": round(time.time() - t, 1)})

    def flawed(self, module, cfg, timeout=700, heap="6g"):
        """A deviation that the model's invariants must notice: guards the
        model against being vacuous."""
        rc, so, st = self.tlc(module, cfg, timeout=timeout, heap=heap)
        if rc != 12 or "is violated" not in so:
            raise ToolError("model %s %s: the deviation was not noticed, rc %d\n%s" % (module, cfg, rc, so[-4000:]))
        self.cov.setdefault("models", []).append({"module": module, "config": cfg, "deviation_noticed": True})

    def validate(self, module, files, cfg=None, what="", timeout=700, workers=2, nondet=False):
        """Validates trace files (one trace per line) against a trace spec.  A
        trace the specification does not explain is a violation.  A nondet
        specification has internal choices: it prints ACC for the traces that
        some branch explains; otherwise a stuck state is a rejection."""
        files = [f for f in files if os.path.getsize(f) > 0]
        if not files:
            raise ToolError("no traces to validate for " + module)
        # balance the files over parallel TLC runs
        par = max(1, NCPU // workers)
        groups = [[] for _ in range(par)]
        for i, f in enumerate(sorted(files, key=os.path.getsize, reverse=True)):
            groups[i % par].append(f)
        d = self.tmp("traces-" + module)
        jobs = []
        for gi, g in enumerate(groups):
            if not g:
                continue
            path = os.path.join(d, "g%d.ndjson" % gi)
            idx = []
            with open(path, "w") as o:
                for f in g:
                    with open(f) as inp:
                        for n, line in enumerate(inp):
                            o.write(line)
                            idx.append((f, n))
            if idx:
                jobs.append((path, idx))

        def one(job):
            path, idx = job
            rc, so, st = self.tlc(module, cfg, env={"TRACES": path}, workers=workers, timeout=timeout, heap="3g")
            return rc, so, st, path, idx

        with ThreadPoolExecutor(par) as ex:
            res = list(ex.map(one, jobs))
        viol = None
        for rc, so, st, path, idx in res:
            if rc == 0 and "Model checking completed. No error has been found." in so:
                if nondet:
                    acc = set(int(x) for x in re.findall(r'<<"ACC", (\d+)>>', so))
                    for i, (f, n) in enumerate(idx):
                        if i + 1 not in acc:
                            viol = viol or (f, n, self.progress(module, cfg, f, n), "rejected at event")
                            break
                    if viol:
                        continue
                self.add("states", st[0])
                self.add("transitions", st[1])
                self.add("traces_validated_against_impl", len(idx))
                continue
            dead = "Error: Deadlock reached." in so
            inv = re.search(r"Error: Invariant (\w+) is violated", so)
            if (dead or inv) and "Evaluating" not in so:
                tids = re.findall(r"/\\ tid = (\d+)", so)
                ls = re.findall(r"/\\ l = (\d+)", so)
                if tids:
                    f, n = idx[int(tids[-1]) - 1]
                    pos = int(ls[-1]) if ls else 0
                    viol = viol or (f, n, pos, "rejected at event" if dead else "violates " + inv.group(1))
                    continue
            raise ToolError("tlc %s: rc %d\n%s" % (module, rc, so[-5000:]))
        if viol:
            f, n, pos, how = viol
            src = f + ".full" if os.path.exists(f + ".full") else f
            with open(src) as inp:
                for i, line in enumerate(inp):
                    if i == n:
                        rec = json.loads(line)
            evs = rec.get("ev", [])
            at = evs[pos - 1] if 0 < pos <= len(evs) else None
            raise Violation("%s: %s %d: %s" % (what or module, how, pos, json.dumps(at)[:600]),
                            {"spec": module, "event": pos, "at": at, "trace": rec})
        for f in files[:1]:
            with open(f) as inp:
                for i, line in enumerate(inp):
                    if i == 3:
                        try:
                            self.sample({"spec": module, "trace": shorten(json.loads(line))})
                        except ValueError:
                            pass
                        break

    def progress(self, module, cfg, f, n):
        """How far the specification can explain a rejected trace."""
        d = self.tmp("rejected")
        path = os.path.join(d, "one.ndjson")
        with open(f) as inp, open(path, "w") as o:
            for i, line in enumerate(inp):
                if i == n:
                    o.write(line)
        rc, so, st = self.tlc(module, cfg, env={"TRACES": path, "PROGRESS": "1"}, workers=1)
        return max([int(x) for x in re.findall(r'<<"AT", (\d+)>>', so)] or [0])

    # ---- evidence ----
    def evidence(self, level, violations, assumptions):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": self.cov,
              "wall_s": round(time.time() - self.t0, 2), "violations": violations, "assumptions": assumptions}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", self.prop + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.prop + ".json"))


def shorten(x, depth=0):
    s = json.dumps(x)
    if len(s) < 3000:
        return x
    if isinstance(x, dict):
        x = dict(x)
        if isinstance(x.get("ev"), list):
            x["ev"] = x["ev"][:6] + ["... %d events" % len(x["ev"])]
        return x
    return s[:3000]
