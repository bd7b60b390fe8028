"""Common machinery: build the tree under test, run TLC, replay behaviours, write evidence.

Nothing in here knows what any property says: the properties are in /verif/spec/*.tla, and each
harness/p_<ID>.py only binds the actions and observations of one specification to the real code.
"""
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing
import multiprocessing.connection
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
CACHE = os.path.join(VERIF, ".cache")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class InfraError(Exception):
    """The check itself is broken (exit 2): never reported as a violation."""


class Divergence(Exception):
    """The real code does not do what the specification says."""

    def __init__(self, what, expected=None, observed=None, sig=None):
        super().__init__(what)
        self.what, self.expected, self.observed = what, expected, observed
        self.sig = sig


class Hang(BaseException):
    pass


# ----------------------------------------------------------------------------------------------
# The tree under test
# ----------------------------------------------------------------------------------------------
def _sha(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def build_tree(scratch):
    """Copy /repo's package into scratch and compile its extensions there from the current sources."""
    dst = os.path.join(scratch, "tree")
    os.makedirs(dst)
    ignore = shutil.ignore_patterns("*.so", "*.c", "__pycache__", "*.pyc", "*.html")
    shutil.copytree(os.path.join(REPO, "mass"), os.path.join(dst, "mass"), ignore=ignore)
    if os.path.isdir(os.path.join(REPO, "bin")):
        shutil.copytree(os.path.join(REPO, "bin"), os.path.join(dst, "bin"))
    for f in ("setup.py", "pyproject.toml", "README.md", "MANIFEST.in", "LICENSE", "setup.cfg"):
        if os.path.exists(os.path.join(REPO, f)):
            shutil.copy(os.path.join(REPO, f), dst)
    pyx = []
    for root, _dirs, files in os.walk(os.path.join(dst, "mass")):
        pyx += [os.path.join(root, f) for f in files if f.endswith((".pyx", ".pxd"))]
    key = hashlib.sha256()
    for f in sorted(pyx) + [os.path.join(dst, "setup.py")]:
        key.update(os.path.relpath(f, dst).encode() + _sha(f).encode())
    key.update(sys.version.encode())
    cdir = os.path.join(CACHE, "ext", key.hexdigest()[:24])
    if not os.path.isdir(cdir):
        env = dict(os.environ, SETUPTOOLS_SCM_PRETEND_VERSION="0.8.6", CFLAGS="-O1 -w")
        r = subprocess.run([sys.executable, "setup.py", "-q", "build_ext", "--inplace", "-j4"], cwd=dst, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise InfraError("extensions do not build:\n" + r.stdout[-3000:])
        tmp = tempfile.mkdtemp(dir=scratch)
        n = 0
        for root, _dirs, files in os.walk(os.path.join(dst, "mass")):
            for f in files:
                if f.endswith(".so"):
                    rel = os.path.relpath(os.path.join(root, f), dst)
                    os.makedirs(os.path.join(tmp, os.path.dirname(rel)), exist_ok=True)
                    shutil.copy(os.path.join(root, f), os.path.join(tmp, rel))
                    n += 1
        if n == 0:
            raise InfraError("no extension was built")
        try:
            os.makedirs(os.path.dirname(cdir), exist_ok=True)
            shutil.move(tmp, cdir)
        except OSError:
            pass
    else:
        for root, _dirs, files in os.walk(cdir):
            for f in files:
                rel = os.path.relpath(os.path.join(root, f), cdir)
                shutil.copy(os.path.join(root, f), os.path.join(dst, rel))
    if not os.path.exists(os.path.join(dst, "mass", "_version.py")):
        src = os.path.join(REPO, "mass", "_version.py")
        with open(os.path.join(dst, "mass", "_version.py"), "w") as f:
            f.write(open(src).read() if os.path.exists(src) else "version = '0.8.6'\n__version__ = '0.8.6'\n")
    return dst


def import_mass(tree):
    import warnings
    warnings.simplefilter("ignore")
    sys.path.insert(0, tree)
    import mass
    if not os.path.abspath(mass.__file__).startswith(os.path.abspath(tree)):
        raise InfraError(f"imported the wrong tree: {mass.__file__}")
    import mass.off  # noqa: F401
    if "pytest" in sys.modules:
        raise InfraError("pytest is imported: group loops would re-raise")
    import logging
    logging.disable(logging.CRITICAL)
    return mass


# ----------------------------------------------------------------------------------------------
# TLC
# ----------------------------------------------------------------------------------------------
class Raw(str):
    """A TLA+ expression, verbatim."""


def tla(v):
    """Python value -> TLA+ expression (str -> string, list/tuple -> sequence, set -> set, dict -> record)."""
    if isinstance(v, Raw):
        return str(v)
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, int):
        return str(v) if v >= 0 else f"(-{-v})"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, dict):
        return "[" + ", ".join(f"{k} |-> {tla(x)}" for k, x in v.items()) + "]"
    raise TypeError(v)


_STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")
_SIMSTATS = re.compile(r"The number of states generated: (\d+)")


class Ctx:
    def __init__(self, pid, tier, seed, scratch):
        self.pid, self.tier, self.seed, self.scratch = pid, tier, seed, scratch
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.steps = 0
        self.actions = {}
        self.samples = []
        self.notes = []
        self.models = []
        self.violations = []
        self.mass = None
        self.jobs = 8

    # ---- budgets -----------------------------------------------------------------------------
    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def elapsed(self):
        return time.time() - self.t0

    # ---- running TLC -------------------------------------------------------------------------
    def _tlc(self, module, cfg, args, env=None, timeout=300, mem="3g"):
        """cfg = (consts, rest).  Every constant is given as a TLA+ expression, through a wrapper module."""
        wd = tempfile.mkdtemp(prefix="tlc_", dir=self.scratch)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(wd, f))
        consts, rest = cfg
        with open(os.path.join(wd, "Wrap.tla"), "w") as f:
            f.write(f"---- MODULE Wrap ----\nEXTENDS {module}\n" + "".join(f"const_{k} == {tla(v)}\n" for k, v in consts.items()) + "====\n")
        with open(os.path.join(wd, "run.cfg"), "w") as f:
            f.write(rest + ("CONSTANTS\n" + "".join(f"  {k} <- const_{k}\n" for k in consts) if consts else ""))
        module = "Wrap"
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", f"-Xmx{mem}", "-Xss16m", "-cp", JARS, "tlc2.TLC", "-config", "run.cfg",
               "-metadir", os.path.join(wd, "meta"), "-noGenerateSpecTE"] + args + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        out = open(os.path.join(wd, "out.txt"), "w+")
        p = subprocess.Popen(cmd, cwd=wd, env=e, stdout=out, stderr=subprocess.STDOUT)
        return p, out, wd, timeout

    def _finish(self, run):
        p, out, wd, timeout = run
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            raise InfraError("TLC timed out")
        out.seek(0)
        text = out.read()
        out.close()
        shutil.rmtree(wd, ignore_errors=True)
        if p.returncode:
            text = "\n".join(x for x in text.splitlines() if not x.startswith(("Parsing file", "Semantic proc", "Linting of")))
        return p.returncode, text

    def _cfg(self, consts, init="Init", next="Next", invs=(), props=(), extra=""):
        s = f"INIT {init}\nNEXT {next}\nCHECK_DEADLOCK FALSE\n"
        for i in invs:
            s += f"INVARIANT {i}\n"
        for i in props:
            s += f"PROPERTY {i}\n"
        return dict(consts or {}), s + extra + "\n"

    def start_check(self, module, consts=None, invs=(), props=(), workers=2, init="Init", next="Next", extra="", timeout=400):
        """Start an exhaustive TLC run; finish with end_check."""
        cfg = self._cfg(consts or {}, init, next, invs, props, extra)
        return (module, list(invs) + list(props), self._tlc(module, cfg, ["-workers", str(workers)], timeout=timeout, mem="6g"))

    def end_check(self, h):
        module, invs, run = h
        rc, text = self._finish(run)
        m = None
        for m in _STATS.finditer(text):
            pass
        if rc != 0 or m is None:
            raise InfraError(f"TLC on {module}: rc={rc}\n" + "\n".join(x for x in text.splitlines() if "rror" in x or "verflow" in x or "xception" in x or "Attempted" in x)[:1500] + text[-4000:])
        self.transitions += int(m.group(1))
        self.states += int(m.group(2))
        self.models.append(dict(module=module, checked=invs, states_generated=int(m.group(1)), distinct_states=int(m.group(2)), exhaustive=True))

    def check(self, *a, **k):
        self.end_check(self.start_check(*a, **k))

    @staticmethod
    def _parse(text):
        traces = []
        for line in text.splitlines():
            if line.startswith('"@@'):
                traces.append(json.loads(json.loads(line)[2:]))
        return traces

    def gen(self, module, consts=None, num=100, depth=20, invs=(), init="Init", next="Next", procs=4, extra="", emit="Emit"):
        """Random behaviours of the specification (TLC -simulate), as recorded in its `hist` variable."""
        procs = max(1, min(procs, num // 5 or 1))
        cfg = self._cfg(consts or {}, init, next, list(invs) + [emit], (), extra)
        runs = []
        for i in range(procs):
            s = (self.seed * 7919 + 104729 * i + int(hashlib.sha256((module + repr(cfg)).encode()).hexdigest()[:6], 16)) % (2**31)
            runs.append(self._tlc(module, cfg, ["-simulate", f"num={(num + procs - 1) // procs}", "-depth", str(depth), "-seed", str(s), "-workers", "1"]))
        traces = []
        gen = 0
        for r in runs:
            rc, text = self._finish(r)
            m = _SIMSTATS.search(text)
            if rc != 0 or m is None:
                raise InfraError(f"TLC -simulate on {module}: rc={rc}\n" + "\n".join(x for x in text.splitlines() if "rror" in x or "verflow" in x or "xception" in x or "Attempted" in x)[:1500] + text[-4000:])
            gen += int(m.group(1))
            # TLC evaluates Emit on every successor of a behaviour's last state but one: keep one of them
            by = {}
            for t in self._parse(text):
                by.setdefault(json.dumps(t[:-1]) if isinstance(t, list) else len(by), []).append(t)
            traces += [v[len(v) * 7 // 11] for v in by.values()]
        if not traces:
            raise InfraError(f"{module}: no behaviour was generated")
        self.transitions += gen
        self.models.append(dict(module=module, simulated_traces=len(traces), states_generated=gen, checked=list(invs), exhaustive=False))
        return traces

    def enum(self, module, consts=None, invs=(), init="Init", next="Next", workers=4, extra="", emit="Emit"):
        """All behaviours/inputs of a bounded specification (breadth first), each printed by its Emit invariant."""
        cfg = self._cfg(consts or {}, init, next, list(invs) + [emit], (), extra)
        rc, text = self._finish(self._tlc(module, cfg, ["-workers", str(workers)], mem="6g"))
        m = None
        for m in _STATS.finditer(text):
            pass
        if rc != 0 or m is None:
            raise InfraError(f"TLC on {module}: rc={rc}\n" + "\n".join(x for x in text.splitlines() if "rror" in x or "verflow" in x or "xception" in x or "Attempted" in x)[:1500] + text[-4000:])
        traces = self._parse(text)
        if not traces:
            raise InfraError(f"{module}: nothing was enumerated")
        self.transitions += int(m.group(1))
        self.states += int(m.group(2))
        self.models.append(dict(module=module, enumerated=len(traces), states_generated=int(m.group(1)), distinct_states=int(m.group(2)), checked=list(invs), exhaustive=True))
        return traces

    def validate(self, module, traces, consts=None, inv="Accepted", workers=2, name="validate", init="Init", next="Next"):
        """impl -> spec: TLC decides whether each recorded trace is a behaviour of the specification.

        The trace specification is total: it consumes every event, and sets `err` to the name of the first clause
        the event breaks. Returns nothing; records a violation naming the clause."""
        if not traces:
            raise InfraError(f"{module}: nothing was recorded")
        path = os.path.join(self.scratch, f"{module}_{name}.json")
        with open(path, "w") as f:
            json.dump(traces, f)
        cfg = self._cfg(consts or {}, init, next, [inv])
        rc, text = self._finish(self._tlc(module, cfg, ["-workers", str(workers)], env={"TRACEFILE": path}, mem="6g"))
        if rc == 0:
            m = None
            for m in _STATS.finditer(text):
                pass
            want = sum(len(t) + 1 for t in traces)
            if m is None or int(m.group(2)) < want:
                raise InfraError(f"{module}: not every recorded event was consumed ({m and m.group(0)}, want {want})\n" + text[-2000:])
            self.states += int(m.group(2))
            self.transitions += int(m.group(1))
            self.traces += len(traces)
            self.steps += sum(len(t) for t in traces)
            for t in traces:
                for s in t:
                    self.actions[s.get("act", "?")] = self.actions.get(s.get("act", "?"), 0) + 1
            self.models.append(dict(module=module, recorded_traces_accepted=len(traces), states_generated=int(m.group(1)), exhaustive=True))
            return
        if rc == 12:   # invariant violated
            errs = re.findall(r'err = "([^"]+)"', text)
            tids = re.findall(r"\btid = (\d+)", text)
            pos = re.findall(r"\bpos = (\d+)", text)
            tid, k = int(tids[-1]), int(pos[-1])
            t = traces[tid - 1]
            self.violations.append(dict(kind="recorded trace rejected", module=module, clause=errs[-1] if errs else "?",
                                        step=k - 1, trace=t[:k], observed=t[k - 1] if 0 < k <= len(t) else None,
                                        sig=f"{module}:{errs[-1] if errs else '?'}", tlc=text[-3000:]))
            return
        raise InfraError(f"TLC on {module}: rc={rc}\n" + "\n".join(x for x in text.splitlines() if "rror" in x or "verflow" in x or "xception" in x or "Attempted" in x)[:1500] + text[-4000:])

    # ---- replaying ---------------------------------------------------------------------------
    def replay(self, fn, traces, label="", timeout=150, maxviol=3, setup=None):
        """spec -> impl: run fn(trace, workdir) for every behaviour; fn raises Divergence when the code disagrees.

        Any exception that escapes from fn is a divergence as well: the bindings themselves convert every exception
        the specification allows into an observation."""
        work = [(fn, i, t, self.scratch, timeout, label) for i, t in enumerate(traces)]
        n = len(work)
        results = []
        if n == 0:
            raise InfraError("nothing to replay")
        for r in _farm(work, min(self.jobs, n), timeout, max(1, min(16, n // (self.jobs * 4) or 1))):
            results.append(r)
            if len([x for x in results if x]) >= maxviol:
                break
        self.traces += n
        for t in traces:
            steps = t if isinstance(t, list) else [t]
            self.steps += len(steps)
            for s in steps:
                if isinstance(s, dict):
                    a = s.get("act", label or "case")
                    self.actions[a] = self.actions.get(a, 0) + 1
        if len(self.samples) < 4:
            self.samples.append(dict(label=label, behaviour=_clip(traces[0])))
        for r in results:
            if r:
                self.violations.append(r)

    def need_actions(self, *names):
        """Vacuity: every action named must have been exercised against the real code."""
        if self.violations:
            return
        missing = [a for a in names if not self.actions.get(a)]
        if missing:
            raise InfraError(f"vacuous: actions never exercised: {missing}; have {self.actions}")


def _clip(x, n=6000):
    s = json.dumps(x)
    if len(s) <= n:
        return x
    if isinstance(x, list):
        return x[:max(1, min(3, len(x)))] if len(json.dumps(x[:3])) < 3 * n else s[:n]
    return s[:n]


def _alarm(_s, _f):
    raise Hang()


def _farm(work, jobs, timeout, chunk):
    """The results of _worker for all of work, by forked processes.  Each has pipes of its own, so that one that dies or hangs
    (also below the interpreter) is noticed, counts as a violation, and blocks nothing."""
    ctx = multiprocessing.get_context("fork")
    todo, procs = list(range(len(work))), {}

    def serve(conn):
        try:
            while True:
                for i in conn.recv():
                    try:
                        conn.send((i, _worker(work[i]), None))
                    except InfraError as e:
                        conn.send((i, None, str(e)))
        except (EOFError, OSError):
            pass
        os._exit(0)

    def hire():
        ours, theirs = ctx.Pipe()
        def main():
            for c in list(procs) + [ours]:
                c.close()
            serve(theirs)
        p = ctx.Process(target=main, daemon=True)
        p.start()
        theirs.close()
        procs[ours] = [p, [], time.monotonic()]
        give(ours)

    def give(conn):
        batch, todo[:chunk] = todo[:chunk], []
        procs[conn][1:] = [list(batch), time.monotonic()]
        if batch:
            conn.send(batch)

    def lost(conn, why):
        p, batch, _ = procs.pop(conn)
        p.kill()
        p.join()
        conn.close()
        todo[:0] = batch[1:]
        if todo:
            hire()
        return dict(kind="no answer", label=work[batch[0]][5], what=why, trace=work[batch[0]][2], sig="hang")

    try:
        for _ in range(jobs):
            if todo:
                hire()
        while any(b for _, b, _ in procs.values()):
            ready = multiprocessing.connection.wait([c for c, v in procs.items() if v[1]], 5)
            for c in ready:
                try:
                    i, r, infra = c.recv()
                except (EOFError, OSError):
                    yield lost(c, "the process running the code died")
                    continue
                if infra:
                    raise InfraError(infra)
                procs[c][1].remove(i)
                procs[c][2] = time.monotonic()
                if not procs[c][1]:
                    give(c)
                yield r
            for c in [c for c, v in procs.items() if v[1] and time.monotonic() - v[2] > timeout + 20]:
                yield lost(c, f"the code did not finish within {timeout} s")
    finally:
        for c, (p, _, _) in procs.items():
            p.kill()
        for c, (p, _, _) in procs.items():
            p.join()
            c.close()


def _worker(arg):
    fn, i, trace, scratch, timeout, label = arg
    wd = tempfile.mkdtemp(prefix="w_", dir=scratch)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout)
    cwd = os.getcwd()
    try:
        os.chdir(wd)
        with open(os.devnull, "w") as dn, contextlib.redirect_stdout(dn), contextlib.redirect_stderr(io.StringIO()):
            fn(trace, wd)
        return None
    except Divergence as d:
        step = getattr(d, "step", None)
        return dict(kind="behaviour not reproduced by the code", label=label, what=d.what, expected=d.expected, observed=d.observed,
                    step=step, trace=trace[:step + 1] if isinstance(trace, list) and step is not None else trace, sig=d.sig or d.what)
    except Hang:
        return dict(kind="no answer", label=label, what=f"the code did not finish within {timeout} s", trace=trace, sig="hang")
    except InfraError:
        raise
    except (KeyboardInterrupt, Exception) as e:
        tb = traceback.format_exc()
        return dict(kind="unexpected exception", label=label, what=f"{type(e).__name__}: {e}", trace=trace, traceback=tb[-3000:],
                    step=getattr(e, "step", None), sig=f"exception:{type(e).__name__}")
    finally:
        signal.alarm(0)
        os.chdir(cwd)
        shutil.rmtree(wd, ignore_errors=True)


def steps(trace):
    """Iterate the steps of a behaviour, attributing any divergence to its step."""
    return enumerate(trace)


@contextlib.contextmanager
def at_step(k, act):
    try:
        yield
    except Divergence as d:
        if getattr(d, "step", None) is None:
            d.step = k
            d.what = f"step {k} ({act}): {d.what}"
        raise
    except (Exception, KeyboardInterrupt) as e:
        d = Divergence(f"step {k} ({act}): unexpected {type(e).__name__}: {e}", observed=traceback.format_exc()[-2500:], sig=f"{act}:exception")
        d.step = k
        raise d


def expect(what, expected, observed, sig=None):
    if expected != observed:
        raise Divergence(what, expected, observed, sig or what)


def expect_close(what, expected, observed, rtol=1e-9, atol=1e-9, sig=None):
    import numpy as np
    e, o = np.asarray(expected, dtype=float), np.asarray(observed, dtype=float)
    if e.shape != o.shape or not np.allclose(e, o, rtol=rtol, atol=atol, equal_nan=True):
        raise Divergence(what, e.tolist(), o.tolist(), sig or what)


# ----------------------------------------------------------------------------------------------
# Known findings, evidence, verdict
# ----------------------------------------------------------------------------------------------
def known_findings(pid):
    path = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]


def run_check(pid, tier):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module(f"p_{pid}")
    scratch = tempfile.mkdtemp(prefix=f"verif_{pid}_")
    ctx = Ctx(pid, tier, seed, scratch)
    ev = os.path.join(VERIF, "evidence", f"{pid}.json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    if os.path.exists(ev):
        os.unlink(ev)
    try:
        tree = build_tree(scratch)
        ctx.tree = tree
        ctx.mass = import_mass(tree)
        mod.run(ctx)
        return finish(ctx, mod, ev)
    except InfraError as e:
        print(f"CHECK-ERROR {pid}: {e}")
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def finish(ctx, mod, ev):
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    known = known_findings(ctx.pid)
    fresh, seen = [], []
    for v in ctx.violations:
        for k in known:
            if k.get("status") == "known" and re.fullmatch(k["match"], v.get("sig", "")):
                seen.append(k)
                break
        else:
            fresh.append(v)
    for k in known:
        if k.get("status") == "known" and k in seen:
            print(f"KNOWN-FINDING: property={ctx.pid} {k['what']}")
    cov = dict(states=ctx.states, transitions=ctx.transitions, traces_validated_against_impl=ctx.traces,
               implementation_steps=ctx.steps, actions=dict(sorted(ctx.actions.items())), models=ctx.models, samples=ctx.samples or ["none"])
    doc = dict(property=ctx.pid, tier=ctx.tier, seed=ctx.seed, level="model_checking", coverage=cov,
               assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - ctx.t0, 2), violations=len(fresh))
    with open(ev, "w") as f:
        json.dump(doc, f, indent=1, default=str)
    if not fresh:
        print(f"OK property={ctx.pid} states={ctx.states} transitions={ctx.transitions} traces={ctx.traces} steps={ctx.steps} wall={doc['wall_s']}s")
        return 0
    for i, v in enumerate(fresh[:3]):
        path = os.path.join(rdir, f"{ctx.pid}-{i}.json")
        with open(path, "w") as f:
            json.dump(dict(property=ctx.pid, seed=ctx.seed, tier=ctx.tier, **v), f, indent=1, default=str)
        print(f"VIOLATION property={ctx.pid} replay={path}")
        print("  " + str(v.get("what", v.get("clause", "")))[:500].replace("\n", " "))
        if "expected" in v:
            print("  expected " + str(v["expected"])[:300] + "\n  observed " + str(v["observed"])[:300])
    return 1
