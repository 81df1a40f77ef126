"""Runner shared by all checks.

A check module (vx/checks/cNN.py) provides

  PROP, LEVEL, RULE, ASSUMPTIONS
  QUICK          number of generated cases of the quick tier
  directed()     list of (name, callable(ctx)): always run, before the generated cases
  case(ctx)      one generated case; ctx.rng is its only source of randomness
  REQUIRED       monitor counters which must be non-zero, else the run is inconclusive
  known()        optional list of (text, callable) probes of known findings

Every monitor is an oracle over observations of the real code: it raises
Violation (through ctx.check / ctx.equal) when an observation contradicts it.
"""
import errno
import hashlib
import io
import json
import multiprocessing
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")
SRC = os.path.join(REPO, "src")

# Consumed CPU time (not wall-clock time) after which a single case, which
# normally takes some milliseconds, is held to be non-terminating.
CASE_CPU_LIMIT = 120
# Wall-clock watchdog of a single case: its firing is inconclusive
CASE_WALL_LIMIT = 600


class Violation(Exception):
    """The code under test contradicted the oracle"""

    def __init__(self, msg, detail=None):
        super().__init__(msg)
        self.detail = detail


class Hang(BaseException):
    pass


class WallClock(BaseException):
    pass


def short(v, n=600):
    s = repr(v)
    return s if len(s) <= n else s[:n] + "...(%d chars)" % len(s)


def diff(exp, got, path="$", out=None, limit=8):
    """Lists the differences between two nests of dict/list/tuple/scalars"""
    if out is None:
        out = []
    if len(out) >= limit:
        return out
    if isinstance(exp, dict) and isinstance(got, dict):
        for k in exp:
            if k not in got:
                out.append("%s: missing %s (expected %s)" % (path, short(k, 160), short(exp[k], 160)))
            else:
                diff(exp[k], got[k], path + "." + str(k)[:80], out, limit)
        for k in got:
            if k not in exp:
                out.append("%s: unexpected %s = %s" % (path, short(k, 160), short(got[k], 160)))
    elif isinstance(exp, (list, tuple)) and isinstance(got, (list, tuple)):
        if len(exp) != len(got):
            out.append("%s: expected %d elements %s, observed %d %s" % (
                path, len(exp), short(exp, 200), len(got), short(got, 200)))
        else:
            for i, (e, g) in enumerate(zip(exp, got)):
                diff(e, g, "%s[%d]" % (path, i), out, limit)
    elif isinstance(exp, bool) != isinstance(got, bool) or exp != got:
        out.append("%s: expected %s, observed %s" % (path, short(exp, 200), short(got, 200)))
    return out


class Ctx(object):
    """Context of one case: randomness, scratch space, observation counters"""

    def __init__(self, prop, seed, tier, label, obs, distinct, samples, scratch):
        self.prop = prop
        self.seed = seed
        self.tier = tier
        self.label = label
        self.rng = random.Random("%s:%s:%s" % (prop, seed, label))
        self.obs = obs
        self.distinct = distinct
        self.samples = samples
        self.scratch = scratch
        self.trace = []
        self.nontrivial = False
        self._n = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def count(self, name, n=1):
        self.obs[name] += n

    def note(self, what):
        """Records a step of the workload, for the witness"""
        if len(self.trace) < 4000:
            self.trace.append(what)

    def seen(self, state, nontrivial=True):
        """Records an observed case; distinct ones are counted by hash"""
        h = hashlib.blake2b(repr(state).encode("utf-8", "surrogatepass"), digest_size=8).digest()
        if nontrivial:
            self.nontrivial = True
            self.distinct.add(h)
        if nontrivial and len(self.samples) < 2:
            self.samples.append(short(state, 700))

    def path(self, suffix=""):
        self._n += 1
        return os.path.join(self.scratch, "f%d%s" % (self._n, suffix))

    def infile(self, *exts):
        """A path for an input; its name must not matter"""
        self._n += 1
        n = self.rng.choice(["f", "f", "a b", "F.X", "x.xml.gz", "100%s", "-f", "\u00e9\u4e2d", ".hidden", "f.lz4", "f.tmp", "f.ucis",
                             "f.json", "x.yaml", "[1]*", "a'b\"c", "f.XML", "a:b", "~", "$HOME"])
        return os.path.join(self.scratch, "%s%d%s" % (n, self._n, self.rng.choice(exts)))

    def fail(self, msg, detail=None):
        raise Violation(msg, detail)

    def check(self, cond, msg, *args):
        self.obs["assertions"] += 1
        if not cond:
            raise Violation(msg % args if args else msg)

    def equal(self, exp, got, what):
        self.obs["comparisons"] += 1
        d = diff(exp, got)
        if d:
            raise Violation("%s: %s" % (what, " | ".join(d)))


class sut(object):
    """Marks a call of the code under test that must succeed: with the inputs
    in this context an exception is a violation, not an error of the check"""

    def __init__(self, what):
        self.what = what

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        if t is None or not issubclass(t, Exception) or issubclass(t, Violation):
            return False
        tail = "".join(traceback.format_exception(t, v, tb)[-6:])
        raise Violation("%s raised %s: %s" % (self.what, t.__name__, v), tail)


def must_raise(ctx, what, fn, *args, **kw):
    """The call has to be rejected with an exception"""
    ctx.count("rejections_expected")
    try:
        r = fn(*args, **kw)
    except Exception as e:
        ctx.count("rejections_observed")
        return e
    raise Violation("%s was accepted (returned %s)" % (what, short(r, 200)))


# --- reach: which functions of the code under test ran --------------------

_reached = set()
_lines = set()
LINES = os.environ.get("VX_LINES")      # a file that gets the lines reached, for tools/reach.py


def start_reach():
    m = sys.monitoring
    try:
        m.use_tool_id(m.PROFILER_ID, "vx")
    except ValueError:
        return

    def on_start(code, off):
        fn = code.co_filename
        if fn.startswith(SRC):
            _reached.add(fn[len(SRC) + 1:] + ":" + code.co_qualname)
        return m.DISABLE

    m.register_callback(m.PROFILER_ID, m.events.PY_START, on_start)
    m.set_events(m.PROFILER_ID, m.events.PY_START | (m.events.LINE if LINES else 0))

    def on_line(code, line):
        fn = code.co_filename
        if fn.startswith(SRC):
            _lines.add("%s:%d" % (fn[len(SRC) + 1:], line))
        return m.DISABLE

    if LINES:
        m.register_callback(m.PROFILER_ID, m.events.LINE, on_line)


# --- running cases ----------------------------------------------------------

def _on_cpu(sig, frame):
    raise Hang()


def _on_wall(sig, frame):
    raise WallClock()


def run_one(mod, prop, seed, tier, label, fn, obs, distinct, samples, scratch_root):
    """Runs a case; returns None, or a dict describing a violation / an error"""
    d = tempfile.mkdtemp(dir=scratch_root)
    ctx = Ctx(prop, seed, tier, label, obs, distinct, samples, d)
    signal.signal(signal.SIGPROF, _on_cpu)
    signal.signal(signal.SIGALRM, _on_wall)
    signal.setitimer(signal.ITIMER_PROF, getattr(mod, "CASE_CPU", CASE_CPU_LIMIT))
    signal.alarm(CASE_WALL_LIMIT)
    so, se = sys.stdout, sys.stderr
    cwd = os.getcwd()
    res = None
    try:
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        try:
            fn(ctx)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.alarm(0)
            sys.stdout, sys.stderr = so, se
            os.chdir(cwd)
    except Violation as v:
        res = {"kind": "violation", "message": str(v), "detail": v.detail}
    except Hang:
        res = {"kind": "violation", "message": "no termination: the case used more than %d s of CPU time"
               % getattr(mod, "CASE_CPU", CASE_CPU_LIMIT), "detail": None}
    except WallClock:
        res = {"kind": "inconclusive", "message": "wall-clock watchdog fired", "detail": None}
    except Exception as e:
        # The workload is fixed and the unchanged code takes it without an exception,
        # so one that escapes (from the code under test, or from the monitor walking
        # what it produced) is a deviation - unless the environment ran out of something.
        txt = "".join(traceback.format_exception(e)[-8:])
        if isinstance(e, MemoryError) or (isinstance(e, OSError) and e.errno in (
                errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EAGAIN)):
            res = {"kind": "inconclusive", "message": "%s: %s" % (type(e).__name__, e), "detail": txt}
        else:
            res = {"kind": "violation", "message": "unexpected %s: %s" % (type(e).__name__, e), "detail": txt}
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if res is not None:
        res["label"] = label
        res["trace"] = ctx.trace[-400:]
    obs["cases"] += 1
    if ctx.nontrivial:
        obs["nontrivial_cases"] += 1
    return res


def huge(mod, dim):
    """A case as generated otherwise, with one dimension of everything beyond a thousand"""
    def f(ctx):
        from vx import gen
        gen.HUGE = dim
        try:
            mod.case(ctx)
        finally:
            gen.HUGE = None
        ctx.count("huge_cases")
    return f


def known_probe(fn, ctx, conn):
    """In a process of its own: native code may take its process down"""
    sys.stdout = io.StringIO()
    try:
        still = bool(fn(ctx))
    except Exception:
        still = True
    conn.send(still)
    conn.close()


def worker(mod, seed, tier, shard, nshards, total, deadline, cap, scratch_root, conn, directed):
    try:
        _worker(mod, seed, tier, shard, nshards, total, deadline, cap, scratch_root, conn, directed)
    except BaseException as e:
        try:
            conn.send({"fatal": "".join(traceback.format_exception(e))})
        except Exception:
            pass
    finally:
        conn.close()
        os._exit(0)


def _worker(mod, seed, tier, shard, nshards, total, deadline, cap, scratch_root, conn, directed):
    start_reach()
    obs, distinct, samples, bad = Counter(), set(), [], []
    names = set()
    if hasattr(mod, "worker_init"):
        mod.worker_init(scratch_root)
    for i, (name, fn) in enumerate(directed):
        if i % nshards != shard:
            continue
        r = run_one(mod, mod.PROP, seed, tier, "d:" + name, fn, obs, distinct, samples, scratch_root)
        if r is not None:
            bad.append(r)
        if time.monotonic() > cap:
            break
    i = shard
    while not bad:
        now = time.monotonic()
        if total is not None and i >= total:
            break
        if now > (deadline if total is None else cap):
            break
        r = run_one(mod, mod.PROP, seed, tier, "g:%d" % i, mod.case, obs, distinct, samples, scratch_root)
        if r is not None:
            bad.append(r)
        i += nshards
    if LINES:
        with open(LINES, "a") as fp:
            fp.write("".join(l + "\n" for l in sorted(_lines)))
    conn.send({"obs": obs, "distinct": distinct, "samples": samples, "bad": bad,
               "reached": _reached, "next": i})


def check_repo_import():
    import ucis
    f = os.path.abspath(ucis.__file__)
    if not f.startswith(SRC + os.sep):
        print("error: ucis imported from %s, not from %s" % (f, SRC))
        sys.exit(2)


def run(mod, replay=None):
    t0 = time.time()
    m0 = time.monotonic()
    prop = mod.PROP
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    check_repo_import()
    scratch_root = tempfile.mkdtemp(prefix="vx-%s-" % prop)
    try:
        return _run(mod, prop, seed, tier, replay, t0, m0, scratch_root)
    finally:
        shutil.rmtree(scratch_root, ignore_errors=True)


def _run(mod, prop, seed, tier, replay, t0, m0, scratch_root):
    directed = mod.directed() if hasattr(mod, "directed") else []
    directed += [("huge_%s%d" % (d, k), huge(mod, d)) for d in getattr(mod, "HUGE", []) for k in range(3 if tier == "thorough" else 1)]
    if os.environ.get("VX_DIRECTED") == "0":        # (for campaigns of planted bugs)
        directed = []
    if hasattr(mod, "setup"):
        mod.setup(scratch_root)

    if replay is not None:
        with open(replay) as fp:
            w = json.load(fp)
        fn = mod.case
        for name, f in directed:
            if "d:" + name == w["case"]:
                fn = f
        obs, distinct, samples = Counter(), set(), []
        if hasattr(mod, "worker_init"):
            mod.worker_init(scratch_root)
        r = run_one(mod, prop, w["seed"], w["tier"], w["case"], fn, obs, distinct, samples, scratch_root)
        if r is None:
            print("replay of %s: no violation" % w["case"])
            return 0
        print("replay of %s: %s: %s" % (w["case"], r["kind"], r["message"]))
        print(r["detail"] or "")
        if r["kind"] == "violation":
            print("VIOLATION property=%s replay=%s" % (prop, replay))
            return 1
        return 2

    nshards = int(os.environ.get("VX_JOBS", "0") or 0) or getattr(mod, "JOBS", 8)
    if tier == "quick":
        total = int(os.environ.get("VX_CASES", "0") or 0) or mod.QUICK
        deadline = None
        cap = m0 + float(os.environ.get("VX_QUICK_CAP", "300"))
    else:
        total = None
        budget = float(os.environ.get("VX_BUDGET", "600"))
        deadline = m0 + budget
        cap = m0 + budget * 1.5

    mp = multiprocessing.get_context("fork")
    procs = []
    for s in range(nshards):
        rd, wr = mp.Pipe(duplex=False)
        p = mp.Process(target=worker, args=(
            mod, seed, tier, s, nshards, total, deadline, cap, scratch_root, wr, directed))
        p.start()
        wr.close()
        procs.append((p, rd))

    obs, distinct, samples, bad, reached = Counter(), set(), [], [], set()
    errors = []
    for s, (p, rd) in enumerate(procs):
        try:
            msg = rd.recv()
        except EOFError:
            msg = {"fatal": "worker %d died without a report" % s}
        p.join()
        if "fatal" in msg:
            # A dead interpreter is caused by the workload only where native code runs
            if getattr(mod, "NATIVE", False):
                bad.append({"kind": "violation", "label": "worker:%d" % s,
                            "message": "the process died: " + msg["fatal"], "detail": None, "trace": []})
            else:
                errors.append(msg["fatal"])
            continue
        obs.update(msg["obs"])
        distinct |= msg["distinct"]
        for x in msg["samples"]:
            if len(samples) < 4:
                samples.append(x)
        bad += msg["bad"]
        reached |= msg["reached"]


    # Known findings: probes demonstrating recorded, unrepaired defects
    known_lines = []
    with open(os.path.join(VERIF, "known_findings.txt")) as fp:
        listed = {l.rstrip("\n") for l in fp}
    for text, fn in (mod.known() if hasattr(mod, "known") else []):
        d = tempfile.mkdtemp(dir=scratch_root)
        rd, wr = mp.Pipe(duplex=False)
        p = mp.Process(target=known_probe, args=(fn, Ctx(prop, seed, tier, "k:" + text, Counter(), set(), [], d), wr))
        p.start()
        wr.close()
        try:
            still = rd.recv() if rd.poll(120) else None
        except EOFError:
            still = None
        if still is None:
            p.kill()
        p.join()
        if still is None:
            bad.append({"kind": "violation" if getattr(mod, "NATIVE", False) else "error", "label": "k:" + text,
                        "message": "the process died (exit code %r) while looking for: %s" % (p.exitcode, text), "detail": None, "trace": []})
            continue
        if still:
            line = "KNOWN-FINDING: property=%s %s" % (prop, text)
            if line in listed:
                known_lines.append(line)
            else:
                bad.append({"kind": "violation", "label": "k:" + text, "message": text, "detail": "unlisted finding", "trace": []})

    errors += ["%s: %s\n%s" % (b["label"], b["message"], b["detail"]) for b in bad if b["kind"] == "error"]
    inconcl = [b for b in bad if b["kind"] == "inconclusive"]
    viol = [b for b in bad if b["kind"] == "violation"]
    missing = [r for r in getattr(mod, "REQUIRED", []) if obs[r] == 0]

    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": {
            "evaluations": obs["cases"],
            "distinct_nontrivial": len(distinct),
            "rule": mod.RULE,
            "samples": samples or ["(none)"],
            "observed": dict(sorted(obs.items())),
            "functions_of_the_code_under_test_reached": len(reached),
            "functions_sample": sorted(reached)[:40],
            "directed_cases": len(directed),
            "known_findings_reproduced": len(known_lines),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(viol),
    }
    if getattr(mod, "EXHAUSTIVE", False):
        ev["coverage"]["exhaustive"] = True
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fp:
        json.dump(ev, fp, indent=1)
        fp.write("\n")

    for l in known_lines:
        print(l)
    print("%s %s seed=%d: %d cases (%d distinct non-trivial), %d comparisons, %d assertions, %d SUT functions, %.1f s" % (
        prop, tier, seed, obs["cases"], len(distinct), obs["comparisons"], obs["assertions"],
        len(reached), time.time() - t0))
    print("observed: " + ", ".join("%s=%d" % kv for kv in sorted(obs.items())))

    if viol:
        viol.sort(key=lambda b: (len(b["label"]), b["label"]))
        v = viol[0]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        rp = os.path.join(VERIF, "replays", "%s-%s-%d-%s.json" % (
            prop, tier, seed, "".join(c if c.isalnum() else "_" for c in v["label"])[:80]))
        with open(rp, "w") as fp:
            json.dump({"property": prop, "tier": tier, "seed": seed, "case": v["label"],
                       "message": v["message"], "detail": v["detail"],
                       "trace": [str(t) for t in v["trace"]],
                       "all": [{"case": b["label"], "message": b["message"][:1000]} for b in viol[:20]]},
                      fp, indent=1)
        print("violated in case %s: %s" % (v["label"], v["message"][:3000]))
        if v["detail"]:
            print(str(v["detail"])[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if errors:
        print("error of the check: " + errors[0][:4000])
        return 2
    if inconcl:
        print("inconclusive: %s" % inconcl[0]["message"])
        return 2
    if missing:
        print("inconclusive: monitors never reached: %s" % ", ".join(missing))
        return 2
    return 0
