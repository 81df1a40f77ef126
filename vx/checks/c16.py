"""C16: observers only observe; results do not depend on anything but the inputs"""
import hashlib
import io
import json
import os
import random
import re
import subprocess
import sys
import threading

from vx import core, gen, hist, oracle, rpt, sut, work, yamlgen
from vx.core import Violation, sut as must

PROP = "C16"
LEVEL = "exploration"
QUICK = 2000
REQUIRED = ["observations", "databases_unchanged", "repeated", "thread_rounds", "thread_stages", "shared_observers",
            "processes_compared", "changed_after_observation", "commands_compared", "cold_starts", "reused_objects", "failures_before_reuse", "process_state_checked", "formatters_reused", "files_read_again", "formatters_resumed",
            "renderings"]
RULE = ("Observers (reports, text and JSON renderings, XML writing, merging from, iteration) run in random sequences over "
        "generated databases: a complete snapshot must not change, and repeated results must be identical. The same pipelines "
        "run alone, in several threads at once (tiny switch intervals, recorded stage orders), in processes with "
        "different hash seeds, and with mergers, readers and formatters that were used - or failed - before; every "
        "result must equal that of a fresh, sequential run. Non-trivial: at least one bin; thread rounds count "
        "distinct stage orders.")
ASSUMPTIONS = ["threads share databases only for reading", "the XML schema library was initialised before threads race for it "
               "(libxml2 crashes otherwise, also without the code under test)"]


def scrub(b):
    """Times of creation and of writing"""
    return re.sub(rb' (date|writtenTime)="[^"]*"', b"", b)


def text(db, details=True):
    from ucis.rgy.format_rgy import FormatRgy
    f = FormatRgy.inst().getReportDesc("txt").fmt_if()
    f.details = details
    out = io.StringIO()
    f.report(db, out, [])
    return out.getvalue()


def json_(db):
    from ucis.rgy.format_rgy import FormatRgy
    out = io.StringIO()
    FormatRgy.inst().getReportDesc("json").fmt_if().report(db, out, [])
    return out.getvalue()


def merged(dbs):
    return sut.snap(work.merge(dbs))


OBS = {
    "report": lambda db: repr(rpt.observe(rpt.build(db))),
    "text": lambda db: text(db, True),
    "text_brief": lambda db: text(db, False),
    "json": json_,
    "xml": lambda db: scrub(work.xml_write(db)),
    "merge": lambda db: repr(merged([db])),
    "merge_twice": lambda db: repr(merged([db, db])),
    "snap": lambda db: repr(sut.snap(db)),
}


def state():
    """Process-wide state which a library has no business with"""
    import decimal
    import locale
    import logging
    import signal
    return [os.getcwd(), dict(os.environ),
            locale.setlocale(locale.LC_ALL), logging.root.level, len(logging.root.handlers), logging.root.manager.disable,
            sys.getrecursionlimit(), list(sys.path), id(sys.stdout), id(sys.stderr), id(sys.stdin), list(sys.argv),
            decimal.getcontext().prec, random.getstate()[1][:3], signal.getsignal(signal.SIGINT)]


def pipeline(model, models, ytext, info, tmp, stage=lambda s: None):
    """A complete pass through the library; returns a list of texts"""
    out = []
    # source information, order of creation
    rng = random.Random(info[0])
    stage("build")
    db = sut.build(model, rng)
    if info[1]:
        hist.apply(db, info[1])
    stage("report")
    out.append(OBS["report"](db))
    out.append(OBS["text"](db))
    out.append(OBS["json"](db))
    stage("write")
    if work.representable(model):
        out.append(repr(scrub(work.xml_write(db, tmp))))
        stage("read")
        rd = work.xml_read(tmp)
        out.append(repr(sut.snap(rd)))
        out.append(repr([{k: v for k, v in h.items() if k != "Date"} for h in sut.snap_hist(rd)]))
        rd.close()
    stage("sources")
    srcs = [sut.build(m, rng) for m in models]
    stage("merge")
    dst = work.merge([db] + srcs)
    out.append(repr(sut.snap(dst)))
    stage("merged report")
    out.append(OBS["text"](dst))
    stage("yaml")
    from ucis.yaml.yaml_reader import YamlReader
    out.append(repr(sut.snap(YamlReader().loads(ytext))))
    stage("end")
    return out


def job(rng, scale=0.6, xmlable=None):
    import yaml
    o = gen.Opts(scale=scale, unique=rng.random() < 0.8)
    if rng.random() < 0.6 if xmlable is None else xmlable:
        o = gen.Opts(scale=scale, xmlable=True, uniform_al=True)
    nm = gen.Namer(rng, o)
    model = gen.gen_db(rng, o, nm)
    models = [gen.vary_db(rng, o, model, rng.choice([0, 0.2, 0.5])) for _ in range(rng.randint(0, 3))]
    y = yaml.safe_dump(yamlgen.data(yamlgen.gen_doc(rng)))
    info = rng.randrange(1 << 30), (hist.gen_hist(rng) if rng.random() < 0.4 else None)
    return model, models, y, info


def case(ctx):
    rng = ctx.rng
    r = rng.random()
    if r < 0.1:
        later(ctx, rng)
    elif r < 0.16:
        reread(ctx, rng)
    elif r < 0.5:
        observers(ctx, rng)
    elif r < 0.75:
        reuse(ctx, rng)
    else:
        threads(ctx, rng)


def observers(ctx, rng):
    o = gen.Opts(unique=rng.random() < 0.8) if rng.random() < 0.6 else gen.Opts(xmlable=True, uniform_al=True)
    model = gen.gen_db(rng, o)
    db, model = work.materialize(ctx, model, rng)
    ctx.note(model)
    if rng.random() < 0.6:
        hist.apply(db, hist.gen_hist(rng))
    ctx.seen(model, gen.stats(model)[5] > 0)
    before = sut.deep(db)
    st = state()
    first = {}
    for _ in range(rng.randint(2, 8)):
        k = rng.choice(sorted(OBS))
        if k == "xml" and not work.representable(model):
            continue
        ctx.note(k)
        with must("observer " + k):
            v = OBS[k](db)
        ctx.count("observations")
        ctx.equal(before, sut.deep(db), "the database after the observer %s" % k)
        ctx.count("databases_unchanged")
        if k in first:
            ctx.check(first[k] == v, "the observer %s gives another result the second time", k)
            ctx.count("repeated")
        first[k] = v
    ctx.equal(st, state(), "state of the process")
    ctx.count("process_state_checked")


def later(ctx, rng):
    """That a database was observed has no influence on what is observed after it changed"""
    xmlable = rng.random() < 0.5
    model = gen.gen_db(rng, gen.Opts(xmlable=True, uniform_al=True) if xmlable else gen.Opts(unique=rng.random() < 0.8))
    ctx.note(model)
    seed = rng.randrange(1 << 30)
    ks = [k for k in sorted(OBS) if k != "xml" or work.representable(model)]
    db = sut.build(model, random.Random(seed))
    changes = []
    for _ in range(rng.randint(1, 4)):
        for k in rng.sample(ks, rng.randint(1, min(4, len(ks)))):
            with must("observer " + k):
                OBS[k](db)
        changes.append((rng.randrange(1 << 30), rng.sample(["count", "bin", "group"], rng.randint(1, 3))))
        change(db, *changes[-1])
        ref = sut.build(model, random.Random(seed))
        for c in changes:
            change(ref, *c)
        for k in ks:
            with must("observer " + k):
                a, b = OBS[k](db), OBS[k](ref)
            ctx.check(a == b, "after changes (%s), the observer %s shows something else in a database that was observed before:\n%s\n%s",
                      changes[-1], k, a[:600], b[:600])
        ctx.count("changed_after_observation")
    ctx.seen(model, gen.stats(model)[5] > 0)


def reread(ctx, rng):
    """A file is read for what it holds now, whatever was read from a file of this name, size and age before"""
    import yaml
    from ucis.rgy.format_rgy import FormatRgy
    kind = rng.choice(["xml", "yaml"])
    docs = []
    o = gen.Opts(xmlable=True, uniform_al=True, scale=0.6)
    nm = gen.Namer(rng, o)
    model = gen.gen_db(rng, o, nm)
    ydoc = yamlgen.gen_doc(rng)
    for _ in range(rng.randint(2, 3)):
        if kind == "xml":
            if not work.representable(model):
                return
            db = sut.build(model, rng)
            if rng.random() < 0.5:
                hist.apply(db, hist.gen_hist(rng))
            docs.append(work.xml_write(db) + b"\n")
            model = gen.perturb(rng, o, gen.vary_db(rng, o, model, rng.choice([0, 0, 0.2])))
            if not work.representable(model):
                model = gen.gen_db(rng, o, nm)
        else:
            docs.append(yaml.safe_dump(yamlgen.data(ydoc)).encode() + b"\n")
            ydoc = yamlgen.gen_doc(rng)
    size = max(map(len, docs))
    docs = [d + b"\n" * (size - len(d)) for d in docs]
    ctx.note((kind, docs))
    ctx.seen((kind, docs))
    p = ctx.path("." + kind)
    read = lambda f: FormatRgy.inst().getDatabaseDesc(kind).fmt_if().read(f)
    docs.append(docs[0])
    refs = []

    def reference(d):
        # (from a file of a name that was never used, and of another size)
        q = ctx.path("." + kind)
        d += b"\n" * (len(refs) + 1)
        with open(q, "wb") as fp:
            fp.write(d)
        with must("reading a file"):
            b = read(q)
        os.unlink(q)
        refs.append(sut.deep(b))
        # what was read belongs to the reader
        change(b, rng.randrange(1 << 30), ["count", "bin", "group"])

    first = rng.random() < 0.5      # (else: the files are read in turn)
    if first:
        for d in docs:
            reference(d)
    kept = []
    for n, d in enumerate(docs):
        if not first:
            reference(d)
        with open(p, "wb") as fp:
            fp.write(d)
        os.utime(p, (10 ** 9, 10 ** 9))
        with must("reading a file"):
            a = read(p)
        ctx.equal(refs[n], sut.deep(a), "a file of the name, size and age of one that was read before")
        kept.append((a, refs[n]))
        if rng.random() < 0.5:
            change(a, rng.randrange(1 << 30), ["count", "bin"])
            kept.pop()
        ctx.count("files_read_again")
    for a, ref in kept:
        ctx.equal(ref, sut.deep(a), "a database after further files were read")


def change(db, seed, how):
    c = random.Random(seed)
    for inst in db.scopes(sut.ScopeTypeT.INSTANCE):
        for g in inst.scopes(sut.ScopeTypeT.COVERGROUP):
            for p in g.scopes(sut.ScopeTypeT.COVERPOINT | sut.ScopeTypeT.CROSS):
                if "count" in how:
                    for ci in p.coverItems(sut.ALLBINS):
                        if c.random() < 0.3:
                            ci.incrementCover(c.choice([1, 5]))
                if "bin" in how and c.random() < 0.3:
                    p.createBin("later %d" % seed, None, 1, c.randrange(2), "")
        if "group" in how:
            g = inst.createCovergroup("later %d" % seed, None, c.choice([1, 3]), sut.UCIS_OTHER)
            for i in range(2):
                g.createCoverpoint("p%d" % i, None, 1, sut.UCIS_OTHER).createBin("b", None, 1, i, "b")


def reuse(ctx, rng):
    """Objects that worked, or failed, before give the results of new ones"""
    from ucis.merge.db_merger import DbMerger
    from ucis.xml.xml_reader import XmlReader
    from ucis.xml.xml_writer import XmlWriter
    from ucis.yaml.yaml_reader import YamlReader
    from ucis.rgy.format_rgy import FormatRgy
    merger, writer, xr, yr = DbMerger(), XmlWriter(), XmlReader(), YamlReader()
    fmts = {k: FormatRgy.inst().getReportDesc(k).fmt_if() for k in ("txt", "json")}
    kinds = ["merge", "write", "read", "yaml", "txt", "json", "rendering"]
    # few kinds: the same objects are used again
    kinds = rng.sample(kinds, rng.choice([1, 1, 2, 7]))
    for _ in range(rng.randint(2, 6)):
        what = rng.choice(kinds)
        fail = rng.random() < 0.3
        ctx.note((what, fail))
        model, models, y, _info = job(rng, xmlable=True if what in ("write", "read") else None)
        ctx.seen(model, gen.stats(model)[5] > 0)
        if what == "merge":
            dbs = [sut.build(m, rng) for m in [model] + models]
            if fail:
                expect_failure(ctx, lambda: merger.merge(sut.MemFactory.create(), dbs + [object()]))
            with must("merging with a used merger"):
                got = sut.snap(work.merge(dbs, None, merger))
            ctx.equal(merged(dbs), got, "merge with a used merger")
        elif what in fmts:
            db = sut.build(model, rng)
            f = fmts[what]
            if fail:
                expect_failure(ctx, lambda: f.report(db, Broken(rng.choice([0, 1, 10, 60, 200, 500])), []))
            f.details = rng.random() < 0.7
            f.order_bins_by_hit = rng.random() < 0.4
            new = FormatRgy.inst().getReportDesc(what).fmt_if()
            new.details, new.order_bins_by_hit = f.details, f.order_bins_by_hit
            a, b = io.StringIO(), io.StringIO()
            with must("reporting with a used and a new formatter"):
                f.report(db, a, [])
                new.report(db, b, [])
            ctx.check(a.getvalue() == b.getvalue(), "a used %s report formatter reports something else:\n%s\n%s", what,
                      a.getvalue()[:1000], b.getvalue()[:1000])
            ctx.count("formatters_reused")
        elif what == "rendering":
            rendering(ctx, rng, sut.build(model, rng), fail)
        elif what in ("write", "read") and work.representable(model):
            db = sut.build(model, rng)
            if rng.random() < 0.5:
                hist.apply(db, hist.gen_hist(rng))
            ref = work.xml_write(db)
            if what == "write":
                if fail:
                    expect_failure(ctx, lambda: writer.write(Broken(rng.choice([0, 10, 200])), db))
                with must("writing with a used writer"):
                    s = io.StringIO()
                    writer.write(s, db)
                ctx.check(scrub(s.getvalue().encode()) == scrub(ref), "a used writer writes something else")
            else:
                if fail:
                    expect_failure(ctx, lambda: xr.read(io.BytesIO(ref[:len(ref) // 2])))
                with must("reading with a used reader"):
                    a = xr.read(io.BytesIO(ref))
                b = work.xml_read(io.BytesIO(ref))
                ctx.equal(sut.deep(b), sut.deep(a), "reading with a used reader")
        else:
            if fail:
                expect_failure(ctx, lambda: yr.loads("coverage: [1, 2"))
                expect_failure(ctx, lambda: yr.loads("coverage: {covergroups: 17}"))
            with must("reading YAML with a used reader"):
                a = yr.loads(y)
            ctx.equal(sut.deep(YamlReader().loads(y)), sut.deep(a), "reading YAML with a used reader")
        ctx.count("reused_objects")


def rendering(ctx, rng, db, fail):
    """A report can be rendered any number of times, in any way"""
    from ucis.report.text_coverage_report_formatter import TextCoverageReportFormatter
    with must("building a report"):
        rep, ref = rpt.build(db), rpt.build(db)
    before = rpt.observe(rep)
    ctx.equal(rpt.observe(ref), before, "two reports of a database")
    for _ in range(rng.randint(2, 4)):
        out = []
        how = rng.random() < 0.7, rng.random() < 0.5
        if fail and rng.random() < 0.7:
            b = Broken(rng.choice([0, 10, 60, 200]))
            f = TextCoverageReportFormatter(rep, b)
            f.details, f.order_bins_by_hit = how
            expect_failure(ctx, f.report)
            # the same formatter, once the stream works again
            b.n = 1 << 40
            n = len(b.getvalue())
            ref, f2 = io.StringIO(), None
            f2 = TextCoverageReportFormatter(rep, ref)
            f2.details, f2.order_bins_by_hit = how
            with must("rendering a report"):
                f.report()
                f2.report()
            ctx.check(b.getvalue()[n:] == ref.getvalue(), "a formatter that failed before gives another text")
            ctx.count("formatters_resumed")
        for r in (rep, rpt.build(db)):
            s = io.StringIO()
            f = TextCoverageReportFormatter(r, s)
            f.details, f.order_bins_by_hit = how
            with must("rendering a report"):
                f.report()
                if rng.random() < 0.3:
                    # once more, with the same formatter
                    n = len(s.getvalue())
                    f.report()
                    ctx.check(s.getvalue()[n:] == s.getvalue()[:n], "rendering twice gives different texts")
                    s.truncate(n)
            out.append(s.getvalue())
        ctx.check(out[0] == out[1], "a report that was rendered before is rendered differently (details %s, by hit %s)", *how)
        ctx.equal(before, rpt.observe(rep), "the report after rendering it")
        ctx.count("renderings")


class Broken(io.StringIO):
    """A stream that fails after some characters"""

    def __init__(self, n):
        super().__init__()
        self.n = n

    def write(self, s):
        self.n -= len(s)
        if self.n <= 0:
            raise OSError("broken stream")
        return super().write(s)


def expect_failure(ctx, fn):
    try:
        fn()
    except Exception:
        ctx.count("failures_before_reuse")
        return
    # (a stream may take everything; whether input is rejected is decided elsewhere)


def threads(ctx, rng):
    n = rng.randint(2, 6)
    shared = rng.random() < 0.35
    jobs = [job(rng, 0.5) for _ in range(1 if shared else n)]
    ctx.note(jobs)
    tmp = [ctx.path(".xml") for _ in range(n)]
    orders, errs, res = [], [], [None] * n
    if shared:
        model = jobs[0][0]
        db, model = work.materialize(ctx, model, rng)
        before = sut.deep(db)
        names = [k for k in sorted(OBS) if k != "xml" or work.representable(model)]
        picks = [[rng.choice(names) for _ in range(4)] for _ in range(n)]
        exp = {}
        for p in picks:
            for k in p:
                if k not in exp:
                    with must("observer " + k):
                        exp[k] = OBS[k](db)
        exp = [[exp[k] for k in p] for p in picks]

        def work_(i):
            out = []
            for k in picks[i]:
                orders.append((i, k))
                out.append(OBS[k](db))
            return out
    else:
        with must("running pipelines one after the other"):
            exp = [pipeline(*j, tmp[i]) for i, j in enumerate(jobs)]

        def work_(i):
            return pipeline(*jobs[i], tmp[i], lambda s: orders.append((i, s)))
    bar = threading.Barrier(n)

    def run(i):
        bar.wait()
        try:
            res[i] = work_(i)
        except BaseException as e:
            import traceback
            errs.append("%s: %s\n%s" % (type(e).__name__, e, "".join(traceback.format_exception(e)[-4:])))
    old = sys.getswitchinterval()
    ts = [threading.Thread(target=run, args=(i,), daemon=True) for i in range(n)]
    try:
        sys.setswitchinterval(rng.choice([1e-6, 1e-5, 1e-4, 1e-3]))
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    if errs:
        raise Violation("in one of %d threads: %s" % (n, errs[0].split("\n")[0]), errs[0])
    for i in range(n):
        ctx.equal(exp[i], res[i], "results of thread %d of %d (%s)" % (i, n, "shared database" if shared else "own databases"))
    if shared:
        ctx.equal(before, sut.deep(db), "the shared database")
        ctx.count("shared_observers", n)
    ctx.count("thread_rounds")
    ctx.count("thread_stages", len(orders))
    ctx.seen(("order", tuple(orders)))


def digests(seed, n):
    import tempfile
    out = []
    with tempfile.TemporaryDirectory(prefix="vx-C16-d-") as d:
        for i in range(n):
            rng = random.Random("det:%s:%d" % (seed, i))
            o = pipeline(*job(rng), os.path.join(d, "x.xml"))
            out.append([hashlib.sha256(x.encode("utf-8", "surrogatepass")).hexdigest()[:16] for x in o])
    return out


def d_process(k):
    def f(ctx):
        """The same in another process, with another order of hashes"""
        n = 40 if not ctx.thorough else 400
        env = dict(os.environ)
        env["PYTHONHASHSEED"] = str([1, 2, 7, 4242, 99999, 123456789][k])
        seed = "%d:%d" % (ctx.seed, k)
        r = subprocess.run([sys.executable, "-W", "ignore", "-m", "vx.checks.c16", seed, str(n)], env=env,
                           capture_output=True, text=True, cwd=core.VERIF)
        if r.returncode != 0:
            raise Violation("pipelines fail in another process", r.stderr[-3000:])
        got = json.loads(r.stdout.strip().split("\n")[-1])
        ctx.equal(digests(seed, n), got, "results of processes with different hash seeds")
        ctx.count("processes_compared", n)
    return f


def d_listing(k):
    def f(ctx):
        """What the commands print does not depend on the order of hashes"""
        d = os.path.join(ctx.scratch, "in.yaml")
        rng = random.Random(k)
        import yaml
        with open(d, "w") as fp:
            yaml.safe_dump(yamlgen.data(yamlgen.gen_doc(rng)), fp)
        x = os.path.join(ctx.scratch, "in.xml")
        db = sut.build(gen.gen_db(rng, gen.Opts(xmlable=True, uniform_al=True)), rng)
        hist.apply(db, hist.gen_hist(rng))
        work.xml_write(db, x)
        for args in (["list-db-formats"], ["list-rpt-formats"], ["report", "-if", "yaml", "-of", "txt", d], ["report", "-if", "yaml", "-of", "json", d],
                     ["report", "-if", "xml", "-of", "txt", x], ["--help"],
                     ["convert", "-if", "xml", "-of", "xml", "-o", os.path.join(ctx.scratch, "out.xml"), x],
                     ["merge", "-if", "xml", "-of", "xml", "-o", os.path.join(ctx.scratch, "out.xml"), x, x]):
            ref = None
            for h in ("0", "1", "77", "1234") if not ctx.thorough else map(str, range(12)):
                r = subprocess.run([sys.executable, "-W", "ignore", "-m", "ucis"] + args, env=dict(os.environ, PYTHONHASHSEED=h),
                                   capture_output=True, cwd=ctx.scratch)
                res = [r.returncode, r.stdout, r.stderr]
                o = os.path.join(ctx.scratch, "out.xml")
                if os.path.exists(o):
                    with open(o, "rb") as fp:
                        res.append(scrub(fp.read()))
                    os.unlink(o)
                if ref is None:
                    ctx.check(r.returncode == 0, "ucis %s fails: %s", args[0], r.stderr[-500:])
                    ref = res
                ctx.equal(ref, res, "ucis %s in processes with different hash seeds" % args[0])
                ctx.count("commands_compared")
    return f


def d_cold(k):
    def f(ctx):
        n = 120 if not ctx.thorough else 1500
        r = subprocess.run([sys.executable, "-W", "ignore", "-m", "vx.coldstart", str(n), ctx.scratch],
                           capture_output=True, text=True, cwd=core.VERIF)
        ctx.check(r.returncode == 0 and r.stdout.startswith("OK"), "first use by several threads: %s%s", r.stdout[-500:], r.stderr[-2000:])
        ctx.count("cold_starts", n)
    return f


def directed():
    return [("process%d" % k, d_process(k)) for k in range(6)] + [("cold%d" % k, d_cold(k)) for k in range(2)] + [("commands%d" % k, d_listing(k)) for k in range(4)]


if __name__ == "__main__":
    import logging
    logging.disable(logging.CRITICAL)
    print(json.dumps(digests(sys.argv[1], int(sys.argv[2]))))
