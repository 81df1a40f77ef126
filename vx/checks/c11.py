"""C11: the command line does what the library does"""
import os

import yaml

from vx import cli, gen, oracle, plugins, rpt, sut, work, xmlgen, xmlref, yamlgen

PROP = "C11"
LEVEL = "exploration"
QUICK = 2500
REQUIRED = ["merge_runs", "convert_runs", "report_txt", "report_json", "list_runs", "own_process", "in_place", "yaml_inputs", "types_without_instances",
            "inputs_unchanged", "legacy_locale", "plugin_merge", "plugin_convert", "plugin_dir", "plugin_stream", "plugin_stdout",
            "plugin_refused", "dirs_replaced"]
RULE = ("Generated XML and YAML inputs are given to the real command line (in process, and as a process of its own) with all "
        "subcommands, spellings of options, default and explicit formats, relative paths, in-place output, repeated inputs, and formats of the "
        "user's own which record what they are asked to do. "
        "Exit status, standard output and the file written are compared with the content the models have by the "
        "reference semantics of merge, conversion and report; inputs are compared byte by byte. "
        "Non-trivial: at least one bin in the inputs.")
ASSUMPTIONS = ["inputs hold what the output format can represent"]


def xml_opts():
    return gen.Opts(xmlable=True, uniform_al=True)


NAMES = ["in%d.%s"] * 4 + ["a b%d.%s", "x-%d.%s", "\u00e9%d.%s", "@%d.%s", "=%d.%s", "~%d.%s", "[%d].%s", "in%d.%s.", ".%d.%s", "%d%%41.%s",
                            "http:%d.%s", "{%d}.%s", "#%d.%s", "a,%d.%s", "a;%d.%s", "$HOME%d.%s", "*%d.%s", "'%d'.%s", "a+%d.%s", "merge%d.%s"]


def spell(rng, p, cwd):
    """Some way to write the path"""
    if cwd is None:
        r = rng.random()
        if r < 0.1:
            return os.path.join(os.path.dirname(p), ".", os.path.basename(p))
        if r < 0.2:
            d = os.path.dirname(p)
            return os.path.join(d, "..", os.path.basename(d), os.path.basename(p))
        return p
    b = os.path.basename(p)
    return rng.choice([b, b, b, "./" + b, ".//" + b, os.path.join("..", os.path.basename(os.path.dirname(p)), b)])


def inputs(ctx, rng, d, n, fmt, alltypes=False):
    """n related input files; returns [(path, content)]; alltypes: also covergroups without instances"""
    out = []
    base = None
    for k in range(n):
        if fmt == "yaml":
            o = gen.Opts(xmlable=True, uniform_al=True, coverinsts=False, cross_kinds=("bin",))
            doc = base if base is not None and rng.random() < 0.4 else yamlgen.gen_doc(rng, o)
            if not alltypes:
                doc = dict(doc, cgs=[c for c in doc["cgs"] if c["insts"]])
            elif any(not c["insts"] for c in doc["cgs"]):
                ctx.count("types_without_instances")
            data = yaml.safe_dump(yamlgen.data(doc), allow_unicode=True).encode("utf-8")
            content = yamlgen.content(doc)
            ctx.count("yaml_inputs")
        else:
            doc = base if base is not None and rng.random() < 0.4 else xmlgen.gen_doc(rng)
            # a section without covergroups leaves no trace
            st = xmlgen.Style(rng)
            data = xmlgen.serialize(xmlgen.tree(rng, doc, st), st)
            content = xmlgen.content(doc)
        base = doc
        p = os.path.join(d, rng.choice(NAMES) % (k, rng.choice([fmt, fmt, fmt, "dat", "yaml", "xml", "gz", "cdb"])))
        with open(p, "wb") as fp:
            fp.write(data)
        out.append((p, content))
    return out


def run(ctx, argv, cwd, text=False):
    ctx.note(argv)
    if ctx.rng.random() < (0.02 if not ctx.thorough else 0.05):
        ctx.count("own_process")
        return cli.spawn(argv, cwd, {"PYTHONHASHSEED": str(ctx.rng.randint(0, 99))})
    ctx.count("in_process")
    # (the text report is in the encoding of the locale)
    with work.legacy_locale(ctx, 0 if text else 0.15):
        return cli.call(argv, cwd)


def opt(rng, short, long, v):
    r = rng.random()
    if r < 0.4:
        return [short, v]
    if r < 0.8:
        return [long, v]
    return [long + "=" + v]


def shuffle(rng, groups, pos):
    """Options before, after or between the positional arguments"""
    groups = list(groups)
    rng.shuffle(groups)
    k = rng.randint(0, len(groups))
    return [x for g in groups[:k] for x in g] + pos + [x for g in groups[k:] for x in g]


def result(ctx, r, out, exp, what):
    ctx.check(r.code == 0, "%s failed: %r", what, r)
    ctx.check(os.path.isfile(out), "%s: no output file", what)
    with open(out, "rb") as fp:
        data = fp.read()
    v = xmlref.validity(data)
    ctx.check(v is None, "%s: the output is %s", what, v)
    db = work.xml_read(out)
    n = lambda m: oracle.norm(m, nonbin_al=True)
    ctx.equal(n(oracle.xml_image(exp)), n(sut.snap(db)), what)
    # and by an independent reader
    ctx.equal(by_kind(xmlref.expected(exp)), by_kind(xmlref.parse(data)["db"]), what + " (independent reader)")


def by_kind(d):
    """The order of bins of different kinds is not compared"""
    for i in d:
        for s in i["secs"]:
            for g in s["insts"]:
                for c in g["cps"] + g["crs"]:
                    c["bins"].sort(key=lambda b: b[0])
    return d


def case(ctx):
    rng = ctx.rng
    d = ctx.path("")
    os.mkdir(d)
    fmt = "yaml" if rng.random() < 0.3 else "xml"
    cmd = rng.choice(["merge", "merge", "convert", "report", "report", "list"])
    if cmd == "list":
        return lists(ctx, d)
    if rng.random() < 0.2:
        return own_format(ctx, d)
    n = rng.choice([1, 2, 2, 3, 5]) if cmd == "merge" else 1
    ins = inputs(ctx, rng, d, n, fmt, cmd == "report")
    bytes_ = {p: open(p, "rb").read() for p, _ in ins}
    if cmd == "merge" and rng.random() < 0.15:
        ins.append(ins[0])
    contents = [c for _, c in ins]
    cwd = rng.choice([None, d])
    arg = lambda p: spell(rng, p, cwd)
    pos = [arg(p) for p, _ in ins]
    opts = []
    if fmt == "yaml" or rng.random() < 0.4:
        opts.append(opt(rng, "-if", "--input-format", fmt))
    out = os.path.join(d, rng.choice(["out.xml", "o u t", "out.txt"]))
    existing = rng.random() < 0.3
    if existing:
        with open(out, "w") as fp:
            fp.write("previous content that is quite long " * 2000)
    plus = 0
    if rng.random() < 0.08:
        plus = rng.choice([1, 1, 2, 3])
        ctx.count("plusargs")

    def plusargs(argv):
        # (anywhere)
        for _ in range(plus):
            argv.insert(rng.randint(0, len(argv)), rng.choice(["+plusarg=1", "+x", "+", "+incdir+a/b", "+-o"]))
        return argv
    if cmd in ("merge", "convert"):
        if rng.random() < 0.3:
            opts.append(opt(rng, "-of", "--output-format", "xml"))
        if fmt == "xml" and not existing and rng.random() < 0.2:
            out = rng.choice(ins)[0]  # in place
            bytes_.pop(out)
            ctx.count("in_place")
        opts.append(opt(rng, "-o", "--out", arg(out)))
        argv = plusargs([cmd] + shuffle(rng, opts, pos))
        exp = oracle.merge(contents)
        r = run(ctx, argv, cwd)
        result(ctx, r, out, exp, "ucis " + cmd)
        ctx.count(cmd + "_runs")
    else:
        exp = oracle.report(contents[0])
        rfmt = rng.choice([None, "txt", "json"])
        if rfmt:
            opts.append(opt(rng, "-of", "--output-format", rfmt))
        to_file = rng.random() < 0.5
        if to_file:
            opts.append(opt(rng, "-o", "--out", arg(out)))
        argv = plusargs([cmd] + shuffle(rng, opts, pos))
        r = run(ctx, argv, cwd, rfmt != "json")
        ctx.check(r.code == 0, "ucis report failed: %r", r)
        text = r.out
        if to_file:
            with open(out, encoding="utf-8", newline="") as fp:
                text = fp.read()
            ctx.check(not r.out.strip(), "ucis report -o printed %r", r.out[:200])
        if rfmt == "json":
            rpt.check_json(ctx, text, exp)
            ctx.count("report_json")
        else:
            rpt.check_text(ctx, text, exp, False, 2)
            ctx.count("report_txt")
    for p, b in bytes_.items():
        with open(p, "rb") as fp:
            ctx.check(fp.read() == b, "ucis %s changed its input", cmd)
        ctx.count("inputs_unchanged")
    known = {os.path.basename(p) for p, _ in ins} | {os.path.basename(out)}
    extra = set(os.listdir(d)) - known
    ctx.check(not extra, "ucis %s left %r behind", cmd, sorted(extra))
    ctx.seen((argv, contents), any(gen.stats(c)[5] for c in contents))


def worker_init(scratch):
    plugins.register()


PRIOR = [("nothing", ""), ("file", ""), ("file", "x"), ("file", "precious " * 5000), ("dir", ""), ("full dir", ""), ("link", "")]


def own_format(ctx, d, forced=None):
    """Formats registered by the user"""
    import json
    rng = ctx.rng
    cmd = rng.choice(["merge", "convert", "report", "report", "report"]) if forced is None else "report"
    del plugins.LOG[:]
    plugins.STORE.clear()
    n = rng.choice([1, 2, 3]) if cmd == "merge" else 1
    ifmt = rng.choice(sorted(plugins.DB) + ["xml"])
    ofmt = rng.choice(sorted(plugins.DB))
    if ifmt == "xml":
        ins = inputs(ctx, rng, d, n, "xml")
    else:
        ins = []
        o = gen.Opts(hostile=0.2)
        base = gen.gen_db(rng, o)
        for k in range(n):
            m = gen.vary_db(rng, o, base, 0.2)
            p = os.path.join(d, rng.choice(NAMES) % (k, "own"))
            plugins.STORE["#%d" % k] = m
            with open(p, "w") as fp:
                fp.write("#%d" % k)
            ins.append((p, m))
    if rng.random() < 0.15 and cmd == "merge":
        ins.append(ins[0])
    bytes_ = {p: open(p, "rb").read() for p, _ in ins}
    cwd = rng.choice([None, d])
    pos = [spell(rng, p, cwd) for p, _ in ins]
    out = os.path.join(d, rng.choice(["out.d", "o u t", "deep/er/out"][:3 if forced is None else 2] if cmd == "report" else ["out", "o u t"]))
    oarg = spell(rng, out, cwd) if "deep" not in out else out
    opts = []
    if ifmt != "xml" or rng.random() < 0.5:
        opts.append(opt(rng, "-if", "--input-format", ifmt))

    def go():
        argv = [cmd] + shuffle(rng, opts, pos)
        ctx.note(argv)
        with plugins.Confined(ctx.scratch) as c:
            r = cli.call(argv, cwd)
        ctx.check(not c.refused, "ucis %s tried to change %r, outside of everything it was told about", cmd, c.refused)
        return r

    def inputs_kept():
        for p, b in bytes_.items():
            ctx.check(os.path.isfile(p) and open(p, "rb").read() == b, "ucis %s changed its input", cmd)
            ctx.count("inputs_unchanged")

    if cmd != "report":
        opts.append(opt(rng, "-o", "--out", oarg))
        opts.append(opt(rng, "-of", "--output-format", ofmt))
        r = go()
        what = "ucis %s from %s to %s" % (cmd, ifmt, ofmt)
        ctx.check(r.code == 0, "%s failed: %r", what, r)
        reads = [e[1:] for e in plugins.LOG if e[0] == "read"]
        if ifmt != "xml":
            # (the path may be spelled differently, but has to be the one given)
            ctx.equal([(ifmt, p) for p, _ in ins], [(f, os.path.normpath(os.path.join(cwd or "", p))) for f, p in reads], what + ": files read")
        else:
            ctx.equal([], reads, what + ": files read with other formats")
        ctx.equal([(ofmt, out)], [(e[1], os.path.normpath(os.path.join(cwd or "", e[2]))) for e in plugins.LOG if e[0] == "write"], what + ": files written")
        with open(out) as fp:
            w = json.load(fp)
        ctx.check(w["fmt"] == ofmt, "%s used format %s", what, w["fmt"])
        exp = json.loads(json.dumps(oracle.norm(oracle.merge([c for _, c in ins]), nonbin_al=True)))
        ctx.equal(exp, json.loads(json.dumps(oracle.norm(tuples(w["content"]), nonbin_al=True))), what)
        ctx.count("plugin_" + cmd)
        inputs_kept()
        ctx.seen((cmd, ifmt, ofmt, [c for _, c in ins]))
        return
    rfmt = rng.choice(sorted(plugins.RPT))
    flags, _ = plugins.RPT[rfmt]
    from ucis.rgy.format_if_rpt import FormatRptOutFlags as F
    opts.append(opt(rng, "-of", "--output-format", rfmt))
    to_file = rng.random() < 0.75
    before = rng.choice(["nothing", "nothing", "file", "dir", "full dir", "full dir", "link"]) if to_file and "deep" not in out else "nothing"
    content = "precious " * rng.choice([0, 1, 5000])
    if forced is not None:
        rfmt, before, content = forced
        flags, to_file = plugins.RPT[rfmt][0], True
        opts[-1] = opt(rng, "-of", "--output-format", rfmt)
    if before == "file":
        with open(out, "w") as fp:
            fp.write(content)
    elif before != "nothing":
        os.mkdir(out if before != "link" else out + ".target")
        if before == "link":
            os.symlink(out + ".target", out)
            with open(out + ".target/old.txt", "w") as fp:
                fp.write("previous report")
        if before == "full dir":
            os.makedirs(os.path.join(out, "sub", "old"))
            for x in ("index.txt", "old.txt", "sub/old/y"):
                with open(os.path.join(out, x), "w") as fp:
                    fp.write("previous report")
    beside = os.path.join(d, "beside")
    os.mkdir(beside)
    with open(os.path.join(beside, "x"), "w") as fp:
        fp.write("not part of it")
    if to_file:
        opts.append(opt(rng, "-o", "--out", oarg))
    stream = bool(flags & F.Stream)
    good = stream if not to_file else (before in ("nothing", "file") and "deep" not in out if stream else bool(flags & F.Dir) and before != "file")
    r = go()
    what = "ucis report in format %s (%s) to %s, where there was %s" % (rfmt, flags, out if to_file else "standard output", before)
    calls = [e for e in plugins.LOG if e[0].startswith("report")]
    inputs_kept()
    ctx.check(open(os.path.join(beside, "x")).read() == "not part of it", "%s changed other files", what)
    if before == "link" and bool(flags & F.Dir) and not stream:
        # it may be refused, but if it is not, the directory has to be empty
        if r.code == 0:
            ctx.equal([[]], [c[4] for c in calls], what + ": directories given to the format were not empty")
        else:
            ctx.check(os.path.isfile(out + ".target/old.txt"), "%s: the directory there changed", what)
        ctx.count("links")
        return
    if not good:
        ctx.check(isinstance(r.code, int) and r.code != 0, "%s: exit status %r", what, r.code)
        ctx.check(r.err.strip() or "rror" in r.out, "%s: no message", what)
        ctx.equal([], calls, what + ": reports written all the same")
        if before == "file":
            ctx.check(os.path.isfile(out) and open(out).read() == content, "%s: the file there changed", what)
        elif before == "full dir":
            ctx.check(os.path.isfile(os.path.join(out, "old.txt")), "%s: the directory there changed", what)
        elif before == "nothing":
            ctx.check(not os.path.exists(out), "%s: something appeared there", what)
        ctx.count("plugin_refused")
        ctx.seen((rfmt, to_file, before, ifmt, out))
        return
    ctx.check(r.code == 0, "%s failed: %r", what, r)
    ctx.check(len(calls) == 1, "%s: %d reports written", what, len(calls))
    c = calls[0]
    ctx.check(c[1] == rfmt, "%s: format %s used", what, c[1])
    exp = ins[0][1]
    m = c[2] if stream else c[3]
    ctx.equal(oracle.norm(exp, nonbin_al=True), oracle.norm(m, nonbin_al=True), what + ": content of the database given to the format")
    text = "report of %s\n" % rfmt + "".join("line %d of %s\n" % (k, rfmt) for k in range(2000))
    if stream:
        ctx.check(c[0] == "report-stream", "%s: asked for %s", what, c[0])
        ctx.check((open(out).read() if to_file else r.out) == text, "%s: the text written is not all there, or not alone", what)
        ctx.count("plugin_stream" if to_file else "plugin_stdout")
    else:
        ctx.check(c[0] == "report-dir", "%s: asked for %s", what, c[0])
        ctx.equal(out, os.path.normpath(os.path.join(cwd or "", c[2])), what + ": directory given to the format")
        ctx.equal([], c[4], what + ": directory given to the format was not empty")
        got = {os.path.relpath(os.path.join(a, f), out): open(os.path.join(a, f)).read() for a, _, fs in os.walk(out) for f in fs}
        ctx.equal({"index.txt": "report of %s\n" % rfmt, "sub/deeper/x.txt": "x" * 5000}, got, what)
        ctx.count("plugin_dir")
        if before == "full dir":
            ctx.count("dirs_replaced")
    ctx.seen((rfmt, to_file, before, ins[0][1]))


def tuples(m):
    """Bins as tuples again (after JSON)"""
    if isinstance(m, dict):
        return {k: [tuple(b) for b in v] if k == "bins" else tuples(v) for k, v in m.items()}
    return [tuples(x) for x in m] if isinstance(m, list) else m


def lists(ctx, d):
    rng = ctx.rng
    which = rng.choice(["list-db-formats", "list-rpt-formats"])
    own = ctx.obs["own_process"]
    r = run(ctx, [which], d)
    own = ctx.obs["own_process"] != own
    ctx.check(r.code == 0, "%s failed: %r", which, r)
    names = [l.split(" - ")[0].strip() for l in r.out.splitlines() if l.strip()]
    exp = ["libucis", "xml", "yaml"] if which == "list-db-formats" else ["json", "txt"]
    # further formats may be added
    ctx.check(set(exp) <= set(names), "%s shows %r", which, names)
    ctx.check(len(set(names)) == len(names), "%s shows a format twice: %r", which, names)
    from ucis.rgy.format_rgy import FormatRgy
    rgy = FormatRgy.inst()
    have = rgy.getDatabaseFormats() if which == "list-db-formats" else rgy.getReportFormats()
    mine = plugins.DB if which == "list-db-formats" else plugins.RPT
    ctx.check(set(mine) <= set(have), "%s: registered formats are missing: %r", which, sorted(set(mine) - set(have)))
    ctx.equal(sorted(set(have) - set(mine)) if own else sorted(have), sorted(names), which)
    desc = rgy.getDatabaseDesc if which == "list-db-formats" else rgy.getReportDesc
    for name, line in zip(names, [l for l in r.out.splitlines() if l.strip()]):
        if name in mine:
            text = mine[name] if which == "list-db-formats" else mine[name][1]
            ctx.check(line.rstrip().endswith(" " + text), "%s: format %s without its description: %r", which, name, line)
        ctx.check(desc(name).description and desc(name).description in line, "%s: format %s without its description: %r",
                  which, name, line)
    ctx.count("list_runs")


def directed():
    def proc(k):
        def f(ctx):
            # every subcommand as a process of its own
            rng = ctx.rng
            d = ctx.path("")
            os.mkdir(d)
            fmt = "yaml" if k % 2 else "xml"
            ins = inputs(ctx, rng, d, 3, fmt)
            names = [os.path.basename(p) for p, _ in ins]
            r = cli.spawn(["merge", "-if", fmt, "-o", "m.xml"] + names, d)
            result(ctx, r, os.path.join(d, "m.xml"), oracle.merge([c for _, c in ins]), "ucis merge (process)")
            r = cli.spawn(["convert", "-if", fmt, "-o", "c.xml", names[0]], d)
            result(ctx, r, os.path.join(d, "c.xml"), oracle.merge([ins[0][1]]), "ucis convert (process)")
            exp = oracle.report(ins[0][1])
            r = cli.spawn(["report", "-if", fmt, names[0]], d)
            ctx.check(r.code == 0, "ucis report failed: %r", r)
            rpt.check_text(ctx, r.out, exp, False, 2)
            r = cli.spawn(["report", "-if", fmt, "-of", "json", "-o", "r.json", names[0]], d)
            ctx.check(r.code == 0, "ucis report failed: %r", r)
            with open(os.path.join(d, "r.json"), encoding="utf-8") as fp:
                rpt.check_json(ctx, fp.read(), exp)
            ctx.count("own_process", 4)
        return f

    def dirs(k):
        def f(ctx):
            # every report format, with everything that may be in the place of its output
            for i, rfmt in enumerate(sorted(plugins.RPT)):
                for j, (before, content) in enumerate(PRIOR):
                    d = ctx.path("")
                    os.mkdir(d)
                    own_format(ctx, d, (rfmt, before, content))
                    ctx.count("prior_states")
        return f
    return [("process%d" % k, proc(k)) for k in range(8)] + [("dirs%d" % k, dirs(k)) for k in range(2)]
