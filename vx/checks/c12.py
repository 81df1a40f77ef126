"""C12: a command that fails says so and does no harm"""
import builtins
import contextlib
import errno
import gzip
import io
import os
import resource
import shutil
import signal
import sys

import yaml

from vx import cli, gen, oracle, plugins, sut, work, xmlgen, xmlref, yamlgen
from vx.core import SRC, Violation

PROP = "C12"
LEVEL = "fault_enumeration"
QUICK = 3500
REQUIRED = ["failing_runs", "outputs_untouched", "truncations", "own_process", "usage_errors",
            "recoveries", "disk_full", "memory_faults", "plugin_faults", "directory_faults"]
RULE = ("The real command line (in process and as a process of its own) is run on inputs that are missing, unreadable, empty, "
        "malformed, invalid, dangling, of another format, and cut at every byte offset; with every position of the bad input among good "
        "ones; with read and write errors injected at each single read, write or close of each file; with memory running out in random calls of the code; with directories that cannot be removed or made; with formats of the user's own that fail in any way when asked to read, create, write or report; with unknown or unusable "
        "formats and unwritable destinations. Monitored: exit status, error message, bytes of an existing "
        "output and of the inputs, files left behind, nothing rendered on standard output. Non-trivial: the fault was hit.")
ASSUMPTIONS = ["an error while the output itself is being written may leave that file incomplete, but is reported",
               "checks run as root, so permission faults are injected as errors of the calls"]

GOOD = """<UCIS ucisVersion="1.0" writtenBy="t" writtenTime="2020-01-01T00:00:00">
<sourceFiles fileName="f" id="1"/>
<historyNodes historyNodeId="0" logicalName="l" testStatus="true" date="2020-01-01T00:00:00" toolCategory="c" ucisVersion="1.0" vendorId="v" vendorTool="t" vendorToolVersion="1"/>
<instanceCoverages name="i" key="0"><id file="1" line="1" inlineCount="1"/>
<covergroupCoverage><cgInstance name="g" key="0"><options/><cgId cgName="g" moduleName="m"><cginstSourceId file="1" line="1" inlineCount="1"/><cgSourceId file="1" line="1" inlineCount="1"/></cgId>
<coverpoint name="p" key="0"><options/><coverpointBin name="b" type="bins" key="0"><range from="0" to="1"><contents coverageCount="3"/></range></coverpointBin></coverpoint>
<coverpoint name="q" key="0"><options/><coverpointBin name="b" type="bins" key="0"><range from="0" to="1"><contents coverageCount="4"/></range></coverpointBin></coverpoint>
<cross name="x" key="0"><options/><crossExpr>p</crossExpr><crossExpr>q</crossExpr><crossBin name="c" key="0"><index>0</index><contents coverageCount="1"/></crossBin></cross>
</cgInstance></covergroupCoverage></instanceCoverages>
</UCIS>
"""
GOODY = """coverage:
  covergroups:
  - name: g
    instances:
    - name: i
      coverpoints:
      - {name: p, bins: [{name: b, count: 3}]}
      - {name: q, bins: [{name: b, count: 3}]}
      crosses:
      - {name: x, coverpoints: [p, q], bins: [{name: b, count: 1}]}
"""


RD = [errno.EIO, errno.EACCES, errno.EPERM, errno.ENOENT, errno.EMFILE, errno.EISDIR, errno.ESTALE, errno.ETIMEDOUT,
      errno.ENOMEM, errno.ENXIO]
WR = [errno.ENOSPC, errno.EACCES, errno.EPERM, errno.EROFS, errno.EDQUOT, errno.EIO, errno.EFBIG, errno.EMFILE, errno.EPIPE]


# --- faults of files -----------------------------------------------------------------

class Faults(object):
    """Stands in for open(): the k-th operation (open, read, write, close) on the given file fails"""

    def __init__(self, path, ops, k, rd=errno.EIO, wr=errno.ENOSPC):
        self.path = os.path.realpath(path)
        self.ops = ops
        self.k = k
        self.rd, self.wr = rd, wr
        self.n = 0
        self.hit = False
        self.real = builtins.open

    def tick(self, op):
        if op in self.ops:
            self.n += 1
            if self.n == self.k:
                self.hit = True
                raise OSError(self.rd if op == "read" or op == "open" and "write" not in self.ops else self.wr,
                              "injected error of " + op, self.path)

    def open(self, file, *a, **kw):
        mine = isinstance(file, (str, bytes, os.PathLike)) and os.path.realpath(os.fspath(file)) == self.path
        if mine:
            self.tick("open")
        fp = self.real(file, *a, **kw)
        return File(fp, self) if mine else fp

    def __enter__(self):
        builtins.open = io.open = self.open
        return self

    def __exit__(self, *a):
        builtins.open = io.open = self.real


class File(object):
    def __init__(self, fp, f):
        self._fp = fp
        self._f = f

    def read(self, *a):
        self._f.tick("read")
        return self._fp.read(*a)

    def readline(self, *a):
        self._f.tick("read")
        return self._fp.readline(*a)

    def readinto(self, b):
        self._f.tick("read")
        return self._fp.readinto(b)

    def write(self, s):
        self._f.tick("write")
        return self._fp.write(s)

    def writelines(self, l):
        for s in l:
            self.write(s)

    def close(self):
        if not self._fp.closed:
            try:
                self._f.tick("close")
            finally:
                self._fp.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        self._f.tick("read")
        return iter(self._fp)

    def __getattr__(self, n):
        return getattr(self._fp, n)


# --- monitor ----------------------------------------------------------------------------

class Watch(object):
    """Files of a scratch directory before and after a command"""

    def __init__(self, d):
        self.d = d
        self.before = self.state()

    def state(self):
        r = {}
        for root, ds, fs in os.walk(self.d):
            for x in ds:
                r[os.path.relpath(os.path.join(root, x), self.d)] = None
            for x in fs:
                if os.path.islink(os.path.join(root, x)):
                    r[os.path.relpath(os.path.join(root, x), self.d)] = os.readlink(os.path.join(root, x)).encode()
                    continue
                with open(os.path.join(root, x), "rb") as fp:
                    r[os.path.relpath(os.path.join(root, x), self.d)] = fp.read()
        return r

    def unchanged(self, ctx, what, but=()):
        a = {k: v for k, v in self.before.items() if k not in but}
        b = {k: v for k, v in self.state().items() if k not in but}
        for k in sorted(set(a) | set(b)):
            if k not in b:
                raise Violation("%s: removed %r" % (what, k))
            if k not in a:
                raise Violation("%s: left a file %r behind: %r" % (what, k, (b[k] or b"")[:200]))
            if a[k] != b[k]:
                raise Violation("%s: changed %r (%d bytes, was %d)" % (what, k, len(b[k] or b""), len(a[k] or b"")))
        ctx.count("outputs_untouched")


def failed(ctx, r, what, usage=False):
    ctx.count("failing_runs")
    ctx.check(isinstance(r.code, int) and r.code != 0, "%s: exit status %r, a failure was due; %r", what, r.code, r)
    both = (r.out + r.err).lower()
    ctx.check("error" in both or "failed" in both or "traceback" in both, "%s: no error message: %r", what, r)


def clean_stdout(ctx, r, what):
    """No report, not even a part of one"""
    for l in r.out.splitlines():
        if l.startswith(("TYPE ", "{", "    CVP", "  CVP")):
            raise Violation("%s: rendered a report: %r" % (what, r.out[:200]))


def run(ctx, argv, cwd, own=0.015, room=None):
    """room: files may not become longer than this (EFBIG)"""
    ctx.note(argv)
    with limited(room):
        if ctx.rng.random() < own:
            ctx.count("own_process")
            return cli.spawn(argv, cwd)
        ctx.count("in_process")
        return cli.call(argv, cwd)


@contextlib.contextmanager
def limited(room):
    if room is None:
        yield
        return
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    old = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (room, hard))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        signal.signal(signal.SIGXFSZ, old)


# --- bad inputs ---------------------------------------------------------------------------

PLACES = ["broken-link", "loop", "below-a-file", "long-name"]


def place(d, p, k):
    """There cannot be a file"""
    if k == "broken-link":
        os.symlink("nothing", p)
    elif k == "loop":
        os.symlink(os.path.basename(p), p)
    elif k == "below-a-file":
        with open(os.path.join(d, "file"), "w") as fp:
            fp.write(GOOD)
        return "file/bad.xml"
    else:
        return "x" * 300 + ".xml"
    return os.path.basename(p)


def bad_xml(rng, d):
    """Creates a bad input; returns (name, what)"""
    p = os.path.join(d, "bad.xml")
    k = rng.choice(["missing", "directory", "empty", "text", "binary", "cut", "invalid", "dangling", "yaml", "gz-cut", "gz-flip", "gz-text",
                    "deep-missing", "doctype", "wrong-root", "neg"] + PLACES)
    if k in PLACES:
        return place(d, p, k), k
    if k == "missing":
        return "bad.xml", k
    if k == "deep-missing":
        return "no/such/dir/bad.xml", k
    if k == "directory":
        os.mkdir(p)
        return "bad.xml", k
    doc = xmlgen.gen_doc(rng)
    st = xmlgen.Style(rng)
    st.gz = st.tail = False
    data = xmlgen.serialize(xmlgen.tree(rng, doc, st), st).rstrip()
    if k == "empty":
        data = b""
    elif k == "text":
        data = b"this is no XML\n"
    elif k == "binary":
        data = bytes(rng.randrange(256) for _ in range(200))
        if data[:2] == b"\x1f\x8b" or data[:2] == b"\x04\x22":
            data = b"\x00" + data
    elif k == "cut":
        data = data[:rng.randrange(len(data))]
    elif k == "invalid":
        data = GOOD.replace("coverageCount=\"3\"", rng.choice(["coverageCount=\"x\"", "", "coverageCount=\"-3\""])).encode()
    elif k == "dangling":
        data = GOOD.replace("<crossExpr>q", "<crossExpr>nope").encode()
    elif k == "yaml":
        data = GOODY.encode()
    elif k == "gz-cut":
        data = gzip.compress(data)
        data = data[:rng.randint(2, len(data) - 1)]
    elif k == "gz-flip":
        # checksum or length do not match, or no known method of compression
        data = bytearray(gzip.compress(data))
        data[rng.choice([2] + list(range(-8, 0)))] ^= rng.choice([1, 0x80])
    elif k == "gz-text":
        data = gzip.compress(b"this is no XML")
    elif k == "doctype":
        data = b"<!DOCTYPE html><html/>"
    elif k == "wrong-root":
        data = GOOD.replace("UCIS ucis", "UCISX ucis").replace("</UCIS>", "</UCISX>").encode()
    elif k == "neg":
        data = GOOD.replace("line=\"1\"", "line=\"0\"", 1).encode()
    with open(p, "wb") as fp:
        fp.write(data)
    return "bad.xml", k


def bad_yaml(rng, d):
    p = os.path.join(d, "bad.yml")
    k = rng.choice(["missing", "directory", "empty", "xml", "type", "dangling", "tab", "list", "required"] + PLACES)
    if k in PLACES:
        return place(d, p, k), k
    if k == "missing":
        return "bad.yml", k
    if k == "directory":
        os.mkdir(p)
        return "bad.yml", k
    data = {"empty": "", "xml": GOOD, "type": GOODY.replace("count: 3", "count: many", 1),
            "dangling": GOODY.replace("[p, q]", "[p, nope]"), "tab": "coverage:\n\tx: 1\n", "list": "- 1\n",
            "required": GOODY.replace("  - name: g\n    instances", "  - instances")}[k]
    with open(p, "w") as fp:
        fp.write(data)
    return "bad.yml", k


def goods(rng, d, n, fmt):
    names = []
    for i in range(n):
        nm = "good%d.%s" % (i, fmt)
        with open(os.path.join(d, nm), "w") as fp:
            fp.write(GOOD if fmt == "xml" else GOODY)
        names.append(nm)
    return names


def case(ctx):
    rng = ctx.rng
    d = ctx.path("")
    os.mkdir(d)
    ctx.nontrivial = True
    kind = rng.choice(["input", "input", "input", "format", "dest", "usage", "readfault", "writefault", "full", "internal"])
    if rng.random() < 0.08:
        return plugin(ctx, rng, d)
    if rng.random() < 0.03:
        return directory(ctx, rng, d)
    cmd = rng.choice(["merge", "merge", "convert", "report"])
    fmt = rng.choice(["xml", "xml", "yaml"])
    iff = ["-if", "yaml"] if fmt == "yaml" else rng.choice([[], ["-if", "xml"]])
    out = "out"
    existing = rng.random() < 0.5
    if existing:
        with open(os.path.join(d, out), "wb") as fp:
            fp.write(b"precious content\n" * rng.choice([1, 1000]))
    n = rng.choice([0, 1, 2, 4]) if cmd == "merge" else 0
    to_stdout = cmd == "report" and rng.random() < 0.4
    rof = rng.choice([[], ["-of", "json"], ["-of", "txt"]]) if cmd == "report" else []
    oo = [] if to_stdout else ["-o", out]

    if kind == "input":
        names = goods(rng, d, n, fmt)
        bad, k = (bad_yaml if fmt == "yaml" else bad_xml)(rng, d)
        at = rng.randint(0, len(names))
        names.insert(at, bad)
        w = Watch(d)
        r = run(ctx, [cmd] + iff + oo + rof + names, d)
        what = "ucis %s with a bad input (%s, %s, number %d of %d)" % (cmd, fmt, k, at + 1, len(names))
        failed(ctx, r, what)
        clean_stdout(ctx, r, what)
        w.unchanged(ctx, what)
        ctx.count("bad_" + k)
        ctx.seen((cmd, fmt, k, at, len(names), existing, to_stdout))
    elif kind == "format":
        names = goods(rng, d, n + 1, fmt)
        k = rng.choice(["in", "out", "lib-in", "lib-out", "yaml-out"]) if cmd != "report" else rng.choice(
            ["in", "out", "lib-in"])
        if k == "in":
            o = ["-if", rng.choice(["nope", "XML", "xm", "txt", "json", ""])]
            iff = o
        elif k == "out":
            o = ["-of", rng.choice(["nope", "TXT", "html", ""] + (["txt", "json"] if cmd != "report" else ["xml", "yaml"]))]
            rof = o
        elif k == "lib-in":
            iff = ["-if", "libucis"]
        else:
            rof = ["-of", "libucis" if k == "lib-out" else "yaml"]
        w = Watch(d)
        r = run(ctx, [cmd] + iff + oo + rof + names, d)
        what = "ucis %s with an unusable format (%s %s)" % (cmd, iff, rof)
        failed(ctx, r, what)
        clean_stdout(ctx, r, what)
        w.unchanged(ctx, what)
        ctx.count("bad_format_" + k)
        ctx.seen((cmd, k, tuple(iff), tuple(rof), existing))
    elif kind == "dest":
        names = goods(rng, d, n + 1, fmt)
        os.mkdir(os.path.join(d, "dir"))
        k = rng.choice(["dir", "missing/out", "good0.%s/out" % fmt])
        w = Watch(d)
        r = run(ctx, [cmd] + iff + ["-o", k] + rof + names, d)
        what = "ucis %s to the unwritable destination %s" % (cmd, k)
        failed(ctx, r, what)
        clean_stdout(ctx, r, what)
        w.unchanged(ctx, what)
        ctx.seen((cmd, fmt, "dest", k))
    elif kind == "full":
        names = goods(rng, d, n + 1, fmt)
        w = Watch(d)
        # (a limit on the size of files, not /dev/full: code that replaces its output would replace the device)
        r = run(ctx, [cmd] + iff + ["-o", out] + rof + names, d, own=0.05, room=rng.choice([0, 0, 1, 9]))
        what = "ucis %s to a full disk" % cmd
        failed(ctx, r, what)
        w.unchanged(ctx, what, but=(out,))
        ctx.count("disk_full")
        ctx.seen((cmd, fmt, "full", tuple(rof)))
    elif kind == "usage":
        names = goods(rng, d, 1, fmt)
        argv = rng.choice([[], ["nope"], ["merge"], ["merge", "-o", out], ["merge", names[0]], ["convert", names[0]],
                           ["convert", "-o", out], ["convert", "-o", out, names[0], names[0]], ["report"],
                           ["report", "--nope", names[0]], ["merge", "-o"], ["report", names[0], names[0]],
                           ["convert", "-o", out, "-zz", names[0]]])
        w = Watch(d)
        r = run(ctx, argv, d)
        what = "ucis %s" % " ".join(argv)
        ctx.check(isinstance(r.code, int) and r.code != 0, "%s: exit status %r", what, r.code)
        ctx.check(r.err.strip() or r.out.strip(), "%s: no message", what)
        clean_stdout(ctx, r, what)
        w.unchanged(ctx, what)
        ctx.count("usage_errors")
        ctx.seen(tuple(argv))
    elif kind == "readfault":
        names = goods(rng, d, n + 1, fmt)
        at = rng.randrange(len(names))
        faults(ctx, d, [cmd] + iff + oo + rof + names, names[at], ("open", "read"), "read_faults", keep_output=True)
    elif kind == "internal":
        internal(ctx, rng, d, [cmd] + iff + oo + rof + goods(rng, d, n + 1, fmt), out)
    else:
        names = goods(rng, d, n + 1, fmt)
        faults(ctx, d, [cmd] + iff + ["-o", out] + rof + names, out, ("open", "write", "close"), "write_faults",
               keep_output=False)
    if rng.random() < 0.1:
        recover(ctx, d)


def worker_init(scratch):
    plugins.register()


class Coded(Exception):
    def __init__(self, code):
        super().__init__("coded %r" % (code,))
        self.code = self.errno = self.returncode = self.status = code


class Odd(Exception):
    def __str__(self):
        return ""


def plugin(ctx, rng, d):
    """A format of the user's own fails"""
    cmd = rng.choice(["merge", "merge", "convert", "report", "report"])
    exc = rng.choice([ValueError("bad error value"), KeyError("key"), OSError(errno.EIO, "error"), OSError("error"), OSError(0, "error"), RuntimeError("error 100%"), StopIteration(),
                      AssertionError(), NotImplementedError("error"), UnicodeDecodeError("utf-8", b"x", 0, 1, "error"), ImportError("error"), Odd(), Coded(0), Coded(None), LookupError("{0}"),
                      RecursionError("error"), TypeError("error"), AttributeError("error"), EOFError("error"), ZeroDivisionError(), Exception("%s")])
    plugins.STORE.clear()
    del plugins.LOG[:]
    n = rng.choice([1, 2, 4]) if cmd == "merge" else 1
    names = []
    for k in range(n):
        plugins.STORE["#%d" % k] = gen.gen_db(rng, gen.Opts(hostile=0, scale=0.5))
        names.append("in%d" % k)
        with open(os.path.join(d, names[-1]), "w") as fp:
            fp.write("#%d" % k)
    existing = rng.random() < 0.5
    if existing:
        with open(os.path.join(d, "out"), "w") as fp:
            fp.write("precious content\n" * 100)
    op = rng.choice(["read", "create", "write"]) if cmd != "report" else rng.choice(["read", "report", "reported"])
    argv = [cmd, "-if", "vx-db", "-of", "vx-db2" if cmd != "report" else "vx-stream"]
    if cmd != "report" or rng.random() < 0.6:
        argv += ["-o", "out"]
    else:
        existing = None
    argv += names
    ctx.note(argv)
    w = Watch(d)
    plugins.FAULT[:] = [op, rng.randint(1, n) if op == "read" else 1, exc]
    try:
        r = cli.call(argv, d)
    finally:
        del plugins.FAULT[:]
    what = "ucis %s with a format that raises %r (%s)" % (cmd, exc, op)
    ctx.check(("fault", op) in plugins.LOG, "%s: the format was not asked to %s: %r", what, op, r)
    failed(ctx, r, what)
    w.unchanged(ctx, what, but=("out",) if op in ("report", "reported") and existing is not None else ())
    # the same command succeeds without
    r = cli.call(argv, d)
    ctx.check(r.code == 0, "%s: failed once the cause was gone: %r", what, r)
    ctx.count("plugin_faults")
    ctx.seen((argv, op, type(exc).__name__, existing))


def directory(ctx, rng, d):
    """A report that is a directory, whose place cannot be cleared or made"""
    names = goods(rng, d, 1, "xml")
    out = os.path.join(d, "out")
    before = rng.choice(["full", "full", "nothing"])
    k = 0
    while k < 40:
        k += 1
        shutil.rmtree(out, ignore_errors=True)
        if before == "full":
            os.makedirs(os.path.join(out, "sub", "old"))
            for x in ("index.txt", "old.txt", "sub/old/y"):
                with open(os.path.join(out, x), "w") as fp:
                    fp.write("previous report")
        w = Watch(d)
        del plugins.LOG[:]
        argv = ["report", "-of", "vx-dir", "-o", "out"] + names
        ctx.note((argv, before, k))
        with plugins.Confined(ctx.scratch) as c, Refused(out, k, rng.choice([errno.EACCES, errno.EBUSY, errno.EROFS, errno.EIO, errno.ENOTEMPTY])) as f:
            r = cli.call(argv, d)
        ctx.check(not c.refused, "ucis report tried to change %r, outside of everything it was told about", c.refused)
        what = "ucis report to a directory, where %s failed (call %d)" % (f.hit, k)
        if not f.hit:
            ctx.check(r.code == 0, "ucis %s failed without a fault: %r", argv, r)
            break
        ctx.count("directory_faults")
        calls = [e for e in plugins.LOG if e[0].startswith("report")]
        if r.code == 0:
            # it found another way
            ctx.equal([[]], [e[4] for e in calls], what + ": directory given to the format was not empty")
            ctx.equal(["out/index.txt", "out/sub/deeper/x.txt"], sorted(x for x, v in w.state().items() if v is not None and x.startswith("out")), what)
        else:
            failed(ctx, r, what)
            w.unchanged(ctx, what, but=[x for x in list(w.before) + list(w.state()) if x == "out" or x.startswith("out/")])
        ctx.seen((before, k, f.hit))


class Refused(object):
    """The k-th removal or creation of a directory or file below a path fails"""

    def __init__(self, path, k, code):
        self.path, self.k, self.code = path, k, code
        self.n = 0
        self.hit = None

    def wrap(self, name, real):
        def f(p, *a, **kw):
            # (relative to a directory handle: within the directory)
            if kw.get("dir_fd") is not None or (os.path.abspath(os.fsdecode(p)) + os.sep).startswith(self.path + os.sep):
                self.n += 1
                if self.n == self.k:
                    self.hit = name
                    raise OSError(self.code, "injected error of " + name, p)
            return real(p, *a, **kw)
        return f

    def __enter__(self):
        self.real = {n: getattr(os, n) for n in ("unlink", "remove", "rmdir", "mkdir")}
        for n, r in self.real.items():
            setattr(os, n, self.wrap(n, r))
        return self

    def __exit__(self, *a):
        for n, r in self.real.items():
            setattr(os, n, r)


def faults(ctx, d, argv, name, ops, counter, keep_output):
    """Each single operation on the file fails, one run each"""
    ctx.note((argv, name, ops))
    k = 0
    while k < 200:
        k += 1
        w = Watch(d)
        rd = ctx.rng.choice(RD)
        wr = ctx.rng.choice(WR)
        with Faults(os.path.join(d, name), ops, k, rd, wr) as f:
            r = cli.call(argv, d)
        if not f.hit:
            ctx.check(r.code == 0, "ucis %s failed without a fault: %r", argv, r)
            if k == 1:
                ctx.count("unobserved_files")
            break
        what = "ucis %s with operation %d on %s failing (%s)" % (argv[0], k, name, os.strerror(rd if keep_output else wr))
        ctx.count("errno_%s" % errno.errorcode[rd if keep_output else wr])
        ctx.count(counter)
        failed(ctx, r, what)
        if keep_output:
            clean_stdout(ctx, r, what)
        w.unchanged(ctx, what, but=() if keep_output else (name,))
        ctx.seen((argv, name, k))


class Exhausted(object):
    """The k-th call of a function of the code under test finds no memory; watches what is opened for writing meanwhile"""

    def __init__(self, k):
        self.k = k
        self.n = 0
        self.at = None
        self.opened = set()

    def trace(self, frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(SRC):
            self.n += 1
            if self.n == self.k:
                self.at = "%s:%s" % (os.path.relpath(frame.f_code.co_filename, SRC), frame.f_code.co_name)
                sys.settrace(None)
                raise MemoryError("injected")
        return None

    def open(self, file, mode="r", *a, **kw):
        if isinstance(file, (str, bytes, os.PathLike)) and set(mode) & set("wax+"):
            self.opened.add(os.path.basename(os.fsdecode(file)))
        return self.real(file, mode, *a, **kw)

    def __enter__(self):
        self.real = builtins.open
        builtins.open = io.open = self.open
        self.old = sys.gettrace()
        sys.settrace(self.trace)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)
        builtins.open = io.open = self.real


def internal(ctx, rng, d, argv, out):
    """The command runs out of memory, anywhere"""
    saved = Watch(d)
    with Exhausted(0) as f:
        good = cli.call(argv, d)
    ctx.check(good.code == 0, "ucis %s failed without a fault: %r", argv, good)
    exp = saved.state()
    total = f.n
    for _ in range(8):
        restore(d, saved.before)
        k = rng.randint(1, total)
        with Exhausted(k) as f:
            r = cli.call(argv, d)
        if f.at is None:
            ctx.count("memory_not_hit")
            continue
        what = "ucis %s without memory in %s (call %d of %d)" % (argv[0], f.at, k, total)
        ctx.count("memory_faults")
        if r.code == 0:
            # it could do without what failed, and did the job
            now = saved.state()
            ctx.check((scrub(now), r.out) == (scrub(exp), good.out), "%s: exit status 0, but another result", what)
            ctx.count("memory_recovered")
        else:
            failed(ctx, r, what)
            saved.unchanged(ctx, what, but=(out,) if out in f.opened else ())
        ctx.seen((argv, f.at))
    restore(d, saved.before)


def scrub(state):
    import re
    return {k: v and re.sub(rb' (date|writtenTime)="[^"]*"', b"", v) for k, v in state.items()}


def restore(d, state):
    for x in os.listdir(d):
        if x not in state:
            os.unlink(os.path.join(d, x))
    for x, v in state.items():
        if v is not None:
            with open(os.path.join(d, x), "wb") as fp:
                fp.write(v)


def recover(ctx, d):
    """The next command is not affected"""
    with open(os.path.join(d, "ok.xml"), "w") as fp:
        fp.write(GOOD)
    r = cli.call(["merge", "-o", "after.xml", "ok.xml", "ok.xml"], d)
    ctx.check(r.code == 0, "a good command after a failing one failed: %r", r)
    db = work.xml_read(os.path.join(d, "after.xml"))
    ctx.equal({("i", "g", "cps", "p", "bin", "b"): 6, ("i", "g", "cps", "q", "bin", "b"): 8,
               ("i", "g", "crs", "x", "bin", "c"): 2},
              {k: v for k, v in oracle.flat(sut.snap(db)).items() if "inst" not in k}, "merge after a failing command")
    ctx.count("recoveries")


def directed():
    def cuts(part, parts, gz):
        def f(ctx):
            """The input is cut at every offset"""
            d = ctx.path("")
            os.mkdir(d)
            data = GOOD.encode().rstrip()
            if gz:
                data = gzip.compress(data)
            goods(ctx.rng, d, 1, "xml")
            with open(os.path.join(d, "out"), "wb") as fp:
                fp.write(b"precious")
            p = os.path.join(d, "cut.xml")
            for off in range(part, len(data), parts):
                with open(p, "wb") as fp:
                    fp.write(data[:off])
                w = Watch(d)
                for argv in (["merge", "-o", "out", "good0.xml", "cut.xml"], ["convert", "-o", "out", "cut.xml"],
                             ["report", "-o", "out", "cut.xml"]):
                    r = cli.call(argv, d)
                    what = "ucis %s with an input cut after %d of %d bytes%s" % (argv[0], off, len(data), " (gzip)" * gz)
                    failed(ctx, r, what)
                    ctx.count("truncations")
                w.unchanged(ctx, "cut after %d" % off)
                ctx.seen(("cut", gz, off))
        return f

    def procs(k):
        def f(ctx):
            d = ctx.path("")
            os.mkdir(d)
            goods(ctx.rng, d, 1, "xml")
            goods(ctx.rng, d, 1, "yaml")
            with open(os.path.join(d, "out"), "wb") as fp:
                fp.write(b"precious")
            with open(os.path.join(d, "bad.xml"), "wb") as fp:
                fp.write(GOOD.encode()[:300])
            for argv in [[["merge", "-o", "out", "good0.xml", "bad.xml"], ["merge", "-o", "out", "nope.xml"]],
                         [["convert", "-o", "out", "bad.xml"], ["convert", "-if", "yaml", "-o", "out", "good0.xml"]],
                         [["report", "bad.xml"], ["report", "-o", "out", "-of", "json", "nope.xml"]],
                         [["report", "-of", "html", "good0.xml"], ["convert", "-of", "yaml", "-o", "out", "good0.xml"]]][k]:
                w = Watch(d)
                r = cli.spawn(argv, d)
                what = "ucis %s (process)" % " ".join(argv)
                failed(ctx, r, what)
                clean_stdout(ctx, r, what)
                w.unchanged(ctx, what)
                ctx.count("own_process")
        return f
    return ([("cut%d" % i, cuts(i, 8, False)) for i in range(8)] + [("gzcut%d" % i, cuts(i, 8, True)) for i in range(8)]
            + [("process%d" % i, procs(i)) for i in range(4)])
