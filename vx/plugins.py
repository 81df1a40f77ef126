"""Formats of a user's own, registered with the registry of the code under test.

The database format's files hold the number of a model in STORE; databases write
the snapshot of their content.  Everything the formats are asked to do is logged
in LOG, for the monitor.  Effects on files are confined (see Confined).
"""
import json
import os
import sys

from . import sut

STORE = {}
LOG = []
RPT = {}         # name -> (flags, description)
DB = {}          # name -> description
FAULT = []       # [operation, which time, exception]: fails then


def tick(op):
    if FAULT and FAULT[0] == op:
        FAULT[1] -= 1
        if FAULT[1] == 0:
            LOG.append(("fault", op))
            raise FAULT[2]


class Confined(object):
    """Removals and creations outside a directory are refused, and remembered

    The command removes directories on behalf of report formats; a changed one might remove others.
    """
    root = None
    refused = []
    hooked = False
    EVENTS = {"shutil.rmtree": (0,), "os.remove": (0,), "os.rmdir": (0,), "os.rename": (0, 1), "os.mkdir": (0,),
              "os.truncate": (0,), "shutil.move": (0, 1), "os.chmod": (0,), "os.link": (1,), "os.symlink": (1,)}

    @classmethod
    def hook(cls, event, args):
        if cls.root is None:
            return
        at = cls.EVENTS.get(event)
        if at is None:
            return
        for i in at:
            p = args[i]
            if not isinstance(p, (str, bytes, os.PathLike)):
                continue
            if event != "shutil.rmtree" and len(args) > 1 and isinstance(args[-1], int) and args[-1] >= 0 and not os.path.isabs(os.fsdecode(p)):
                continue        # relative to a directory handle: within a removal that was let through
            q = os.path.realpath(os.path.dirname(os.path.abspath(os.fsdecode(p))))
            if os.path.basename(os.fsdecode(p).rstrip("/")) in ("", ".", ".."):
                q = os.path.dirname(os.path.realpath(os.fsdecode(p)))
            if q != cls.root and not q.startswith(cls.root + os.sep):
                cls.refused.append((event, os.fsdecode(p)))
                raise PermissionError("%s of %r is outside of the scratch directory" % (event, p))

    def __init__(self, root):
        self.new = os.path.realpath(root)

    def __enter__(self):
        if not Confined.hooked:
            sys.addaudithook(Confined.hook)
            Confined.hooked = True
        Confined.refused = []
        Confined.root = self.new
        return self

    def __exit__(self, *a):
        Confined.root = None


def register():
    """Once per process"""
    from ucis.mem.mem_ucis import MemUCIS
    from ucis.rgy.format_if_db import FormatDbFlags, FormatDescDb, FormatIfDb
    from ucis.rgy.format_if_rpt import FormatDescRpt, FormatIfRpt, FormatRptOutFlags
    from ucis.rgy.format_rgy import FormatRgy
    rgy = FormatRgy.inst()

    class Db(MemUCIS):
        def write(self, file, scope=None, recurse=True, covertype=-1):
            LOG.append(("write", self.fmt, file))
            tick("write")
            with open(file, "w") as fp:
                json.dump({"fmt": self.fmt, "content": sut.snap(self)}, fp)

        def close(self):
            LOG.append(("close", self.fmt))
            return super().close()

    def db_if(fmt):
        class If(FormatIfDb):
            def create(self, filename=None):
                LOG.append(("create", fmt))
                tick("create")
                db = Db()
                db.fmt = fmt
                return db

            def read(self, file_or_filename):
                LOG.append(("read", fmt, file_or_filename))
                tick("read")
                with open(file_or_filename) as fp:
                    m = STORE[fp.read()]
                db = Db()
                db.fmt = fmt
                return sut.build(m, None, db)
        return If

    def rpt_if(name, flags):
        class If(FormatIfRpt):
            def report(self, db, out, args):
                tick("report")
                m = sut.snap(db)
                if isinstance(out, (str, os.PathLike)):
                    LOG.append(("report-dir", name, os.fspath(out), m, os.path.isdir(out) and sorted(os.listdir(out))))
                    with open(os.path.join(out, "index.txt"), "w") as fp:
                        fp.write("report of %s\n" % name)
                    os.makedirs(os.path.join(out, "sub", "deeper"))
                    with open(os.path.join(out, "sub", "deeper", "x.txt"), "w") as fp:
                        fp.write("x" * 5000)
                else:
                    LOG.append(("report-stream", name, m))
                    out.write("report of %s\n" % name)
                    for k in range(2000):
                        out.write("line %d of %s\n" % (k, name))
                tick("reported")
        return If

    def use():
        # formats may be added to a registry that has been used already
        for f in rgy.getReportFormats():
            rgy.getReportDesc(f), rgy.hasReportFormat(f)
        for f in rgy.getDatabaseFormats():
            rgy.getDatabaseDesc(f), rgy.hasDatabaseFormat(f)
        rgy.hasDatabaseFormat("vx-db"), rgy.hasReportFormat("vx-dir")

    F = FormatRptOutFlags
    use()
    for name, flags, desc in [("vx-dir", F.Dir, "a tree of files"), ("vx-stream", F.Stream, "a stream - with a dash"),
                              ("vx-both", F.Stream | F.Dir, "both"), ("vx-none", F(0), "neither"), ("VX-Dir", F.Dir, "another tree"),
                              ("vx-dup", F.Dir, "replaced below"), ("vx-dup", F.Stream, "the second of that name"),
                              ("a-very-long-name-of-a-format", F.Stream, "long"), ("v", F.Dir, "short")]:
        rgy.addReportFormat(FormatDescRpt(rpt_if(name, flags), name, flags, desc))
        RPT[name] = (flags, desc)
        use()
    A = FormatDbFlags
    for name, desc in [("vx-db", "a format"), ("vx-db2", "replaced below"), ("vx-db2", "another format"), ("VX-DB", "upper case")]:
        rgy.addDatabaseFormat(FormatDescDb(db_if(name), name, A.Create | A.Read | A.Write, desc))
        DB[name] = desc
        use()
