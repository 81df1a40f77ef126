"""Copies /repo to DIR with every source file rewritten in ways that change no behaviour.
usage: refactor.py DIR [locals,attrs,private,loops,ifs,extract,returns]
The checks have to stay quiet on the result: VX_REPO=DIR/repo run.sh C01"""
import ast
import os
import shutil
import subprocess
import sys

D = sys.argv[1]
WHAT = set((sys.argv[2] if len(sys.argv) > 2 else "locals,attrs,private,loops,ifs,extract,returns").split(","))


def stored(fn):
    names, bad = set(), set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            bad |= set(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            bad.add(n.name)
        elif isinstance(n, ast.alias):
            bad.add((n.asname or n.name).split(".")[0])
        elif isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and n is not fn:
            return set()
        elif isinstance(n, ast.arg):
            bad.add(n.arg)
    return names - bad


class Rename(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        n.id = self.m.get(n.id, n.id)
        return n


class T(ast.NodeTransformer):
    cls = None

    def visit_ClassDef(self, n):
        old, self.cls = self.cls, n.name
        self.generic_visit(n)
        self.cls = old
        if "extract" in WHAT and old is None:
            out = []
            for f in n.body:
                if isinstance(f, ast.FunctionDef) and not f.decorator_list and not f.name.startswith("__") and f.args.args \
                        and f.args.args[0].arg == "self" and not f.args.kwonlyargs and not f.args.vararg and not f.args.kwarg \
                        and len(f.body) > 1 and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)):
                    name = "_%s_%s_body" % (n.name.strip("_"), f.name.strip("_"))
                    call = ast.Call(ast.Attribute(ast.Name("self", ast.Load()), name, ast.Load()),
                                    [ast.Name(a.arg, ast.Load()) for a in f.args.args[1:]], [])
                    inner = ast.FunctionDef(name, ast.arguments([], [ast.arg(a.arg) for a in f.args.args], None, [], [], None, []),
                                            f.body, [], None, lineno=0, type_params=[])
                    f.body = [ast.Return(call)]
                    out += [f, inner]
                else:
                    out.append(f)
            n.body = out
        return n

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if "locals" in WHAT:
            m = {x: x + "_v" for x in stored(n)}
            if m:
                n.body = [Rename(m).visit(b) for b in n.body]
        if "private" in WHAT and n.name.startswith("_") and not n.name.startswith("__"):
            n.name = "_impl" + n.name
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if "attrs" in WHAT and n.attr.startswith("m_") and n.attr != "m_children":
            n.attr = "priv" + n.attr[1:]
        if "private" in WHAT and n.attr in PRIV:
            n.attr = "_impl" + n.attr
        return n

    def visit_Name(self, n):
        if "private" in WHAT and n.id in PRIV:
            n.id = "_impl" + n.id
        return n

    def visit_alias(self, n):
        if "private" in WHAT and n.name in PRIV:
            n.name = "_impl" + n.name
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        if "loops" in WHAT:
            n.target = ast.Tuple([ast.Name("_idx%d" % n.lineno, ast.Store()), n.target], ast.Store())
            n.iter = ast.Call(ast.Name("enumerate", ast.Load()), [n.iter], [])
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if "ifs" in WHAT and n.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n

    def visit_Return(self, n):
        self.generic_visit(n)
        if "returns" in WHAT and n.value is not None:
            return [ast.Assign([ast.Name("_result", ast.Store())], n.value, lineno=0), ast.Return(ast.Name("_result", ast.Load()))]
        return n


shutil.rmtree(D + "/repo", ignore_errors=True)
os.makedirs(D, exist_ok=True)
subprocess.check_call(["cp", "-a", "/repo", D + "/repo"])
files = [os.path.join(a, f) for a, _, c in os.walk(D + "/repo/src/ucis") for f in c if f.endswith(".py")]
PRIV = set()
trees = {}
for f in files:
    with open(f) as fp:
        try:
            trees[f] = ast.parse(fp.read())
        except SyntaxError:
            print("left alone:", f)
            continue
    for n in ast.walk(trees[f]):
        if isinstance(n, ast.FunctionDef) and n.name.startswith("_") and not n.name.startswith("__"):
            PRIV.add(n.name)
for f, t in trees.items():
    t = ast.fix_missing_locations(T().visit(t))
    with open(f, "w") as fp:
        fp.write(ast.unparse(t) + "\n")
print(len(files), "files;", sorted(PRIV))
