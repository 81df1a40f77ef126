"""usage: reach.py LINES-FILE: lines of functions of the code under test that no check reached
(LINES-FILE from VX_LINES=FILE run.sh Cnn, appended to by every check)"""
import ast, os, sys
SRC = "/repo/src"
got = set(l.strip() for l in open(sys.argv[1]))
for root, _, fs in sorted(os.walk(SRC + "/ucis")):
    for f in sorted(fs):
        if not f.endswith(".py"):
            continue
        p = os.path.join(root, f)
        rel = os.path.relpath(p, SRC)
        text = open(p).read()
        try:
            t = ast.parse(text)
        except SyntaxError:
            print(rel, "does not compile")
            continue
        lines = text.split("\n")
        miss = []
        for fn in ast.walk(t):
            if isinstance(fn, (ast.FunctionDef, ast.Lambda)) and isinstance(fn.body, list):
                for s in ast.walk(fn):
                    if isinstance(s, ast.stmt) and s is not fn and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        if not any("%s:%d" % (rel, l) in got for l in range(s.lineno, (s.body[0].lineno if getattr(s, "body", None) else s.end_lineno + 1))):
                            if not isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Try, ast.Global)):
                                miss.append(s.lineno)
        for l in sorted(set(miss)):
            if "UnimplError" not in lines[l - 1] and "NotImplementedError" not in lines[l - 1]:
                print("%s:%d: %s" % (rel, l, lines[l - 1].strip()[:110]))
