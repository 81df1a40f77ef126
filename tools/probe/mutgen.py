import ast, os, sys, json
SRC="/repo/src/ucis"
out=[]
def segs(src):
    lines=src.split("\n"); off=[0]
    for l in lines: off.append(off[-1]+len((l+"\n").encode()))
    return off
for root,_,fs in os.walk(SRC):
    for f in sorted(fs):
        if not f.endswith(".py"): continue
        p=os.path.join(root,f); rel=os.path.relpath(p,SRC)
        b=open(p,"rb").read(); 
        try: t=ast.parse(b)
        except Exception as e: print("skip",rel,e,file=sys.stderr); continue
        off=[0]
        for l in b.split(b"\n"): off.append(off[-1]+len(l)+1)
        def span(n): return off[n.lineno-1]+n.col_offset, off[n.end_lineno-1]+n.end_col_offset
        def txt(n): s,e=span(n); return b[s:e].decode()
        def add(n,new,op):
            s,e=span(n)
            if b[s:e].decode()==new: return
            out.append((rel,n.lineno,s,e,new,op))
        # docstrings/type annotations
        skip=set()
        for n in ast.walk(t):
            if isinstance(n,(ast.FunctionDef,ast.ClassDef,ast.Module)) and n.body and isinstance(n.body[0],ast.Expr) and isinstance(n.body[0].value,ast.Constant): skip.add(n.body[0]); skip.add(n.body[0].value)
            if isinstance(n,ast.AnnAssign):
                for m in ast.walk(n.annotation): skip.add(m)
            if isinstance(n,ast.FunctionDef):
                for a in n.args.args:
                    if a.annotation:
                        for m in ast.walk(a.annotation): skip.add(m)
                if n.returns:
                    for m in ast.walk(n.returns): skip.add(m)
        def indef(n): return True
        for n in ast.walk(t):
            if n in skip: continue
            if isinstance(n,ast.Compare) and len(n.ops)==1:
                l,r=txt(n.left),txt(n.comparators[0])
                m={ast.Eq:["!="],ast.NotEq:["=="],ast.Lt:["<=",">="],ast.LtE:["<",">"],ast.Gt:[">=","<="],ast.GtE:[">","<"],ast.Is:["is not"],ast.IsNot:["is"],ast.In:["not in"],ast.NotIn:["in"]}[type(n.ops[0])]
                for o in m: add(n,"%s %s %s"%(l,o,r),"cmp")
            elif isinstance(n,ast.BoolOp):
                o=" and " if isinstance(n.op,ast.Or) else " or "
                add(n,"("+o.join("(%s)"%txt(v) for v in n.values)+")","bool")
                for v in n.values:
                    add(n,"("+txt(v)+")","boolone")
            elif isinstance(n,ast.UnaryOp) and isinstance(n.op,ast.Not):
                add(n,"("+txt(n.operand)+")","not")
            elif isinstance(n,ast.BinOp):
                m={ast.Add:["-"],ast.Sub:["+"],ast.Mult:["+"],ast.Div:["//","*"],ast.BitAnd:["|"],ast.BitOr:["&"],ast.FloorDiv:["/"]}.get(type(n.op),[])
                for o in m: add(n,"(%s %s %s)"%(txt(n.left),o,txt(n.right)),"arith")
            elif isinstance(n,ast.Constant):
                v=n.value
                if isinstance(v,bool): add(n,str(not v),"const")
                elif isinstance(v,int): add(n,str(v+1),"const"); 
                elif isinstance(v,float): add(n,str(v+1.0),"const")
                elif isinstance(v,str) and "\n" not in v and v and n.lineno==n.end_lineno:
                    s,e=span(n)
                    raw=b[s:e].decode()
                    if raw[0] in "\"'" : add(n,raw[0]+"XX"+raw[1:],"str")
            elif isinstance(n,ast.If):
                add(n.test,"(True)","iftrue"); add(n.test,"(False)","iffalse")
            elif isinstance(n,ast.While):
                add(n.test,"(False)","whilefalse")
            elif isinstance(n,ast.IfExp):
                add(n,"("+txt(n.body)+")","ifexp"); add(n,"("+txt(n.orelse)+")","ifexp")
            elif isinstance(n,ast.Return) and n.value is not None:
                add(n,"return None","ret")
            elif isinstance(n,(ast.Expr,ast.Assign,ast.AugAssign,ast.Raise,ast.Delete,ast.Continue,ast.Break)):
                add(n,"pass","del")
                if isinstance(n,ast.AugAssign) and isinstance(n.op,ast.Add):
                    add(n,"%s = %s"%(txt(n.target),txt(n.value)),"aug")
                if isinstance(n,ast.Break): add(n,"continue","brk")
                if isinstance(n,ast.Continue): add(n,"break","brk")
            elif isinstance(n,ast.Call):
                a=n.args
                for i in range(len(a)-1):
                    if txt(a[i])!=txt(a[i+1]) and not any(isinstance(x,ast.Starred) for x in a[i:i+2]):
                        s,_=span(a[i]); _,e=span(a[i+1]); mid=b[span(a[i])[1]:span(a[i+1])[0]].decode()
                        out.append((rel,n.lineno,s,e,txt(a[i+1])+mid+txt(a[i]),"argswap"))
            elif isinstance(n,ast.For):
                add(n.iter,"list(%s)[:-1]"%txt(n.iter),"forlast"); add(n.iter,"list(%s)[1:]"%txt(n.iter),"forfirst")
                if txt(n.iter).startswith("range")==False: add(n.iter,"list(%s)[::-1]"%txt(n.iter),"forrev")
            elif isinstance(n,ast.ExceptHandler): pass
seen=set(); res=[]
for m in out:
    k=(m[0],m[2],m[3],m[4])
    if k in seen: continue
    seen.add(k); res.append(m)
json.dump(res,open("/tmp/mut/mutants.json","w"))
from collections import Counter
print(len(res)); print(Counter(m[0] for m in res).most_common())
