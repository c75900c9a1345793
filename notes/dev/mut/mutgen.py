"""Generate AST mutants of covered lines: list of (file, start, end, new, desc)"""
import ast, json, sys, random, os
BASE="/tmp/w/repo2/scripts/"
hit=json.load(open("/tmp/w/cov/hit.json"))
def seg(src, lines, node):
    return ast.get_source_segment(src,node)
def offs(src):
    o=[0]
    for l in src.split("\n"): o.append(o[-1]+len(l.encode())+1)
    return o
CMP={ast.Eq:"!=",ast.NotEq:"==",ast.Lt:"<=",ast.LtE:"<",ast.Gt:">=",ast.GtE:">",ast.In:"not in",ast.NotIn:"in",ast.Is:"is not",ast.IsNot:"is"}
def mutants(fn):
    path=BASE+fn; src=open(path).read(); b=src.encode(); o=offs(src)
    tree=ast.parse(src); cov=set(hit[fn]); out=[]
    def pos(n): return o[n.lineno-1]+n.col_offset, o[n.end_lineno-1]+n.end_col_offset
    def add(n,new,desc):
        s,e=pos(n)
        out.append((fn,s,e,new,n.lineno,desc+": "+b[s:e].decode()[:100].replace("\n"," ")))
    def text(n):
        s,e=pos(n); return b[s:e].decode()
    infn=[0]
    skip=set()
    for n in ast.walk(tree):
        if isinstance(n,ast.Call):
            nm=n.func.attr if isinstance(n.func,ast.Attribute) else getattr(n.func,"id","")
            if nm in ("write","comment","blank_line"):
                for a in n.args[1:]+([n.args[0]] if n.args and nm!="comment" and isinstance(n.args[0],ast.Constant) else [])+[k.value for k in n.keywords]:
                    for m in ast.walk(a): skip.add(id(m))
        if isinstance(n,ast.Assign) and "indent" in ast.dump(n.targets[0]):
            for m in ast.walk(n): skip.add(id(m))
    def walk(n, parentfn):
        isf=isinstance(n,(ast.FunctionDef,))
        for c in ast.iter_child_nodes(n): walk(c, n if isf else parentfn)
        if parentfn is None or id(n) in skip: return
        ln=getattr(n,"lineno",None)
        if ln is None or ln not in cov: return
        if isinstance(n,ast.Compare) and len(n.ops)==1:
            op=type(n.ops[0])
            if op in CMP: add(n,f"({text(n.left)} {CMP[op]} {text(n.comparators[0])})","cmp")
        elif isinstance(n,ast.BoolOp):
            j=" or " if isinstance(n.op,ast.And) else " and "
            add(n,"("+j.join(f"({text(v)})" for v in n.values)+")","boolop")
            for k in range(len(n.values)):
                r=[v for i,v in enumerate(n.values) if i!=k]
                add(n,"("+(" and " if isinstance(n.op,ast.And) else " or ").join(f"({text(v)})" for v in r)+")",f"dropterm{k}")
        elif isinstance(n,ast.UnaryOp) and isinstance(n.op,ast.Not):
            add(n,f"({text(n.operand)})","not")
        elif isinstance(n,ast.Constant):
            if n.value is True: add(n,"False","T>F")
            elif n.value is False: add(n,"True","F>T")
            elif isinstance(n.value,int): add(n,str(n.value+1),"int+1")
        elif isinstance(n,ast.If):
            t=n.test
            if not isinstance(t,(ast.Compare,ast.UnaryOp)): add(t,f"(not ({text(t)}))","negif")
        elif isinstance(n,(ast.Expr,)) and isinstance(n.value,ast.Call):
            s=text(n)
            if not any(x in s for x in ("debug","logger","log_","warning","info(","comment(","blank_line",'write("",',"write('',","write('!")): add(n,"pass","dropcall")
        elif isinstance(n,ast.AugAssign): add(n,"pass","dropaug")
        elif isinstance(n,ast.Continue): add(n,"break","cont>break")
        elif isinstance(n,ast.Break): add(n,"pass","break>pass")
        elif isinstance(n,ast.Return) and n.value is not None and not (isinstance(n.value,ast.Constant)):
            add(n,"return None","retnone")
        elif isinstance(n,ast.Assign) and len(n.targets)==1 and isinstance(n.targets[0],(ast.Attribute,ast.Subscript)):
            add(n,"pass","dropassign")
        elif isinstance(n,ast.IfExp):
            add(n,f"({text(n.body)})","ifexp1"); add(n,f"({text(n.orelse)})","ifexp2")
        elif isinstance(n,ast.Call) and isinstance(n.func,ast.Attribute) and n.func.attr in ("lower","strip","copy","rstrip","lstrip") and not n.args:
            add(n,text(n.func.value),"drop."+n.func.attr)
        elif isinstance(n,ast.Call) and isinstance(n.func,ast.Name) and n.func.id in ("sorted","list","set") and len(n.args)==1:
            add(n,text(n.args[0]),"drop "+n.func.id)
    walk(tree,None)
    return out
if __name__=="__main__":
    rng=random.Random(int(sys.argv[1])); N=int(sys.argv[2])
    allm=[]
    for fn in hit:
        if fn.endswith("__init__.py") or fn.startswith("parse_tools/parse_log"): continue
        if fn.startswith("/"): continue
        try: allm+=mutants(fn)
        except FileNotFoundError as e: print(e)
    print(len(allm),file=sys.stderr)
    rng.shuffle(allm)
    good=[]
    for m in allm:
        src=open(BASE+m[0]).read().encode()
        new=src[:m[1]]+m[3].encode()+src[m[2]:]
        try: ast.parse(new.decode())
        except SyntaxError: continue
        good.append(m)
        if len(good)==N: break
    json.dump(good,open(sys.argv[3],"w"),indent=0)
    print(len(good))
