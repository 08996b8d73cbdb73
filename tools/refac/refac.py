"""refac.py OUTDIR TRANSFORM: copy /repo/echidna with a behaviour-preserving transformation of every module."""
import sys, ast, os, shutil, copy
sys.path.insert(0,'/verif')
from sa.program import parse
from sa import program
out, tr = sys.argv[1:3]
shutil.rmtree(out, ignore_errors=True); shutil.copytree('/repo', out, ignore=shutil.ignore_patterns('.git','build'))

FN=(ast.FunctionDef,)
def functions(t):
    for n in ast.walk(t):
        if isinstance(n, FN): yield n
def stmtlists(n):
    for x in reversed(list(ast.walk(n))):
        for f in ('body','orelse','finalbody'):
            l=getattr(x,f,None)
            if isinstance(l,list) and l and isinstance(l[0],ast.stmt): yield x,f,l
def params(f):
    a=f.args
    return [x.arg for x in a.args+a.kwonlyargs]+([a.vararg.arg] if a.vararg else [])+([a.kwarg.arg] if a.kwarg else [])
def locs(f):
    s=set()
    for n in ast.walk(f):
        if isinstance(n,ast.Name) and isinstance(n.ctx,ast.Store): s.add(n.id)
        if isinstance(n,(ast.Global,)): return set()
    return s-set(params(f))
N=[0]
def fresh(p='tmp'):
    N[0]+=1; return '%s_%d'%(p,N[0])
def name(x,st=False): return ast.Name(x, ast.Store() if st else ast.Load())
def assign(x,v): return ast.Assign([name(x,True)],v)

def t_rename(t):
    for f in functions(t):
        m={x:x+'_val' for x in locs(f)}
        inner=[g for g in ast.walk(f) if isinstance(g,(ast.FunctionDef,ast.Lambda)) and g is not f]
        if inner: continue
        if any(isinstance(n,ast.Name) and n.id in('exec','eval') for n in ast.walk(f)): continue
        for n in ast.walk(f):
            if isinstance(n,ast.Name) and n.id in m: n.id=m[n.id]
            if isinstance(n,ast.ExceptHandler) and n.name in m: n.name=m[n.name]
def neg(e):
    if isinstance(e,ast.UnaryOp) and isinstance(e.op,ast.Not): return e.operand
    if isinstance(e,ast.Compare) and len(e.ops)==1:
        m={ast.Eq:ast.NotEq,ast.NotEq:ast.Eq,ast.Is:ast.IsNot,ast.IsNot:ast.Is,ast.In:ast.NotIn,ast.NotIn:ast.In}
        k=m.get(type(e.ops[0]))
        if k: return ast.Compare(e.left,[k()],e.comparators)
    return ast.UnaryOp(ast.Not(),e)
def t_invert(t):
    for f in functions(t):
        for n in ast.walk(f):
            if isinstance(n,ast.If) and n.orelse and not (len(n.orelse)==1 and isinstance(n.orelse[0],ast.If)):
                n.test=neg(n.test); n.body,n.orelse=n.orelse,n.body
def t_rettmp(t):
    for f in functions(t):
        for x,fl,l in list(stmtlists(f)):
            o=[]
            for s in l:
                if isinstance(s,ast.Return) and s.value is not None and not isinstance(s.value,ast.Name):
                    v=fresh('result'); o+= [assign(v,s.value),ast.Return(name(v))]
                else: o.append(s)
            l[:]=o
def t_split(t):
    "x = a op b -> t1 = a; t2 = b; x = t1 op t2"
    for f in functions(t):
        for x,fl,l in list(stmtlists(f)):
            o=[]
            for s in l:
                if isinstance(s,(ast.Assign,ast.Return,ast.AugAssign)) and isinstance(s.value,ast.BinOp) and not isinstance(s.value.left,ast.Constant):
                    b=s.value; v=fresh('left'); w=fresh('right')
                    o+=[assign(v,b.left),assign(w,b.right)]; s.value=ast.BinOp(name(v),b.op,name(w))
                o.append(s)
            l[:]=o
def t_args(t):
    "call arguments to temps (statement-level calls)"
    for f in functions(t):
        for x,fl,l in list(stmtlists(f)):
            o=[]
            for s in l:
                c=getattr(s,'value',None)
                if isinstance(s,(ast.Assign,ast.Return,ast.Expr)) and isinstance(c,ast.Call) and not any(isinstance(a,ast.Starred) for a in c.args):
                    if isinstance(c.func,ast.Name) and c.func.id in('super','locals','eval'): o.append(s); continue
                    for i,a in enumerate(c.args):
                        if not isinstance(a,(ast.Name,ast.Constant)):
                            v=fresh('arg'); o.append(assign(v,a)); c.args[i]=name(v)
                    for k in c.keywords:
                        if k.arg and not isinstance(k.value,(ast.Name,ast.Constant)):
                            v=fresh('arg'); o.append(assign(v,k.value)); k.value=name(v)
                o.append(s)
            l[:]=o
def t_while(t):
    "for x in range(n) -> while (no continue)"
    for f in functions(t):
        for x,fl,l in list(stmtlists(f)):
            o=[]
            for s in l:
                if isinstance(s,ast.For) and not s.orelse and isinstance(s.iter,ast.Call) and isinstance(s.iter.func,ast.Name) and s.iter.func.id in('range','xrange') and len(s.iter.args)<=2 and isinstance(s.target,ast.Name) and not any(isinstance(n,ast.Continue) for n in ast.walk(s)):
                    i=fresh('i'); e=fresh('end')
                    a=s.iter.args
                    st=a[0] if len(a)==2 else ast.Constant(0)
                    o+=[assign(i,st),assign(e,a[-1]),ast.While(ast.Compare(name(i),[ast.Lt()],[name(e)]),[ast.Assign([s.target],name(i))]+s.body+[ast.AugAssign(name(i,True),ast.Add(),ast.Constant(1))],[])]
                else: o.append(s)
            l[:]=o
def t_enum(t):
    "for x in xs -> for i in range(len(xs)): x = xs[i]  (only for enumerate)"
    for f in functions(t):
        for x,fl,l in list(stmtlists(f)):
            o=[]
            for s in l:
                if isinstance(s,ast.For) and isinstance(s.iter,ast.Call) and isinstance(s.iter.func,ast.Name) and s.iter.func.id=='enumerate' and isinstance(s.target,ast.Tuple) and isinstance(s.target.elts[0],ast.Name):
                    q=fresh('seq')
                    o.append(assign(q,s.iter.args[0]))
                    i=s.target.elts[0]
                    s.iter=ast.Call(name('range'),[ast.Call(name('len'),[name(q)],[])],[])
                    s.body.insert(0,ast.Assign([s.target.elts[1]],ast.Subscript(name(q),name(i.id),ast.Load())))
                    s.target=name(i.id,True)
                o.append(s)
            l[:]=o
def t_count(t):
    "enumerate -> explicit counter"
    for f in functions(t):
        for x,fl,l in list(stmtlists(f)):
            o=[]
            for s in l:
                if isinstance(s,ast.For) and isinstance(s.iter,ast.Call) and isinstance(s.iter.func,ast.Name) and s.iter.func.id=='enumerate' and len(s.iter.args)==1 and isinstance(s.target,ast.Tuple) and isinstance(s.target.elts[0],ast.Name) and not any(isinstance(n,ast.Continue) for n in ast.walk(s)):
                    i=s.target.elts[0].id
                    c=fresh('count')
                    o.append(assign(c,ast.Constant(0)))
                    s.iter=s.iter.args[0]; s.target=s.target.elts[1]
                    s.body[:]=[assign(i,name(c))]+s.body+[ast.AugAssign(name(c,True),ast.Add(),ast.Constant(1))]
                o.append(s)
            l[:]=o
def t_early(t):
    "if c: ..leaves else: B -> drop else"
    def leaves(b): return isinstance(b[-1],(ast.Return,ast.Raise,ast.Continue,ast.Break))
    def go(l):
        o=[]
        for s in l:
            for fl in ('body','orelse','finalbody'):
                if isinstance(getattr(s,fl,None),list): setattr(s,fl,go(getattr(s,fl)))
            if isinstance(s,ast.Try):
                for h in s.handlers: h.body=go(h.body)
            o.append(s)
            if isinstance(s,ast.If) and s.orelse and leaves(s.body):
                o+=s.orelse; s.orelse=[]
        return o
    for f in t.body:
        if isinstance(f,ast.FunctionDef): f.body=go(f.body)
        if isinstance(f,ast.ClassDef):
            for g in f.body:
                if isinstance(g,ast.FunctionDef): g.body=go(g.body)
def t_else(t):
    "if c: return; rest -> else: rest"
    def leaves(b): return isinstance(b[-1],(ast.Return,ast.Raise))
    for f in functions(t):
        for i in range(len(f.body)-1):
            s=f.body[i]
            if isinstance(s,ast.If) and not s.orelse and leaves(s.body):
                s.orelse=f.body[i+1:]; f.body=f.body[:i+1]; break
class Flip(ast.NodeTransformer):
    def visit_Compare(self,n):
        self.generic_visit(n)
        m={ast.Lt:ast.Gt,ast.Gt:ast.Lt,ast.LtE:ast.GtE,ast.GtE:ast.LtE,ast.Eq:ast.Eq,ast.NotEq:ast.NotEq}
        if len(n.ops)==1 and type(n.ops[0]) in m:
            return ast.Compare(n.comparators[0],[m[type(n.ops[0])]()],[n.left])
        return n
    def visit_BinOp(self,n):
        self.generic_visit(n)
        if isinstance(n.op,ast.Mult) and not isinstance(n.left,(ast.Constant,ast.List,ast.JoinedStr)) and not isinstance(n.right,(ast.List,)):
            return ast.BinOp(n.right,ast.Mult(),n.left)
        return n
def t_flip(t): Flip().visit(t)
class Chain(ast.NodeTransformer):
    def visit_Compare(self,n):
        self.generic_visit(n)
        if len(n.ops)==2:
            return ast.BoolOp(ast.And(),[ast.Compare(n.left,[n.ops[0]],[n.comparators[0]]),ast.Compare(copy.deepcopy(n.comparators[0]),[n.ops[1]],[n.comparators[1]])])
        return n
    def visit_If(self,n):
        self.generic_visit(n)
        if isinstance(n.test,ast.BoolOp) and isinstance(n.test.op,ast.And) and not n.orelse:
            b=n.body
            for v in reversed(n.test.values[1:]): b=[ast.If(v,b,[])]
            n.test=n.test.values[0]; n.body=b
        elif isinstance(n.test,ast.BoolOp) and isinstance(n.test.op,ast.Or):
            n.test=ast.UnaryOp(ast.Not(),ast.BoolOp(ast.And(),[ast.UnaryOp(ast.Not(),v) for v in n.test.values]))
        return n
def t_logic(t): Chain().visit(t)
def t_guardloop(t):
    "for: if c: body -> if not c: continue; body"
    for f in functions(t):
        for n in ast.walk(f):
            if isinstance(n,ast.For) and len(n.body)==1 and isinstance(n.body[0],ast.If) and not n.body[0].orelse:
                i=n.body[0]
                n.body=[ast.If(ast.UnaryOp(ast.Not(),i.test),[ast.Continue()],[])]+i.body
def t_items(t):
    for f in functions(t):
        for n in ast.walk(f):
            if isinstance(n,ast.For) and isinstance(n.iter,ast.Call) and isinstance(n.iter.func,ast.Attribute) and n.iter.func.attr in('items','iteritems') and isinstance(n.target,ast.Tuple) and isinstance(n.iter.func.value,(ast.Name,ast.Attribute)):
                d=n.iter.func.value; k,v=n.target.elts
                if isinstance(k,ast.Name):
                    n.iter=ast.Call(ast.Attribute(d,'keys',ast.Load()),[],[]); n.target=k
                    n.body.insert(0,ast.Assign([v],ast.Subscript(copy.deepcopy(d),name(k.id),ast.Load())))
def t_comp(t):
    "x = [e for v in it] -> loop"
    for f in functions(t):
        for x,fl,l in list(stmtlists(f)):
            o=[]
            for s in l:
                if isinstance(s,(ast.Assign,ast.Return)) and isinstance(s.value,ast.ListComp) and len(s.value.generators)==1:
                    g=s.value.generators[0]; v=fresh('acc')
                    b=[ast.Expr(ast.Call(ast.Attribute(name(v),'append',ast.Load()),[s.value.elt],[]))]
                    for c in reversed(g.ifs): b=[ast.If(c,b,[])]
                    o+=[assign(v,ast.List([],ast.Load())),ast.For(g.target,g.iter,b,[])]
                    s.value=name(v)
                o.append(s)
            l[:]=o
def pure(e,loc):
    ok=True
    for n in ast.walk(e):
        if isinstance(n,(ast.Yield,ast.Lambda,ast.ListComp,ast.GeneratorExp,ast.DictComp,ast.SetComp,ast.Starred)): return False
        if isinstance(n,ast.Name) and n.id in('super','locals','eval','vars'): return False
    return ok
def t_extract(t):
    "expressions into module-level helpers"
    new=[]
    for f in functions(t):
        loc=locs(f)|set(params(f))
        if any(isinstance(g,(ast.FunctionDef,ast.Lambda)) and g is not f for g in ast.walk(f)): continue
        for x,fl,l in list(stmtlists(f)):
            for s in l:
                if isinstance(s,(ast.Assign,ast.Return,ast.AugAssign)) and isinstance(s.value,(ast.BinOp,ast.Call,ast.Compare,ast.Subscript)) and pure(s.value,loc):
                    used=sorted({n.id for n in ast.walk(s.value) if isinstance(n,ast.Name) and n.id in loc})
                    h='_'+fresh('helper')
                    new.append(ast.FunctionDef(h,ast.arguments([], [ast.arg(u) for u in used],None,[],[],None,[]),[ast.Return(s.value)],[]))
                    s.value=ast.Call(name(h),[name(u) for u in used],[])
    i=0
    while i<len(t.body) and (isinstance(t.body[i],(ast.Import,ast.ImportFrom)) or isinstance(t.body[i],ast.Expr) and isinstance(t.body[i].value,ast.Constant)): i+=1
    # keep helpers after imports but before everything
    t.body[i:i]=new
def t_extractbody(t):
    "Loop bodies / if bodies without flow out and without live stores -> methods/helpers"
    new=[]
    for f in functions(t):
        if any(isinstance(g,(ast.FunctionDef,ast.Lambda)) and g is not f for g in ast.walk(f)): continue
        loc=locs(f)|set(params(f))
        allnames=[n for n in ast.walk(f) if isinstance(n,ast.Name)]
        for x,fl,l in list(stmtlists(f)):
            if not isinstance(x,(ast.For,ast.If)) or fl!='body': continue
            if any(isinstance(n,(ast.Return,ast.Break,ast.Continue,ast.Yield,ast.Raise,ast.Try)) for s in l for n in ast.walk(s)): continue
            inside=[n for s in l for n in ast.walk(s) if isinstance(n,ast.Name)]
            st={n.id for n in inside if isinstance(n.ctx,ast.Store)}
            ids=set(map(id,inside))
            outer={n.id for n in allnames if id(n) not in ids}
            if st&outer: continue
            if any(isinstance(n,ast.Name) and n.id in('super','locals','eval','exec') for n in ast.walk(f)): continue
            if any('_helper' in n.id for n in inside): continue
            used=sorted(({n.id for n in inside}&loc)-st)
            h='_'+fresh('helper')
            new.append(ast.FunctionDef(h,ast.arguments([], [ast.arg(u) for u in used],None,[],[],None,[]),list(l),[]))
            l[:]=[ast.Expr(ast.Call(name(h),[name(u) for u in used],[]))]
    i=0
    while i<len(t.body) and (isinstance(t.body[i],(ast.Import,ast.ImportFrom)) or isinstance(t.body[i],ast.Expr) and isinstance(t.body[i].value,ast.Constant)): i+=1
    t.body[i:i]=new
class Sq(ast.NodeTransformer):
    def visit_BinOp(self,n):
        self.generic_visit(n)
        if isinstance(n.op,ast.Pow) and isinstance(n.right,ast.Constant) and n.right.value==2 and isinstance(n.left,(ast.Name,ast.Attribute)):
            return ast.BinOp(n.left,ast.Mult(),copy.deepcopy(n.left))
        if isinstance(n.op,ast.Sub) and isinstance(n.left,(ast.Name,ast.Attribute)) :
            return ast.BinOp(n.left,ast.Add(),ast.UnaryOp(ast.USub(),n.right)) if isinstance(n.right,(ast.Name,ast.Attribute)) else n
        return n
    def visit_Call(self,n):
        self.generic_visit(n)
        if isinstance(n.func,ast.Attribute) and isinstance(n.func.value,ast.Name) and n.func.value.id=='numpy' and n.func.attr in('fabs',):
            n.func=name('abs')
        return n
def t_arith(t): Sq().visit(t)
def t_msg(t):
    for f in functions(t):
        for x,fl,l in list(stmtlists(f)):
            o=[]
            for s in l:
                if isinstance(s,ast.Raise) and isinstance(s.exc,ast.Call) and len(s.exc.args)==1:
                    v=fresh('message'); o.append(assign(v,s.exc.args[0])); s.exc.args[0]=name(v)
                o.append(s)
            l[:]=o
def t_np(t):
    has=False
    for s in t.body:
        if isinstance(s,ast.Import):
            for a in s.names:
                if a.name=='numpy' and a.asname is None: a.asname='np'; has=True
    if has:
        for n in ast.walk(t):
            if isinstance(n,ast.Name) and n.id=='numpy': n.id='np'
def t_log(t):
    "debug statements everywhere"
    if not any(isinstance(s,ast.Import) and any(a.name=='logging' for a in s.names) for s in t.body):
        i=0
        while i<len(t.body) and isinstance(t.body[i],ast.Expr): i+=1
        while i<len(t.body) and isinstance(t.body[i],ast.ImportFrom) and t.body[i].module=='__future__': i+=1
        t.body.insert(i,ast.Import([ast.alias('logging',None)]))
    for f in functions(t):
        i=1 if isinstance(f.body[0],ast.Expr) and isinstance(f.body[0].value,ast.Constant) and len(f.body)>1 else 0
        f.body.insert(i,ast.parse('logging.getLogger("trace").debug("entering")').body[0])
def t_selfalias(t):
    "config = self._config style aliases for self attributes read more than once"
    for f in functions(t):
        if not f.args.args or f.args.args[0].arg!='self' or any(isinstance(g,(ast.FunctionDef,ast.Lambda)) and g is not f for g in ast.walk(f)): continue
        from collections import Counter
        st={n.attr for n in ast.walk(f) if isinstance(n,ast.Attribute) and not isinstance(n.ctx,ast.Load) and isinstance(n.value,ast.Name) and n.value.id=='self'}
        calls=[n for n in ast.walk(f) if isinstance(n,ast.Call) and isinstance(n.func,ast.Attribute) and isinstance(n.func.value,ast.Name) and n.func.value.id=='self']
        if calls: continue
        firsts=f.body[1:] if isinstance(f.body[0],ast.Expr) and isinstance(f.body[0].value,ast.Constant) else f.body
        c=Counter(n.attr for n in ast.walk(f) if isinstance(n,ast.Attribute) and isinstance(n.ctx,ast.Load) and isinstance(n.value,ast.Name) and n.value.id=='self' and n.attr not in st and n.attr in('_config','_fit_config','_data','_spectra_config','_roi','_signal'))
        sel=[a for a,k in c.items() if k>1 ]
        if f.name=='__init__' or not sel: continue
        class R(ast.NodeTransformer):
            def visit_Attribute(s,n):
                s.generic_visit(n)
                if isinstance(n.value,ast.Name) and n.value.id=='self' and n.attr in sel: return name('the'+n.attr)
                return n
        # do not alias arrays mutated through augmented subscript: alias is same object, fine
        k=len(f.body)-len(firsts)
        f.body[k:]=[assign('the'+a,ast.Attribute(name('self'),a,ast.Load())) for a in sel]+[R().visit(s) for s in f.body[k:]]
def t_ternary(t):
    "if c: x = a else: x = b -> x = a if c else b"
    for f in functions(t):
        for x,fl,l in list(stmtlists(f)):
            for i,s in enumerate(l):
                if isinstance(s,ast.If) and len(s.body)==1 and len(s.orelse)==1 and isinstance(s.body[0],ast.Assign) and isinstance(s.orelse[0],ast.Assign) and ast.dump(s.body[0].targets[0])==ast.dump(s.orelse[0].targets[0]):
                    l[i]=ast.Assign(s.body[0].targets,ast.IfExp(s.test,s.body[0].value,s.orelse[0].value))
                elif isinstance(s,ast.If) and len(s.body)==1 and len(s.orelse)==1 and isinstance(s.body[0],ast.Return) and isinstance(s.orelse[0],ast.Return) and s.body[0].value is not None and s.orelse[0].value is not None:
                    l[i]=ast.Return(ast.IfExp(s.test,s.body[0].value,s.orelse[0].value))
def t_kw(t):
    pass
def t_swap(t):
    "swap adjacent independent simple assignments"
    def simple(s):
        return isinstance(s,ast.Assign) and len(s.targets)==1 and isinstance(s.targets[0],(ast.Name,)) and not any(isinstance(n,(ast.Call,ast.Subscript)) and not (isinstance(n,ast.Call) and isinstance(n.func,ast.Attribute) and n.func.attr.startswith(('get_','zeros'))) for n in ast.walk(s.value))
    for f in functions(t):
        for x,fl,l in list(stmtlists(f)):
            i=0
            while i+1<len(l):
                a,b=l[i],l[i+1]
                if simple(a) and simple(b):
                    ra={n.id for n in ast.walk(a.value) if isinstance(n,ast.Name)}; rb={n.id for n in ast.walk(b.value) if isinstance(n,ast.Name)}
                    if a.targets[0].id not in rb and b.targets[0].id not in ra and a.targets[0].id!=b.targets[0].id:
                        l[i],l[i+1]=b,a; i+=1
                i+=1
def t_aug(t):
    for f in functions(t):
        for x,fl,l in list(stmtlists(f)):
            for i,s in enumerate(l):
                if isinstance(s,ast.AugAssign) and isinstance(s.target,ast.Name) and isinstance(s.value,ast.Constant):
                    l[i]=ast.Assign([s.target],ast.BinOp(name(s.target.id),s.op,s.value))
def t_npsum(t):
    class R(ast.NodeTransformer):
        def visit_Call(self,n):
            self.generic_visit(n)
            if isinstance(n.func,ast.Attribute) and isinstance(n.func.value,ast.Name) and n.func.value.id=='numpy' and n.func.attr=='zeros' and len(n.args)==1:
                return ast.Call(n.func,[],[ast.keyword('shape',n.args[0])]+n.keywords)
            if isinstance(n.func,ast.Attribute) and n.func.attr=='sum' and not (isinstance(n.func.value,ast.Name) and n.func.value.id=='numpy') and not n.args and not n.keywords:
                return ast.Call(ast.Attribute(name('numpy'),'sum',ast.Load()),[n.func.value],[])
            return n
    if any(isinstance(s,ast.Import) and any(a.name=='numpy' and not a.asname for a in s.names) for s in t.body): R().visit(t)
def t_ident(t): pass
fn=globals()['t_'+tr]
only=sys.argv[3:] 
for d,_,fs in os.walk(out+'/echidna'):
    for f in fs:
        p=os.path.join(d,f)
        if not f.endswith('.py') or '/test' in p or p.endswith('fit/test_statistic.py'): continue
        if only and not any(o in p for o in only): continue
        txt=open(p,encoding='utf-8').read()
        r=parse(txt,p); tree=r[0] if isinstance(r,tuple) else r
        fn(tree); ast.fix_missing_locations(tree)
        open(p,'w').write(ast.unparse(tree)+'\n')
