"""Symbolic execution of MIR bodies into terms: one pass per body in reverse post-order with state merging,
loops summarised by inductive templates, calls answered by contract, by inlining, or by a library model."""
import re, itertools
import term as tm
from term import *
import rules as R
from rules import *
import mir, src
class Unsupported(Exception): pass
def nested(n): return n.count('<impl at')>1 or '}::<impl at' in n
UNIT=tup()
INT={'u8':(0,255),'u16':(0,65535),'u32':(0,2**32-1),'u64':(0,2**64-1),'u128':(0,2**128-1),'usize':(0,2**64-1),
     'i8':(-128,127),'i16':(-2**15,2**15-1),'i32':(-2**31,2**31-1),'i64':(-2**63,2**63-1),'i128':(-2**127,2**127-1),'isize':(-2**63,2**63-1)}
BUILTIN_ENUMS={'Option':['None','Some'],'Result':['Ok','Err'],'ControlFlow':['Continue','Break'],'Poll':['Ready','Pending'],'Entry':['Vacant','Occupied'],
  'Ordering':['Less','Equal','Greater'],'Bound':['Included','Excluded','Unbounded']}
defsum('Less','Equal','Greater')
TRANSPARENT={'Box','Arc','Rc','Pin','MutexGuard','ManuallyDrop','Cow','OwnedMutexGuard','Ref','RefMut','Peekable','IntoIter','Iter'}
def strip_refs(t):
    t=t.strip()
    while True:
        m=re.match(r"^(&('\w+ |'_ )?(mut )?|\*const |\*mut |for<[^>]*> |dyn )",t)
        if not m: return t
        t=t[m.end():].strip()
def head_args(t):
    """'a::b::C<X, Y>' -> ('C',['X','Y'],'a::b::C')"""
    t=strip_refs(t)
    if t.startswith(('(','[','{','impl ','fn(')): return t[:1],[],t
    i=t.find('<')
    # skip leading '<T as Trait>::X'
    if i==0: return t,[],t
    if i<0: return t.split('::')[-1],[],t
    e=src.close(t,i)
    p=t[:i]
    if p.endswith('::'): p=p[:-2]
    args=[a for a in src.split(t[i+1:e]) if not a.startswith("'")]
    return p.split('::')[-1],args,p
class State:
    __slots__=('c',)
    def __init__(s,c=None): s.c=c if c is not None else {}
    def copy(s): return State(dict(s.c))
    def __getitem__(s,k): return s.c.get(k,UNDEF_)
    def __setitem__(s,k,v): s.c[k]=v
UNDEF_=tm.UNDEF
def short_name(b):
    r=getattr(b,'short_',None)
    if r is None:
        sp=getattr(b,'selfpath',None)
        r=b.short_=(sp.split('::')[-1]+'::'+b.name.rsplit('>::',1)[1]) if sp else b.name
    return r
def merge(lst):
    """[(pc,state)] -> (pc,state)"""
    lst=[x for x in lst if x[0] is not FALSE]
    if not lst: return FALSE,State()
    if len(lst)==1: return lst[0]
    pc,st=lst[-1][0],lst[-1][1].copy()
    for p,s in reversed(lst[:-1]):
        for k in set(s.c)|set(st.c):
            a=s.c.get(k,UNDEF_); b=st.c.get(k,UNDEF_)
            if a is not b: st.c[k]=ite(p,a,b)
        pc=Or(p,pc)
    return pc,st
def on_path(v,pc,n):
    n[0]-=1
    if n[0]<0: return v
    if v.op=='mk' and len(v.args)<12 and not v.args[0].startswith('closure:'):
        xs=[on_path(x,pc,n) if isinstance(x,T) and x.op in('ite','mk','seq') and x.sort!='B' else x for x in v.args[1:]]
        return v if all(x is y for x,y in zip(xs,v.args[1:])) else mk(v.args[0],*xs)
    if v.op=='seq':
        xs=[on_path(x,pc,n) if x.op=='ite' else x for x in v.args]
        return v if all(x is y for x,y in zip(xs,v.args)) else seq(*xs)
    if v.op!='ite' or v.sort=='B': return v
    c,a,b=v.args; pa=And(pc,c)
    if pa is FALSE: return on_path(b,pc,n)
    pb=And(pc,Not(c))
    if pb is FALSE: return on_path(a,pc,n)
    a2=on_path(a,pa,n); b2=on_path(b,pb,n)
    return v if a2 is a and b2 is b else ite(c,a2,b2)
def decided(st,pc):
    """the state on a path: values merged under a condition that the path decides"""
    out=None
    for k,v in st.c.items():
        w=v
        if isinstance(v,T) and v.op in('ite','mk','seq') and v.sort!='B': w=on_path(v,pc,[150])
        if w is not v:
            if out is None: out=st.copy()
            out[k]=w
    return out or st
class Fn:
    pass
class Machine:
    def __init__(m,bodies,source):
        m.bodies=bodies; m.src=source
        m.free={}; m.inh={}; m.traits={}; m.bytype={}; m.consts={}
        m.contracts={}; m.fcontracts={}; m.fused=set(); m.root=None
        m.frame=itertools.count(1)
        m.log=[]          # panic obligations (pc,msg,where)
        m.unknown=[]      # unmodelled callees
        m.used=[]         # bodies executed
        m.ccalls=[]       # contract applications
        m.assumed=set()   # library contracts used
        m.acquired=[]; m.newcells=[]; m.awaits=[]
        m.depth=0; m.stack=[]
        tm.FIELDSORT[0]=m.fieldsort
        for b in bodies:
            if b.kind=='const': m.consts[b.name]=b; continue
            mm=re.match(r'^(.*)<impl at ([^:]+):(\d+):(\d+): (\d+):(\d+)>::(.*)$',b.name)
            if b.name.endswith('}') and '{closure#' in b.name.split('::')[-1]:
                t=strip_refs(b.params[0][1]) if b.params else None
                if t: m.bytype[t]=b
                continue
            if mm:
                mod=mm.group(1).rstrip(':'); meth=mm.group(7)
                if '_::' in mm.group(1) or '::_' in mm.group(1) or mm.group(1).startswith('_'):
                    kind='serde'
                imp=source.impl_at(mm.group(2),*map(int,mm.groups()[2:6]))
                if imp is None: continue
                tr,ty=imp
                b.impl=(tr,ty)
                modp=source.modpath(mm.group(2))
                b.selfpath=m.localpath(modp,ty)
                if '::' in meth:
                    m.free[b.name]=b; continue
                if tr is None: m.inh[(b.selfpath,meth)]=b
                else:
                    if tr.startswith('derive '): trl=tr[7:].split('::')[-1]; ta=[]
                    else: trl,ta,_=head_args(tr)
                    m.traits.setdefault((trl,meth),[]).append((b.selfpath,ta,b))
            else: m.free[b.name]=b
    def localpath(m,mod,ty):
        h,_,p=head_args(ty)
        p=p.replace('crate::','').replace('self::','')
        if (mod+'::'+p if mod else p) in m.src.structs or (mod+'::'+p if mod else p) in m.src.enums: return (mod+'::'+p) if mod else p
        for d in(m.src.structs,m.src.enums):
            c=[k for k in d if k==p or k.endswith('::'+p)]
            if len(c)==1: return c[0]
        return p
    # ------------------------------------------------ types and sorts
    def tpath(m,t):
        """canonical path of a nominal type as printed by rustc"""
        return src.strip_generics(strip_refs(t))
    def desc(m,t,mod=None):
        t=strip_refs(t)
        if t in INT: return 'I8' if t=='u8' else 'I'
        if t=='char': return 'IC'
        if t=='bool': return 'B'
        if t in('str','!'): return 'S'
        if t.startswith('['): return 'S'
        if t.startswith('impl '):
            return 'S' if re.search(r'(Into<|AsRef<)(std::string::)?(String|str)',t) else 'V'
        if t.startswith('('):
            c=src.split(t[1:-1]); return 'V:('+','.join(m.desc(x,mod) for x in c)+')'
        h,a,p=head_args(t)
        if h in('String','Vec','BTreeSet','HeaderName','HeaderValue','Method','HeaderMap','OsString','PathBuf','Uri','VecDeque'): return 'S'
        if h=='Request' and 'reqwest' not in p: return 'V:request'
        if h=='SystemTime': return 'IT'
        if h=='Duration': return 'ID'
        if h=='Instant': return 'I'
        if h=='Mutex' and a: return 'V:Mutex<'+m.desc(a[-1],mod)+'>'
        if h in TRANSPARENT and a: return m.desc(a[-1],mod)
        if h=='Option' and a: return 'V:Option<'+m.desc(a[0],mod)+'>'
        if h=='Result' and a: return 'V:Result<'+m.desc(a[0],mod)+','+(m.desc(a[1],mod) if len(a)>1 else 'V')+'>'
        if p.startswith('crate::'): p=p[7:]
        if p in m.src.structs or p in m.src.enums: return 'V:'+p
        if mod is not None or '::' not in p:
            q=m.localpath(mod or '',p)
            if q in m.src.structs or q in m.src.enums: return 'V:'+q
        return 'V'
    def fieldsort(m,d,name,i):
        if d=='request': return 'S' if name=='request' else None
        s=m.src.structs.get(d)
        if s is not None and name==d:
            return m.desc(s.fields[i][1],s.mod) if i<len(s.fields) else None
        e=m.src.enums.get(d)
        if e is not None and name.startswith(d+'::'):
            for vn,fs in e.variants:
                if vn==name[len(d)+2:]: return m.desc(fs[i][1],e.mod) if i<len(fs) else None
        return None
    def variants(m,t):
        h,a,p=head_args(t)
        if h in TRANSPARENT and a and h!='Cow': return m.variants(a[-1])
        e=m.src.find(p,True)
        if e is not None:
            ns=['%s::%s'%(p,v) for v,_ in e.variants]
            if ns[0] not in SUMS: defsum(*ns)
            return ns
        if h in BUILTIN_ENUMS: return BUILTIN_ENUMS[h]
        if h=='Value' and p in('Value','serde_json::Value','serde_json::value::Value'): return list(tm.JKINDS)
        return None
    def var(m,name,t):
        """fresh symbolic value of a type, structs expanded"""
        d=m.desc(t); v=Var(name,d)
        return m.expand(v)
    def expand(m,v):
        d=v.sort
        if not d.startswith('V:') or v.op=='mk': return v
        d=d[2:]
        if d.startswith('('):
            n=len(desc_split(d[1:-1])); return tup(*[m.expand(tproj(i,n,v)) for i in range(n)])
        if d=='request': return mk(d,*[proj(i,d,v) for i in range(3)])
        s=m.src.structs.get(d)
        if s is not None: return mk(d,*[m.expand(proj(i,d,v)) for i in range(len(s.fields))])
        e=m.src.enums.get(d)
        if e is not None: m.variants(d)
        return v
    def arity(m,t):
        t=strip_refs(t)
        if t.startswith('('): return len(src.split(t[1:-1]))
        s=m.src.find(m.tpath(t))
        return len(s.fields) if s is not None else None
    # ------------------------------------------------ places
    def ctor(m,t,variant=None):
        t=strip_refs(t)
        if variant is not None:
            vs=m.variants(t)
            if vs is None: raise Unsupported('variant %s of %s'%(variant,t))
            for v in vs:
                if v==variant or v.endswith('::'+variant): return v
            raise Unsupported('variant %s of %s'%(variant,t))
        if t.startswith('('): return '(%d)'%len(src.split(t[1:-1]))
        if t.startswith('{'): return 'closure:'+t
        h,a,p=head_args(t)
        if h in TRANSPARENT: return None
        return src.strip_generics(p)
    def resolve(m,fr,place,st):
        """place -> (root cell or None, path, base value if not a cell)"""
        loc,pr=place
        cell=(fr.id,loc); path=(); val=None; ty=fr.body.locals.get(loc,'?'); variant=None
        for p in pr:
            k=p[0]
            if k=='deref':
                v=st[cell] if val is None else val
                if val is None:
                    for q in path: v=m.rd(v,q,st)
                ty1=strip_one(ty)
                if v.op=='ref': cell=v.args[0]; path=v.args[1]; val=None
                elif v.op=='ite' and has_ref(v): val=v; path=(); cell=None; 
                else: val=v; path=(); cell=None
                if val is not None and val.op=='ite' and has_ref(val):
                    # conditional reference
                    return ('ites',val,pr[pr.index(p)+1:],ty1,path)
                ty=ty1
            elif k=='as': variant=p[1]
            elif k=='field':
                c=m.ctor(ty,variant)
                if c is None: q=('id',)
                else: q=('f',p[1],c)
                variant=None
                if val is not None: val=m.rd(val,q,st)
                elif q[0]!='id': path=path+(q,)
                ty=p[2]
            elif k=='idx':
                q=('i',st[(fr.id,p[1])])
                if val is not None: val=m.rd(val,q,st)
                else: path=path+(q,)
                ty=elem_type(ty)
            elif k=='cidx':
                q=('c',p[1],p[2])
                if val is not None: val=m.rd(val,q,st)
                else: path=path+(q,)
                ty=elem_type(ty)
            else: raise Unsupported('projection '+str(p))
        return (cell,path,val,ty)
    def rd(m,v,q,st):
        if q[0]=='id': return v
        if q[0]=='f':
            if v.op=='ref': v=m.deref(v,st)
            return proj(q[1],q[2],v)
        if q[0]=='i': return nth(v,q[1])
        if q[0]=='c':
            if q[2]: raise Unsupported('from-end index')
            return nth(v,Int(q[1]))
        if q[0]=='bt': return bt_get(v,q[1])
        if q[0]=='lk': return v
        raise Unsupported('path '+str(q))
    def wr(m,v,path,new,st):
        if not path: return new
        q=path[0]
        if q[0]=='id' or q[0]=='lk': return m.wr(v,path[1:],new,st)
        if v.op=='ite' and q[0]!='bt': return ite(v.args[0],m.wr(v.args[1],path,new,st),m.wr(v.args[2],path,new,st))
        if q[0]=='f':
            if v is UNDEF_: return UNDEF_
            if v.op!='mk': v=m.expand(v)
            if v.op!='mk':
                n=ctor_arity(m,q[2])
                if n is None: raise Unsupported('write to field of '+q[2])
                v=mk(q[2],*[proj(i,q[2],v) for i in range(n)])
            if v.args[0]!=q[2]: return UNDEF_
            a=list(v.args[1:]); a[q[1]]=m.wr(a[q[1]],path[1:],new,st)
            return mk(v.args[0],*a)
        if q[0]=='bt': return bt_put(v,q[1],m.wr(bt_get(v,q[1]),path[1:],new,st))
        if q[0] in('i','c'):
            i=q[1] if q[0]=='i' else Int(q[1])
            return set_nth(v,i,m.wr(nth(v,i),path[1:],new,st))
        raise Unsupported('write path '+str(q))
    def read(m,fr,place,st):
        r=m.resolve(fr,place,st)
        if r[0]=='ites':
            _,v,rest,ty,_=r
            tmp=('tmp',next(m.frame))
            def go(v):
                if v.op=='ite': return ite(v.args[0],go(v.args[1]),go(v.args[2]))
                x=m.deref(v,st)
                return m.read_from(fr,x,rest,ty,st)
            return go(v)
        cell,path,val,ty=r
        if val is not None: return val
        v=st[cell]
        for q in path: v=m.rd(v,q,st)
        return v
    def read_from(m,fr,x,rest,ty,st):
        variant=None
        for p in rest:
            if p[0]=='deref': x=m.deref(x,st); ty=strip_one(ty)
            elif p[0]=='as': variant=p[1]
            elif p[0]=='field':
                c=m.ctor(ty,variant); variant=None
                if c is not None: x=m.rd(x,('f',p[1],c),st)
                ty=p[2]
            else: raise Unsupported('proj')
        return x
    def deref(m,v,st):
        """value behind a reference (shared references are snapshots already)"""
        n=0
        while v.op=='ref' or (v.op=='ite' and has_ref(v)):
            n+=1
            if n>20: raise Unsupported('deref')
            if v.op=='ite': v=ite(v.args[0],m.deref(v.args[1],st),m.deref(v.args[2],st)); continue
            x=st[v.args[0]]
            for q in v.args[1]: x=m.rd(x,q,st)
            v=x
        return v
    def store(m,ref,new,st):
        if ref.op=='ref':
            x=st[ref.args[0]]
            # a reference to a reference: write through
            st[ref.args[0]]=m.wr(x,ref.args[1],new,st); return
        if ref.op=='ite':
            c,a,b=ref.args
            s1=st.copy(); m.store(a,new,s1); s2=st.copy(); m.store(b,new,s2)
            for k in set(s1.c)|set(s2.c):
                x,y=s1[k],s2[k]
                st[k]=x if x is y else ite(c,x,y)
            return
        if ref is UNDEF_: return
        raise Unsupported('store through a shared reference')
    def write(m,fr,place,new,st):
        if not place[1]: st[(fr.id,place[0])]=new; return
        r=m.resolve(fr,place,st)
        if r[0]=='ites':
            _,v,rest,ty,_=r
            if rest: raise Unsupported('write through conditional reference')
            m.store(v,new,st); return
        cell,path,val,ty=r
        if cell is None: raise Unsupported('write to a non-place')
        st[cell]=m.wr(st[cell],path,new,st)
    # ------------------------------------------------ operands
    def operand(m,fr,o,st):
        k=o[0]
        if k in('copy','move'): return m.read(fr,o[1],st)
        if k=='fn': return mk('fn:'+o[1])
        c=o[1]
        if c[0]=='int': return Int(c[1])
        if c[0]=='bool': return boolc(c[1])
        if c[0]=='unit': return UNIT
        if c[0] in('str','bytes'): return Lit(c[1]) if c[1] else NIL
        if c[0]=='char': return Int(c[1])
        if c[0]=='path': return m.constant(c[1],fr)
        raise Unsupported('const '+str(c))
    def constant(m,p,fr=None):
        p=p.strip()
        if p in m.consts: return m.run_const(m.consts[p])
        if '::promoted[' in p:
            suf=p[p.rindex('::promoted['):]
            # the promoted of the enclosing body
            if fr is not None and fr.body.name+suf in m.consts: return m.run_const(m.consts[fr.body.name+suf])
            raise Unsupported('promoted '+p)
        if p.startswith('{closure@') or p.startswith('{async'):
            return mk('closure:'+p)
        if p.startswith('{alloc'):
            al=p[1:p.index(':')].strip(); nm=getattr(fr.body,'statics',{}).get(al) if fr is not None else None
            nm=nm or p[p.index(':')+1:-1].strip()
            c=[b for k,b in m.consts.items() if k==nm or k.endswith('::'+nm)]
            if len(c)==1 and frozen(c[0]): return m.run_const(c[0])
            return mk('static:'+nm)
        import lib
        v=lib.const(m,p)
        if v is not None: return v
        sp=src.strip_generics(p)
        cand=[k for k in m.consts if k==sp or (sp.split('::')[-1]==k.split('::')[-1] and '<impl' in k)]
        if len(cand)==1: return m.run_const(m.consts[cand[0]])
        # a function item or unit constructor
        vs=m.variants('::'.join(sp.split('::')[:-1])) if '::' in sp else None
        if vs and sp in vs: return mk(sp)
        if vs and sp.split('::')[-1] in vs: return mk(sp.split('::')[-1])
        if sp in m.src.structs: return mk(sp)
        if m.find_fn(p): return mk('fn:'+p)
        return mk('const:'+p)
    def run_const(m,b):
        st=State(); r=m.run(b,[],st,TRUE)
        v,st,pc=r
        return m.deref(v,st)
    # ------------------------------------------------ functions
    @property
    def roots(m): return {b.name.split('::')[0] for b in m.bodies}
    def find_fn(m,callee):
        """local body for a callee text, or None"""
        t=parse_callee(callee)
        if t[0]=='path':
            p=src.strip_generics(t[1])
            if p in m.free: return m.free[p]
            seg=p.rsplit('::',1)
            if len(seg)==2 and (seg[0],seg[1]) in m.inh: return m.inh[(seg[0],seg[1])]
            # items declared inside a function: printed with the path of the enclosing function, or with none
            last=p.split('::')[-2:]
            if len(last)==2 and last[0] not in BUILTIN_ENUMS:
                r=[b for (sp,me),b in m.inh.items() if me==last[1] and sp.split('::')[-1]==last[0] and (nested(b.name) if len(seg[0].split('::'))==1 else p.split('::')[0]==b.name.split('::')[0])]
                if len(r)==1: return r[0]
            if len(last)==1 or p.split('::')[0] in m.roots:
                r=[b for n,b in m.free.items() if n.endswith('::'+last[-1]) and '<impl at' in n and (len(last)==1 or n.split('::')[-2]==last[0])]
                if len(r)==1: return r[0]
            return None
        _,T,tr,ta,meth=t
        c=m.traits.get((tr,meth))
        if not c: return None
        tp=m.tpath(T)
        r=[x for x in c if x[0]==tp]
        if not r and '::' in tp: r=[x for x in c if x[0].split('::')[-1]==tp.split('::')[-1] and not (x[0].startswith('private') and tp.startswith('private')) and x[0] not in m.src.structs and x[0] not in m.src.enums]
        if len(r)>1 and ta:
            def key(z): return m.tpath(z).split('::')[-1]
            r2=[x for x in r if [key(z) for z in x[1]]==[key(z) for z in ta]]
            r=r2
        elif r and ta and r[0][1]:
            def key(z): return m.tpath(z).split('::')[-1]
            if [key(z) for z in r[0][1]]!=[key(z) for z in ta]: return None
        return r[0][2] if len(r)==1 else None
    def run(m,body,args,st,pc,where=None):
        """execute a body: (value, state, pc of normal return)"""
        h=m.fcontracts.get(body)
        if h is not None and body is not m.root and body not in m.stack:
            import lib
            cx=lib.Cx(m,body.name,args,[t for _,t in body.params],body.ret,st.copy(),pc,where,None)
            v=h[1](cx)
            if v is not NotImplemented:
                m.fused.add(h[0].name); return v,cx.st,cx.pc
        m.depth+=1
        if m.depth>60: m.depth-=1; raise Unsupported('call depth')
        if body in m.stack and m.stack.count(body)>2: m.depth-=1; raise Unsupported('recursion in '+body.name)
        m.stack.append(body)
        try:
            if body not in m.used: m.used.append(body)
            fr=Fn(); fr.body=body; fr.id=next(m.frame); fr.m=m
            st=st.copy()
            for (n,t),a in zip(body.params,args): st[(fr.id,n)]=a
            rets=m.region(fr,0,pc,st)
            pc2,st2=merge(rets)
            v=st2[(fr.id,0)]
            for k in [k for k in st2.c if k[0]==fr.id]: del st2.c[k]
            return v,st2,pc2
        finally:
            m.depth-=1; m.stack.pop()
    def cfg(m,b):
        r=getattr(b,'cfg_',None)
        if r: return r
        succ={}
        def succs(n):
            if n in succ: return succ[n]
            blk=mir.block(b,n); out=[]
            t=blk[-1] if blk else ('unreachable',)
            if t[0]=='goto': out=[t[1]]
            elif t[0]=='switch': out=[x[1] for x in t[2]]
            elif t[0]=='call': out=[t[4]] if t[4] is not None else []
            elif t[0]=='assert': out=[t[5]]
            elif t[0]=='yield': out=[t[3]] if t[3] is not None else []
            elif t[0] in('return','unreachable','resume'): out=[]
            else: raise Unsupported('terminator %s in %s'%(t[0],b.name))
            succ[n]=[x for x in out if x is not None]
            return succ[n]
        order=[];state={};back=set()
        stack=[(0,iter(succs(0)))]; state[0]=1
        while stack:
            n,it=stack[-1]
            for s in it:
                if s not in state: state[s]=1; stack.append((s,iter(succs(s)))); break
                elif state[s]==1: back.add((n,s))
            else:
                state[n]=2; order.append(n); stack.pop()
        order.reverse(); idx={n:i for i,n in enumerate(order)}
        pred={}
        for n in succ:
            for s in succ[n]: pred.setdefault(s,[]).append(n)
        loops={}
        for n,h in back:
            L=loops.setdefault(h,{h}); w=[n]
            while w:
                x=w.pop()
                if x in L: continue
                L.add(x); w+=pred.get(x,[])
        b.cfg_=(idx,back,loops)
        return b.cfg_
    def region(m,fr,entry,pc,st):
        idx,back,loops=m.cfg(fr.body)
        return m.work(fr,{entry:[(pc,st)]},None,None)[0]
    def work(m,fr,pend,limit,header,first=True):
        """run pending blocks in order.  limit: loop block set or None.  Returns (returns, exits[(target,pc,st)], backs[(pc,st)])"""
        idx,back,loops=m.cfg(fr.body)
        rets=[];exits=[];backs=[]
        pend={k:list(v) for k,v in pend.items()}
        while pend:
            n=min(pend,key=lambda x:idx[x])
            pc,st=merge(pend.pop(n))
            if pc is FALSE: continue
            if n in loops and not (n==header):
                r,e=m.loop(fr,n,loops[n],pc,st)
                rets+=r
                outs=e
            else:
                outs=m.block(fr,n,pc,st,rets)
            for t,p,s in outs:
                if p is FALSE: continue
                if header is not None and t==header: backs.append((p,s)); continue
                if limit is not None and t not in limit: exits.append((t,p,s)); continue
                pend.setdefault(t,[]).append((p,s))
            header_seen=True
            if n==header: header=header
        return rets,exits,backs
    def loop(m,fr,h,L,pc,st):
        """returns (returns, exits)"""
        # first try without summarising: no feasible back edge, or a concretely bounded loop
        rets=[];exits=[]
        mark=(len(m.log),len(m.unknown))
        p,s=pc,st
        seen=0
        for it in range(80):
            r,e,b=m.work(fr,{h:[(p,s)]},L,h)
            bp,bs=merge(b)
            if it==0 and bp is not FALSE and not (progress_concrete(s,bs)): break
            rets+=r; exits+=e
            if bp is FALSE: return rets,exits
            p,s=bp,bs
            if it>0 and not progress_concrete(prev,bs):
                break
            prev=bs
        del m.log[mark[0]:]; del m.unknown[mark[1]:]
        return m.summarise(fr,h,L,pc,st)
    def summarise(m,fr,h,L,pc,st):
        mark=(len(m.log),len(m.unknown))
        mod={}
        for rnd in range(12):
            hv=st.copy(); hav={}; its={}
            for k,kind in mod.items():
                if kind=='iter':
                    v=mk_raw('loopit',(k,),'S')
                    hv[k]=v; its[k]=v
                else:
                    for pa in sorted(kind):   # only the components that change are arbitrary
                        o=getpath(st[k],pa)
                        hav[k,pa]=fresh('h',o.sort if o is not UNDEF_ else 'V'); hv[k]=setpath(hv[k],pa,hav[k,pa])
            m.loopctx=dict((k,(st[k],None)) for k in its)
            del m.log[mark[0]:]; del m.unknown[mark[1]:]
            save=getattr(m,'iters',{}); m.iters=dict(save)
            for k in its: m.iters[k]=[st[k],None,None]   # list, element var, more atom
            try: r,e,b=m.work(fr,{h:[(TRUE,hv)]},L,h)
            finally: info=m.iters; m.iters=save
            bp,bs=merge(b)
            new=False
            alls=[x[1] for x in e]+[bs]
            for k in set(bs.c):
                if k not in st.c or bs[k] is hv[k]: continue
                if k in m.itcells:
                    if k not in mod: mod[k]='iter'; new=True
                    continue
                old=mod.get(k,frozenset())
                ch=diffpaths(hv[k],bs[k],())-old
                ch={p for p in ch if not any(q==p[:len(q)] for q in old)}
                if ch: mod[k]=frozenset(p for p in old|ch if not any(q!=p and q==p[:len(q)] for q in old|ch)); new=True
            if not new: break
        else: raise Unsupported('loop state')
        used=[k for k in its if info[k][1] is not None]
        if len(used)!=1: raise Unsupported('loop without a single iterator in '+fr.body.name)
        ik=used[0]; lst,x,more=info[ik]
        if bs[ik] is not mk_raw('loopit',(ik,),'S'): raise Unsupported('iterator changed in the loop')
        havset={v.args[0] for v in hav.values()}
        dep=lambda t: bool(t.fv & havset)
        logs=m.log[mark[0]:]; del m.log[mark[0]:]
        # drop temporaries that carry nothing across iterations
        # early exits: any exit or return under `more`
        early=[(t,p,s) for t,p,s in e if And(p,more) is not FALSE]
        normal=[(t,p,s) for t,p,s in e if And(p,Not(more)) is not FALSE]
        er=[(p,s) for p,s in r]
        E=FALSE
        for t,p,s in early: E=Or(E,And(p,more))
        for p,s in er: E=Or(E,And(p,more))
        E=restrict(E,more,True) if more.op!='true' else E
        # state-dependent panics inside the body become obligations of their own below
        if dep(E): raise Unsupported('loop exit depends on loop-carried state')
        allok=all_(lam([x],Not(E)),lst)
        final={}
        live=set(hav)
        B_=lambda k: getpath(bs[k[0]],k[1])
        S_=lambda k: getpath(st[k[0]],k[1])
        for k,hvv in hav.items():
            B=restrict(B_(k),more,True)
            Bc=ite(Not(E),B,UNDEF_) if E is not FALSE else B
            if Bc is UNDEF_: final[k]=('keep',); continue
            final[k]=m.template(hvv,Bc,x,lst,S_(k),hav,havset)
        def fin(k):
            f=final[k]
            if f[0]=='keep': return S_(k)
            if f[0]=='val': return f[1]
            return mk_raw('loopout',(k[0][1] if isinstance(k[0][1],int) else 0,fr.body.name))
        folds=[k for k in hav if final[k][0]=='fold']
        if folds:
            # joint fold over the loop-carried variables that need it
            need=set(folds); grow=True
            while grow:
                grow=False
                for k in list(need):
                    B=restrict(B_(k),more,True)
                    for k2,v2 in hav.items():
                        if v2.args[0] in B.fv and k2 not in need: need.add(k2); grow=True
            ks=sorted(need,key=lambda k:str(k))
            if any(final[k][0]=='dead' for k in ks): pass
            acc=fresh('acc','V')
            sub={hav[k]:(tproj(i,len(ks),acc) if len(ks)>1 else acc) for i,k in enumerate(ks)}
            bodyt=[subst(restrict(B_(k),more,True),sub) for k in ks]
            if len(ks)==1:
                acc1=fresh('acc',hav[ks[0]].sort); bt_=subst(restrict(B_(ks[0]),more,True),{hav[ks[0]]:acc1})
                f=lam([acc1,x],bt_); r0=mk_raw('foldl',(f,S_(ks[0]),lst),S_(ks[0]).sort if S_(ks[0]).sort else 'V')
                final[ks[0]]=('val',r0)
            else:
                f=lam([acc,x],tup(*bodyt)); r0=mk_raw('foldl',(f,tup(*[S_(k) for k in ks]),lst))
                for i,k in enumerate(ks): final[k]=('val',tproj(i,len(ks),r0))
        smap_={v:fin(k) for k,v in hav.items()}
        itdone=mk_raw('loopit',(ik,),'S')
        lx=mk_raw('loopx',(lam([x],E),lst),x.sort)
        def closeout(v,more_val):
            v=restrict(v,more,more_val)
            if v is itdone: return NIL if not more_val else mk_raw('looprest',(lam([x],E),lst),'S')
            if more_val: 
                sm=dict((hv_,mk_raw('loopmid',(fr.body.name,)+((hv_.args[0].split('!')[0]),),hv_.sort)) for hv_ in smap_)
                sm[x]=lx
            else: sm=dict(smap_); sm[x]=mk_raw('looplast',(lst,),x.sort)
            return subst(v,sm)
        outs=[];rr=[]
        for t,p,s in normal:
            np=restrict(p,more,False)
            if np is FALSE: continue
            if dep(np): raise Unsupported('loop exit condition')
            s2=State({k:closeout(v,False) for k,v in s.c.items()})
            s2[ik]=NIL
            outs.append((t,And(pc,allok,np),s2))
        bad=Not(allok)
        leave=[(t,p,s) for t,p,s in early]+[(None,p,s) for p,s in er]
        leave=[(t,p,s) for t,p,s in leave if restrict(And(p,more),more,True) is not FALSE]
        rest=TRUE   # the exits are exclusive, and one of them is taken by the first element that leaves
        for i,(t,p,s) in enumerate(leave):
            q=rest if i==len(leave)-1 else And(rest,closeout(restrict(And(p,more),more,True),True))
            rest=And(rest,Not(q))
            s2=State({k:closeout(v,True) for k,v in s.c.items()})
            if t is None: rr.append((And(pc,bad,q),s2))
            else: outs.append((t,And(pc,bad,q),s2))
        for (p,msg,w) in logs:
            p=restrict(p,more,True)
            # exists x in list: panic
            if dep(p):
                # the loop-carried state when the panic happens: the template applied to a proper prefix of the list
                pre=mk_raw('prefix',(lst,),'S'); sm={}
                for k,v in hav.items():
                    f=final[k]
                    if f[0]=='keep': sm[v]=S_(k)
                    elif f[0]=='val' and len(f)>2: sm[v]=f[2](pre)
                sm[x]=mk_raw('loopat',(lst,),x.sort)
                m.log.append((And(pc,subst(p,sm)),msg+' (in loop)',w))
            else: m.log.append((And(pc,Not(all_(lam([x],Not(p)),lst))),msg+' (in loop)',w))
        return rr,outs
    itcells=set()
    iters={}
    def template(m,hv,B,x,lst,init,hav,havset):
        hid=hv.args[0]
        if B is hv: return ('keep',)
        others=havset-{hid}
        if hid not in B.fv:
            if B.fv & havset: return ('fold',)
            return ('dead',)
        # append
        if B.op=='seq' and B.args[0] is hv:
            g=seq(*B.args[1:])
            if not (g.fv & havset):
                i0=init if init is not UNDEF_ else NIL; gl=lam([x],g)
                return ('val',seq(i0,fm(gl,lst)),lambda l: seq(i0,fm(gl,l)))
        if B.op=='btput':
            mp,k,v=B.args
            if mp is hv and not (k.fv & havset) and v.op=='seq' and v.args[0] is mk_raw('btget',(hv,k),'S') and len(v.args)==2 and v.args[1].op=='unit' and not (v.args[1].fv & havset):
                if init.op=='btnew' or init is mk('btnew'):
                    return ('val',mk('btmap',sgroup(lam([x],k),lam([x],v.args[1].args[0]),lst)))
        # counting
        if hv.sort[0]=='I' and B.op=='lin':
            d=sub(B,hv)
            if not (d.fv & havset):
                if d.op=='int': return ('val',add(init,scale(length(lst),d.args[0])),lambda l: add(init,scale(length(l),d.args[0])))
        if B.op=='setins' and B.args[0] is hv and not (B.args[1].fv & havset):
            return ('val',set_add(init,fm(lam([x],unit(B.args[1])),lst)))
        return ('fold',)
    # ------------------------------------------------ blocks
    def block(m,fr,n,pc,st,rets):
        st=st.copy(); b=fr.body
        for s in mir.block(b,n):
            k=s[0]
            if k=='assign':
                m.write(fr,s[1],m.rvalue(fr,s[2],st,s[1]),st)
            elif k=='goto': return [(s[1],pc,st)]
            elif k=='switch':
                v=m.operand(fr,s[1],st)
                return m.switch(v,s[2],pc,st,fr)
            elif k=='call':
                v,st,pc=m.call(fr,s,st,pc,n)
                if pc is FALSE or s[4] is None: return []
                if s[1] is not None: m.write(fr,s[1],v,st)
                return [(s[4],pc,st)]
            elif k=='assert':
                v=m.operand(fr,s[1],st)
                ok=v if s[2] else Not(v)
                bad=And(pc,Not(ok))
                if bad is not FALSE: m.log.append((bad,'assert '+str(s[3])[:60],'%s bb%d'%(b.name,n)))
                return [(s[5],And(pc,ok),st)]
            elif k=='return': rets.append((pc,st)); return []
            elif k=='unreachable': return []
            elif k=='yield': raise Unsupported('suspension reached')
            elif k=='resume': return []
            elif k=='setdiscr': raise Unsupported('set discriminant')
            else: raise Unsupported('statement '+k)
        return []
    def switch(m,v,targets,pc,st,fr):
        out=[]; rest=TRUE
        merged=v.op=='discr' and v.args[1].op=='ite'
        for val,bb in targets:
            if val is None: c=rest
            else:
                iv=switch_int(val)
                if v.op=='discr': 
                    vs=v.args[0]
                    c=isv(vs[iv],v.args[1]) if iv<len(vs) else FALSE
                elif v.sort=='B': c=v if iv else Not(v)
                elif v.op=='ite' or v.sort[0]=='I': c=switch_eq(v,iv)
                else: raise Unsupported('switch on '+v.op)
                rest=And(rest,Not(c))
            p=And(pc,c)
            out.append((bb,p,st if p is FALSE or not merged else decided(st,p)))
        return out
    def rvalue(m,fr,r,st,lhs=None):
        k=r[0]
        if k=='use': return m.operand(fr,r[1],st)
        if k=='ref':
            if r[1] in('mut','two_phase','raw mut') or r[1].startswith('mut'):
                q=m.resolve(fr,r[2],st)
                if q[0]=='ites':
                    if q[2]: raise Unsupported('reborrow of conditional reference')
                    return q[1]
                cell,path,val,ty=q
                if val is not None: return val
                return mk_raw('ref',(cell,path))
            v=m.read(fr,r[2],st)
            return m.deref(v,st) if v.op=='ref' or (v.op=='ite' and has_ref(v)) else v
        if k=='op': return m.arith(fr,r[1],[m.operand(fr,x,st) for x in r[2]],r[2],st)
        if k=='discr':
            v=m.deref(m.read(fr,r[1],st),st)
            ty=m.place_ty(fr,r[1])
            vs=m.variants(ty)
            if vs is None: raise Unsupported('discriminant of '+ty)
            return mkdiscr(tuple(vs),v)
        if k=='len': return length(m.deref(m.read(fr,r[1],st),st))
        if k=='cast':
            v=m.operand(fr,r[1],st)
            if 'IntToInt' in r[3]:
                t=strip_refs(r[2])
                if v.op=='discr': 
                    res=Int(0)
                    for i,n in enumerate(v.args[0]): res=ite(isv(n,v.args[1]),Int(i),res)
                    v=res
                if t in INT:
                    return wrap(v,t,m.optype(fr,r[1]))
                if t=='char': return v
            if 'PointerCoercion' in r[3] or 'Transmute' in r[3] or 'PtrToPtr' in r[3]: return v
            raise Unsupported('cast '+r[3])
        if k=='repeat':
            v=m.operand(fr,r[1],st); n=int(re.match(r'\d+',r[2].replace('const ','')).group(0))
            if n>4096: raise Unsupported('array')
            return seq(*[unit(v)]*n)
        if k=='array': return seq(*[unit(m.deref(m.operand(fr,x,st),st)) for x in r[1]])
        if k=='tuple': return tup(*[m.operand(fr,x,st) for x in r[1]])
        if k=='closure' and r[1].startswith('{coroutine@'): m.coroutine(fr,r[1])
        if k=='closure': return mk('closure:'+r[1],*[m.operand(fr,x,st) for _,x in r[2]])
        if k=='agg':
            name=r[1]; vals=[m.operand(fr,x,st) for _,x in r[2]]
            p=src.strip_generics(name)
            last=p.split('::')[-1]
            pre='::'.join(p.split('::')[:-1])
            if pre.split('::')[-1] in BUILTIN_ENUMS and last in BUILTIN_ENUMS[pre.split('::')[-1]]:
                return mk(last,*vals)
            vs=m.variants(pre) if pre else None
            if vs and p in vs: return mk(p,*vals)
            if head_args(p)[0] in TRANSPARENT and len(vals)==1: return vals[0]
            if last=='PhantomData': return UNIT
            return mk(p,*vals)
        raise Unsupported('rvalue '+k)
    def place_ty(m,fr,place):
        loc,pr=place; ty=fr.body.locals.get(loc,'?')
        for p in pr:
            if p[0]=='deref': ty=strip_one(ty)
            elif p[0]=='field': ty=p[2]
            elif p[0] in('idx','cidx'): ty=elem_type(ty)
        return ty
    def optype(m,fr,o):
        if o[0] in('copy','move'): return strip_refs(m.place_ty(fr,o[1]))
        if o[0]=='const' and o[1][0]=='int': return o[1][2]
        return None
    def arith(m,fr,op,a,ops,st):
        a=[m.deref(x,st) for x in a]
        return m.arith_t(op,a,m.optype(fr,ops[0]) or (m.optype(fr,ops[1]) if len(ops)>1 else None))
    def arith_t(m,op,a,ty):
        if op in('Eq','Ne'):
            x,y=[m.undiscr(v) for v in a]
            if x.op=='discr' and y.op=='discr':
                r=FALSE
                for n in x.args[0]: r=Or(r,And(isv(n,x.args[1]),isv(n,y.args[1])))
            else: r=eq(x,y)
            return r if op=='Eq' else Not(r)
        if op=='Lt': return lt(*a)
        if op=='Le': return le(*a)
        if op=='Gt': return gt(*a)
        if op=='Ge': return ge(*a)
        if op=='Not':
            if a[0].sort=='B': return Not(a[0])
            raise Unsupported('bitwise not')
        if op=='Neg': return wrap(scale(a[0],-1),ty,None)
        if op in('BitAnd','BitOr','BitXor') and a[0].sort=='B':
            return And(*a) if op=='BitAnd' else Or(*a) if op=='BitOr' else Not(Iff(*a))
        base=op.replace('WithOverflow','').replace('Unchecked','')
        f={'Add':add,'Sub':sub,'Mul':mul}.get(base)
        if f:
            r=f(*a)
            if op.endswith('WithOverflow'):
                lo,hi=INT[ty]
                ov=Or(lt(r,Int(lo)),lt(Int(hi),r))
                return tup(r,ov)
            return wrap(r,ty,None)
        if op in('Div','Rem'):
            x,y=a
            if y.op=='int' and y.args[0]>0:
                lb=lower_bound(x)
                if ty and ty[0]=='u' or (lb is not None and lb>=0): return div(x,y) if op=='Div' else mod(x,y)
                # truncating division of signed values
                pos=div(x,y); neg=scale(div(scale(x,-1),y),-1)
                q=ite(le(Int(0),x),pos,neg)
                return q if op=='Div' else sub(x,scale(q,y.args[0]))
            raise Unsupported('division')
        if op in('BitAnd','BitOr','BitXor','Shl','Shr','ShlUnchecked','ShrUnchecked'):
            x,y=a
            base=op.replace('Unchecked','')
            if x.op=='int' and y.op=='int':
                p,q=x.args[0],y.args[0]
                r={'BitAnd':p&q,'BitOr':p|q,'BitXor':p^q}.get(base)
                if r is None: r=p<<q if base=='Shl' else p>>q
                return wrap(Int(r),ty,None)
            if y.op=='int' and base=='Shr' and (ty or 'u')[0]=='u': return div(x,Int(1<<y.args[0]))
            if y.op=='int' and base=='BitAnd' and (y.args[0]+1)&y.args[0]==0 and (ty or 'u')[0]=='u': return mod(x,Int(y.args[0]+1))
            return mk_raw('bitop',(base,x,y))
        raise Unsupported('operator '+op)
    def undiscr(m,v): return v
    # ------------------------------------------------ calls
    def call(m,fr,s,st,pc,bb):
        _,lhs,callee,args,ret=s
        vals=[m.operand(fr,a,st) for a in args]
        tys=[m.optype_full(fr,a) for a in args]
        lt_=m.place_ty(fr,lhs) if lhs is not None else '()'
        return m.invoke(callee,vals,tys,lt_,st,pc,'%s bb%d'%(fr.body.name,bb),fr)
    def optype_full(m,fr,o):
        if o[0] in('copy','move'): return m.place_ty(fr,o[1])
        if o[0]=='const' and o[1][0]=='int': return o[1][2]
        return {'str':'&str','bytes':'&[u8]'}.get(o[1][0] if o[0]=='const' else '', '?')
    def invoke(m,callee,vals,tys,rty,st,pc,where,fr=None):
        import lib
        # a value in function position
        b=m.find_fn(callee)
        if b is not None:
            h=m.contracts.get(short_name(b))
            if h is not None and b not in m.stack and b is not m.root:
                cx=lib.Cx(m,callee,vals,tys,rty,st.copy(),pc,where,fr)
                v=h(cx)
                if v is not NotImplemented:
                    m.ccalls.append(short_name(b)); return v,cx.st,cx.pc
            return m.run(b,vals,st,pc,where)
        k=m.ctor_fn(callee)
        if k is not None: return mk(k,*[m.deref(x,st) for x in vals]),st,pc
        cx=lib.Cx(m,callee,vals,tys,rty,st.copy(),pc,where,fr)
        v=lib.dispatch(cx)
        return v,cx.st,cx.pc
    def coroutine(m,fr,t):
        if t in m.bytype: return
        pre=fr.body.name+'::{closure#'
        cs=[b for b in m.bodies if b.name.startswith(pre) and '}' not in b.name[len(pre):-1] and b.params and strip_refs(b.params[0][1]).startswith('{async')]
        span=re.search(r'@([^ ]+:\d+:\d+)',t)
        ex=[b for b in cs if span and span.group(1) in b.params[0][1]]
        cs=ex or cs
        if len(cs)==1: m.bytype[t]=cs[0]
    def ctor_fn(m,callee):
        if callee.startswith('<') or '::' not in callee: return None
        p=src.strip_generics(callee)
        if p.startswith('crate::'): p=p[7:]
        if p in m.src.structs: return p
        e,v=p.rsplit('::',1)
        en=m.src.enums.get(e)
        if en is not None and any(x==v for x,_ in en.variants):
            m.variants(e); return p
        return None
    def call_value(m,f,args,st,pc,where):
        """call a closure or function value with already-built arguments"""
        f=m.deref(f,st) if f.op=='ref' and m.deref(f,st).op!='mk' else f
        fv=m.deref(f,st)
        if fv.op=='ite':
            r=[]
            c=fv.args[0]
            v1,s1,p1=m.call_value(fv.args[1],args,st,And(pc,c),where)
            v2,s2,p2=m.call_value(fv.args[2],args,st,And(pc,Not(c)),where)
            p,s=merge([(p1,s1),(p2,s2)])
            return ite(c,v1,v2),s,p
        if fv.op!='mk': raise Unsupported('call of an unknown function value')
        n=fv.args[0]
        if n.startswith('closure:'):
            t=n[8:]; b=m.bytype.get(t)
            if b is None: raise Unsupported('closure body '+t)
            st=st.copy()
            p0=b.params[0][1]
            if p0.startswith('&mut'):
                if f.op=='ref': self_=f
                else:
                    cell=('tmp',next(m.frame)); st[cell]=fv; self_=mk_raw('ref',(cell,()))
            else: self_=fv
            if len(b.params)-1!=len(args):
                if len(b.params)==2 and len(args)!=1: args=[tup(*args)]
                elif len(args)==1 and args[0].op=='mk' and args[0].args[0]=='(%d)'%(len(b.params)-1): args=list(args[0].args[1:])
            return m.run(b,[self_]+list(args),st,pc,where)
        if n.startswith('fn:'):
            p=n[3:]
            return m.invoke(p,list(args),['?']*len(args),'?',st,pc,where)
        if n.startswith('const:'):
            return m.invoke(n[6:],list(args),['?']*len(args),'?',st,pc,where)
        raise Unsupported('call of '+n)
def getpath(v,pa):
    for c,i in pa:
        v=v.args[i+1] if v.op=='mk' and v.args[0]==c else UNDEF_ if v is UNDEF_ else proj(i,c,v)
    return v
def setpath(v,pa,x):
    if not pa: return x
    (c,i),r=pa[0],pa[1:]
    a=list(v.args[1:]); a[i]=setpath(a[i],r,x)
    return mk(v.args[0],*a)
def diffpaths(a,b,pa):
    """the components of a in which b differs"""
    if a is b: return frozenset()
    if a.op=='mk' and b.op=='mk' and a.args[0]==b.args[0] and len(a.args)==len(b.args)>1 and a.args[0] not in NOSPLIT:
        r=frozenset()
        for i in range(len(a.args)-1):
            if not hasattr(a.args[i+1],'op') or not hasattr(b.args[i+1],'op'): 
                if a.args[i+1]!=b.args[i+1]: return frozenset([pa])
                continue
            r|=diffpaths(a.args[i+1],b.args[i+1],pa+((a.args[0],i),))
        return r
    return frozenset([pa])
NOSPLIT={'btmap','btnew','Some','Ok','Err'}
def frozen(b):
    """an immutable static: no `static mut`, no interior mutability, no lazy initialisation"""
    return not getattr(b,'mutable',False) and not re.search(r'Cell|Mutex|RwLock|Atomic|Once|Lazy|\*mut|\*const',b.ret or '?')
def strip_one(t):
    t=t.strip()
    m=re.match(r"^(&('\w+ |'_ )?(mut )?|\*const |\*mut )",t)
    if m: return t[m.end():]
    h,a,p=head_args(t)
    if h in TRANSPARENT and a: return a[-1]
    return t
def elem_type(t):
    t=strip_refs(t)
    if t.startswith('['): return t[1:-1].split(';')[0].strip()
    h,a,_=head_args(t)
    if a: return a[0]
    return '?'
_hr={}
def has_ref(v):
    if v.op=='ref': return True
    if v.op!='ite': return False
    r=_hr.get(v.id)
    if r is None: r=_hr[v.id]=has_ref(v.args[1]) or has_ref(v.args[2])
    return r
def ctor_arity(m,c):
    mm=re.match(r'^\((\d+)\)$',c)
    if mm: return int(mm.group(1))
    if c in('Some','Ok','Err','Ready','Continue','Break'): return 1
    s=m.src.find(c)
    if s is not None: return len(s.fields)
    e=m.src.enums.get('::'.join(c.split('::')[:-1]))
    if e:
        for vn,fs in e.variants:
            if vn==c.split('::')[-1]: return len(fs)
    return None
def mkdiscr(vs,v):
    return mk_raw('discr',(vs,v),'I') if v.op!='x' else None
REBUILD['discr']=mkdiscr
def switch_int(val):
    if isinstance(val,int): return val
    m=re.match(r'^(-?\d+)',val)
    if m: return int(m.group(1))
    raise Unsupported('switch value '+str(val))
def switch_eq(v,iv): return eq(v,Int(iv))
def wrap(v,t,src_t):
    if t not in INT: return v
    if v.sort=='B': return ite(v,Int(1),Int(0))
    lo,hi=INT[t]
    if src_t in INT and INT[src_t][0]>=lo and INT[src_t][1]<=hi: return v
    if v.op=='int': return Int((v.args[0]-lo)%(hi-lo+1)+lo)
    ok=And(le(Int(lo),v),le(v,Int(hi)))
    if ok is TRUE: return v
    return ite(ok,v,mk_raw('wrap',(v,t)))
REBUILD['wrap']=lambda v,t: wrap(v,t,None) if v.op!='ite' else ite(v.args[0],wrap(v.args[1],t,None),wrap(v.args[2],t,None))
def wrap_raw(v,t):
    return mk_raw('wrap',(v,t))
REBUILD['wrap']=lambda v,t: Int((v.args[0]-INT[t][0])%(INT[t][1]-INT[t][0]+1)+INT[t][0]) if v.op=='int' else mk_raw('wrap',(v,t))
def nth(v,i,so='V'):
    ps=pieces(v)
    if i.op=='int':
        k=i.args[0]
        for p in ps:
            if p.op=='unit':
                if k==0: return p.args[0]
                k-=1
            elif p.op=='lit':
                if k<len(p.args[0]): return Int(p.args[0][k])
                k-=len(p.args[0])
            else: break
    if v.op=='ite': return ite(v.args[0],nth(v.args[1],i,so),nth(v.args[2],i,so))
    return mk_raw('nth',(v,i,so),so)
REBUILD['nth']=nth
def set_nth(v,i,x):
    ps=pieces(v)
    if i.op=='int' and all(p.op=='unit' for p in ps) and 0<=i.args[0]<len(ps):
        ps[i.args[0]]=unit(x); return seq(*ps)
    return mk_raw('setnth',(v,i,x),'S')
def bt_get(v,k):
    if v is mk('btnew'): return NIL
    return mk_raw('btget',(v,k),'S')
def bt_put(v,k,x): return mk_raw('btput',(v,k,x))
REBUILD['btget']=bt_get; REBUILD['btput']=bt_put
def set_add(init,l): return sset(seq(init,l))
def progress_concrete(a,b):
    """some list in the state got strictly shorter and is made of known elements"""
    for k in a.c:
        x,y=a[k],b[k]
        if x is y: continue
        if x.sort=='S' and y.sort=='S':
            px,py=pieces(x),pieces(y)
            if len(py)<len(px) and all(p.op in('unit','lit') for p in px) and (px[len(px)-len(py):]==py): return True
            if x.op=='lit' and (y.op=='lit' or y is NIL) and len(x.args[0])<=400:
                yy=y.args[0] if y.op=='lit' else b''
                if len(yy)<len(x.args[0]) and x.args[0].endswith(yy): return True
    return False
_pc={}
def parse_callee(c):
    """('path',text) or ('trait',T,traitlast,traitargs,method)"""
    r=_pc.get(c)
    if r: return r
    r=('path',c)
    if c.startswith('<') and not c.startswith('<impl at '):
        e=src.close(c,0); inner=c[1:e]; rest=c[e+1:]
        i=mir.find_top(inner,' as ')
        if i>=0:
            T,tr=inner[:i],inner[i+4:]
            h,a,_=head_args(tr)
            meth=src.strip_generics(rest).lstrip(':')
            r=('trait',T,h,a,meth)
    _pc[c]=r
    return r
