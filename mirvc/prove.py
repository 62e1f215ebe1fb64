"""Discharging obligations: canonical-form equality with case splitting, z3 for path feasibility."""
import time
import z3
import term as tm, rules as R
from term import *
from rules import *
class Stats:
    def __init__(s): s.z3_calls=0; s.z3_secs=0.0; s.eqs=0; s.splits=0
STATS=Stats()
# ------------------------------------------------------------------ z3
NSEC=10**9
class Z:
    """translation of boolean terms: arithmetic interpreted, everything else uninterpreted"""
    def __init__(z): z.ints={}; z.bools={}; z.facts=[]; z.terms=[]; z.hm=[]
    def num(z,t):
        if t.op=='int': return z3.IntVal(t.args[0])
        if t.op=='lin':
            r=z3.IntVal(t.args[0])
            for y,c in t.args[1]: r=r+c*z.num(y)
            return r
        if t.op=='ite': return z3.If(z.bool(t.args[0]),z.num(t.args[1]),z.num(t.args[2]))
        v=z.ints.get(t.id)
        if v is not None: return v
        v=z.ints[t.id]=z3.Int('i%d'%t.id); z.terms.append(t)
        lo,hi=lower_bound(t),upper_bound(t)
        if lo is not None: z.facts.append(v>=lo)
        if hi is not None: z.facts.append(v<=hi)
        if t.op=='div' and t.args[1].op=='int' and t.args[1].args[0]>0:
            x=z.num(t.args[0]); k=t.args[1].args[0]; z.facts+= [k*v<=x,x<k*v+k]
        elif t.op=='mod' and t.args[1].op=='int' and t.args[1].args[0]>0:
            x=z.num(t.args[0]); k=t.args[1].args[0]; q=z3.Int('q%d'%t.id); z.facts+=[x==k*q+v,v>=0,v<k]
        elif t.op=='year':
            x=z.num(t.args[0])
            for y in (0,1900,1970,1971,2000,2100,9999,10000):
                z.facts.append((v>=y)==(x>=R.year_start(y)))
        elif t.op=='len':
            z.facts.append(v>=0)
            if t.args[0].op=='prefix': z.facts.append(v<z.num(R.length(t.args[0].args[0])))
            if t.args[0].sort=='S': z.facts.append((v==0)==z.bool(eq(t.args[0],NIL)))
        elif t.op=='unsigned': z.facts.append(v>=0)
        return v
    def bool(z,t):
        if t is TRUE: return z3.BoolVal(True)
        if t is FALSE: return z3.BoolVal(False)
        if t.op=='ite':
            return z3.If(z.bool(t.args[0]),z.bool(t.args[1]),z.bool(t.args[2]))
        if t.op=='le0': return z.num(t.args[0])<=0
        if t.op=='eq0': return z.num(t.args[0])==0
        v=z.bools.get(t.id)
        if v is None:
            v=z.bools[t.id]=z3.Bool('b%d'%t.id); z.terms.append(t)
            if t.op in('hm_over','hm_room'):
                # room for n more entries was reserved at length a: no overflow before the length reaches a+n; overflow is monotone
                x=sum((z.num(y) for y in t.args),z3.IntVal(0))
                for u,w,y in z.hm:
                    if u=='hm_room'!=t.op: z.facts.append(z3.Implies(z3.And(w,x<=y),z3.Not(v)))
                    elif t.op=='hm_room'!=u: z.facts.append(z3.Implies(z3.And(v,y<=x),z3.Not(w)))
                    elif t.op==u=='hm_over': z.facts+=[z3.Implies(z3.And(v,x<=y),w),z3.Implies(z3.And(w,y<=x),v)]
                z.hm.append((t.op,v,x))
            if t.op=='eq':
                a,b=t.args
                for x,y in ((a,b),(b,a)):
                    if y.op=='lit':
                        l=mk_raw('len',(x,)) if x.op!='lit' else None
                        if l is not None and x.op=='var': z.facts.append(z3.Implies(v,z.num(l)==len(y.args[0])))
        return v
_sat={}
def feasible(conds):
    """is the conjunction of (atom,value) / boolean terms satisfiable?  (over-approximation: True when unknown)"""
    cs=[c if isinstance(c,T) else (c[0] if c[1] else Not(c[0])) for c in conds]
    f=And(*cs)
    return feasible_t(f)
def feasible_t(f):
    if f is FALSE: return False
    if f is TRUE: return True
    r=_sat.get(f.id)
    if r is not None: return r
    t=time.time(); z=Z(); s=z3.Solver(); s.set('timeout',60000)
    e=z.bool(f); s.add(e)
    # exclusive alternatives the diagrams do not know: equality of one term with two literals
    eqs={}
    for x in z.terms:
        if x.op=='eq':
            for a,b in (x.args,x.args[::-1]):
                if b.op=='lit' or b is NIL: eqs.setdefault(a.id,[]).append(z.bools[x.id])
    for l in eqs.values():
        for i in range(len(l)):
            for j in range(i): s.add(z3.Or(z3.Not(l[i]),z3.Not(l[j])))
    for x in z.facts: s.add(x)
    r=s.check()!=z3.unsat
    STATS.z3_calls+=1; STATS.z3_secs+=time.time()-t
    _sat[f.id]=r
    return r
def model(f):
    """integer model of a boolean term: {term: value} , {atom: bool}"""
    z=Z(); s=z3.Solver(); s.set('timeout',60000); s.add(z.bool(f)); 
    for x in z.facts: s.add(x)
    if s.check()!=z3.sat: return None
    m=s.model()
    ints={};bools={}
    for t in z.terms:
        if t.id in z.ints:
            v=m.eval(z.ints[t.id],model_completion=True); ints[t]=v.as_long()
        else: bools[t]=z3.is_true(m.eval(z.bools[t.id],model_completion=True))
    return ints,bools
# ------------------------------------------------------------------ structure
def leaves(t,conds=()):
    """decision-diagram leaves with their path"""
    if t.op=='ite':
        yield from leaves(t.args[1],conds+((t.args[0],True),))
        yield from leaves(t.args[2],conds+((t.args[0],False),))
    else: yield conds,t
def bound(t): return any(isinstance(v,str) and v.startswith('#') for v in t.fv)
_fa={}
def free_atoms(t):
    """atoms of t that mention no bound variable"""
    r=_fa.get(t.id)
    if r is None:
        r=_fa[t.id]=frozenset(i for i in t.atoms if not bound(tm.ATOMS[i]))
    return r
def strip_common(a,b):
    pa,pb=pieces(a),pieces(b)
    while pa and pb and pa[0] is pb[0]: pa.pop(0); pb.pop(0)
    while pa and pb and pa[-1] is pb[-1]: pa.pop(); pb.pop()
    # literal prefixes / suffixes
    if pa and pb and pa[0].op=='lit' and pb[0].op=='lit':
        x,y=pa[0].args[0],pb[0].args[0]; n=0
        while n<min(len(x),len(y)) and x[n]==y[n]: n+=1
        if n:
            pa[0:1]=[Lit(x[n:])] if x[n:] else []; pb[0:1]=[Lit(y[n:])] if y[n:] else []
            return strip_common(seq(*pa),seq(*pb))
    if pa and pb and pa[-1].op=='lit' and pb[-1].op=='lit':
        x,y=pa[-1].args[0],pb[-1].args[0]; n=0
        while n<min(len(x),len(y)) and x[-1-n]==y[-1-n]: n+=1
        if n:
            pa[-1:]=[Lit(x[:-n])] if x[:-n] else []; pb[-1:]=[Lit(y[:-n])] if y[:-n] else []
            return strip_common(seq(*pa),seq(*pb))
    return seq(*pa),seq(*pb)
class Mismatch(Exception):
    def __init__(s,path,a,b): s.path=path; s.a=a; s.b=b
class Budget(Exception): pass
def equal(a,b,pc=TRUE,limit=20000):
    """None when a = b under pc is proved; else (path, a', b') of a feasible differing case"""
    STATS.eqs+=1
    memo=set(); n=[0]
    def go(a,b,path,pcond):
        if a is b: return
        if a.sort=='S' and b.sort=='S': a,b=strip_common(a,b)
        if a is b: return
        if pcond is TRUE and (a.id,b.id) in memo: return
        n[0]+=1
        if n[0]>limit: raise Budget()
        at=free_atoms(a)|free_atoms(b)
        if at:
            x=tm.ATOMS[min(at)]
            # prefer atoms that decide the top
            for t in (a,b):
                if t.op=='ite': x=t.args[0]; break
            for v in (True,False):
                p2=restrict(pcond,x,v)
                if p2 is FALSE: continue
                a2,b2=restrict(a,x,v),restrict(b,x,v)
                if a2 is UNDEF or b2 is UNDEF and a2 is not b2:
                    if not feasible_t(And(pcond,*[y if w else Not(y) for y,w in path+[(x,v)]])): continue
                STATS.splits+=1
                go(a2,b2,path+[(x,v)],p2)
            if pcond is TRUE: memo.add((a.id,b.id))
            return
        if a.op=='name' and b.op=='name':
            a,b=tm.unnamed(a),tm.unnamed(b)
            for x,v in path: a,b=restrict(a,x,v),restrict(b,x,v)
            return go(a,b,path,pcond)
        # no decisions left: congruence
        if a.op==b.op and len(a.args)==len(b.args) and a.op not in('lit','int','var'):
            ok=True; subs=[]
            for x,y in zip(a.args,b.args):
                if isinstance(x,T) and isinstance(y,T): subs.append((x,y))
                elif x!=y and not (a.op=='lin'): ok=False; break
                elif a.op=='lin' and x!=y: ok=False; break
            if ok and a.op!='lam':
                for x,y in subs: go(x,y,path,pcond)
                if pcond is TRUE: memo.add((a.id,b.id))
                return
        if not feasible_t(And(pcond,*[y if w else Not(y) for y,w in path])): return
        raise Mismatch(path,a,b)
    try: go(a,b,[],pc)
    except Mismatch as e: return e.path,e.a,e.b
    return None
def valid(f,pc=TRUE):
    """is the boolean term f true on every feasible path of pc?"""
    return not feasible_t(And(pc,Not(f)))
def has_unknown(t):
    """does the term depend on something outside the modelled library?"""
    seen=set(); st=[t]
    while st:
        x=st.pop()
        if not isinstance(x,T) or x.id in seen: continue
        seen.add(x.id)
        if x.op=='name': st.append(tm.unnamed(x)); continue
        if x.op in('unk','unkmut','unkdisplay','loopout','looplast','loopx','loopmid','looprest','debugfmt','foldl','junk'): return True
        if x.op=='mk' and isinstance(x.args[0],str) and x.args[0].startswith(('const:','static:')) and x.args[0] not in KNOWN_STATICS: return True
        for y in x.args:
            if isinstance(y,T): st.append(y)
            elif isinstance(y,tuple): st+= [z[0] if isinstance(z,tuple) else z for z in y]
    return False
KNOWN_STATICS=set()
def subterms(t,pred):
    out=[];seen=set();st=[t]
    while st:
        x=st.pop()
        if not isinstance(x,T) or x.id in seen: continue
        seen.add(x.id)
        if pred(x): out.append(x)
        for y in x.args:
            if isinstance(y,T): st.append(y)
            elif isinstance(y,tuple): st+= [z[0] if isinstance(z,tuple) else z for z in y]
    return out
# ------------------------------------------------------------------ byte sets
ALPHA={'dec':b'0123456789-','padd':b'0123456789-','sha256hex':b'0123456789abcdef','b64enc':b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/='}
_bs={}
def byteset(t):
    """superset of the bytes a string term can contain"""
    r=_bs.get(t.id)
    if r is not None: return r
    o=t.op; r=None
    if o=='lit': r=mask(t.args[0])
    elif o in ALPHA: r=mask(ALPHA[o])
    elif o=='bmap':
        src_=byteset(t.args[1]); r=0
        for i in range(256):
            if src_>>i&1: r|=mask(t.args[0][i])
    elif o=='seq':
        r=0
        for x in t.args: r|=byteset(x)
    elif o=='ite': r=byteset(t.args[1])|byteset(t.args[2])
    elif o=='join':
        r=elemset(t.args[0]); r|=byteset(t.args[1])
    elif o in('trim','slice'): r=byteset(t.args[0])
    elif t is NIL: r=0
    if r is None: r=FULL
    _bs[t.id]=r
    return r
def elemset(l):
    """bytes of the strings in a list term"""
    o=l.op
    if o=='seq':
        r=0
        for x in l.args: r|=elemset(x)
        return r
    if o=='unit': return byteset(l.args[0]) if l.args[0].sort=='S' else FULL
    if o=='fm': 
        (v,),b=open_lam(l.args[0]); return elemset(b)
    if o=='ite': return elemset(l.args[1])|elemset(l.args[2])
    if o in('sort','sset','rev'): return elemset(l.args[0])
    if l is NIL: return 0
    return FULL
def under(t,cond):
    """the value of t where cond holds: branches that cond excludes are cut"""
    memo={}
    def go(t,c):
        if t.op!='ite': return t
        k=(t.id,c.id)
        if k in memo: return memo[k]
        x=t.args[0]
        c1=restrict(c,x,True); c0=restrict(c,x,False)
        if c1 is FALSE: r=go(t.args[2],c0)
        elif c0 is FALSE: r=go(t.args[1],c1)
        else: r=ite(x,go(t.args[1],c1),go(t.args[2],c0))
        memo[k]=r
        return r
    return go(t,cond)
def assume(t,cond):
    """t with every decision that cond forces taken, at any depth"""
    for i in sorted(free_atoms(cond)):
        a=tm.ATOMS[i]
        if i not in t.atoms and a.op!='eq': continue
        if restrict(cond,a,False) is FALSE: t=restrict(t,a,True)
        elif restrict(cond,a,True) is FALSE: t=restrict(t,a,False)
    return t
def paths(ts,pc=TRUE,limit=4000):
    """all feasible joint paths of several decision diagrams: (conds, values)"""
    n=[0]
    def go(ts,pc,conds):
        m=None
        if pc is FALSE: return
        for t in ts:
            x=topdeep(t)
            if x is not None and (m is None or x.id<m.id): m=x
        if m is None:
            if feasible_t(And(pc,*[a if v else Not(a) for a,v in conds])):
                n[0]+=1
                if n[0]>limit: raise Budget()
                yield conds,ts,pc
            return
        for v in(True,False):
            p2=restrict(pc,m,v)
            if p2 is FALSE: continue
            yield from go([restrict(t,m,v) for t in ts],p2,conds+[(m,v)])
    yield from go(list(ts),pc,[])
def topdeep(t):
    """an atom some decision of t depends on (ignoring conditions under binders)"""
    best=None; seen=set(); st=[t]
    while st:
        x=st.pop()
        if not isinstance(x,T) or x.id in seen or not x.atoms: continue
        seen.add(x.id)
        if x.op=='ite':
            a=x.args[0]
            if not bound(a) and (best is None or a.id<best.id): best=a
        for y in x.args:
            if isinstance(y,T): st.append(y)
            elif isinstance(y,tuple): st+= [z[0] if isinstance(z,tuple) else z for z in y]
    return best
