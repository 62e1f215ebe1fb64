"""Hash-consed terms with a canonical form.

Booleans are ordered decision diagrams over atoms; values of any sort may be decision diagrams
over the same atoms (ite nodes, ordered by atom creation), with equal constructors merged and common
sequence prefixes/suffixes factored out.  Strings, byte vectors and lists are one sort: sequences."""
import sys, itertools
sys.setrecursionlimit(20000)
class T:
    __slots__=('op','args','id','sort','atoms','fv','hgt','wt')
    def __repr__(s): return pp(s)
    def __hash__(s): return s.id
    def __eq__(s,o): return s is o
    def __lt__(s,o): return s.id<o.id
_tab={}
_cnt=itertools.count(1)
EMPTY=frozenset()
# result sorts of operators (default 'V'); S sequence, I int, B bool, L lambda
SORT={}
def defop(sort,*ops):
    for o in ops: SORT[o]=sort
defop('S','seq','lit','fm','join','sort','sset','sgroup','chars','utf8','hm_keys','hm_vals','lower','upper','trim','replace','split','padd','hexw','dec',
      'hm_iter','form_parse','form_ser','hn_raw','hv_str','sha256hex','b64enc','b64dec','uri_path','url_pathnorm','url_str','json','jsonstr',
      'rsa_sign','pem_contents','rev','enum','take','skip','slice','zip','env','bytes_of','hmget','dedup','repeat','take_while','chunk',
      'resp_text','range','urlq','seqof','hexbyte','sortby','pct_dec','mapkeys','mapvals','map_ins','strof')
defop('I','int','lin','div','mod','len','year','month','day','rsa_modlen','now','wrap','bitop','ord_','resp_status','mulx','sorder','toint','hexval','fold_int')
defop('B','true','false','eq','le0','eq0','is','any','all','contains_','starts_','ends_','empty','pem_ok','pkcs8_ok','uri_ok','hn_ok','hv_ok','rsa_ok','json_ok','utf8_ok','url_ok',
      'hm_full','file_ok','bool_u','lt_s','resp_ok','b64_ok','env_some','parse_ok','b')
def mk_raw(op,args,sort=None):
    k=(op,args)
    t=_tab.get(k)
    if t is not None: return t
    t=T(); t.op=op; t.args=args; t.id=next(_cnt)
    t.sort=sort or SORT.get(op,'V')
    if op=='var': t.sort=args[1]
    at=set(); fv=set(); h=0; w=1
    for a in args:
        if isinstance(a,T):
            if a.atoms: at|=a.atoms
            if a.fv: fv|=a.fv
            if a.hgt>h: h=a.hgt
            w+=a.wt
    if op=='lam':
        h+=1
        fv-=set(args[0])
    if op=='var': fv.add(args[0])
    t.hgt=h; t.wt=min(w,10**9)
    t.fv=frozenset(fv) if fv else EMPTY
    if op=='ite': t.sort=args[1].sort if args[1].sort!='V' and args[1] is not UNDEF else args[2].sort
    if t.sort=='B' and op not in('true','false','ite'):
        at.add(t.id); ATOMS[t.id]=t
    if op=='ite': at.add(args[0].id)
    t.atoms=frozenset(at) if at else EMPTY
    _tab[k]=t
    return t
DEFS={}
def named(x):
    """x behind an opaque name: decisions inside it do not split what contains the name"""
    if not x.atoms: return x
    t=mk_raw('name',(x.id,),x.sort); DEFS[x.id]=x; t.fv=x.fv; return t
def unnamed(t): return DEFS[t.args[0]] if t.op=='name' else t
UNDEF=None
ATOMS={}
TRUE=mk_raw('true',()); FALSE=mk_raw('false',())
def boolc(b): return TRUE if b else FALSE
def Int(n): return mk_raw('int',(int(n),))
_lits={}
def Lit(b):
    if isinstance(b,str): b=b.encode()
    if b==b'': return NIL
    return mk_raw('lit',(b,))
NIL=mk_raw('seq',())
UNDEF=mk_raw('undef',())
def Var(name,sort='V'): return mk_raw('var',(name,sort))
_fresh=itertools.count()
def fresh(prefix,sort='V'): return Var('%s!%d'%(prefix,next(_fresh)),sort)
# ---------- booleans / decision diagrams
def is_atom(t): return t.sort=='B' and t.op not in('true','false','ite')
def top(t):
    if t.op=='ite': return t.args[0]
    if is_atom(t): return t
    return None
def cof(t,a,v):
    if t.op=='ite' and t.args[0] is a: return t.args[1 if v else 2]
    if t is a: return boolc(v)
    return t
_ite={}
def ite(c,a,b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a is UNDEF: return b
    if b is UNDEF: return a
    if a is TRUE and b is FALSE: return c
    k=(c.id,a.id,b.id)
    r=_ite.get(k)
    if r is not None: return r
    m=None
    for x in (c,a,b):
        tx=top(x)
        if tx is not None and (m is None or tx.id<m.id): m=tx
    if m is None: raise ValueError('condition is not boolean: %s : %s'%(pp(c)[:200],c.sort))
    r=node(m,ite(cof(c,m,1),cof(a,m,1),cof(b,m,1)),ite(cof(c,m,0),cof(a,m,0),cof(b,m,0)))
    _ite[k]=r
    return r
_node={}
def node(at,t,e):
    if t is e: return t
    k=(at.id,t.id,e.id)
    r=_node.get(k)
    if r is not None: return r
    t0,e0=t,e
    t=restrict(t,at,True); e=restrict(e,at,False)
    if t is UNDEF: r=e
    elif e is UNDEF: r=t
    elif t is e: r=t
    elif t is TRUE and e is FALSE: r=at
    else:
        tt,te=top(t),top(e)
        if (tt is not None and tt.id<at.id) or (te is not None and te.id<at.id):
            r=ite(at,t,e)
        elif t.op=='mk' and e.op=='mk' and t.args[0]==e.args[0] and len(t.args)==len(e.args):
            r=mk(t.args[0],*[ite(at,x,y) for x,y in zip(t.args[1:],e.args[1:])])
        elif t.sort=='S' and e.sort=='S' and t.op!='ite' and e.op!='ite':
            r=seq_factor(at,t,e)
        else: r=mk_raw('ite',(at,t,e))
    _node[k]=r
    return r
def pieces(t):
    if t.op=='seq': return list(t.args)
    return [t]
def seq_factor(at,t,e):
    a,b=pieces(t),pieces(e)
    pre=[]; suf=[]
    while a and b:
        if a[0] is b[0]: pre.append(a.pop(0)); b.pop(0); continue
        if a[0].op=='lit' and b[0].op=='lit':
            x,y=a[0].args[0],b[0].args[0]
            n=0
            while n<len(x) and n<len(y) and x[n]==y[n]: n+=1
            if n==0: break
            pre.append(Lit(x[:n]))
            a[0:1]=[Lit(x[n:])] if x[n:] else []
            b[0:1]=[Lit(y[n:])] if y[n:] else []
            if n<len(x) and n<len(y): break
            continue
        break
    while a and b:
        if a[-1] is b[-1]: suf.insert(0,a.pop()); b.pop(); continue
        if a[-1].op=='lit' and b[-1].op=='lit':
            x,y=a[-1].args[0],b[-1].args[0]
            n=0
            while n<len(x) and n<len(y) and x[-1-n]==y[-1-n]: n+=1
            if n==0: break
            suf.insert(0,Lit(x[len(x)-n:]))
            a[-1:]=[Lit(x[:len(x)-n])] if x[:len(x)-n] else []
            b[-1:]=[Lit(y[:len(y)-n])] if y[:len(y)-n] else []
            if n<len(x) and n<len(y): break
            continue
        break
    if not pre and not suf: return mk_raw('ite',(at,t,e))
    return seq(*pre,ite(at,seq(*a),seq(*b)),*suf)
def Not(a): return ite(a,FALSE,TRUE)
def And(*xs):
    r=TRUE
    for x in xs:
        r=ite(r,x,FALSE)
        if r is FALSE: return r
    return r
def Or(*xs):
    r=FALSE
    for x in xs:
        r=ite(r,TRUE,x)
        if r is TRUE: return r
    return r
def Implies(a,b): return ite(a,b,TRUE)
def Iff(a,b): return ite(a,b,Not(b))
# ---------- substitution / restriction
_restr={}
def restrict(t,at,val):
    """t under the assumption at==val (deep); an equality assumed true also substitutes."""
    if val and at.op in('eq','eq0'):
        sub=eq_subst(at)
        if sub is not None:
            x,y=sub
            t=replace_term(t,x,y)
            if t is None: raise Exception
    if at.op in('le0','eq0') and t.atoms:
        c,key=lin_key(at.args[0])
        for aid in tuple(t.atoms):
            if aid==at.id: continue
            b=ATOMS[aid]
            if b.op not in('le0','eq0'): continue
            c2,key2=lin_key(b.args[0])
            sg=1 if key2 is key or key2==key else 0
            if not sg: continue
            v=implied(at.op,c,val,b.op,c2)
            if v is not None: t=_restrict(t,b,v)
    if THEORY and t.atoms:
        for aid in tuple(t.atoms):
            if aid==at.id: continue
            for h in THEORY:
                v=h(at,val,ATOMS[aid])
                if v is not None: t=_restrict(t,ATOMS[aid],v); break
    return _restrict(t,at,val)
THEORY=[]
def lin_key(l):
    """(constant, items) with the items' polarity canonical (le0 and eq0 keep the first coefficient positive)"""
    if l.op=='lin': return l.args[0],l.args[1]
    return 0,((l,1),)
def implied(op,c,val,op2,c2):
    """L+c<=0 or L+c==0 known (or known false) => truth of L+c2 <=0 / ==0.   x:=L"""
    if op=='le0':
        if val:   # x<=-c
            if op2=='le0': return True if -c<=-c2 else None
            return False if -c2>-c else None
        else:     # x>=-c+1
            if op2=='le0': return False if -c2<-c+1 else None
            return False if -c2<-c+1 else None
    if val:       # x==-c
        if op2=='le0': return -c<=-c2
        return c==c2
    return None
def _restrict(t,at,val):
    if at.id not in t.atoms: return t
    k=(t.id,at.id,val)
    r=_restr.get(k)
    if r is not None: return r
    if t is at: r=boolc(val)
    elif t.op=='ite':
        c,a,b=t.args
        if c is at: r=_restrict(a if val else b,at,val)
        else: r=ite(_restrict(c,at,val),_restrict(a,at,val),_restrict(b,at,val))
    else:
        r=rebuild(t,[_restrict(a,at,val) if isinstance(a,T) else a for a in t.args])
    _restr[k]=r
    return r
def eq_subst(at):
    if at.op=='eq0':
        l=at.args[0]  # lin
        if l.op!='lin': return (l,Int(0)) if l.op!='int' else None
        if len(l.args[1])==1 and l.args[1][0][1] in(1,-1):
            tm,co=l.args[1][0]
            return tm,Int(-l.args[0]*co)
        return None
    a,b=at.args
    isc=lambda t: t.op in('lit','int') or t is NIL
    if isc(a): a,b=b,a
    if isc(b): return a,b
    if a.sort=='B': return None
    if a.fv and any(n[0]=='#' for n in a.fv) and b.fv-a.fv: pass
    if a.fv and not b.fv: pass
    # orient towards the structurally explicit side
    ra,rb=_rank(a),_rank(b)
    if ra<rb: a,b=b,a
    return a,b
def _rank(t):
    # terms with low rank are preferred as representatives
    return (0 if t.op in('seq','mk','lit') else 2 if t.op=='var' else 3, t.wt)
_rep={}
def replace_term(t,x,y):
    return subst(t,{x:y})
def subst(t,m,memo=None):
    if memo is None: memo={}
    vids=set()
    pure=all(k.op=='var' for k in m)
    if pure: vids={k.args[0] for k in m}
    minw=min(k.wt for k in m)
    def go(t):
        r=m.get(t)
        if r is not None: return r
        if pure:
            if not (t.fv & vids): return t
        elif t.wt<minw or not t.args: return t
        r=memo.get(t.id)
        if r is not None: return r
        if t.op=='ite': r=ite(go(t.args[0]),go(t.args[1]),go(t.args[2]))
        elif t.op=='name': r=go(unnamed(t))
        else:
            n=[go(a) if isinstance(a,T) else a for a in t.args]
            if t.op=='lin': 
                r=lin_build(t.args[0],[(go(a),c) for a,c in t.args[1]])
            elif all(p is q for p,q in zip(n,t.args)): r=t
            else: r=rebuild(t,n)
        memo[t.id]=r
        return r
    return go(t)
# 'lin' keeps (term,coef) tuples inside args; patch fv/atoms handling by flattening in mk
REBUILD={}
def rebuild(t,args):
    if t.op=='lin': return lin_build(t.args[0],[(x,c) for x,c in t.args[1]])
    f=REBUILD.get(t.op)
    if f: return f(*args)
    return mk_raw(t.op,tuple(args),None if t.op in SORT else t.sort)
# ---------- constructors
def mk(name,*args): return mk_raw('mk',(name,)+args)
REBUILD['mk']=mk
def proj(i,name,t):
    """field i of t viewed as constructor `name`"""
    if t.op=='mk':
        if t.args[0]==name: return t.args[1+i]
        if t.args[0]=='jv' and name in JKINDS:
            k=JKINDS[name]; j=t.args[1]
            if k=='string': return mk_raw('jstr_',(j,),'S')
            if k=='object': return mk('jo',j)
            return mk_raw('jpart',(k,j))
        return UNDEF
    if t.op=='ite': return ite(t.args[0],proj(i,name,t.args[1]),proj(i,name,t.args[2]))
    if t is UNDEF: return UNDEF
    return mk_raw('proj',(i,name,t),PROJSORT(i,name,t.sort))
REBUILD['proj']=proj
def desc_split(d):
    out=[];k=0;st=0
    for i,c in enumerate(d):
        if c in '(<[': k+=1
        elif c in ')>]': k-=1
        elif c==',' and k==0: out.append(d[st:i]); st=i+1
    if d[st:]: out.append(d[st:])
    return out
FIELDSORT=[None]
def PROJSORT(i,name,s):
    """sort of a field, from the sort descriptor of the whole"""
    if not s.startswith('V:'): return None
    d=s[2:]
    if d.startswith('('):
        c=desc_split(d[1:-1])
        return c[i] if i<len(c) and name=='(%d)'%len(c) else None
    if d.startswith('Option<') and name=='Some': return d[7:-1]
    if d.startswith('Result<'):
        c=desc_split(d[7:-1]); return c[0 if name=='Ok' else 1]
    if FIELDSORT[0]: return FIELDSORT[0](d,name,i)
    return None
# known sum types: constructor -> ordered list of all constructors
SUMS={}
def defsum(*names):
    for n in names: SUMS[n]=names
defsum('Some','None'); defsum('Ok','Err'); defsum('Continue','Break'); defsum('Ready','Pending'); defsum('Borrowed','Owned')
defsum('Vacant','Occupied')
JKINDS={'serde_json::Value::'+k:k.lower() for k in('Null','Bool','Number','String','Array','Object')}
def isv(name,t):
    """t is constructor name (chain encoding over the declaration order)"""
    if t.op=='mk':
        if t.args[0]=='jv' and name in JKINDS: return mk_raw('jis',(JKINDS[name],t.args[1]),'B')
        return boolc(t.args[0]==name)
    if t is UNDEF: return FALSE
    if t.op=='ite': return ite(t.args[0],isv(name,t.args[1]),isv(name,t.args[2]))
    vs=SUMS.get(name)
    if vs is None: return mk_raw('is',(name,t))
    r=TRUE
    for i,v in enumerate(vs):
        if i==len(vs)-1: return r
        a=mk_raw('is',(v,t))
        if v==name: return And(r,a)
        r=And(r,Not(a))
def rebuild_is(name,t):
    # atom 'is' means: first in chain
    if t.op=='mk': return boolc(t.args[0]==name)
    if t.op=='ite': return ite(t.args[0],rebuild_is(name,t.args[1]),rebuild_is(name,t.args[2]))
    if t is UNDEF: return FALSE
    return mk_raw('is',(name,t))
REBUILD['is']=rebuild_is
def Some(x): return mk('Some',x)
NONE=mk('None')
def Ok(x): return mk('Ok',x)
def Err(x): return mk('Err',x)
def tup(*xs): return mk('(%d)'%len(xs),*xs)
def tproj(i,n,t): return proj(i,'(%d)'%n,t)
# ---------- integers (linear normal form)
def lin_parts(t):
    if t.op=='int': return t.args[0],{}
    if t.op=='lin': return t.args[0],dict(t.args[1])
    return 0,{t:1}
def lin_build(c,items):
    cc=c; d={}
    for x,k in items:
        if x.op=='ite':
            # push linear arithmetic through decision nodes
            rest=[(y,q) for y,q in items if y is not x]
            n=x.args[0]
            return ite(n,lin_build(c,rest+[(x.args[1],k)]),lin_build(c,rest+[(x.args[2],k)]))
        c0,d0=lin_parts(x)
        cc+=c0*k
        for y,q in d0.items(): d[y]=d.get(y,0)+q*k
    d={y:q for y,q in d.items() if q}
    if not d: return Int(cc)
    if cc==0 and len(d)==1:
        (y,q),=d.items()
        if q==1: return y
    items=tuple(sorted(d.items(),key=lambda p:p[0].id))
    k=('lin',(cc,items))
    t=_tab.get(k)
    if t is None:
        t=T(); t.op='lin'; t.args=(cc,items); t.id=next(_cnt); t.sort='I'
        t.atoms=frozenset().union(*[x.atoms for x,_ in items]); t.fv=frozenset().union(*[x.fv for x,_ in items])
        t.hgt=max(x.hgt for x,_ in items); t.wt=1+sum(x.wt for x,_ in items)
        _tab[k]=t
    return t
def _lin_restrict(t,at,val):
    return lin_build(t.args[0],[(_restrict(x,at,val),c) for x,c in t.args[1]])
_old_restrict=_restrict
def _restrict(t,at,val):
    if t.op=='lin':
        if at.id not in t.atoms: return t
        return _lin_restrict(t,at,val)
    return _old_restrict(t,at,val)
_g=globals()
def add(a,b): return lin_build(0,[(a,1),(b,1)])
def sub(a,b): return lin_build(0,[(a,1),(b,-1)])
def scale(a,k): return lin_build(0,[(a,k)])
def mul(a,b):
    if a.op=='int': return scale(b,a.args[0])
    if b.op=='int': return scale(a,b.args[0])
    if a.op=='ite': return ite(a.args[0],mul(a.args[1],b),mul(a.args[2],b))
    if b.op=='ite': return ite(b.args[0],mul(a,b.args[1]),mul(a,b.args[2]))
    if b.id<a.id: a,b=b,a
    return mk_raw('mulx',(a,b))
REBUILD['mulx']=mul
def _push1(f):
    """lift a unary/binary smart constructor through ite arguments"""
    def g(*args):
        for i,a in enumerate(args):
            if isinstance(a,T) and a.op=='ite':
                c,x,y=a.args
                return ite(c,g(*args[:i],x,*args[i+1:]),g(*args[:i],y,*args[i+1:]))
            if a is UNDEF: return UNDEF
        return f(*args)
    return g
def pushing(name):
    def deco(f):
        g=_push1(f); REBUILD[name]=g; return g
    return deco
@pushing('div')
def div(a,k):
    if a.op=='int' and k.op=='int' and k.args[0]!=0:
        return Int(a.args[0]//k.args[0])
    if k.op=='int' and k.args[0]==1: return a
    if k.op=='int' and a.op=='div' and a.args[1].op=='int' and k.args[0]>0 and a.args[1].args[0]>0:
        return div(a.args[0],Int(k.args[0]*a.args[1].args[0]))
    return mk_raw('div',(a,k))
@pushing('mod')
def mod(a,k):
    if a.op=='int' and k.op=='int' and k.args[0]!=0: return Int(a.args[0]%k.args[0])
    if k.op=='int' and k.args[0]==1: return Int(0)
    return mk_raw('mod',(a,k))
def le0_b(l):
    if l.op=='int': return boolc(l.args[0]<=0)
    if l.op=='ite': return ite(l.args[0],le0_b(l.args[1]),le0_b(l.args[2]))
    if l is UNDEF: return UNDEF
    # canonical polarity: first coefficient positive
    c,items=(l.args[0],l.args[1]) if l.op=='lin' else (0,((l,1),))
    if all(x.op=='len' and q>0 for x,q in items) and c>0: return FALSE
    if all(x.op=='len' and q<0 for x,q in items) and c<=0: return TRUE
    g=0
    import math
    for _,q in items: g=math.gcd(g,q)
    if g>1:
        # sum(g*x)+c<=0  <=>  sum(x)+ceil(c/g)<=0
        items=tuple((x,q//g) for x,q in items); c=-((-c)//g)
        return le0_b(lin_build(c,list(items)))
    if items[0][1]<0:
        # l<=0  <=> not (l>=1) <=> not (-l+1<=0)
        return Not(mk_raw('le0',(lin_build(1-c,[(x,-q) for x,q in items]),)))
    return mk_raw('le0',(l,))
REBUILD['le0']=le0_b
def le(a,b): return le0_b(sub(a,b))
def lt(a,b): return le0_b(add(sub(a,b),Int(1)))
def ge(a,b): return le(b,a)
def gt(a,b): return lt(b,a)
def eq0_b(l):
    if l.op=='int': return boolc(l.args[0]==0)
    if l.op=='ite': return ite(l.args[0],eq0_b(l.args[1]),eq0_b(l.args[2]))
    if l is UNDEF: return UNDEF
    c,items=(l.args[0],l.args[1]) if l.op=='lin' else (0,((l,1),))
    if items[0][1]<0: l=lin_build(-c,[(x,-q) for x,q in items])
    return mk_raw('eq0',(l,))
REBUILD['eq0']=eq0_b
def eq(a,b):
    if a is b: return TRUE
    if a.op=='ite': return ite(a.args[0],eq(a.args[1],b),eq(a.args[2],b))
    if b.op=='ite': return ite(b.args[0],eq(a,b.args[1]),eq(a,b.args[2]))
    if a is UNDEF or b is UNDEF: return UNDEF
    if a.sort=='B' or b.sort=='B': return Iff(a,b)
    if a.sort[0]=='I' or b.sort[0]=='I': return eq0_b(sub(a,b))
    if a.op=='mk' and b.op=='mk':
        if a.args[0]!=b.args[0] or len(a.args)!=len(b.args): return FALSE
        return And(*[eq(x,y) for x,y in zip(a.args[1:],b.args[1:])])
    for x,y in((a,b),(b,a)):
        if x.op=='mk' and x.args[0] in SUMS:
            return And(isv(x.args[0],y),*[eq(x.args[1+i],proj(i,x.args[0],y)) for i in range(len(x.args)-1)])
    la=a.op=='lit' or a is NIL; lb=b.op=='lit' or b is NIL
    if la and lb: return boolc(a is b)
    if a is NIL: a,b=b,a
    if b is NIL and a.op=='seq':
        return And(*[eq(x,NIL) for x in a.args])
    if b is NIL and a.op=='lit': return FALSE
    if b is NIL and a.op=='unit': return FALSE
    if (a.op=='seq' or b.op=='seq'):
        r=seq_eq(a,b)
        if r is not None: return r
    if b.id<a.id: a,b=b,a
    return mk_raw('eq',(a,b))
REBUILD['eq']=eq
def seq_eq(a,b):
    x,y=pieces(a),pieces(b)
    ch=False
    def strip(x,y):
        ch=False
        while x and y:
            if x[0] is y[0]: x.pop(0); y.pop(0); ch=True; continue
            if x[0].op=='lit' and y[0].op=='lit':
                p,q=x[0].args[0],y[0].args[0]
                n=min(len(p),len(q))
                if p[:n]!=q[:n]: return None
                x[0:1]=[Lit(p[n:])] if p[n:] else []
                y[0:1]=[Lit(q[n:])] if q[n:] else []
                ch=True; continue
            if x[0].op=='unit' and y[0].op=='unit' and len(x)==1 and len(y)==1: break
            break
        while x and y:
            if x[-1] is y[-1]: x.pop(); y.pop(); ch=True; continue
            if x[-1].op=='lit' and y[-1].op=='lit':
                p,q=x[-1].args[0],y[-1].args[0]
                n=min(len(p),len(q))
                if p[len(p)-n:]!=q[len(q)-n:]: return None
                x[-1:]=[Lit(p[:len(p)-n])] if p[:len(p)-n] else []
                y[-1:]=[Lit(q[:len(q)-n])] if q[:len(q)-n] else []
                ch=True; continue
            break
        return ch
    ch=strip(x,y)
    if ch is None: return FALSE
    if not ch: return None
    return eq(seq(*x),seq(*y))
# ---------- sequences
def unit(x):
    if x.op=='int' and 0<=x.args[0]<256: return Lit(bytes([x.args[0]]))
    if x is UNDEF: return NIL
    return mk_raw('unit',(x,),'S')
SORT['unit']='S'
def seq(*ps):
    out=[]
    def addp(p):
        if p is NIL or p is UNDEF: return
        if p.op=='seq':
            for q in p.args: addp(q)
            return
        if p.op=='lit' and out and out[-1].op=='lit':
            out[-1]=Lit(out[-1].args[0]+p.args[0]); return
        out.append(p)
    for p in ps: addp(p)
    if not out: return NIL
    if len(out)==1: return out[0]
    return mk_raw('seq',tuple(out))
REBUILD['seq']=seq
REBUILD['unit']=unit
REBUILD['lit']=lambda b: Lit(b)
def lam(vs,body):
    """close body over fresh variables vs with canonical names"""
    h=body.hgt
    names=tuple('#%d.%d'%(h,i) for i in range(len(vs)))
    m={v:Var(n,v.sort) for v,n in zip(vs,names)}
    b=subst(body,m) if any(v.args[0] in body.fv for v in vs) else body
    # substitution can change height in rare cases; iterate to a fixed point
    if b.hgt!=h:
        inv={Var(n,v.sort):v for v,n in zip(vs,names)}
        return lam(vs,subst(b,inv))
    return mk_raw('lam',(names,tuple(v.sort for v in vs),b),'L')
def rebuild_lam(names,sorts,b):
    vs=[Var(n,s) for n,s in zip(names,sorts)]
    fr=[fresh('r',s) for s in sorts]
    return lam(fr,subst(b,dict(zip(vs,fr))))
REBUILD['lam']=rebuild_lam
def app(l,*args):
    names,sorts,b=l.args
    if len(names)!=len(args): raise Exception('lam arity')
    return subst(b,{Var(n,s):a for n,s,a in zip(names,sorts,args)})
def open_lam(l):
    fr=[fresh('o',s) for s in l.args[1]]
    return fr,app(l,*fr)
def L1(f,sort='V'):
    v=fresh('l',sort); return lam([v],f(v))
IDL=None
def fm(f,l):
    """flatmap: concatenate f(x) for x in l"""
    if l is NIL or l is UNDEF: return NIL
    b=f.args[2]
    if b is NIL: return NIL
    if b.op=='unit' and b.args[0].op=='var' and b.args[0].args[0]==f.args[0][0]: return l
    if l.op=='seq': return seq(*[fm(f,p) for p in l.args])
    if l.op=='unit': return app(f,l.args[0])
    if l.op=='lit':
        return seq(*[app(f,Int(c)) for c in l.args[0]]) if len(l.args[0])<=400 else mk_raw('fm',(f,l))
    if l.op=='ite': return ite(l.args[0],fm(f,l.args[1]),fm(f,l.args[2]))
    if l.op=='fm':
        (v,),gb=open_lam(l.args[0])
        return fm(lam([v],fm(f,gb)),l.args[1])
    r=FM_RULES(f,l)
    if r is not None: return r
    return mk_raw('fm',(f,l))
REBUILD['fm']=fm
def FM_RULES(f,l):
    if l.op=='chars':
        # re-encoding every char is the identity on strings
        b=f.args[2]
        if b.op=='utf8' and b.args[0].op=='var' and b.args[0].args[0]==f.args[0][0]: return l.args[0]
    return None
def smap(f,l):
    (v,),b=open_lam(f)
    return fm(lam([v],unit(b)),l)
# ---------- pretty printing
NAMES={}
def pp(t,d=0):
    if not isinstance(t,T):
        try:
            if t in NAMES: return NAMES[t]
        except TypeError: pass
        if isinstance(t,tuple) and len(t)==256: return 'T{%s}'%','.join('%02x:%s'%(i,t[i].decode('latin1')) for i in (0,32,37,43,47,65,97,126,255))
        return repr(t)
    if d>14: return '…'
    o=t.op;a=t.args
    if o=='int': return str(a[0])
    if o=='lit': return repr(a[0])[1:]
    if o=='var': return a[0]
    if o in('true','false','undef'): return o
    if o=='seq': return '['+' ++ '.join(pp(x,d+1) for x in a)+']' if a else '""'
    if o=='unit': return '<'+pp(a[0],d+1)+'>'
    if o=='mk':
        return a[0]+('('+', '.join(pp(x,d+1) for x in a[1:])+')' if len(a)>1 else '')
    if o=='proj': return '%s.%s'%(pp(a[2],d+1),('' if a[1].startswith('(') else a[1]+'.')+str(a[0]))
    if o=='is': return '%s is %s'%(pp(a[1],d+1),a[0])
    if o=='ite': return 'if %s {%s} else {%s}'%tuple(pp(x,d+1) for x in a)
    if o=='lin': return '('+'+'.join(([str(a[0])] if a[0] else [])+[(('%d*'%c) if c!=1 else '')+pp(x,d+1) for x,c in a[1]])+')'
    if o=='lam': return 'λ%s.%s'%(','.join(a[0]),pp(a[2],d+1))
    return o+'('+', '.join(pp(x,d+1) for x in a)+')'
