"""Rewriting rules over sequences, byte maps, digits and calendar terms (the theory behind library contracts)."""
import term as tm
from term import *
import hashlib, base64
defop('S','bmap','join','utf8','hm_ins','trunc','hexw','padd','dec','tail','url_pathn','split','urlpath','fmtx','form_ser','tailn','fields','iso','trimmed','dropn','taken')
defop('I','nth_i','hour','minute','second')
defop('S','gt_email','gt_token','sb_sig')
defop('B','gt_ok','sb_ok')
defop('B','ball','all','resp_body_ok','rb_ok','json_fits','b64x_ok','jhas','jis','hm_room','hm_over','hm_had','file_utf8','env_os','strp','badslice')
defop('S','b64encx','b64xdec','rsa_junk','partial','jstr_','rawquery','urlpath','uri_str','chronotext','chrono_year','file_text','debugfmt','unkdisplay','trim_ascii')
FULL=(1<<256)-1
def mask(bs): 
    r=0
    for b in bs: r|=1<<b
    return r
UNRES=mask(b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~')
VIS=mask(list(range(32,127))+[9])
TOKEN=mask(b"!#$%&'*+-.^_`|~0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz")
PCT=tuple(bytes([b]) if UNRES>>b&1 else b'%%%02X'%b for b in range(256))
FORM=tuple(b'+' if b==32 else bytes([b]) if (bytes([b]).isalnum() and b<128) or b in b'*-._' else b'%%%02X'%b for b in range(256))
HEXL=tuple(b'%02x'%b for b in range(256))
LOWER=tuple(bytes([b]).lower() if b<128 else bytes([b]) for b in range(256))
UPPER=tuple(bytes([b]).upper() if b<128 else bytes([b]) for b in range(256))
import term as _t
_t.NAMES.update({PCT:'PCT',FORM:'FORM',HEXL:'HEXL',LOWER:'LOWER',UPPER:'UPPER',UNRES:'UNRES',VIS:'VIS',TOKEN:'TOKEN',FULL:'FULL'})
IDT=tuple(bytes([b]) for b in range(256))
def hoist(f,l,k):
    """lift atoms that do not mention the bound variables out of a lambda body"""
    b=f.args[2]; bound=set(f.args[0])
    for aid in b.atoms:
        a=ATOMS[aid]
        if not (a.fv & bound) and not any(n[0]=='#' for n in a.fv):
            vs,body=open_lam(f)
            return ite(a,k(lam(vs,restrict(body,a,True)),restrict(l,a,True)),k(lam(vs,restrict(body,a,False)),restrict(l,a,False)))
    return None
_rng={}
def rng(t):
    """mask of the bytes a string term can contain"""
    r=_rng.get(t.id)
    if r is not None: return r
    o=t.op
    if o=='lit': r=mask(t.args[0])
    elif o=='seq':
        r=0
        for p in t.args: r|=rng(p)
    elif o=='ite': r=rng(t.args[1])|rng(t.args[2])
    elif o=='bmap':
        m=rng(t.args[1]); r=0
        for b in range(256):
            if m>>b&1: r|=mask(t.args[0][b])
    elif o=='join': r=rng_elems(t.args[0])|rng(t.args[1])
    elif o in('dec','padd'): r=mask(b'0123456789')|(0 if lower_bound(t.args[0])is not None and lower_bound(t.args[0])>=0 else mask(b'-'))
    elif o in('sha256hex',): r=mask(b'0123456789abcdef')
    elif o=='b64enc': r=mask(b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=')
    elif o=='urlpath': r=mask(range(33,127))&~mask(b'?#"<>`{}')
    elif o=='form_ser': r=mask(b'&=')|(mask(b'+%*-._')|mask(b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789'))
    elif o in('trim','tail','take','split1'): r=rng(t.args[0])
    elif o=='fm':
        b=t.args[0].args[2]; r=rng(b)
    elif o=='unit':
        x=t.args[0]; r=mask([x.args[0]]) if x.op=='int' and 0<=x.args[0]<256 else FULL
    elif o in('sort','sset') : r=rng(t.args[0])
    else: r=FULL
    _rng[t.id]=r
    return r
def rng_elems(l):
    """mask of the bytes of the strings in a list of strings"""
    o=l.op
    if l is NIL: return 0
    if o=='seq':
        r=0
        for p in l.args: r|=rng_elems(p)
        return r
    if o=='unit': return rng(l.args[0])
    if o=='ite': return rng_elems(l.args[1])|rng_elems(l.args[2])
    if o=='fm': return rng_elems(l.args[0].args[2])
    if o in('sort','sset'): return rng_elems(l.args[0])
    if o=='split': return rng(l.args[0])
    return FULL
# ---- byte maps
def bmap(t,s):
    if s is NIL: return NIL
    if s is UNDEF: return NIL
    m=rng(s)
    if all(t[b]==IDT[b] for b in range(256) if m>>b&1): return s
    o=s.op
    if o=='lit': return Lit(b''.join(t[b] for b in s.args[0]))
    if o=='seq': return seq(*[bmap(t,p) for p in s.args])
    if o=='ite': return ite(s.args[0],bmap(t,s.args[1]),bmap(t,s.args[2]))
    if o=='bmap': return bmap(tuple(b''.join(t[c] for c in x) for x in s.args[0]),s.args[1])
    if o=='join':
        (v,)=[fresh('j','S')]
        return join(fm(lam([v],unit(bmap(t,v))),s.args[0]),bmap(t,s.args[1]))
    # keep only what the argument can contain
    t=tuple(t[b] if m>>b&1 else b'' for b in range(256))
    return mk_raw('bmap',(t,s))
REBUILD['bmap']=bmap
def ball(m,s):
    """every byte of s is in the mask m"""
    if s is NIL: return TRUE
    r=rng(s)
    if r&~m==0: return TRUE
    o=s.op
    if o=='lit': return boolc(mask(s.args[0])&~m==0)
    if o=='seq': return And(*[ball(m,p) for p in s.args])
    if o=='ite': return ite(s.args[0],ball(m,s.args[1]),ball(m,s.args[2]))
    if o=='bmap':
        return ball(mask([b for b in range(256) if mask(s.args[0][b])&~m==0]),s.args[1])
    if o=='join' and rng(s.args[1])&~m==0:
        v=fresh('j','S'); return all_(lam([v],ball(m,v)),s.args[0])
    return mk_raw('ball',(m&r if r!=FULL else m,s))
REBUILD['ball']=ball
_bl={}
def byte_lam(f):
    """256-entry table of a closed byte lambda, or None"""
    if f.args[1]!=('I8',): return None
    if f.fv: return None
    r=_bl.get(f.id,0)
    if r==0:
        out=[]
        for b in range(256):
            x=app(f,Int(b))
            if x is NIL: out.append(b'')
            elif x.op=='lit': out.append(x.args[0])
            else: out=None; break
        r=_bl[f.id]=tuple(out) if out is not None else None
    return r
def utf8(c):
    if c.op=='int':
        try: return Lit(chr(c.args[0]).encode())
        except Exception: return NIL
    if c.op=='ite': return ite(c.args[0],utf8(c.args[1]),utf8(c.args[2]))
    if c is UNDEF: return NIL
    return mk_raw('utf8',(c,))
REBUILD['utf8']=utf8
def chars(s):
    if s is NIL: return NIL
    if s.op=='lit':
        try: return seq(*[unit_c(ord(c)) for c in s.args[0].decode()])
        except UnicodeDecodeError: pass
    if s.op=='ite': return ite(s.args[0],chars(s.args[1]),chars(s.args[2]))
    if s.op=='seq': return seq(*[chars(p) for p in s.args])
    return mk_raw('chars',(s,))
def unit_c(n): return Lit(bytes([n])) if n<128 else mk_raw('unit',(Int(n),),'S')
REBUILD['chars']=chars
def char_table(f):
    """a char lambda that agrees with utf8 on every non-ASCII char, as a byte table"""
    if f.args[1]!=('IC',) or f.fv: return None
    (c,),b=open_lam(f)
    for aid in list(b.atoms):
        a=ATOMS[aid]
        if a.op not in('le0','eq0'): return None
        l=a.args[0]
        if lin_items(l)!=((c,1),): return None
    # assume c>=128: every atom must be decided and the result must be utf8(c)
    g=restrict(b,ATOMS_le(c,127),False)
    if g is not utf8(c): return None
    out=[]
    for x in range(128):
        r=app(f,Int(x))
        if r is NIL: out.append(b'')
        elif r.op=='lit': out.append(r.args[0])
        else: return None
    return tuple(out)+IDT[128:]
def lin_items(l): return l.args[1] if l.op=='lin' else ((l,1),)
def ATOMS_le(x,k):
    a=le(x,Int(k))
    return a
def nonempty(l):
    o=l.op
    if o in('split','unit','lit'): return True
    if o=='seq': return any(nonempty(p) for p in l.args)
    if o in('sort','sset','rev','hm_iter','sgroup'): return nonempty(l.args[0])
    if o=='fm': return nonempty(l.args[0].args[2]) and nonempty(l.args[1])
    return False
def _fm_rules(f,l):
    h=hoist(f,l,fm)
    if h is not None: return h
    b=f.args[2]
    if b.op=='seq' and f.args[1]!=('I8',) and (b.args[0].op=='lit' or b.args[-1].op=='lit') and not any(p.op=='unit' for p in b.args) and nonempty(l):
        # separator before (after) every element of a non-empty list
        (x,),b=open_lam(f)
        if b.args[0].op=='lit': return seq(b.args[0],join(fm(lam([x],unit(seq(*b.args[1:]))),l),b.args[0]))
        return seq(join(fm(lam([x],unit(seq(*b.args[:-1]))),l),b.args[-1]),b.args[-1])
    t=byte_lam(f)
    if t is not None: return bmap(t,l)
    b=f.args[2]
    v=b
    if l.op=='chars':
        if b.op=='utf8' and b.args[0].op=='var' and b.args[0].args[0]==f.args[0][0]: return l.args[0]
        t=char_table(f)
        if t is not None: return bmap(t,l.args[0])
    if l.op in('bmap','lit') and f.args[1][0][0]=='I' and rng(l)>>128==0:
        # a list of characters that are all ASCII is the byte string itself
        if b.op=='utf8' and b.args[0].op=='var' and b.args[0].args[0]==f.args[0][0]: return l
        t=char_table(f)
        if t is not None: return bmap(t,l)
    if l.op=='sgroup' and f.args[1]!=('I8',):
        # the keys of a sorted association list are the sorted distinct keys of the pairs
        (x,),b=open_lam(f); n=fresh('k','S'); b2=subst(b,{tproj(0,2,x):n})
        if x.args[0] not in b2.fv:
            v=fresh('p','V:(S,S)')
            return fm(lam([n],b2),sset(fm(lam([v],unit(tproj(0,2,v))),l.args[0])))
    return None
tm.FM_RULES=_fm_rules
def _fm_outer(f,l):
    return None
# ---- quantifier over a list
def all_(f,l):
    b=f.args[2]
    if b is TRUE or l is NIL or l is UNDEF: return TRUE
    if l.op=='seq': return And(*[all_(f,p) for p in l.args])
    if l.op=='unit': return app(f,l.args[0])
    if l.op=='lit':
        return And(*[app(f,Int(c)) for c in l.args[0]])
    if l.op=='ite': return ite(l.args[0],all_(f,l.args[1]),all_(f,l.args[2]))
    if l.op=='fm':
        (v,),gb=open_lam(l.args[0])
        return all_(lam([v],all_(f,gb)),l.args[1])
    h=hoist(f,l,all_)
    if h is not None: return h
    if f.args[1]==('I8',) and not f.fv:
        m=0; ok=True
        for x in range(256):
            r=app(f,Int(x))
            if r is TRUE: m|=1<<x
            elif r is not FALSE: ok=False; break
        if ok: return ball(m,l)
    if b is FALSE: return eq(l,NIL)
    # split conjunctions
    if b.op=='ite' and b.args[2] is FALSE:
        vs,ob=open_lam(f)
        return And(all_(lam(vs,ob.args[0]),l),all_(lam(vs,ob.args[1]),l)) if ob.op=='ite' else all_(lam(vs,ob),l)
    if b.op=='ite' and b.args[1] is FALSE:
        vs,ob=open_lam(f)
        if ob.op=='ite' and ob.args[1] is FALSE and ob.args[2] is not TRUE: return And(all_(lam(vs,Not(ob.args[0])),l),all_(lam(vs,ob.args[2]),l))
    if l.op in('sort','sset','rev'): return all_(f,l.args[0])
    if l.op=='hm_keys':
        v=fresh('p','V:(S,S)')
        (k,),ob=open_lam(f)
        if ob.op=='all' and ob.args[1].op=='hm_vals' and ob.args[1].args[0] is l.args[0] and ob.args[1].args[1] in(k,bmap(LOWER,k)) and k.args[0] not in ob.args[0].fv:
            return all_(lam([v],app(ob.args[0],tproj(1,2,v))),l.args[0])   # the values of every name are all the values
        return all_(lam([v],subst(ob,{k:tproj(0,2,v)})),l.args[0])
    if l.op=='hm_iter': return all_(f,l.args[0])
    return mk_raw('all',(f,l))
REBUILD['all']=all_
def any_(f,l):
    vs,b=open_lam(f)
    return Not(all_(lam(vs,Not(b)),l))
# ---- joining and splitting
@pushing('join')
def join(l,sep):
    if l is NIL: return NIL
    if sep is NIL:
        v=fresh('j','S'); return fm(lam([v],v),l)
    ps=pieces(l)
    if all(p.op=='unit' for p in ps):
        out=[]
        for i,p in enumerate(ps):
            if i: out.append(sep)
            out.append(p.args[0])
        return seq(*out)
    if l.op=='split' and l.args[1] is sep: return l.args[0]
    if l.op=='fm' and sep.op=='lit' and len(sep.args[0])==1 and l.args[1].op=='split' and l.args[1].args[1] is sep:
        # element-wise byte maps on the parts of a split: one byte map that keeps the separator
        (x,),b=open_lam(l.args[0])
        if b.op=='unit' and b.args[0].op=='bmap' and b.args[0].args[1] is x:
            t=list(b.args[0].args[0]); t[sep.args[0][0]]=sep.args[0]
            return bmap(tuple(t),l.args[1].args[0])
    return mk_raw('join',(l,sep))
@pushing('split')
def split(s,c):
    if s.op=='lit' and c.op=='lit': return seq(*[unit(Lit(x)) if x else mk_raw('unit',(NIL,),'S') for x in s.args[0].split(c.args[0])])
    if s is NIL: return unit(NIL)
    return mk_raw('split',(s,c))
@pushing('sort')
def sort(l):
    if l is NIL or l.op in('sort','sset'): return l
    if l.op=='unit': return l
    if l.op=='hm_keys': return sset(l)   # the names of a map are distinct
    if l.op=='seq':
        # sorting forgets the order of the parts
        ps=sorted(l.args,key=lambda p:p.id)
        l=mk_raw('seq',tuple(ps),'S')
    return mk_raw('sort',(l,))
def hm_flat(l,keep):
    return l
@pushing('sset')
def sset(l):
    """sorted list of the distinct elements"""
    if l is NIL or l.op=='unit' or l.op=='sset': return l
    if l.op=='sort': return sset(l.args[0])
    l2=unorder(l)
    if l2 is not l: return sset(l2)
    if l.op=='seq':
        ps=sorted(set(l.args),key=lambda p:p.id)
        l=mk_raw('seq',tuple(ps),'S') if len(ps)>1 else ps[0]
        if l.op=='unit': return l
    return mk_raw('sset',(l,))
def unorder(l):
    """an equal list up to order and multiplicity"""
    if l.op=='fm':
        b=l.args[0].args[2]
        g=l.args[1]
        if g.op=='hm_keys':
            (k,),ob=open_lam(l.args[0]); v=fresh('p','V:(S,S)')
            return unorder(fm(lam([v],subst(ob,{k:tproj(0,2,v)})),g.args[0]))
        if g.op in('sort','sset','hm_iter'): return unorder(fm(l.args[0],g.args[0]))
    if l.op=='hm_keys':
        v=fresh('p','V:(S,S)'); return fm(lam([v],unit(tproj(0,2,v))),l.args[0])
    if l.op=='hm_iter': return l.args[0]
    if l.op=='seq': return seq(*[unorder(p) for p in l.args])
    return l
def sgroup(kf,vf,l):
    """sorted association list: key -> values in order of appearance.  kf,vf lambdas over the elements of l"""
    if l is NIL: return NIL
    if l.op=='ite': return ite(l.args[0],sgroup(kf,vf,l.args[1]),sgroup(kf,vf,l.args[2]))
    if l.op=='hm_iter':
        # the iteration keeps the order of the values of each name; grouping by (a function of) the name is insensitive to the rest
        (x,),kb=open_lam(kf)
        if kb is tproj(0,2,x): return sgroup(kf,vf,l.args[0])
    if kf.args[2].op=='var' or True:
        # canonical: push element functions into the list of (key,value) pairs
        (x,),kb=open_lam(kf); vb=app(vf,x)
        pl=fm(lam([x],unit(tup(kb,vb))),l)
        return sgroup1(pl)
REBUILD['sgroup']=lambda l: sgroup1(l)
def sgroup1(l):
    if l is NIL: return NIL
    if l.op=='ite': return ite(l.args[0],sgroup1(l.args[1]),sgroup1(l.args[2]))
    def plain(p):
        # header iteration order only regroups by (lower-case) name: immaterial when grouping by that name
        if p.op=='fm' and p.args[1].op=='hm_iter':
            (x,),b=open_lam(p.args[0])
            if b.op=='unit' and b.args[0].op=='mk' and b.args[0].args[0]=='(2)':
                k=b.args[0].args[1]; n=tproj(0,2,x)
                if k is n or k is bmap(LOWER,n): return fm(p.args[0],p.args[1].args[0])
        if p.op=='hm_iter': return p.args[0]
        return p
    if l.op in('seq','fm','hm_iter'):
        l2=seq(*[plain(p) for p in pieces(l)])
        if l2 is not l: return sgroup1(l2)
    return mk_raw('sgroup',(l,))
# ---- lists
@pushing('len')
def length(s):
    if s is NIL: return Int(0)
    if s.op=='lit': return Int(len(s.args[0]))
    if s.op=='unit': return Int(1)
    if s.op=='seq':
        r=Int(0)
        for p in s.args: r=add(r,length(p))
        return r
    if s.op=='bmap':
        m=rng(s.args[1]); w={len(s.args[0][b]) for b in range(256) if m>>b&1}
        if len(w)==1: return scale(length(s.args[1]),w.pop())
    if s.op=='fm':
        n=length(s.args[0].args[2])
        if n.op=='int': return scale(length(s.args[1]),n.args[0])
    if s.op in('sort','rev'): return length(s.args[0])
    if s.op=='replit': return s.args[1]
    return mk_raw('len',(s,))
def is_empty(s):
    if s.op=='lit': return FALSE
    return eq(s,NIL)
def first(l,so='V'):
    """option of the first element"""
    ps=pieces(l)
    if l is NIL: return NONE
    p=ps[0]
    if p.op=='unit': return Some(p.args[0])
    if p.op=='lit': return Some(Int(p.args[0][0]))
    if l.op=='ite': return ite(l.args[0],first(l.args[1],so),first(l.args[2],so))
    return ite(eq(l,NIL),NONE,Some(mk_raw('nth',(l,Int(0),so),so)))
@pushing('tail')
def tail(l):
    if l is NIL: return NIL
    ps=pieces(l)
    if ps[0].op=='unit': return seq(*ps[1:])
    if ps[0].op=='lit': return seq(Lit(ps[0].args[0][1:]),*ps[1:])
    return mk_raw('tail',(l,))
@pushing('trim')
def trim(s):
    if s is NIL: return NIL
    if s.op=='lit': return Lit(s.args[0].decode('utf8','replace').strip().encode())
    if s.op=='trim': return s
    if rng(s)&mask(b' \t\n\r\x0b\x0c')==0 and rng(s)<(1<<128): return s
    return mk_raw('trim',(s,))
# ---- numbers to text
INTR={}
for b_ in(8,16,32,64,128): INTR['u%d'%b_]=(0,2**b_-1); INTR['i%d'%b_]=(-2**(b_-1),2**(b_-1)-1)
def lower_bound(x):
    o=x.op
    if o=='int': return x.args[0]
    if o in('len','month','day','hour','minute','second','resp_status','mod','rsa_modlen','unsigned'): return {'month':1,'day':1}.get(o,0)
    if o=='lin':
        r=x.args[0]
        for y,c in x.args[1]:
            b=lower_bound(y) if c>0 else upper_bound(y)
            if b is None: return None
            r+=c*b
        return r
    if o=='div' and x.args[1].op=='int' and x.args[1].args[0]>0:
        b=lower_bound(x.args[0]); return None if b is None else b//x.args[1].args[0]
    if o=='var' and x.args[1]=='I8': return 0
    if o=='year':
        b=lower_bound(x.args[0]); return None if b is None else year_of(b)
    if o=='now': return 0
    if o=='jmember' and x.args[1] in INTR: return INTR[x.args[1]][0]
    if o=='ID' or x.sort=='ID': return 0
    if x.sort=='IT' and o in('var','proj'): return -(2**63)*10**9
    return None
MAXLEN=2**47   # no string or vector is longer than the user address space (assumed; listed in the evidence)
def upper_bound(x):
    o=x.op
    if o=='int': return x.args[0]
    if o in('month','day','hour','minute','second'): return {'month':12,'day':31,'hour':23,'minute':59,'second':59}[o]
    if o=='jmember' and x.args[1] in INTR: return INTR[x.args[1]][1]
    if o=='mod' and x.args[1].op=='int': return x.args[1].args[0]-1
    if o=='lin':
        r=x.args[0]
        for y,c in x.args[1]:
            b=upper_bound(y) if c>0 else lower_bound(y)
            if b is None: return None
            r+=c*b
        return r
    if o=='div' and x.args[1].op=='int' and x.args[1].args[0]>0:
        b=upper_bound(x.args[0]); return None if b is None else b//x.args[1].args[0]
    if o=='var' and x.args[1]=='I8': return 255
    if o=='year':
        b=upper_bound(x.args[0]); return None if b is None else year_of(b)
    if o=='len': return MAXLEN
    if o=='now' or (x.sort=='IT' and o in('var','proj')): return (2**63)*10**9-1
    return None
@pushing('dec')
def dec(x):
    if x.op=='int': return Lit(str(x.args[0]))
    return mk_raw('dec',(x,))
def padd(x,n):
    """decimal, zero padded to at least n characters"""
    n_=n.args[0] if isinstance(n,T) else n
    if x.op=='int': return Lit('%0*d'%(n_,x.args[0]))
    if x.op=='ite': return ite(x.args[0],padd(x.args[1],n_),padd(x.args[2],n_))
    if x is UNDEF: return NIL
    if n_<=1: return dec(x)
    if x.op=='lin':
        for k in range(1,n_):
            q=10**k
            hi=[(y,c//q) for y,c in x.args[1] if c%q==0]; lo=[(y,c) for y,c in x.args[1] if c%q]
            c0=x.args[0]
            if not hi: continue
            lot=lin_build(c0%q,lo); hit=lin_build(c0//q,hi)
            a,b=lower_bound(lot),upper_bound(lot)
            if a is not None and b is not None and 0<=a and b<q:
                h0=lower_bound(hit)
                good=seq(padd(hit,n_-k),padd(lot,k))
                if h0 is not None and h0>=0: return good
                cond=And(*[le(Int(0),y) for y,cc in hi if lower_bound(y) is None]) if all(cc>0 for _,cc in hi) and c0//q>=0 else le(Int(0),hit)
                return ite(cond,good,mk_raw('padd',(x,Int(n_))))
    return mk_raw('padd',(x,Int(n_)))
REBUILD['padd']=padd
def fmtx(x,w,up):
    """hexadecimal, zero padded to at least w"""
    if x.op=='int':
        s='%0*x'%(w,x.args[0]) if x.args[0]>=0 else '?'
        return Lit(s.upper() if up else s)
    if x.op=='ite': return ite(x.args[0],fmtx(x.args[1],w,up),fmtx(x.args[2],w,up))
    if x is UNDEF: return NIL
    return mk_raw('fmtx',(x,w,up),'S')
REBUILD['fmtx']=fmtx
def replace_(s,a,b):
    if s.op=='ite': return ite(s.args[0],replace_(s.args[1],a,b),replace_(s.args[2],a,b))
    if s.op=='lit' and a.op=='lit' and (b.op=='lit' or b is NIL): return Lit(s.args[0].replace(a.args[0],b.args[0] if b.op=='lit' else b''))
    if a.op=='lit' and len(a.args[0])==1 and (b.op=='lit' or b is NIL):
        c=a.args[0][0]
        return bmap(tuple((b.args[0] if b.op=='lit' else b'') if x==c else IDT[x] for x in range(256)),s)
    return mk_raw('replace',(s,a,b))
REBUILD['replace']=replace_
# ---- calendar: year thresholds are exact facts about the proleptic Gregorian calendar
def days_from_civil(y,m,d):
    y-=m<=2; era=y//400; yoe=y-era*400
    doy=(153*(m+(-3 if m>2 else 9))+2)//5+d-1
    return era*146097+yoe*365+yoe//4-yoe//100+doy-719468
def year_start(y): return days_from_civil(y,1,1)*86400
_old_le0=tm.le0_b
def le0_b(l):
    if l.op in('lin','year') or True:
        c,items=tm.lin_key(l) if l.op not in('int','ite') and l is not UNDEF else (0,())
        if len(items)==1 and items[0][0].op=='year':
            y,k=items[0]
            t=y.args[0]
            # k*year + c <= 0
            if k>0: return lt(t,Int(year_start((-c)//k+1)))
            b=-((-c)//(-k)) if False else -(-c//-k) # ceil(c/-k)
            b=(c+(-k)-1)//(-k)
            return le(Int(year_start(b)),t)
        if items and l.op in('lin','month','day','hour','minute','second','mod','len','resp_status','rsa_modlen','var','div','unsigned'):
            u=upper_bound(l); d=lower_bound(l)
            if u is not None and u<=0: return TRUE
            if d is not None and d>0: return FALSE
    return _old_le0(l)
tm.le0_b=le0_b; REBUILD['le0']=le0_b
# ---- encodings with exact evaluation on literals
@pushing('sha256hex')
def sha256hex(s):
    if s.op=='lit': return Lit(hashlib.sha256(s.args[0]).hexdigest())
    return mk_raw('sha256hex',(s,))
@pushing('b64enc')
def b64enc(s):
    if s is NIL: return NIL
    if s.op=='lit': return Lit(base64.b64encode(s.args[0]))
    return mk_raw('b64enc',(s,))
@pushing('form_ser')
def form_ser(l): return mk_raw('form_ser',(l,)) if l is not NIL else NIL
@pushing('form_parse')
def form_parse(s):
    if s is NIL: return NIL
    if s.op=='form_ser': return s.args[0]
    return mk_raw('form_parse',(s,))
@pushing('hm_vals')
def hm_vals(l,k): return mk_raw('hm_vals',(l,k)) if l is not NIL else NIL
_old_fm_rules=_t.FM_RULES
def fm_rules(f,l):
    r=_old_fm_rules(f,l)
    if r is not None or l.op!='sset': return r
    (x,),b=open_lam(f); occ=set(); seen=set(); st=[b]
    while st:
        t=st.pop()
        if not isinstance(t,T) or t.id in seen: continue
        seen.add(t.id)
        if t.op=='hm_vals' and t.args[1] in(x,bmap(LOWER,x)): occ.add(t)
        st.extend(t.args)
    hs={t.args[0] for t in occ}
    if len(hs)!=1 or x.args[0] in next(iter(hs)).fv: return None
    h=next(iter(hs))
    if sset(hm_keys(h)) is not l: return None
    # walking the sorted names and looking the values of each up is walking the grouped map
    p=fresh('p','V:(S,S)'); g=fresh('g','V:(S,S)'); gk,gv=tproj(0,2,g),tproj(1,2,g); seen=set(); st=[b]; uses=set(); bare=False
    while st:
        t=st.pop()
        if not isinstance(t,T) or t.id in seen: continue
        seen.add(t.id)
        if t.op=='fm' and t.args[1] in occ and x.args[0] not in t.args[0].fv: uses.add(t); continue
        if t in occ: bare=True
        st.extend(t.args)
    fs={u.args[0] for u in uses}
    low={bmap(LOWER,x):gk} if sset(fm(lam([p],unit(bmap(LOWER,tproj(0,2,p)))),h)) is l else {}
    if not bare and len(fs)==1:
        (v,),vb=open_lam(next(iter(fs)))
        if vb.op=='unit':
            return fm(lam([g],subst(b,{**{u:gv for u in uses},**low,x:gk})),sgroup(lam([p],tproj(0,2,p)),lam([p],subst(vb.args[0],{v:tproj(1,2,p)})),h))
    return fm(lam([g],subst(b,{**{o:gv for o in occ},**low,x:gk})),sgroup(lam([p],tproj(0,2,p)),lam([p],tproj(1,2,p)),h))
_t.FM_RULES=fm_rules
@pushing('hm_keys')
def hm_keys(l): return mk_raw('hm_keys',(l,)) if l is not NIL else NIL
@pushing('hm_iter')
def hm_iter(l): return mk_raw('hm_iter',(l,)) if l is not NIL else NIL
# ---- theory links between atoms: known(at,val) => value of another atom or None
def t_links(at,val,b):
    # s=="" known  / literal equalities on the same string
    if at.op=='eq' and b.op=='eq' and val is False: return None
    if at.op=='ball' and b.op=='ball' and at.args[1] is b.args[1]:
        if val and at.args[0]&~b.args[0]==0: return True
        if not val and b.args[0]&~at.args[0]==0: return False
    if at.op=='le0' and b.op in('le0','eq0') and b.args[0].op=='lin' and any(y.op in('year','div') for y,_ in b.args[0].args[1]):
        c,items=tm.lin_key(at.args[0])
        if len(items)==1 and items[0][1] in(1,-1):
            u,k=items[0]
            # k*u + c <= 0  (val) or >= 1
            if k==1: lo,hi=(None,-c) if val else (1-c,None)
            else: lo,hi=(c,None) if val else (None,c-1)
            def ybound(y,up):
                if y.op=='year' and y.args[0] is u:
                    z=hi if up else lo
                    if z is None: return None
                    return year_of(z)
                if y.op=='div' and y.args[0] is u and y.args[1].op=='int' and y.args[1].args[0]>0:
                    z=hi if up else lo
                    if z is not None: return z//y.args[1].args[0]
                return upper_bound(y) if up else lower_bound(y)
            def lb(up):
                r=b.args[0].args[0]
                for y,k in b.args[0].args[1]:
                    z=ybound(y,up if k>0 else not up)
                    if z is None: return None
                    r+=k*z
                return r
            L,U=lb(False),lb(True)
            if b.op=='le0':
                if U is not None and U<=0: return True
                if L is not None and L>0: return False
            else:
                if (U is not None and U<0) or (L is not None and L>0): return False
    return None
def year_of(t):
    d=t//86400; y=1970+d*400//146097
    while days_from_civil(y,1,1)>d: y-=1
    while days_from_civil(y+1,1,1)<=d: y+=1
    return y
tm.THEORY.append(t_links)
