"""Contracts of the crate's public functions: each listed property as postconditions over the terms that
symbolic execution of the real bodies (MIR of /repo's current tree) produced.

An obligation is (name, function, status, detail, seconds) with status
  proved    every feasible path satisfies it
  refuted   some feasible path provably differs from the specification (confirmed by evaluating both on an assignment)
  unproved  not discharged (unmodelled code, lost anchor, unconfirmed mismatch)"""
import time, os
import exec as X, lib, drive, rules as R, term as tm, prove as P
from term import *
from rules import *
from prove import equal, valid, feasible_t, has_unknown, subterms, leaves
VERBS=['DELETE','GET','HEAD','POST','PUT']
NS=10**9; NSI=Int(10**9)
KEEPSLASH=tuple(b'/' if b==47 else PCT[b] for b in range(256))
HOSTPAIR=tup(Lit('host'),Lit('storage.googleapis.com'))
class Lost(Exception): pass
def bleaves(f):
    for conds,l in leaves(f):
        if is_atom(l): yield conds+((l,True),),TRUE; yield conds+((l,False),),FALSE
        else: yield conds,l
class Ob:
    def __init__(s,name,fn,status,detail='',secs=0.0,hints=()): s.name=name;s.fn=fn;s.status=status;s.detail=detail;s.secs=secs;s.hints=list(hints)
    def row(s): return dict(name=s.name,function=s.fn,status=s.status,detail=s.detail,secs=round(s.secs,3),hints=s.hints)
# ------------------------------------------------------------------ machine and anchors
class Ctx:
    Lost=Lost
    def __init__(c,m): c.m=m; c.memo={}
    def body(c,mod,name,nparams=None):
        bs=[b for b in c.m.bodies if b.kind!='const' and b.name.startswith(mod+'::') and b.name.split('::')[-1]==name and '{closure' not in b.name]
        if nparams is not None: bs=[b for b in bs if len(b.params)==nparams]
        if len(bs)!=1: raise Lost('%s::%s (%d candidates)'%(mod,name,len(bs)))
        return bs[0]
    def inh(c,ty,meth):
        """inherent method of a type by the type's last path segment"""
        bs=[b for (p,n),b in c.m.inh.items() if n==meth and p.split('::')[-1]==ty]
        if len(bs)!=1: raise Lost('%s::%s (%d candidates)'%(ty,meth,len(bs)))
        return bs[0]
    def struct(c,path):
        s=c.m.src.structs.get(path)
        if s is None: raise Lost('struct '+path)
        return s
    def key(c,kind,exact=False):
        """a signing key as the public constructors make it"""
        if (kind,exact) in c.memo: return c.memo[kind,exact]
        if kind=='ServiceAccount': r=drive.symcall(c.m,c.inh('SigningKey','service_account'),[Var('email','S'),Var('pk','S')])
        elif kind=='Hmac': r=drive.symcall(c.m,c.inh('SigningKey','hmac'),[Var('access_id','S'),Var('secret','S')])
        else: r=drive.symcall(c.m,c.inh('SigningKey','bound_token'),[])
        if r.pc is not TRUE: raise Lost('key constructor '+kind+' may not return')
        v=r.value
        if kind=='BoundToken' and not exact:
            # any metadata base: the environment-dependent text inside the key is an arbitrary text here
            xs=[t for t in subterms(v,lambda t: t.sort=='S' and t.op in('seq','ite','env') and 'env' in pp(t))]
            xs.sort(key=lambda t:-t.wt)
            if xs: v=subst(v,{xs[0]:Var('metadata_base','S')})
        c.memo[kind,exact]=v; return v
# ------------------------------------------------------------------ build_signed_url
URLF=dict(bucket_name=('bucket','S'),object_name=('object','S'),expires=('expires','IT'),http_method=('method','S'),use_sign_blob=('blob','B'))
class UrlRun: pass
def opt_struct(c,path,given):
    """a struct value with the named fields given and every other field a variable of that name"""
    s=c.struct(path); a=[]
    for n,t in [f[:2] for f in s.fields]:
        if n in given: a.append(given[n])
        else: a.append(c.m.expand(Var(n,c.m.desc(t,s.mod))))
    for n in given:
        if n not in [f[0] for f in s.fields]: raise Lost('field %s of %s'%(n,path))
    return mk(path,*a)
def url_run(c,verb,at,kind,blob):
    k=('url',verb,at,kind,blob)
    if k in c.memo: return c.memo[k]
    b=c.body('signed_url','build_signed_url',1)
    r=UrlRun(); r.verb,r.at,r.kind,r.blob=verb,at,kind,blob
    r.bucket=Var('bucket','S'); r.object=Var('object','S'); r.region=Var('region','V:Option<S>'); r.expires=Var('expires','IT')
    r.headers=Var('headers','S'); r.query=Var('query','S')
    s=c.struct('signed_url::BuildSignedUrlOptions')
    types={n:c.m.desc(t,s.mod) for n,t in [f[:2] for f in s.fields]}
    r.headers=Var('headers',types.get('headers','S')); r.query=Var('query',types.get('query_parameters','S')); r.region=Var('region',types.get('region','V:Option<S>'))
    r.method=Var('method','S'); pc=TRUE
    if verb=='other':
        for v in VERBS: pc=And(pc,Not(eq(r.method,Lit(v))))
    elif verb is not None: r.method=Lit(verb)
    at_t=Some(Var('at','IT')) if at else NONE
    o=opt_struct(c,'signed_url::BuildSignedUrlOptions',dict(bucket_name=r.bucket,object_name=r.object,region=r.region,expires=r.expires,http_method=r.method,
        accessible_at=at_t,signing_key=c.key(kind),use_sign_blob=boolc(blob),headers=r.headers,query_parameters=r.query))
    r.pc0=pc
    r.call=drive.symcall(c.m,b,[o],pc=pc)
    r.fn=b.name; v=r.call.value
    r.value=v; r.okc=And(r.call.pc,isv('Ok',v)) ; r.U=proj(0,'Ok',v)
    r.U=P.assume(P.under(r.U,r.okc),r.okc)
    nows=[t for t in subterms(r.call.W,lambda t: t.op=='mk' and t.args[0]=='now')]
    r.t=Var('at','IT') if at else mk_raw('now',(NIL,))
    c.memo[k]=r
    return r
def ok_cases():
    for kind,blob in(('ServiceAccount',False),('BoundToken',True)):
        for v in VERBS:
            for at in(1,0): yield v,at,kind,blob
def bad_cases():
    for kind,blob in(('ServiceAccount',True),('BoundToken',False),('Hmac',False),('Hmac',True)):
        for at in(1,0): yield None,at,kind,blob
# specification terms ------------------------------------------------
def ymd8(sec): return seq(padd(R.REBUILD['year'](sec),4),padd(R.REBUILD['month'](sec),2),padd(R.REBUILD['day'](sec),2))
def hms6(sec): return seq(padd(R.REBUILD['hour'](sec),2),padd(R.REBUILD['minute'](sec),2),padd(R.REBUILD['second'](sec),2))
def basic16(sec): return seq(ymd8(sec),Lit('T'),hms6(sec),Lit('Z'))
def rfc20(sec):
    return seq(padd(R.REBUILD['year'](sec),4),Lit('-'),padd(R.REBUILD['month'](sec),2),Lit('-'),padd(R.REBUILD['day'](sec),2),Lit('T'),
        padd(R.REBUILD['hour'](sec),2),Lit(':'),padd(R.REBUILD['minute'](sec),2),Lit(':'),padd(R.REBUILD['second'](sec),2),Lit('Z'))
def region_term(region): return ite(isv('Some',region),proj(0,'Some',region),Lit('auto'))
def scope(sec,region): return seq(ymd8(sec),Lit('/'),region_term(region),Lit('/storage/goog4_request'))
def pct(s): return bmap(PCT,s)
def pairs(f,l):
    """list comprehension over a list of (name,value) pairs"""
    x=fresh('p','V:(S,S)')
    return fm(lam([x],unit(f(tproj(0,2,x),tproj(1,2,x)))),l)
def header_list(h): return seq(unit(HOSTPAIR),h)
def spec_HL(h):
    g=sgroup1(pairs(lambda k,v: tup(bmap(LOWER,k),trim(v)),header_list(h)))
    x=fresh('g','V:(S,S)')
    return join(fm(lam([x],unit(seq(tproj(0,2,x),Lit(':'),join(tproj(1,2,x),Lit(','))))),g),Lit('\n'))
def spec_SH(h): return join(sset(pairs(lambda k,v: bmap(LOWER,k),header_list(h))),Lit(';'))
def spec_path(bk,ob): return seq(Lit('/'),pct(bk),Lit('/'),bmap(KEEPSLASH,ob))
def email_of(r):
    if r.kind=='ServiceAccount': return Var('email','S')
    es=subterms(r.call.W,lambda t: t.op=='mk' and t.args[0]=='gt')
    w=NIL if r.at else unit(mk('now'))
    return mk_raw('gt_email',(w,r.bt),'S')
def bt_of(r):
    """the BoundToken inside the key"""
    xs=subterms(r.call.W,lambda t: t.op=='mk' and t.args[0]=='gt')
    return xs[0].args[1] if xs else None
def spec_params(r,email):
    s=div(r.t,NSI)
    return dict([('X-Goog-Algorithm',Lit('GOOG4-RSA-SHA256')),('X-Goog-Credential',seq(email,Lit('/'),scope(s,r.region))),('X-Goog-Date',basic16(s)),
        ('X-Goog-Expires',dec(div(sub(r.expires,r.t),NSI))),('X-Goog-SignedHeaders',spec_SH(r.headers))])
def enc_pair(n,v): return unit(seq(pct(n),Lit('='),pct(v)))
def spec_query(r,email):
    x=fresh('q','V:(S,S)')
    l=fm(lam([x],enc_pair(tproj(0,2,x),tproj(1,2,x))),r.query)
    return join(sort(seq(l,*[enc_pair(Lit(n),v) for n,v in spec_params(r,email).items()])),Lit('&'))
def spec_CR(r,path,query,hl,sh): return seq(Lit(r.verb),Lit('\n'),path,Lit('\n'),query,Lit('\n'),hl,Lit('\n\n'),sh,Lit('\nUNSIGNED-PAYLOAD'))
# reading a URL -------------------------------------------------------
class Url: pass
def split_at(t,byte):
    """split a concatenation at the first literal occurrence of a byte: (before, after) or None"""
    ps=pieces(t); pre=[]
    for i,p in enumerate(ps):
        if p.op=='lit':
            j=p.args[0].find(byte)
            if j>=0: return seq(*(pre+[Lit(p.args[0][:j])])),seq(*([Lit(p.args[0][j+len(byte):])]+ps[i+1:]))
        pre.append(p)
    return None
def rsplit_at(t,s):
    ps=pieces(t)
    for i in range(len(ps)-1,-1,-1):
        p=ps[i]
        if p.op=='lit':
            j=p.args[0].rfind(s)
            if j>=0: return seq(*(ps[:i]+[Lit(p.args[0][:j])])),seq(*([Lit(p.args[0][j+len(s):])]+ps[i+1:]))
    return None
def parse_url(U):
    u=Url()
    a=split_at(U,b'?')
    if a is None: raise Lost('no query in the URL term')
    u.base,rest=a
    b=rsplit_at(rest,b'&X-Goog-Signature=')
    if b is None: raise Lost('no trailing signature in the URL term')
    u.query,u.sig=b
    ps=pieces(u.base)
    H=b'https://storage.googleapis.com'
    u.host_ok=bool(ps and ps[0].op=='lit' and ps[0].args[0].startswith(H))
    u.path=seq(*([Lit(ps[0].args[0][len(H):])]+ps[1:])) if u.host_ok else u.base
    return u
def message_of(r):
    """the signed message and the signature term, unique in the URL"""
    ms=subterms(r.U,lambda t: t.op in('rsa_sign','sb_sig'))
    if not ms: raise Lost('no signature operation in the URL term')
    return ms
# ------------------------------------------------------------------ checking
def short(t,n=400):
    s=pp(t); return s if len(s)<=n else s[:n]+'…[%d]'%len(s)
class Checker:
    """collects the obligations of one task; confirm(term_bad) must say whether an assignment makes the term true"""
    def __init__(k,fn,confirm=None,extra=()): k.fn=fn; k.obs=[]; k.confirm=confirm
    def add(k,name,status,detail='',secs=0.0,hints=()): k.obs.append(Ob(name,k.fn,status,detail,secs,hints))
    def eq(k,name,a,b,pc=TRUE):
        t=time.time()
        if pc is FALSE: k.add(name,'proved','vacuous: no path reaches it',0.0); return True
        try: r=equal(a,b,pc)
        except P.Budget: k.add(name,'unproved','case split budget exceeded',time.time()-t); return False
        if r is None: k.add(name,'proved','',time.time()-t); return True
        path,x,y=r
        d='on path [%s]: code %s ; contract %s'%('; '.join(('' if v else 'not ')+short(p,160) for p,v in path[:8]),short(x),short(y))
        k.settle(name,d,And(pc,Not(mk_raw('differ',(a,b),'B'))),(a,b,pc,path),time.time()-t); return False
    def holds(k,name,f,pc=TRUE):
        """f is true on every feasible path of pc"""
        t=time.time()
        g=And(pc,Not(f))
        if not feasible_t(g): k.add(name,'proved','',time.time()-t); return True
        bad=None
        for conds,l in bleaves(g):
            if l is TRUE and P.feasible(conds): bad=conds; break
        d='reachable: [%s]'%('; '.join(('' if v else 'not ')+short(p,160) for p,v in (bad or ())[-8:]))
        k.settle(name,d,g,(None,None,g,list(bad or ())),time.time()-t); return False
    def possible(k,name,f):
        if feasible_t(f): k.add(name,'proved'); return True
        k.add(name,'unproved' if has_unknown(f) else 'refuted','no path: '+short(f)); return False
    def settle(k,name,detail,bad,info,secs):
        a,b,pc,path=info
        unk=any(t is not None and has_unknown(t) for t in (a,b,pc))
        hints=[]; st='unproved'
        if k.confirm is not None:
            t0=time.time()
            st2,hints=k.confirm(a,b,pc,path,unk)
            secs+=time.time()-t0
            if st2: st='refuted'
        k.add(name,st,detail+(' [term contains unmodelled code]' if unk else ''),secs,hints)
    def true(k,name,cond,detail=''):
        k.add(name,'proved' if cond else 'unproved',detail); return cond
# assignments ----------------------------------------------------------
def confirm_with(gen_envs,to_session):
    """an assignment (from the generator of concrete inputs, steered by the failing path) on which the obligation fails"""
    import ev
    def go(a,b,pc,path,unk):
        end=time.time()+8; hints=[]; n=0
        for env,op in gen_envs(path,pc):
            if time.time()>end: break
            n+=1
            e=ev.Ev(dict(env))
            try:
                if not e(pc): continue
                if a is None: hit=True
                else: hit=ev.freeze(e(a))!=ev.freeze(e(b))
            except (ev.Undef,UnicodeDecodeError,OverflowError,ValueError,TypeError,KeyError,IndexError,AttributeError): hit=None
            if hit:
                hints.append(to_session(op)); return (True,hints)
            if hit is None and len(hints)<3: hints.append(to_session(op))
        return (False,hints)
    return go
import sys
CONC=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'conc')
sys.path.insert(0,CONC)
LITS=[]
def enc(x): return x.encode('utf-8','surrogatepass') if isinstance(x,str) else x
def split_ns(n): return [n//NS,n%NS]
def var_values(pc,path):
    """values for variables that a path (list of (atom,value)) asks for: {name: int | bytes}"""
    f=And(pc,*[x if v else Not(x) for x,v in path])
    out={}
    m=P.model(f)
    if m is None: return out
    ints,bools=m
    for t,v in ints.items():
        if t.op=='var': out[t.args[0]]=v
        elif t.op=='now': out['now']=v
        elif t.op=='len' and t.args[0].op=='var' and 0<=v<200000: out.setdefault(t.args[0].args[0],b'a'*v)
    for t,v in bools.items():
        if t.op=='eq' and v:
            for x,y in(t.args,t.args[::-1]):
                if x.op=='var' and (y.op=='lit' or y is NIL): out[x.args[0]]=y.args[0] if y.op=='lit' else b''
                if x.op=='proj' and x.args[2].op=='var' and y.op=='lit': out[x.args[2].args[0]]=('Some',y.args[0])
        if t.op=='is' and t.args[1].op=='var' and t.args[0]=='Some': out.setdefault(t.args[1].args[0],('Some',b'us') if v else ('None',))
    return out
def hm_of(g,ov):
    h=g.hm()
    for i,k in enumerate(('access_id','secret')):
        if isinstance(ov.get(k),bytes):
            try: h[i]=ov[k].decode()
            except UnicodeDecodeError: pass
    return h
def url_envs(r):
    import gen
    def go(path,pc):
        g=gen.G('steer/%s'%r.verb,LITS); n=0
        given={}
        try: given=var_values(pc,path)
        except Exception: pass
        combos=[given,{k:v for k,v in given.items() if not isinstance(v,bytes)},{}]
        while n<6000:
            n+=1
            op=g.url(method=r.verb or g.pick('GET','PUT','get','PATCH',''),blob=bool(r.blob))
            if n%3: op['headers']=g.headers(g.r.choice([0,1,2])); op['query']=g.query(g.r.choice([0,1,2]))
            if n%2 and op['at'] is not None:
                op['expires']=g.near(op['at'])
            ov=combos[n%len(combos)] if n>3 else given
            now=op['at'] or g.instant()
            if r.at:
                if 'at' in ov: op['at']=split_ns(ov['at'])
                now=op['at']
            else:
                if 'now' in ov: now=split_ns(ov['now'])
                op['at']=None
            if 'expires' in ov: op['expires']=split_ns(ov['expires'])
            for k in('bucket','object','method'):
                if isinstance(ov.get(k),bytes):
                    try: op[k]=ov[k].decode()
                    except UnicodeDecodeError: pass
            if isinstance(ov.get('region'),tuple):
                try: op['region']=ov['region'][1].decode() if len(ov['region'])>1 else None
                except UnicodeDecodeError: pass
            em=op['key']['sa'][0] if isinstance(op['key'],dict) else 'e@x'
            op['hm']=hm_of(g,ov)
            env=dict(bucket=enc(op['bucket']),object=enc(op['object']),method=enc(op['method']),region=('Some',enc(op['region'])) if op['region'] is not None else ('None',),
                expires=op['expires'][0]*NS+op['expires'][1],at=now[0]*NS+now[1],now=now[0]*NS+now[1],
                headers=[('(2)',enc(a),enc(b)) for a,b in op['headers']],query=[('(2)',enc(a),enc(b)) for a,b in op['query']],email=enc(em),pk=b'K',access_id=enc(op['hm'][0]),secret=enc(op['hm'][1]))
            yield env,(op,now,r.kind)
    return go
def url_session(x):
    import gen
    op,now,kind=x
    g=gen.G('s',[]); op=dict(op); hm=op.pop('hm',['a','s'])
    ops=[]
    if kind=='BoundToken':
        op['key']=0; ops=[g.good_replies(4),dict(do='key',slot=0,key={'bt':None})]
    elif kind=='Hmac': op['key']={'hmac':hm}
    return gen.sess(ops+[op],clock=[now[0],now[1],0])
def url_checker(r): return Checker(r.fn,confirm_with(url_envs(r),url_session))
def is_time_atom(t): return t.op in('le0','eq0') and all(isinstance(v,str) and v in('at','expires','now','p_expiration') for v in t.fv)
def exists(f,keep):
    """projection of a condition on the atoms that `keep` accepts"""
    out=FALSE
    for conds,l in bleaves(f):
        if l is TRUE: out=Or(out,And(*[(a if v else Not(a)) for a,v in conds if keep(a)]))
    return out
# ------------------------------------------------------------------ the URL properties
def setup_url(c,case):
    r=url_run(c,*case); k=url_checker(r)
    if r.kind=='BoundToken': r.bt=bt_of(r)
    return r,k
def tag(r): return '%s/%s/%s'%(r.verb,r.kind,'at' if r.at else 'now')
def sha_args(t): return [x.args[0] for x in subterms(t,lambda x: x.op=='sha256hex')]
def one_sig(r,k,name='the URL carries exactly one signature operation'):
    ms=message_of(r)
    if not k.true(name+' ['+tag(r)+']',len(ms)==1,'%d signature terms'%len(ms)): raise Lost('signature')
    return ms[0]
def sig_msg(s,r):
    m=s.args[2]
    return P.assume(tm.unnamed(m),r.okc) if m.op=='name' else m
def C01(c,case):
    r,k=setup_url(c,case)
    if not k.possible('a URL can be built ['+tag(r)+']',r.okc): return k.obs
    u=parse_url(r.U); s=one_sig(r,k); 
    hs=sha_args(sig_msg(s,r))
    if not k.true('the signed text contains exactly one hash ['+tag(r)+']',len(hs)==1,'%d'%len(hs)): return k.obs
    k.eq('hashed text = verb, URL path, URL query, canonical headers, empty line, signed header names, UNSIGNED-PAYLOAD ['+tag(r)+']',
        hs[0],spec_CR(r,u.path,u.query,spec_HL(r.headers),spec_SH(r.headers)),r.okc)
    return k.obs
def cr_of(r):
    ms=message_of(r); hs=sha_args(sig_msg(ms[0],r))
    if len(hs)!=1: raise Lost('canonical request')
    return hs[0]
def nl_parts(t,n):
    """split a term at its first n literal newlines"""
    out=[]
    for _ in range(n):
        a=split_at(t,b'\n')
        if a is None: raise Lost('literal newline')
        out.append(a[0]); t=a[1]
    return out,t
def params_of(u):
    """(many, ones, sorted?) of the query term"""
    q=u.query; srt=False
    if q.op=='join' and q.args[1] is Lit('&'):
        l=q.args[0]
        if l.op=='sort': srt=True; l=l.args[0]
    else: raise Lost('query is not a joined list')
    many=[];ones=[]
    for p in pieces(l):
        (ones if p.op=='unit' else many).append(p.args[0] if p.op=='unit' else p)
    return many,ones,srt
def param_named(ones,name):
    out=[]
    for o in ones:
        a=split_at(o,b'=')
        if a is not None and a[0] is Lit(name): out.append(a[1])
    return out
def C02(c,case):
    r,k=setup_url(c,case)
    if not k.possible('a URL can be built ['+tag(r)+']',r.okc): return k.obs
    u=parse_url(r.U); cr=cr_of(r)
    (v,p,q),rest=nl_parts(cr,3)
    a=rsplit_at(rest,b'\n')
    if a is None: raise Lost('payload line')
    b=rsplit_at(a[0],b'\n\n')
    if b is None: raise Lost('empty line')
    hl,sh=b
    k.eq('canonical headers: lower-case names, trimmed values, grouped and sorted, host included ['+tag(r)+']',hl,spec_HL(r.headers),r.okc)
    k.eq('signed header names: exactly the distinct lower-case names, sorted, joined with ; ['+tag(r)+']',sh,spec_SH(r.headers),r.okc)
    m,o,_=params_of(u)
    ps=param_named(o,'X-Goog-SignedHeaders')
    if k.true('one X-Goog-SignedHeaders parameter ['+tag(r)+']',len(ps)==1,'%d'%len(ps)):
        k.eq('X-Goog-SignedHeaders = encoded list of signed header names ['+tag(r)+']',ps[0],pct(sh),r.okc)
    return k.obs
def C03(c,case):
    r,k=setup_url(c,case)
    if not k.possible('a URL can be built ['+tag(r)+']',r.okc): return k.obs
    u=parse_url(r.U)
    m,o,srt=params_of(u)
    x=fresh('q','V:(S,S)')
    l=fm(lam([x],enc_pair(tproj(0,2,x),tproj(1,2,x))),r.query)
    k.true('the query is one list sorted by encoded text ['+tag(r)+']',srt)
    if len(m)==1: k.eq('every query pair appears as encoded-name=encoded-value with every byte outside A-Za-z0-9-._~ escaped ['+tag(r)+']',m[0],l,r.okc)
    else: k.eq('query',u.query,spec_query(r,email_of(r)),r.okc)
    bad=[y for y in o if not any(split_at(y,b'=') and split_at(y,b'=')[0] is Lit(n) for n in('X-Goog-Algorithm','X-Goog-Credential','X-Goog-Date','X-Goog-Expires','X-Goog-SignedHeaders'))]
    k.true('nothing but the X-Goog parameters is added ['+tag(r)+']',not bad,'; '.join(short(y,80) for y in bad))
    k.eq('the whole query is the sorted encoded pairs joined with & ['+tag(r)+']',u.query,spec_query(r,email_of(r)),r.okc)
    return k.obs
def C04(c,case):
    r,k=setup_url(c,case)
    if not k.possible('a URL can be built ['+tag(r)+']',r.okc): return k.obs
    u=parse_url(r.U); cr=cr_of(r); (v,p,q),rest=nl_parts(cr,3)
    k.eq('signed path = URL path ['+tag(r)+']',p,u.path,r.okc)
    k.true('the URL starts with https://storage.googleapis.com/ ['+tag(r)+']',u.host_ok)
    k.eq('URL path = /bucket/object with every byte outside A-Za-z0-9-._~ escaped, / kept in the object name ['+tag(r)+']',u.path,spec_path(r.bucket,r.object),r.okc)
    return k.obs
def spec_M(r,cr):
    s=div(r.t,NSI)
    return seq(Lit('GOOG4-RSA-SHA256\n'),basic16(s),Lit('\n'),scope(s,r.region),Lit('\n'),sha256hex(cr))
def C05(c,case):
    r,k=setup_url(c,case)
    if not k.possible('a URL can be built ['+tag(r)+']',r.okc): return k.obs
    s=one_sig(r,k); u=parse_url(r.U); cr=cr_of(r)
    k.eq('signed text = algorithm, instant, scope, lower-case hex SHA-256 of the canonical request ['+tag(r)+']',sig_msg(s,r),spec_M(r,cr),r.okc)
    if r.kind=='ServiceAccount':
        k.true('the signature is RSASSA-PKCS1-v1_5 with SHA-256 ['+tag(r)+']',pp(s.args[0])=='static:ring::signature::RSA_PKCS1_SHA256',short(s.args[0]))
        k.true('under the key of the service account ['+tag(r)+']',pp(s.args[1])=="rsakey('pkcs8', pem_contents(pk))",short(s.args[1]))
    else:
        k.true('the signature is the reply of signBlob for this message ['+tag(r)+']',s.op=='sb_sig')
    k.eq('X-Goog-Signature = lower-case hex of the signature ['+tag(r)+']',u.sig,bmap(HEXL,s),r.okc)
    # the values inside the signed text are the ones in the URL
    m,o,_=params_of(u)
    ps={n:param_named(o,n) for n in('X-Goog-Algorithm','X-Goog-Date','X-Goog-Credential')}
    if k.true('X-Goog parameters are present once ['+tag(r)+']',all(len(x)==1 for x in ps.values())):
        (a,d),rest=nl_parts(sig_msg(s,r),2); sc,_=nl_parts(rest,1)
        k.eq('signed algorithm = X-Goog-Algorithm ['+tag(r)+']',pct(a),ps['X-Goog-Algorithm'][0],r.okc)
        k.eq('signed instant = X-Goog-Date ['+tag(r)+']',pct(d),ps['X-Goog-Date'][0],r.okc)
        k.eq('X-Goog-Credential = email/ + signed scope ['+tag(r)+']',ps['X-Goog-Credential'][0],pct(seq(email_of(r),Lit('/'),sc[0])),r.okc)
    return k.obs
def C06(c,case):
    r,k=setup_url(c,case)
    if not k.possible('a URL can be built ['+tag(r)+']',r.okc): return k.obs
    u=parse_url(r.U); m,o,_=params_of(u); want=spec_params(r,email_of(r))
    for n,v in want.items():
        ps=param_named(o,n)
        if k.true('%s is added exactly once [%s]'%(n,tag(r)),len(ps)==1,'%d'%len(ps)): k.eq('%s has the required value [%s]'%(n,tag(r)),ps[0],pct(v),r.okc)
    k.true('no other parameter is added ['+tag(r)+']',len(o)==5,'%d'%len(o))
    x=fresh('q','V:(S,S)')
    k.true('the remaining parameters are one image of the caller\'s list ['+tag(r)+']',len(m)==1 and m[0].op=='fm' and m[0].args[1] is r.query)
    k.true('X-Goog-Signature is the last parameter ['+tag(r)+']',split_at(u.sig,b'&') is None and u.sig.op=='bmap')
    return k.obs
WEEK=604800
def C07(c,case):
    r,k=setup_url(c,case)
    if not k.possible('a URL can be built ['+tag(r)+']',r.okc): return k.obs
    n=div(sub(r.expires,r.t),NSI)
    k.holds('Ok only when 0 <= whole seconds to expiry <= 604800 ['+tag(r)+']',And(le(Int(0),n),le(n,Int(WEEK))),r.okc)
    u=parse_url(r.U); m,o,_=params_of(u); ps=param_named(o,'X-Goog-Expires')
    if k.true('one X-Goog-Expires ['+tag(r)+']',len(ps)==1): k.eq('X-Goog-Expires = whole seconds to expiry, rounded down ['+tag(r)+']',ps[0],dec(n),r.okc)
    ps=param_named(o,'X-Goog-Date')
    if k.true('one X-Goog-Date ['+tag(r)+']',len(ps)==1): k.eq('X-Goog-Date = the accessible instant ['+tag(r)+']',ps[0],basic16(div(r.t,NSI)),r.okc)
    k.holds('date + expires <= requested expiry ['+tag(r)+']',le(scale(add(div(r.t,NSI),n),NS),r.expires),r.okc)
    E=exists(r.okc,is_time_atom)
    sec=div(r.t,NSI)
    k.holds('every expiry 0..=604800 s after an instant in 1970..9999 can be accepted ['+tag(r)+']',E,And(le(Int(0),r.t),le(sec,Int(253402300799)),le(Int(0),sub(r.expires,r.t)),le(n,Int(WEEK))))
    return k.obs
def C08(c,case):
    r,k=setup_url(c,case)
    if not k.possible('a URL can be built ['+tag(r)+']',r.okc): return k.obs
    u=parse_url(r.U); m,o,_=params_of(u); sec=div(r.t,NSI)
    k.holds('Ok only for instants in 1970..9999 ['+tag(r)+']',And(le(Int(0),r.t),le(sec,Int(253402300799))),r.okc)
    d=param_named(o,'X-Goog-Date'); cr=param_named(o,'X-Goog-Credential')
    if k.true('one date, one credential ['+tag(r)+']',len(d)==1 and len(cr)==1):
        k.eq('X-Goog-Date is the instant in UTC, YYYYMMDDTHHMMSSZ ['+tag(r)+']',d[0],basic16(sec),r.okc)
        k.eq('the credential day is the day of that instant ['+tag(r)+']',cr[0],pct(seq(email_of(r),Lit('/'),scope(sec,r.region))),r.okc)
    s=one_sig(r,k); (a,dd),rest=nl_parts(sig_msg(s,r),2); sc,_=nl_parts(rest,1)
    k.eq('the signed text carries the same instant ['+tag(r)+']',dd,basic16(sec),r.okc)
    k.eq('the signed text carries the same day ['+tag(r)+']',sc[0],scope(sec,r.region),r.okc)
    E=exists(r.okc,is_time_atom)
    k.holds('every instant of 1970..9999 can be rendered ['+tag(r)+']',E,And(le(Int(0),r.t),le(sec,Int(253402300799)),eq(r.expires,r.t)))
    return k.obs
def C10(c,case):
    r,k=setup_url(c,case)
    if r.verb=='other':
        k.holds('no URL for a verb outside DELETE, GET, HEAD, POST, PUT [%s]'%r.kind,Not(r.okc)); return k.obs
    if not k.possible('the verb %s is accepted ['%r.verb+tag(r)+']',r.okc): return k.obs
    cr=cr_of(r); (v,),rest=nl_parts(cr,1)
    k.eq('first line of the canonical request is the verb ['+tag(r)+']',v,Lit(r.verb),r.okc)
    return k.obs
# ------------------------------------------------------------------ more URL properties
def decodable(tab,plain):
    """a byte escape table whose output percent-decodes to its input; bytes in `plain` may stand for themselves"""
    bad=[]
    for b in range(256):
        t=tab[b]
        if t==bytes([b]):
            if not(plain>>b&1): bad.append(b)
        elif not(len(t)==3 and t[0]==0x25 and t[1:].isalnum() and int(t[1:],16)==b): bad.append(b)
    return bad
PATHSAFE=R.UNRES|mask(b"!$&'()*+,;=:@")
def C09(c,case):
    r,k=setup_url(c,case)
    if not k.possible('a URL can be built ['+tag(r)+']',r.okc): return k.obs
    u=parse_url(r.U)
    k.true('the URL starts with https://storage.googleapis.com/ ['+tag(r)+']',u.host_ok)
    a=split_at(u.path,b'/')
    if a is None or a[0] is not NIL: raise Lost('leading / of the path')
    b=split_at(a[1],b'/')
    if b is None: raise Lost('separator of bucket and object')
    bk,ob=b
    for what,t,v,extra in(('bucket',bk,r.bucket,0),('object',ob,r.object,mask(b'/'))):
        if k.true('the %s part of the path is a byte-wise image of the %s name [%s]'%(what,what,tag(r)),t.op=='bmap' and t.args[1] is v,short(t)):
            bad=decodable(t.args[0],PATHSAFE|extra)
            k.true('the %s part percent-decodes to the %s name, byte for byte [%s]'%(what,what,tag(r)),not bad,'bytes %r'%bad[:8])
    k.holds('no dot segment: URL normalisation leaves the path as it is ['+tag(r)+']',eq(u.path,mk_raw('urlpath',(u.path,),'S')),r.okc)
    return k.obs
def C21(c,case):
    if case[0]=='form':
        r,k=setup_form(c,case[1:]); okc=r.okc; vals=[v for g,v in form_values(r,'x-goog-signature')]
    else:
        r,k=setup_url(c,case); okc=r.okc; vals=[parse_url(r.U).sig]
    t=tagx(r)
    if not k.possible('a signature can be produced [%s]'%t,okc): return k.obs
    k.true('there is a signature text [%s]'%t,len(vals)>=1)
    for v in vals:
        if k.true('the signature text is a byte-wise image of one signature [%s]'%t,v.op=='bmap' and v.args[1].op in('rsa_sign','sb_sig'),short(v)):
            tab=v.args[0]; bad=[b for b in range(256) if not(len(tab[b])==2 and all(x in b'0123456789abcdef' for x in tab[b]) and int(tab[b],16)==b)]
            k.true('every byte becomes its two lower-case hex digits [%s]'%t,not bad,'bytes %r'%bad[:8])
    return k.obs
def tagx(r): return tag(r) if isinstance(r,UrlRun) else 'form/%s/%s'%(r.kind,'at' if r.at else 'now')
def events(w): return [x for x in subterms(w,lambda t: t.op=='mk' and t.args[0] in('gt','sb','now','http','env','open','lock'))]
def C18(c,case):
    form=case[0]=='form'
    r,k=setup_form(c,case[1:]) if form else setup_url(c,case)
    t=tagx(r)+'/blob=%s'%r.blob
    good=(r.kind,r.blob) in(('ServiceAccount',False),('BoundToken',True))
    if not good:
        k.holds('never signs [%s]'%t,Not(r.okc) if not form else Not(And(r.okc,TRUE)))
        k.true('asks no server [%s]'%t,not [e for e in events(r.call.W) if e.args[0] in('http','sb')])
        return k.obs
    if not k.possible('can sign [%s]'%t,r.okc): return k.obs
    whole=r.U
    ms=subterms(whole,lambda x: x.op in('rsa_sign','sb_sig'))
    if not k.true('one signature operation [%s]'%t,len(ms)==1,'%d'%len(ms)): return k.obs
    s=ms[0]
    if r.kind=='ServiceAccount':
        k.true('signs locally under the private key of the key [%s]'%t,s.op=='rsa_sign' and pp(s.args[1])=="rsakey('pkcs8', pem_contents(pk))",short(s))
        k.true('no server is asked [%s]'%t,not [e for e in events(r.call.W) if e.args[0]!='now'])
    else:
        k.true('signs through signBlob of the key\'s own token source [%s]'%t,s.op=='sb_sig' and s.args[1] is r.bt,short(s))
    if form:
        vs=form_values(r,'x-goog-credential')
        k.true('there is a credential [%s]'%t,len(vs)>=1)
        for g,v in vs: k.eq('the credential names the key\'s own email [%s]'%t,v,seq(email_of(r),Lit('/'),scope(div(r.t,NSI),r.region)),And(r.okc,g))
    else:
        m,o,_=params_of(parse_url(r.U)); ps=param_named(o,'X-Goog-Credential')
        if k.true('one credential [%s]'%t,len(ps)==1): k.eq('the credential names the key\'s own email [%s]'%t,ps[0],pct(seq(email_of(r),Lit('/'),scope(div(r.t,NSI),r.region))),r.okc)
    return k.obs
def C22(c,case):
    form=case[0]=='form'; cs=case[1:] if form else case
    S=(setup_form if form else setup_url)
    i=2 if form else 1
    mk1=lambda at: tuple(at if j==(0 if form else 1) else x for j,x in enumerate(cs))
    r1,k=S(c,mk1(1)); r0,_=S(c,mk1(0)); t=('form/' if form else '')+'/'.join(str(x) for x in cs)
    k.true('with an instant given nothing outside the arguments is consulted [%s]'%t,r1.call.W is NIL,short(r1.call.W))
    allowed={'bucket','object','region','expires','headers','query','email','pk','at','method'}|{v for v in r1.call.args[0].fv}
    k.true('the result mentions only the arguments [%s]'%t,r1.value.fv<=allowed,', '.join(str(v) for v in r1.value.fv-allowed))
    k.true('no shared state is locked or written [%s]'%t,not r1.call.acquired and not r1.call.newcells)
    now1=unit(mk('now'))
    k.true('without an instant nothing but the clock is read, at most once [%s]'%t,all(l is now1 or l is NIL for _,l in P.leaves(r0.call.W)),short(r0.call.W))
    k.eq('without an instant a result that is not an error has read the clock [%s]'%t,r0.call.W,now1,r0.okc)
    k.eq('without an instant the clock value takes its place and nothing else changes [%s]'%t,r0.value,subst(r1.value,{Var('at','IT'):mk_raw('now',(NIL,))}),And(r0.call.pc,le(Int(0),mk_raw('now',(NIL,)))))
    return k.obs
# ------------------------------------------------------------------ HTML forms
DOC=[('acl','acl'),('bucket','bucket'),('cache_control','Cache-Control'),('content_disposition','Content-Disposition'),('content_encoding','Content-Encoding'),('content_length','Content-Length'),
 ('content_type','Content-Type'),('expires','Expires'),('key','key'),(None,'policy'),('success_action_redirect','success_action_redirect'),('success_action_status','success_action_status'),
 (None,'x-goog-algorithm'),(None,'x-goog-credential'),('x_goog_custom_time','x-goog-custom-time'),(None,'x-goog-date'),(None,'x-goog-signature')]
SIGNED=('policy','x-goog-algorithm','x-goog-credential','x-goog-date','x-goog-signature')
SETTERS=[a for a,_ in DOC if a]
INTF={'content_length':'u64','success_action_status':'u16'}
class FormRun: pass
BPATH='html_form_data::HtmlFormDataBuilder'
def setter_map(c):
    """which component of the builder each setter writes, found by running it"""
    if 'setters' in c.memo: return c.memo['setters']
    o=c.m.var('o',BPATH)
    out={}; runs={}
    for s in SETTERS+['policy_document_signing_options','x_goog_meta']:
        b=c.inh('HtmlFormDataBuilder',s)
        av=[Var('v%d'%i,c.m.desc(t)) for i,(n,t) in enumerate(b.params[1:])]
        if s=='policy_document_signing_options': av=[c.m.var('v0',b.params[1][1])]
        r=drive.symcall(c.m,b,[o]+av); runs[s]=(r,av,o,b)
        if r.value.op!='mk' or len(r.value.args)!=len(o.args): raise Lost('setter '+s)
        ch=[i for i in range(1,len(o.args)) if r.value.args[i] is not o.args[i]]
        out[s]=ch
    c.memo['setters']=(out,runs,o); return c.memo['setters']
def form_run(c,at,kind,blob):
    """kind None: no signing options"""
    key=('form',at,kind,blob)
    if key in c.memo: return c.memo[key]
    sm,runs,o=setter_map(c)
    if any(len(v)!=1 for v in sm.values()): raise Lost('a setter writes %s'%{k:v for k,v in sm.items() if len(v)!=1})
    r=FormRun(); r.at,r.kind,r.blob=at,kind,blob
    r.f={}
    a=list(o.args)
    for s in SETTERS:
        so='I' if s in INTF else 'S'
        r.f[s]=Var(s,'V:Option<%s>'%so); a[sm[s][0]]=r.f[s]
    i=sm['x_goog_meta'][0]; r.meta=Var('meta',o.args[i].sort); a[i]=r.meta
    r.region=Var('region','V:Option<S>'); r.exp=Var('p_expiration','IT'); r.t=Var('at','IT') if at else mk_raw('now',(NIL,))
    j=sm['policy_document_signing_options'][0]
    if kind is None: a[j]=NONE
    else: a[j]=Some(opt_struct(c,'html_form_data::PolicyDocumentSigningOptions',dict(accessible_at=Some(Var('at','IT')) if at else NONE,expiration=r.exp,region=r.region,signing_key=c.key(kind),use_sign_blob=boolc(blob))))
    b=c.inh('HtmlFormDataBuilder','build')
    r.call=drive.symcall(c.m,b,[mk(*a)]); r.fn=b.name; r.value=r.call.value
    r.okc=And(r.call.pc,isv('Ok',r.value)); r.U=P.assume(P.under(proj(0,"Ok",r.value),r.okc),r.okc)
    iv=c.inh('HtmlFormData','into_vec')
    x=drive.symcall(c.m,iv,[r.U])
    r.list=P.under(x.value,r.okc)
    c.memo[key]=r; return r
def setup_form(c,case):
    r=form_run(c,*case); k=Checker(r.fn,confirm_with(form_envs(r),form_session))
    if r.kind=='BoundToken': r.bt=bt_of(r)
    return r,k
def gbag(l,g=TRUE,out=None):
    """guarded multiset of the elements of a list term: {element or list part: [guards]}"""
    if out is None: out={}
    if g is FALSE or l is NIL: return out
    if l.op=='seq':
        for p in l.args: gbag(p,g,out)
    elif l.op=='ite':
        gbag(l.args[1],And(g,l.args[0]),out); gbag(l.args[2],And(g,Not(l.args[0])),out)
    else:
        gs=out.setdefault(l,[])
        for i,x in enumerate(gs):
            if And(x,g) is FALSE: gs[i]=Or(x,g); break
        else: gs.append(g)
    return out
def form_values(r,name):
    """[(guard, value)] of a field of the emitted list"""
    out=[]
    for e,gs in gbag(r.list).items():
        if e.op=='unit' and e.args[0].op=='mk' and e.args[0].args[1] is Lit(name):
            for g in gs: out.append((g,e.args[0].args[2]))
    return out
def merged(vals):
    """one value from exclusive guarded alternatives"""
    v=UNDEF
    for g,x in vals: v=ite(g,x,v)
    return v
def fieldterm(r,s): 
    v=proj(0,'Some',r.f[s]); return dec(v) if s in INTF else v
def opt_case(c):
    for kind,blob in((None,None),('ServiceAccount',False),('BoundToken',True)):
        for at in ((1,0) if kind else (1,)): yield at,kind,blob
def C11(c,case):
    if case=='setters':
        sm,runs,o=setter_map(c); k=Checker(BPATH)
        for s,(r,av,o,b) in runs.items():
            k.fn=b.name
            if not k.true('%s writes exactly one component of the builder'%s,len(sm[s])==1 and r.pc is TRUE and r.W is NIL,str(sm[s])): continue
            i=sm[s][0]; old=o.args[i]; new=r.value.args[i]
            if s=='x_goog_meta': k.eq('x_goog_meta appends the pair',new,seq(old,unit(tup(*av))))
            else: k.eq('%s stores its argument'%s,new,Some(av[0]))
        idx=[v[0] for v in sm.values() if len(v)==1]
        k.true('no two setters share a component',len(set(idx))==len(idx))
        b=c.inh('HtmlFormData','builder'); r=drive.symcall(c.m,b,[]); k.fn=b.name
        for s,v in sm.items():
            if len(v)==1: k.eq('a new builder has %s unset'%s,r.value.args[v[0]],NIL if s=='x_goog_meta' else NONE)
        return k.obs
    r,k=setup_form(c,case); t=tagx(r)
    if not k.possible('form data can be built [%s]'%t,r.okc): return k.obs
    exp=[]
    for s,n in DOC:
        if s is None:
            if r.kind is None: continue
            vs=[(g,v) for g,v in form_values(r,n) if feasible_t(And(r.okc,g))]
            if not k.true('%s is present [%s]'%(n,t),len(vs)>=1): return k.obs
            exp.append(unit(tup(Lit(n),P.under(merged(vs),r.okc))))
        else: exp.append(ite(isv('Some',r.f[s]),unit(tup(Lit(n),fieldterm(r,s))),NIL))
    exp.append(pairs(lambda a,b: tup(seq(Lit('x-goog-meta-'),a),b),r.meta))
    want=P.under(seq(*exp),r.okc)
    k.eq('the form lists exactly the fields that are set, documented names, values unchanged, documented order [%s]'%t,r.list,want,r.okc)
    return k.obs
def jeq(n,v): return mk('jarr',seq(unit(mk('jstr',Lit('eq'))),unit(mk('jstr',n)),unit(mk('jstr',v))))
def policy_json(r):
    vs=[v for g,v in form_values(r,'policy') if feasible_t(And(r.okc,g))]
    p=P.under(merged([(g,v) for g,v in form_values(r,'policy')]),r.okc)
    return p
def members(j):
    """members of a JSON object term: {name: value}"""
    out={}
    for e in pieces(j.args[1]):
        if e.op!='unit' or e.args[0].op!='mk': raise Lost('object member')
        n=e.args[0].args[1]
        if n.op!='lit' or n.args[0] in out: raise Lost('member name')
        out[n.args[0].decode()]=e.args[0].args[2]
    return out
def policy_objects(r,k,t):
    """[(guard, json object term)] of the policy field"""
    out=[]
    for g,v in form_values(r,'policy'):
        if not feasible_t(And(r.okc,g)): continue
        for conds,x in leaves(v):
            gg=And(g,*[a if w else Not(a) for a,w in conds])
            if not feasible_t(And(r.okc,gg)): continue
            if not(x.op=='b64enc' and x.args[0].op=='json' and x.args[0].args[0].op=='mk' and x.args[0].args[0].args[0]=='jobj'):
                k.add('the policy field is the Base64 of a JSON object [%s]'%t,'unproved',short(x)); return None
            out.append((gg,x.args[0].args[0]))
    k.add('the policy field is standard Base64 of a JSON object [%s]'%t,'proved' if out else 'unproved')
    return out
def C12(c,case):
    r,k=setup_form(c,case); t=tagx(r)
    if not k.possible('a signed form can be built [%s]'%t,r.okc): return k.obs
    objs=policy_objects(r,k,t)
    if not objs: return k.obs
    conds=UNDEF
    for g,o in objs:
        ms=members(o)
        if 'conditions' not in ms or ms['conditions'].op!='mk' or ms['conditions'].args[0]!='jarr': raise Lost('conditions')
        conds=ite(g,ms['conditions'].args[1],conds)
    have=gbag(P.under(conds,r.okc)); want={}
    for e,gs in gbag(r.list).items():
        if e.op=='unit':
            n,v=e.args[0].args[1],e.args[0].args[2]
            if n in(Lit('policy'),Lit('x-goog-signature')): continue
            if n is Lit('Content-Length'):
                if v.op!='dec': raise Lost('content length')
                x=unit(mk('jarr',seq(unit(mk('jstr',Lit('content-length-range'))),unit(mk('jint',v.args[0])),unit(mk('jint',v.args[0])))))
            else: x=unit(jeq(seq(Lit('$'),n),v))
        elif e.op=='fm':
            (x0,),b=open_lam(e.args[0])
            if b.op!='unit': raise Lost('list part')
            x=fm(lam([x0],unit(jeq(seq(Lit('$'),b.args[0].args[1]),b.args[0].args[2]))),e.args[1])
        else: raise Lost('list part')
        for g in gs: want.setdefault(x,[]).append(g)
    for x in set(have)|set(want):
        a,b=have.get(x,[]),want.get(x,[])
        nm=short(x.args[0].args[1] if x.op=='unit' and x.args[0].op=='mk' else x,130)
        if len(a)>1 or len(b)>1: k.add('one condition for the field: %s [%s]'%(nm,t),'unproved','several occurrences'); continue
        ga,gb=(a or [FALSE])[0],(b or [FALSE])[0]
        bad=Not(Iff(ga,gb))
        k.holds('condition present exactly when its field is emitted: %s [%s]'%(nm,t),Iff(ga,gb),r.okc)
    return k.obs
def C13(c,case):
    r,k=setup_form(c,case); t=tagx(r)
    if not k.possible('a signed form can be built [%s]'%t,r.okc): return k.obs
    objs=policy_objects(r,k,t)
    if not objs: return k.obs
    for g,o in objs:
        ms=members(o)
        k.true('the policy has exactly the members conditions and expiration [%s]'%t,set(ms)=={'conditions','expiration'},', '.join(ms))
        if 'expiration' in ms: k.eq('expiration is the requested expiration [%s]'%t,ms['expiration'],mk('jstr',rfc20(div(r.exp,NSI))),And(r.okc,g))
    pol=policy_json(r); sec=div(r.t,NSI)
    sig=P.under(merged(form_values(r,'x-goog-signature')),r.okc)
    ms=subterms(sig,lambda x:x.op in('rsa_sign','sb_sig'))
    if ms:
        m0=UNDEF
        # the signature with the policy field as message
        if r.kind=='ServiceAccount': want=bmap(HEXL,mk_raw('rsa_sign',(ms[0].args[0],ms[0].args[1],pol),'S'))
        else:
            k.true('one signBlob reply of the key\'s token source is used [%s]'%t,len(ms)==1 and ms[0].args[1] is r.bt,short(ms[0]))
            k.eq('signBlob gets the bytes of the policy field [%s]'%t,sig_msg(ms[0],r),pol,r.okc)
            want=bmap(HEXL,ms[0])
        k.true('the signature is made with the key [%s]'%t,len({(x.args[0],x.args[1]) for x in ms})==1 and (r.kind!='ServiceAccount' or (pp(ms[0].args[0])=='static:ring::signature::RSA_PKCS1_SHA256' and pp(ms[0].args[1])=="rsakey('pkcs8', pem_contents(pk))")),short(ms[0]))
        k.eq('x-goog-signature is the lower-case hex signature over the bytes of the policy field [%s]'%t,sig,want,r.okc)
    else: k.add('x-goog-signature is a signature [%s]'%t,'unproved',short(sig))
    for n,v in(('x-goog-algorithm',Lit('GOOG4-RSA-SHA256')),('x-goog-credential',seq(email_of(r),Lit('/'),scope(sec,r.region))),('x-goog-date',basic16(sec))):
        vs=form_values(r,n)
        if k.true('%s is present [%s]'%(n,t),len(vs)>=1): k.eq('%s is that of the key, region and instant [%s]'%(n,t),P.under(merged(vs),r.okc),v,r.okc)
    return k.obs
MAXSEC=253402300799
def C14(c,case):
    r,k=setup_form(c,case); t=tagx(r)
    x=fresh('m','V:(S,S)')
    need=[('a key field',isv('Some',r.f['key'])),('no empty x-goog-meta name',R.all_(lam([x],Not(eq(tproj(0,2,x),NIL))),r.meta))]
    good=(r.kind,r.blob) in(('ServiceAccount',False),('BoundToken',True))
    if r.kind is not None:
        need+=[('a bucket field',isv('Some',r.f['bucket'])),('an expiration after the accessible instant',lt(r.t,r.exp)),('an instant in 1970-9999',And(le(Int(0),r.t),le(div(r.t,NSI),Int(MAXSEC)))),('an expiration in 1970-9999',And(le(Int(0),r.exp),le(div(r.exp,NSI),Int(MAXSEC))))]
        if not good:
            k.holds('build fails [%s blob=%s]'%(t,r.blob),Not(r.okc)); return k.obs
    for n,f in need: k.holds('build succeeds only with %s [%s]'%(n,t),f,r.okc)
    # conversely: every remaining condition of success is about the key material or the metadata server
    E=exists(r.okc,lambda a: a.op not in('pem_ok','pkcs8_ok','rsa_ok','gt_ok','sb_ok'))
    # refusing more is only allowed for those; the projection takes the successful branch of each
    k.holds('build succeeds when none of the listed reasons holds and signing succeeds [%s]'%t,E,And(*[f for _,f in need]))
    return k.obs
def C08f(c,case):
    r,k=setup_form(c,case); t=tagx(r); sec=div(r.t,NSI)
    if not k.possible('a signed form can be built [%s]'%t,r.okc): return k.obs
    k.holds('Ok only for instants in 1970..9999 [%s]'%t,And(le(Int(0),r.t),le(sec,Int(MAXSEC)),le(Int(0),r.exp),le(div(r.exp,NSI),Int(MAXSEC))),r.okc)
    for n,v in(('x-goog-date',basic16(sec)),('x-goog-credential',seq(email_of(r),Lit('/'),scope(sec,r.region)))):
        vs=form_values(r,n)
        if k.true('%s is present [%s]'%(n,t),len(vs)>=1): k.eq('%s renders the accessible instant in UTC [%s]'%(n,t),P.under(merged(vs),r.okc),v,r.okc)
    objs=policy_objects(r,k,t)
    for g,o in objs or ():
        ms=members(o)
        if k.true('the policy has an expiration [%s]'%t,'expiration' in ms): k.eq('the policy expiration is YYYY-MM-DDTHH:MM:SSZ of the requested expiration [%s]'%t,ms['expiration'],mk('jstr',rfc20(div(r.exp,NSI))),And(r.okc,g))
    E=exists(r.okc,is_time_atom)
    k.holds('every instant and later expiration of 1970..9999 can be rendered [%s]'%t,E,And(le(Int(0),r.t),lt(r.t,r.exp),le(div(r.exp,NSI),Int(MAXSEC)),le(sec,Int(MAXSEC))))
    return k.obs
def form_envs(r):
    import gen
    def go(path,pc):
        g=gen.G('steer/form',LITS); n=0
        try: given=var_values(pc,path)
        except Exception: given={}
        while n<6000:
            n+=1
            op=g.form()
            if n%2: op['fields']=g.fields(('key','bucket') if n%4 else (),p=g.r.choice([.2,.6,1]))
            if r.kind is None: op['opts']=None
            ov=given if n%3 else {}
            env=dict(meta=[('(2)',enc(v[0]),enc(v[1])) for f,v in op['fields'] if f=='x_goog_meta'])
            for s in SETTERS: env[s]=('None',)
            for f,v in op['fields']:
                if f!='x_goog_meta': env[f]=('Some',v if f in INTF else enc(v))
            for s in SETTERS:
                if isinstance(ov.get(s),tuple):
                    w=ov[s]
                    if w==('None',): env[s]=w; op['fields']=[x for x in op['fields'] if x[0]!=s]
                    elif env[s]==('None',) or w[1]!=b'us':
                        v=w[1]
                        if s in INTF: v=v if isinstance(v,int) else g.fval(s); env[s]=('Some',v); op['fields'].append([s,v])
                        else:
                            try: op['fields'].append([s,v.decode()]); env[s]=('Some',v)
                            except UnicodeDecodeError: pass
            now=[1700000000,0]; op['hm']=hm_of(g,ov); env.update(access_id=enc(op['hm'][0]),secret=enc(op['hm'][1]))
            if op['opts'] is not None:
                o=op['opts']; o['blob']=bool(r.blob)
                if 'at' in ov: o['at']=split_ns(ov['at'])
                if 'p_expiration' in ov: o['expiration']=split_ns(ov['p_expiration'])
                now=o['at'] or now
                if not r.at:
                    if 'now' in ov: now=split_ns(ov['now'])
                    o['at']=None
                env.update(at=now[0]*NS+now[1],now=now[0]*NS+now[1],p_expiration=o['expiration'][0]*NS+o['expiration'][1],region=('Some',enc(o['region'])) if o['region'] is not None else ('None',),
                    email=enc(o['key']['sa'][0]) if isinstance(o['key'],dict) and 'sa' in o['key'] else b'e',pk=b'K')
            yield env,(op,now,r.kind)
    return go
def form_session(x):
    import gen
    op,now,kind=x; g=gen.G('s',[]); op=dict(op); ops=[]; hm=op.pop('hm',['a','s'])
    if kind=='BoundToken':
        op['opts']=dict(op['opts'],key=0); ops=[g.good_replies(4),dict(do='key',slot=0,key={'bt':None})]
    elif kind=='Hmac': op['opts']=dict(op['opts'],key={'hmac':hm})
    return gen.sess(ops+[op],clock=[now[0],now[1],0])
# ------------------------------------------------------------------ task lists
TRUST={}; ASSUME=['every library function the crate calls is represented by a contract in mirvc/lib.py that is assumed, not proved (names listed above)',
 'memory safety and the absence of undefined behaviour are rustc\'s; drops of library values have no observable effect','a string or list that exists in memory has fewer than 2^47 elements (the address space of the targets)','machine integers are mathematical with explicit overflow obligations (debug assertions in MIR)']
URLP=('C01','C02','C03','C04','C05','C06','C07','C08','C09')
FORMOK=[('form',at,k,b) for k,b in(('ServiceAccount',False),('BoundToken',True)) for at in(1,0)]
def tasks(prop,tier='quick'):
    f=globals().get(prop); out=[]; cs=list(ok_cases())
    if prop in URLP: out=[(f,(c,)) for c in cs]
    if prop=='C08': out+=[(C08f,(c[1:],)) for c in FORMOK]
    if prop=='C10': out=[(f,(c,)) for c in cs]+[(f,(('other',at,k,b),)) for k,b in(('ServiceAccount',False),('BoundToken',True)) for at in(1,0)]
    if prop=='C11': out=[(f,('setters',)),(f,((1,None,None),))]+[(f,(c[1:],)) for c in FORMOK]
    if prop in('C12','C13'): out=[(f,(c[1:],)) for c in FORMOK]
    if prop=='C14': out=[(f,((1,None,None),))]+[(f,(c[1:],)) for c in FORMOK]+[(f,((at,k,b),)) for k,b in(('ServiceAccount',True),('BoundToken',False),('Hmac',False),('Hmac',True)) for at in(1,0)]
    if prop=='C18': out=[(f,(c,)) for c in cs]+[(f,(c,)) for c in FORMOK]+[(f,(c,)) for c in bad_cases()]+[(f,(('form',at,k,b),)) for k,b in(('ServiceAccount',True),('BoundToken',False),('Hmac',False),('Hmac',True)) for at in(1,0)]
    if prop=='C21': out=[(f,(c,)) for c in cs]+[(f,(c,)) for c in FORMOK]
    if prop in('C15','C16','C17'): import specbt; out=[(getattr(specbt,prop),('all',))]
    if prop=='C19': import speckey; out=[(speckey.C19,('str',)),(speckey.C19,('path',))]
    if prop=='C20': import speckey; out=speckey.tasks20(None)
    if prop=='C22': out=[(f,((v,1,'ServiceAccount',False),)) for v in VERBS+['other']]+[(f,(('form',1,'ServiceAccount',False),))]
    return out
