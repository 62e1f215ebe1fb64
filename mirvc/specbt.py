"""Contracts of the bound-token functions (C15, C16, C17): every path of the real bodies is a trace of events
(lock, now, http request) with the conditions under which it is taken, a result and the final content of the shared cell."""
import drive, lib, prove as P, rules as R, term as tm
from term import *
from rules import *
from prove import subterms, feasible_t, paths
TOKEN_SHAPE=(('access_token','String',False),('expires_in','u64',False),('token_type','String',False),False)
SIGN_SHAPE=(('keyId','String',False),('signedBlob','String',False),False)
NSI=Int(10**9)
def B(op,*a): return mk_raw(op,a,'B')
class Path:
    """one feasible path: events with the trace up to and including each, result, cell content, condition"""
    def __init__(p,conds,v,w,cell,pc):
        p.v,p.cell=v,cell; ps=pieces(w); p.events=[]
        p.f=And(pc,*[a if x else Not(a) for a,x in conds])
        for i,e in enumerate(ps):
            if e.op!='unit' or e.args[0].op!='mk': raise ValueError('trace')
            p.events.append((e.args[0],seq(*ps[:i+1])))
        p.kinds=[e.args[0] for e,_ in p.events]
        p.https=[(e.args[1],w) for e,w in p.events if e.args[0]=='http']
        p.ok=v.op=='mk' and v.args[0]=='Ok'; p.err=v.op=='mk' and v.args[0]=='Err'
        p.value=v.args[1] if p.ok else None
    def implies(p,f): return not feasible_t(And(p.f,Not(f)))
    def same(p,a,b): return P.equal(a,b,p.f) is None
def bound(c):
    k=c.key('BoundToken',True)
    xs=subterms(k,lambda t: t.op=='mk' and t.args[0].endswith('::BoundToken') and any(x.op=='mk' and x.args[0]=='mutex' for x in t.args[1:]))
    if len(xs)!=1: raise c.Lost('the bound token inside the key')
    return xs[0]
def host(): 
    return ite(mk_raw('env_some',(Lit('GCE_METADATA_HOST'),),'B'),mk_raw('env',(Lit('GCE_METADATA_HOST'),),'S'),Lit('metadata.google.internal'))
class Fetch: pass
def fetch_run(c):
    if 'fetch' in c.memo: return c.memo['fetch']
    r=Fetch(); r.bt=bound(c); b=c.inh('BoundToken','get_email_and_token'); r.fn=b.name
    r.call=drive.symcall(c.m,b,[r.bt])
    cells=[k for k in r.call.state.c if k[0]=='shared']
    if len(cells)!=1: raise c.Lost('one shared cell (%d)'%len(cells))
    r.cell0=[x[1] for x in r.call.acquired if x[0] is cells[0][1]]
    r.paths=[Path(cs,v,w,s,pc) for cs,(v,w,s),pc in paths([r.call.value,r.call.W,r.call.state[cells[0]]],r.call.pc)]
    c.memo['fetch']=r
    return r
def init_content(c):
    """what the constructor puts into the cell"""
    r=drive.symcall(c.m,c.inh('SigningKey','bound_token'),[])
    if len(r.newcells)!=1: raise c.Lost('one new cell')
    return r.newcells[0][1]
def resp_good(w): return [('the request executes',B('resp_ok',w)),('status is at least 200',le(Int(200),mk_raw('resp_status',(w,)))),('status is below 300',lt(mk_raw('resp_status',(w,)),Int(300))),('the body arrives',B('resp_body_ok',w))]
def token_good(w):
    t=mk_raw('resp_text',(w,))
    return [('the body has the token members',B('json_fits',TOKEN_SHAPE,t)),('token_type is Bearer',eq(Lit('Bearer'),mk_raw('jmember',('token_type','String',t),'S')))]
def rb_matches(p,rb,method,url,headers,body):
    """the request on the path is the required one (further headers allowed)"""
    if rb.op!='mk' or rb.args[0]!='rb': return False
    m,u,h,b=rb.args[1:]
    if not(p.same(m,Lit(method)) and p.same(u,url)): return False
    hs=pieces(h)
    for n,v in headers:
        got=[x.args[0] for x in hs if x.op=='unit' and x.args[0].op=='mk' and p.same(tproj(0,2,x.args[0]),Lit(n))]
        if len(got)!=1 or not p.same(tproj(1,2,got[0]),v): return False
    if any(x.op!='unit' for x in hs): return False
    if body is None: return b is NONE
    return p.same(b,Some(body))
def meta_url(what): return seq(Lit('http://'),host(),Lit('/computeMetadata/v1/instance/service-accounts/default/'+what))
def describe(p): return '%s after [%s] when %s'%('Ok' if p.ok else 'Err' if p.err else '?',', '.join(p.kinds),pp(p.f)[:600])
def allp(k,name,ps,f):
    """an obligation for every path"""
    bad=[p for p in ps if not f(p)]
    k.true(name+' (%d paths)'%len(ps),not bad,describe(bad[0]) if bad else '')
    return not bad
def times_after(p,w0):
    """clock readings made after the trace w0"""
    n=len(pieces(w0)); return [mk_raw('now',(seq(*[unit(x) for x,_ in p.events[:i]]),)) for i,(e,w) in enumerate(p.events) if e.args[0]=='now' and i>=n]
def C15(c,what):
    import spec
    r=fetch_run(c); k=spec.Checker(r.fn)
    k.true('the lock of the shared cell is taken first, once, on every path',all(p.kinds[:1]==['lock'] and p.kinds.count('lock')==1 for p in r.paths))
    if len(r.cell0)!=1: k.true('the cell is read under one lock',False); return k.obs
    cell0=r.cell0[0]
    reuse=[p for p in r.paths if p.ok and not p.https]; fetched=[p for p in r.paths if p.ok and p.https]; errs=[p for p in r.paths if not p.ok]
    k.true('both outcomes exist: reuse and fetch',bool(reuse) and bool(fetched))
    allp(k,'a reuse or an error leaves the cell as it was',reuse+errs,lambda p: p.cell is cell0 or p.same(p.cell,cell0))
    allp(k,'reuse reads the clock after the lock',reuse,lambda p: len(times_after(p,p.events[0][1]))>=1)
    now2=mk_raw('now',(Var('W2','S'),))
    def second(p,t,cell):
        """t of the path p as a second call sees it that finds the given content and reads the clock as now2"""
        ts=times_after(p,p.events[0][1])
        m={cell0:cell}
        if ts: m[ts[0]]=now2
        return subst(t,m)
    initial=init_content(c)
    k.true('a new key has nothing to reuse',all(not feasible_t(second(p,p.f,initial)) for p in reuse))
    k.true('the initial content satisfies the cell invariant',lib.shared_inv(c.m,initial,cell0.sort) is TRUE)
    for i,p in enumerate(fetched):
        n='[fetch path %d]'%(i+1)
        w_e,w_t=(p.https[0][1],p.https[-1][1])
        text=mk_raw('resp_text',(w_t,))
        email=mk_raw('resp_text',(w_e,)); tok=mk_raw('jmember',('access_token','String',text),'S'); exp=mk_raw('jmember',('expires_in','u64',text),c.m.desc('u64'))
        k.eq('a fetch returns the values just fetched '+n,p.value,tup(email,tok),p.f)
        inv=lib.shared_inv(c.m,p.cell,cell0.sort)
        k.true('the stored content satisfies the cell invariant '+n,p.implies(inv))
        # the next call, whatever happened before, on the content this path stored
        cand=times_after(p,w_t); best=None
        for t in cand:
            expiry=add(t,scale(exp,10**9))
            fresh=lt(Int(30*10**9),sub(expiry,now2))
            got=Or(*[second(q,q.f,p.cell) for q in reuse])
            pc=And(p.f,le(Int(0),now2))
            a=feasible_t(And(pc,got,Not(fresh))); b=feasible_t(And(pc,Not(got),fresh))
            if best is None or (not a and not b): best=(a,b)
        if best is None: best=(True,True)
        k.true('stored values are reused only if the time after the token reply + expires_in is more than 30 s after the clock '+n,not best[0],short_(p))
        k.true('and are reused whenever it is '+n,not best[1],short_(p))
        for q in reuse:
            g=second(q,q.f,p.cell); pc=And(p.f,g)
            if not feasible_t(pc): continue
            k.eq('a reuse returns the values of the fetch that stored them '+n,second(q,q.value,p.cell),tup(email,tok),pc)
    k.true('the cache content is decided by the call alone: every other path ends in a fetch or an error',all(p.ok or p.err for p in r.paths))
    # clones
    key=c.key('BoundToken',True)
    bs=[b for b in c.m.bodies if b.name.endswith('::clone') and len(b.params)==1 and b.params[0][1].split('::')[-1]=='SigningKey']
    if len(bs)!=1: k.true('SigningKey::clone exists',False,str(len(bs)))
    else:
        q=drive.symcall(c.m,bs[0],[key])
        k2=spec.Checker(bs[0].name); k2.true('a clone always results',q.pc is TRUE); k2.true('a clone is the same key: it shares the cell and the metadata host',q.value is key,pp(q.value)[:300]); k.obs+=k2.obs
    return k.obs
def short_(p): return describe(p)
def C16(c,what):
    import spec
    r=fetch_run(c); k=spec.Checker(r.fn)
    rbs=[]
    def want(i): return meta_url(['email','token'][i])
    def req(i,p): return rb_matches(p,p.https[i][0],'GET',want(i),[('metadata-flavor',Lit('Google'))],None)
    k.true('requests can be made',any(p.https for p in r.paths))
    allp(k,'at most two requests are sent',r.paths,lambda p: len(p.https)<=2)
    allp(k,'the first request is GET of the e-mail on the metadata host with Metadata-Flavor: Google',[p for p in r.paths if p.https],lambda p: req(0,p))
    allp(k,'the second request is GET of the token on the metadata host with Metadata-Flavor: Google',[p for p in r.paths if len(p.https)>1],lambda p: req(1,p))
    fetched=[p for p in r.paths if p.ok and p.https]; errs=[p for p in r.paths if not p.ok]
    allp(k,'a fetch that succeeds sent both requests',fetched,lambda p: len(p.https)==2)
    two=[p for p in r.paths if len(p.https)==2]; fetched=[p for p in fetched if len(p.https)==2]
    for i,n in((0,'e-mail'),(1,'token')):
        for j in range(4):
            allp(k,'success needs: %s: %s'%(n,resp_good(NIL)[j][0]),fetched,lambda p: p.implies(resp_good(p.https[i][1])[j][1]))
    for j in range(2): allp(k,'success needs: token: '+token_good(NIL)[j][0],fetched,lambda p: p.implies(token_good(p.https[1][1])[j][1]))
    allp(k,'the token is requested only after a good e-mail reply',two,lambda p: all(p.implies(f) for _,f in resp_good(p.https[0][1])))
    if len(r.cell0)==1:
        allp(k,'a failed call leaves the cache as it was',errs,lambda p: p.cell is r.cell0[0] or p.same(p.cell,r.cell0[0]))
        k.true('at every suspension point the cache is as it was (a dropped call changes nothing)',all(not feasible_t(pc) or all(v is r.cell0[0] or P.equal(v,r.cell0[0],pc) is None for v in cells.values()) for pc,cells in r.call.awaits))
    else: k.true('one lock',False)
    # completeness: an error has a reason in the replies
    def reasons(p):
        out=[]
        if not p.https: out.append(rb_of(r,0))
        for i,(rb,w) in enumerate(p.https): out+= [f for _,f in resp_good(w)]
        if len(p.https)==1: out.append(rb_of(r,1))
        if len(p.https)==2:
            out+=[f for _,f in token_good(p.https[1][1])]
            exp=mk_raw('jmember',('expires_in','u64',mk_raw('resp_text',(p.https[1][1],))),c.m.desc('u64'))
            out+=[lib.st_in(add(t,scale(exp,10**9))) for t in times_after(p,p.https[1][1])[:1]]
        return out
    def rb_of(r,i):
        """building request i succeeds"""
        xs={q.https[i][0] for q in r.paths if len(q.https)>i}
        return And(*[B('rb_ok',x) for x in xs])
    allp(k,'an error happens only for a failed request, a reply that is not 2xx, a body that is no Bearer token, or an expiry beyond the clock',errs,lambda p: not feasible_t(And(p.f,*reasons(p))))
    return k.obs
def C17(c,what):
    import spec
    bt=bound(c); b=c.inh('BoundToken','sign'); k=spec.Checker(b.name)
    msg=Var('message','S')
    call=drive.symcall(c.m,b,[bt,msg])
    cells=[x for x in call.state.c if x[0]=='shared']
    k.true('signing itself touches no shared cell',not cells)
    ps=[Path(cs,v,w,NIL,pc) for cs,(v,w),pc in paths([call.value,call.W],call.pc)]
    gt=mk('gt',bt)
    k.true('every path starts by obtaining the identity',all(p.kinds[:1]==['gt'] and p.kinds.count('gt')==1 and p.same(p.events[0][0].args[1],bt) for p in ps))
    gok=B('gt_ok',NIL,bt); em=mk_raw('gt_email',(NIL,bt),'S'); tk=mk_raw('gt_token',(NIL,bt),'S')
    ok=[p for p in ps if p.ok]; http=[p for p in ps if p.https]
    k.true('signing can succeed',bool(ok))
    allp(k,'at most one request is sent',ps,lambda p: len(p.https)<=1)
    allp(k,'the request needs the identity',http,lambda p: p.implies(gok))
    body=lib.json_text(mk('jobj',unit(tup(Lit('payload'),mk('jstr',b64enc(msg))))))
    url=seq(Lit('https://iamcredentials.googleapis.com/v1/projects/-/serviceAccounts/'),em,Lit(':signBlob'))
    allp(k,'the request is POST signBlob of the fetched e-mail with the bearer token and the Base64 of the message as only member payload',http,
         lambda p: rb_matches(p,p.https[0][0],'POST',url,[('authorization',seq(Lit('Bearer '),tk)),('content-type',Lit('application/json'))],body))
    allp(k,'success sent the request',ok,lambda p: len(p.https)==1)
    ok=[p for p in ok if p.https]
    def sig(p):
        t=mk_raw('resp_text',(p.https[0][1],)); return t,mk_raw('jmember',('signedBlob','String',t),'S')
    for j in range(4): allp(k,'success needs: '+resp_good(NIL)[j][0],ok,lambda p: p.implies(resp_good(p.https[0][1])[j][1]))
    allp(k,'success needs: the body has keyId and signedBlob',ok,lambda p: p.implies(B('json_fits',SIGN_SHAPE,sig(p)[0])))
    allp(k,'success needs: signedBlob is standard Base64',ok,lambda p: p.implies(B('b64_ok',sig(p)[1])))
    for i,p in enumerate(ok): k.eq('the result is the decoded signedBlob [%d]'%i,p.value,mk_raw('b64dec',(sig(p)[1],),'S'),p.f)
    errs=[p for p in ps if not p.ok]
    rbs={p.https[0][0] for p in http}
    def reasons(p):
        if not p.https: return [gok]+[B('rb_ok',x) for x in rbs]
        t,s=sig(p); return [f for _,f in resp_good(p.https[0][1])]+[B('json_fits',SIGN_SHAPE,t),B('b64_ok',s)]
    allp(k,'an error happens only for a missing identity, a failed request, a reply that is not 2xx, or a body without a Base64 signedBlob',errs,lambda p: p.err and not feasible_t(And(p.f,*reasons(p))))
    # the key's signing operation is this function, on the same message
    kb=c.inh('SigningKeyInner','sign'); k2=spec.Checker(kb.name); inner=subterms(c.key('BoundToken',True),lambda t: t.op=='mk' and t.args[0].split('::')[-2:-1]==['SigningKeyInner'])
    if k2.true('the bound key inside SigningKey',len(inner)==1):
        q=drive.symcall(c.m,kb,[inner[0],boolc(True),msg])
        sb=[x for x in subterms(q.W,lambda t: t.op=='mk' and t.args[0]=='sb')]
        k2.true('signing with a bound key is exactly one signBlob of the message',len(sb)==1 and q.W is unit(sb[0]) and sb[0].args[2] is msg and sb[0].args[1] is bt,pp(q.W)[:300])
        sg=[x for x in subterms(q.value,lambda t: t.op=='sb_sig')]; so=[x for x in subterms(q.value,lambda t: t.op=='sb_ok')]
        k2.true('its result is the signature of that call',len(sg)==1 and len(so)==1 and P.equal(isv('Ok',q.value),so[0],q.pc) is None and P.equal(proj(0,'Ok',q.value),sg[0],And(q.pc,so[0])) is None)
        q=drive.symcall(c.m,kb,[inner[0],boolc(False),msg])
        k2.true('without sign-blob a bound key refuses and sends nothing',q.W is NIL and not feasible_t(And(q.pc,isv('Ok',q.value))))
    return k.obs+k2.obs
