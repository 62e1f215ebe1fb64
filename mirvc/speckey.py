"""C19 (loading a service account) and C20 (no panic)."""
import drive, lib, prove as P, term as tm
from term import *
from rules import *
from prove import subterms, feasible_t
def B(op,*a): return mk_raw(op,a,'B')
def acc_ok(s):
    """the text is a JSON object with two string members"""
    root=mk_raw('jroot',(s,)); f=And(B('json_ok',s),B('jis','object',root))
    for n in('client_email','private_key'):
        f=And(f,B('jhas',root,Lit(n)),B('jis','string',mk_raw('jget',(root,Lit(n)))))
    return f
def member(s,n): return mk_raw('jstr_',(mk_raw('jget',(mk_raw('jroot',(s,)),Lit(n))),),'S')
def C19(c,what):
    import spec
    key=c.key('ServiceAccount')
    b=c.inh('SigningKey','service_account_from_'+what); k=spec.Checker(b.name)
    a=Var('text','S') if what=='str' else Var('path','S')
    r=drive.symcall(c.m,b,[a])
    s=a if what=='str' else mk_raw('file_text',(a,),'S')
    want=acc_ok(s)
    if what=='path': want=And(B('file_ok',a),B('file_utf8',a),want)
    k.true('the loader always returns',r.pc is TRUE and not r.unknown,pp(r.pc)[:300])
    ok=isv('Ok',r.value)
    n={'str':'the text is a JSON object with string members client_email and private_key','path':'the file is readable UTF-8 text that is a JSON object with string members client_email and private_key'}[what]
    k.true('a key is loaded only if '+n,not feasible_t(And(ok,Not(want))),pp(And(ok,Not(want)))[:600])
    k.true('a key is loaded whenever '+n,not feasible_t(And(want,Not(ok))),pp(And(want,Not(ok)))[:600])
    expect=subst(key,{Var('email','S'):member(s,'client_email'),Var('pk','S'):member(s,'private_key')})
    k.eq('the loaded key is service_account(client_email, private_key), unchanged',proj(0,'Ok',r.value),expect,And(ok,want))
    ev=[e.args[0] for e in pieces(r.W) if e.op=='unit']
    if what=='str': k.true('loading from text touches nothing outside',r.W is NIL,pp(r.W)[:200])
    else: k.true('loading reads that file and nothing else',all(x.op=='mk' and x.args[0]=='open' and x.args[1] is a for x in ev) and len(ev)==len(pieces(r.W)),pp(r.W)[:200])
    return k.obs
# ------------------------------------------------------------------ C20
def total(c,k,name,call,pc0=TRUE,assume=TRUE):
    """the call returns on every input: no panic is reachable and every path ends"""
    n=0
    for p,msg,where in call.log:
        f=And(pc0,assume,p)
        if feasible_t(f): k.holds('%s: cannot panic at %s (%s)'%(name,where,msg),Not(And(assume,p)),pc0); n+=1
    k.true('%s: none of the %d panic sites met on its paths is reachable'%(name,len(call.log)),n==0)
    k.holds('%s: every path ends in a value'%name,Or(call.pc,Not(assume)),pc0)
    k.true('%s: all code on its paths is modelled'%name,not call.unknown,str([x[1:] if isinstance(x,tuple) else x for x in call.unknown[:3]])[:300])
def cells_inv(c,call):
    f=TRUE
    for v,var,pc,where in call.acquired: f=And(f,lib.shared_inv(c.m,var))
    return f
def C20(c,what):
    import spec, specbt
    if what[0]=='url':
        r=spec.url_run(c,*what[1:]); k=spec.url_checker(r)
        total(c,k,'build_signed_url [%s]'%spec.tag(r),r.call,r.pc0,cells_inv(c,r.call)); return k.obs
    if what[0]=='form':
        r=spec.form_run(c,*what[1:]); k=spec.Checker(r.fn,spec.confirm_with(spec.form_envs(r),spec.form_session))
        total(c,k,'HtmlFormDataBuilder::build [%s]'%spec.tagx(r),r.call,getattr(r,'pc0',TRUE),cells_inv(c,r.call)); return k.obs
    obs=[]
    def one(name,b,args=None):
        k=spec.Checker(b.name); r=drive.symcall(c.m,b,args); total(c,k,name,r,TRUE,cells_inv(c,r)); obs.extend(k.obs); return r
    if what[0]=='keys':
        for n in('service_account','hmac','bound_token','service_account_from_str','service_account_from_path'): one('SigningKey::'+n,c.inh('SigningKey',n))
        bt=specbt.bound(c)
        one('the metadata fetch',c.inh('BoundToken','get_email_and_token'),[bt])
        one('signBlob',c.inh('BoundToken','sign'),[bt,Var('message','S')])
        for b in c.m.bodies:
            if b.name.endswith('::clone') and len(b.params)==1 and b.params[0][1].split('::')[-1] in('SigningKey','BuildSignedUrlOptions','HtmlFormData'):
                one(b.params[0][1].split('::')[-1]+'::clone',b)
    if what[0]=='builder':
        for (p,n),b in sorted(c.m.inh.items()):
            t=p.split('::')[-1]
            if t in('HtmlFormDataBuilder','HtmlFormData') and n!='build': one(t+'::'+n,b)
    return obs
def tasks20(spec):
    out=[]
    for kind,blob in(('ServiceAccount',False),('ServiceAccount',True),('BoundToken',True),('BoundToken',False),('Hmac',False),('Hmac',True)):
        for at in(1,0): out+=[(C20,(('url',None,at,kind,blob),)),(C20,(('form',at,kind,blob),))]
    return [(C20,(('form',1,None,None),)),(C20,(('keys',),)),(C20,(('builder',),))]+out
