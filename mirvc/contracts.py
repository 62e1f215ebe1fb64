"""Contracts of the crate's internal functions.

Each contract is a specification program over the call's arguments: what the function returns, what it writes through
its &mut arguments and what it observes, with no panic under its precondition.  A contract is proved against the body of
the function (MIR of the current tree; callees by their own contracts) and is then used at the call sites in place of the
body, where the precondition is an obligation.  A contract that does not hold any more (a refactoring that moves work
between internal functions, say) is not used: its callers are checked against the body instead, so that only the
properties of the public functions decide."""
import time
import exec as X, lib, drive, prove as P, rules as R, term as tm, spec
from term import *
from rules import *
from exec import State, Unsupported
NSI=Int(10**9); LO,HI=Int(-62167219200),Int(253402300799)
class FC: pass
ALL=[]
def contract(name,find,cases=None,pre=None,props='*',shape=None):
    def d(f):
        k=FC(); k.name=name; k.find=find; k.cases=cases or (lambda c:[None]); k.pre=pre; k.spec=f; k.props=props; k.shape=shape; ALL.append(k); return f
    return d
class Moved(Exception): pass
def err(n,*a): return Err(mk_raw('cerr',(n,)+a))
# ---- finding functions and types
def inh(ty,meth,mod=None):
    def go(c):
        bs=[b for (p,n),b in c.m.inh.items() if n==meth and p.split('::')[-1]==ty and (mod is None or p.startswith(mod))]
        if len(bs)!=1: raise Moved()
        return bs[0]
    return go
def trt(ty,tr,meth,mod=None):
    def go(c):
        bs=[x[2] for x in c.m.traits.get((tr,meth),[]) if x[0].split('::')[-1]==ty and (mod is None or x[0].startswith(mod))]
        if len(bs)!=1: raise Moved()
        return bs[0]
    return go
def free(name,mod):
    def go(c): 
        try: return c.body(mod,name)
        except spec.Lost: raise Moved()
    return go
def path(c,ty,mod=None):
    xs=[p for p in c.m.src.structs if p.split('::')[-1]==ty and (mod is None or p.startswith(mod))]
    if len(xs)!=1: raise Moved()
    return xs[0]
def new(c,ty,*vals,mod=None):
    p=path(c,ty,mod)
    if len(c.m.src.structs[p].fields)!=len(vals): raise Moved()
    return mk(p,*vals)
def rec(c,ty,mod=None,**kw):
    p=path(c,ty,mod); fs=[f[0] for f in c.m.src.structs[p].fields]
    if set(fs)!=set(kw): raise Moved()
    return mk(p,*[kw[f] for f in fs])
def fld(c,v,ty,name,mod=None):
    p=path(c,ty,mod); fs=[f[0] for f in c.m.src.structs[p].fields]
    if name is None:
        if len(fs)!=1: raise Moved()
        return proj(0,p,v)
    if name not in fs: raise Moved()
    return proj(fs.index(name),p,v)
def variant(c,ty,v):
    xs=[p for p in c.m.src.enums if p.split('::')[-1]==ty]
    if len(xs)!=1: raise Moved()
    c.m.variants(xs[0]); n=xs[0]+'::'+v
    if n not in SUMS: raise Moved()
    return n
def isvar(c,ty,v,x): return isv(variant(c,ty,v),x)
def in_range(u): return And(le(LO,u),le(u,HI))
def put(c,i,text): c.put(i,seq(c.v(i),text)); return Ok(UNIT)
UNIT=tup()
UT=lambda c,x: new(c,'UnixTimestamp',x)
ut=lambda c,v: fld(c,v,'UnixTimestamp',None)
def svar(n,s='S'): return Var(n,s)
# ---- timestamps and dates
@contract('UnixTimestamp::try_from',trt('UnixTimestamp','TryFrom','try_from'))
def _(c): x=c.v(0); return ite(in_range(x),Ok(UT(c,x)),err('UnixTimestamp::try_from',x))
@contract('UnixTimestamp::from_system_time',inh('UnixTimestamp','from_system_time'))
def _(c):
    t=c.v(0); s=div(t,NSI); return ite(And(le(Int(0),t),le(s,HI)),Ok(UT(c,s)),err('from_system_time',t))
pre_ut=lambda c: in_range(ut(c,c.v(0)))
def yyyymmdd(u): return add(scale(R.REBUILD['year'](u),10000),add(scale(R.REBUILD['month'](u),100),R.REBUILD['day'](u)))
@contract('UnixTimestamp::to_date',inh('UnixTimestamp','to_date'),pre=pre_ut)
def _(c): return yyyymmdd(ut(c,c.v(0)))
@contract('UnixTimestamp::to_iso8601_basic_format_date_time',inh('UnixTimestamp','to_iso8601_basic_format_date_time'),pre=pre_ut)
def _(c): return spec.basic16(ut(c,c.v(0)))
@contract('UnixTimestamp::to_rfc3339',inh('UnixTimestamp','to_rfc3339'),pre=pre_ut)
def _(c): return spec.rfc20(ut(c,c.v(0)))
@contract('Date::from_unix_timestamp_obj',inh('Date','from_unix_timestamp_obj'),pre=pre_ut)
def _(c): return new(c,'Date',yyyymmdd(ut(c,c.v(0))))
@contract('<Date as Display>::fmt',trt('Date','Display','fmt'))
def _(c): return put(c,1,padd(fld(c,c.v(0),'Date',None),8))
@contract('ActiveDatetime::from_unix_timestamp_obj',inh('ActiveDatetime','from_unix_timestamp_obj'))
def _(c): return new(c,'ActiveDatetime',c.v(0))
@contract('<ActiveDatetime as Display>::fmt',trt('ActiveDatetime','Display','fmt'),pre=lambda c: in_range(ut(c,fld(c,c.v(0),'ActiveDatetime',None))))
def _(c): return put(c,1,spec.basic16(ut(c,fld(c,c.v(0),'ActiveDatetime',None))))
# ---- scope
@contract('Expiration::try_from',trt('Expiration','TryFrom','try_from','private::expiration'))
def _(c): x=c.v(0); return ite(And(le(Int(0),x),le(x,Int(604800))),Ok(new(c,'Expiration',x,mod='private::expiration')),err('Expiration::try_from',x))
@contract('<Expiration as Display>::fmt',trt('Expiration','Display','fmt','private::expiration'))
def _(c): return put(c,1,dec(fld(c,c.v(0),'Expiration',None,'private::expiration')))
@contract('Location::try_from',trt('Location','TryFrom','try_from'))
def _(c): return Ok(new(c,'Location',c.v(0)))
@contract('<Location as Display>::fmt',trt('Location','Display','fmt'))
def _(c): return put(c,1,fld(c,c.v(0),'Location',None))
def svc(c,v): return ite(isvar(c,'Service','S3',v),Lit('s3'),Lit('storage'))
def rqt(c,v): return ite(isvar(c,'RequestType','Aws4Request',v),Lit('aws4_request'),Lit('goog4_request'))
ALGS={'Goog4RsaSha256':'GOOG4-RSA-SHA256','Goog4HmacSha256':'GOOG4-HMAC-SHA256','Aws4HmacSha256':'AWS4-HMAC-SHA256'}
def alg(c,v):
    xs=[p for p in c.m.src.enums if p.split('::')[-1]=='SigningAlgorithm']
    if len(xs)!=1: raise Moved()
    ns=[n for n in ALGS if n in [x[0] if isinstance(x,tuple) else x for x in c.m.variants(xs[0])]] if 0 else list(ALGS)
    r=Lit(ALGS[ns[-1]])
    for n in ns[:-1]: r=ite(isvar(c,'SigningAlgorithm',n,v),Lit(ALGS[n]),r)
    return r
@contract('Service::as_str',inh('Service','as_str'))
def _(c): return svc(c,c.v(0))
@contract('<Service as Display>::fmt',trt('Service','Display','fmt'))
def _(c): return put(c,1,svc(c,c.v(0)))
@contract('RequestType::as_str',inh('RequestType','as_str'))
def _(c): return rqt(c,c.v(0))
@contract('<RequestType as Display>::fmt',trt('RequestType','Display','fmt'))
def _(c): return put(c,1,rqt(c,c.v(0)))
@contract('SigningAlgorithm::as_str',inh('SigningAlgorithm','as_str'))
def _(c): return alg(c,c.v(0))
@contract('CredentialScope::new',inh('CredentialScope','new'))
def _(c):
    d,l,s,r=[c.v(i) for i in range(4)]; goog=isvar(c,'RequestType','Goog4Request',r); st=isvar(c,'Service','Storage',s)
    return ite(eqv(goog,st),Ok(rec(c,'CredentialScope',date=d,location=l,service=s,request_type=r)),err('CredentialScope::new',s,r))
def eqv(a,b): return ite(a,b,Not(b))
def scope_text(c,v):
    g=lambda n: fld(c,v,'CredentialScope',n)
    return seq(padd(fld(c,g('date'),'Date',None),8),Lit('/'),fld(c,g('location'),'Location',None),Lit('/'),svc(c,g('service')),Lit('/'),rqt(c,g('request_type')))
@contract('<CredentialScope as Display>::fmt',trt('CredentialScope','Display','fmt'))
def _(c): return put(c,1,scope_text(c,c.v(0)))
# ---- methods, encodings
@contract('HttpVerb::from_str',trt('HttpVerb','FromStr','from_str'))
def _(c):
    s=c.v(0); r=err('HttpVerb::from_str',s)
    for v in spec.VERBS: r=ite(eq(s,Lit(v)),Ok(mk(variant(c,'HttpVerb',v.capitalize()))),r)
    return r
@contract('Method::from(HttpVerb)',trt('Method','From','from'))
def _(c):
    r=X.UNDEF_; vs=spec.VERBS
    r=Lit(vs[-1])
    for v in vs[:-1]: r=ite(isvar(c,'HttpVerb',v.capitalize(),c.v(0)),Lit(v),r)
    return r
HEX=tuple(b'%02x'%i for i in range(256))
PE=tuple((b'%%%02X'%i if i in b'!"#$&\'()*+,:;=?@[]' else bytes([i])) for i in range(256))
@contract('percent_encode_component',free('percent_encode_component','private::canonical_request'))
def _(c): return bmap(PCT,c.v(0))
@contract('percent_encode',free('percent_encode','private::canonical_request'))
def _(c): return bmap(PE,c.v(0))
@contract('hex_encode',free('hex_encode','private::signed_url'))
def _(c): return bmap(HEX,c.v(0))
def onsome(o,f,d):
    if o.op=='ite': return ite(o.args[0],onsome(o.args[1],f,d),onsome(o.args[2],f,d))
    if o is NONE or o is X.UNDEF_: return d
    return f(o.args[1]) if o.op=='mk' else ite(isv('Some',o),f(proj(0,'Some',o)),d)
# ---- the signed request
CR='private::canonical_request'
def req(c,v):
    return list(v.args[1:]) if v.op=='mk' else [proj(k,'request',v) for k in range(3)]
def pr(f): x=fresh('p','V:(S,S)'); return lam([x],f(tproj(0,2,x),tproj(1,2,x)))
def cqs(uri):
    q=lib.uri_query(uri)
    if q is NONE: return NIL
    ps=R.form_parse(proj(0,'Some',q)); l=spec.pairs(lambda n,v: seq(bmap(PCT,n),Lit('='),bmap(PCT,v)),ps)
    return ite(isv('Some',q),join(R.sort(l),Lit('&')),NIL)
def signed_headers(h): return join(sset(spec.pairs(lambda k,v: bmap(LOWER,k),h)),Lit(';'))
def header_lines(h):
    g=R.sgroup1(spec.pairs(lambda k,v: tup(bmap(LOWER,k),R.trim(v)),h)); x=fresh('g','V:(S,S)')
    return join(fm(lam([x],unit(seq(tproj(0,2,x),Lit(':'),join(tproj(1,2,x),Lit(','))))),g),Lit('\n'))
@contract('canonical_query_string',free('canonical_query_string',CR))
def _(c): return cqs(req(c,c.v(0))[1])
@contract('CanonicalRequest::new',inh('CanonicalRequest','new'))
def _(c):
    verb,uri,h=req(c,c.v(0))
    t=seq(verb,Lit('\n'),bmap(PE,lib.uri_path(uri)),Lit('\n'),cqs(uri),Lit('\n'),header_lines(h),Lit('\n\n'),signed_headers(h),Lit('\nUNSIGNED-PAYLOAD'))
    return ite(R.all_(pr(lambda k,v: R.ball(R.VIS,v)),h),Ok(new(c,'CanonicalRequest',t)),err('CanonicalRequest::new',h))
def text(c,ty): return fld(c,c.v(0),ty,None)
@contract('<CanonicalRequest as Display>::fmt',trt('CanonicalRequest','Display','fmt'))
def _(c): return put(c,1,text(c,'CanonicalRequest'))
def ad(c,v): return ut(c,fld(c,v,'ActiveDatetime',None))
@contract('StringToSign::new',inh('StringToSign','new'),pre=lambda c: in_range(ad(c,c.v(1))))
def _(c):
    cr=fld(c,c.v(3),'CanonicalRequest',None)
    return new(c,'StringToSign',seq(alg(c,c.v(0)),Lit('\n'),spec.basic16(ad(c,c.v(1))),Lit('\n'),scope_text(c,c.v(2)),Lit('\n'),R.sha256hex(cr)))
@contract('<StringToSign as Display>::fmt',trt('StringToSign','Display','fmt'))
def _(c): return put(c,1,text(c,'StringToSign'))
# ---- keys
K='SigningKeyInner'
def kp(c,v,i,x): return proj(i,variant(c,K,v),x)
def kf(c,v,name,x):
    """a named field of a variant"""
    n=variant(c,K,v); p=n.rsplit('::',1)[0]
    for a in c.m.src.enums[p].variants:
        if a[0]==v:
            fs=[f[0] for f in a[1]]
            if name in fs: return proj(fs.index(name),n,x)
    raise Moved()
@contract('SigningKeyInner::x_goog_algorithm',inh(K,'x_goog_algorithm'))
def _(c): return ite(isvar(c,K,'Hmac',c.v(0)),mk(variant(c,'SigningAlgorithm','Goog4HmacSha256')),mk(variant(c,'SigningAlgorithm','Goog4RsaSha256')))
def fut(name):
    """a future whose result is given by the decorated specification"""
    def d(f):
        lib.FUTURES['fut:'+name]=f
        return lambda c: mk('fut:'+name,*[c.v(i) for i in range(len(c.vals))])
    return d
@contract('SigningKeyInner::authorizer',inh(K,'authorizer'))
@fut('authorizer')
def _(c,k):
    bt=isvar(c,K,'BoundToken',k); gt=mk('fut:gt',kp(c,'BoundToken',0,k))
    def tok(c):
        r=lib.run_future(c,gt); return ite(isv('Ok',r),Ok(tproj(0,2,proj(0,'Ok',r))),err('authorizer',k))
    return branch(c,bt,tok,lambda c: Ok(ite(isvar(c,K,'Hmac',k),kf(c,'Hmac','access_id',k),kf(c,'ServiceAccount','client_email',k))))
def branch(c,k,f,g):
    """if k {f} else {g}, each with the state it runs in"""
    pc0,st0=c.pc,c.st
    c.pc=And(pc0,k); c.st=st0.copy(); a=f(c) if c.pc is not FALSE else X.UNDEF_; p1,s1=c.pc,c.st
    c.pc=And(pc0,Not(k)); c.st=st0.copy(); b=g(c) if c.pc is not FALSE else X.UNDEF_; p2,s2=c.pc,c.st
    c.pc,c.st=lib.merge_([(p1,s1),(p2,s2)],st0)
    return ite(k,a,b)
@contract('SigningKeyInner::sign',inh(K,'sign'))
@fut('key_sign')
def _(c,k,blob,msg):
    bt=isvar(c,K,'BoundToken',k); e=err('sign',k,blob)
    def remote(c):
        r=lib.run_future(c,mk('fut:sb',kp(c,'BoundToken',0,k),msg)); return ite(isv('Ok',r),Ok(proj(0,'Ok',r)),e)
    def local(c):
        pk=kf(c,'ServiceAccount','private_key',k)
        der=mk_raw('pem_contents',(pk,),'S'); key=mk('rsakey',Lit('pkcs8'),der)
        good=And(mk_raw('pem_ok',(pk,)),mk_raw('pkcs8_ok',('pkcs8',der)),mk_raw('rsa_ok',(key,)))
        return ite(And(good,isvar(c,K,'ServiceAccount',k)),Ok(mk_raw('rsa_sign',(mk('static:ring::signature::RSA_PKCS1_SHA256'),key,msg),'S')),e)
    return branch(c,bt,lambda c: branch(c,blob,remote,lambda c: e),lambda c: branch(c,blob,lambda c: e,local))
# ---- the URL
def url_parts(uri):
    r=lib.split_url(uri)
    if r is None or r[1] is None or not (r[1].op=='form_ser' or r[1] is NIL): raise Moved()
    return r[0],R.form_parse(r[1])
def uri_case(c): return seq(Lit(lib.HOSTP),mk_raw('urlpath',(svar('path'),)),Lit('?'),R.form_ser(svar('query')))
def req_case(c): return mk('request',svar('verb'),uri_case(c),svar('headers'))
def add_required(c,r,email,al,u,sc,exp):
    """(refused because of the headers, refused because of the length, request afterwards)"""
    verb,uri,h=req(c,r); P,q=url_parts(uri)
    q=seq(q,*[unit(tup(Lit(n),v)) for n,v in (('X-Goog-Algorithm',alg(c,al)),('X-Goog-Credential',seq(email,Lit('/'),scope_text(c,sc))),('X-Goog-Date',spec.basic16(u)),('X-Goog-Expires',dec(exp)),('X-Goog-SignedHeaders',signed_headers(h)))])
    new=seq(Lit(lib.HOSTP),lib.urlpath(P),Lit('?'),R.form_ser(q))
    nohost=R.all_(pr(lambda k,v: Not(eq(k,Lit('host')))),h)
    return nohost,lib.uri_ok(new) if hasattr(lib,'uri_ok') else mk_raw('uri_ok',(new,),'B'),mk('request',verb,new,h)
exps=lambda c,v: fld(c,v,'Expiration',None,'private::expiration')
@contract('add_signed_url_required_query_string_parameters',free('add_signed_url_required_query_string_parameters','private::signed_url'),
    cases=lambda c: [[req_case(c)]],pre=lambda c: in_range(ad(c,c.v(3))))
def _(c):
    nohost,ok,r2=add_required(c,c.v(0),c.v(1),c.v(2),ad(c,c.v(3)),c.v(4),exps(c,c.v(5)))
    good=And(Not(nohost),ok); c.put(0,ite(good,r2,c.v(0)))
    return ite(good,Ok(UNIT),err('add_signed_url_required_query_string_parameters'))
@contract('SignedUrl::new',inh('SignedUrl','new'),shape=lambda c: url_parts(req(c,c.v(3))[1]),cases=lambda c: [[None,None,None,req_case(c)]],pre=lambda c: in_range(ad(c,c.v(1))))
@fut('signed_url')
def _(c,sc,adt,exp,r,key,blob):
    k=fld(c,key,'SigningKey',None); e=err('SignedUrl::new',r,key)
    a=lib.run_future(c,mk('fut:authorizer',k)); ok=isv('Ok',a)
    def rest(c):
        al=ite(isvar(c,K,'Hmac',k),mk(variant(c,'SigningAlgorithm','Goog4HmacSha256')),mk(variant(c,'SigningAlgorithm','Goog4RsaSha256')))
        nohost,fits,r2=add_required(c,r,proj(0,'Ok',a),al,ad(c,adt),sc,exps(c,exp)); verb,uri,h=req(c,r2)
        vis=R.all_(pr(lambda n,v: R.ball(R.VIS,v)),h)
        def sign(c):
            cr=seq(verb,Lit('\n'),bmap(PE,lib.uri_path(uri)),Lit('\n'),cqs(uri),Lit('\n'),header_lines(h),Lit('\n\n'),signed_headers(h),Lit('\nUNSIGNED-PAYLOAD'))
            m=seq(alg(c,al),Lit('\n'),spec.basic16(ad(c,adt)),Lit('\n'),scope_text(c,sc),Lit('\n'),R.sha256hex(cr))
            s=lib.run_future(c,mk('fut:key_sign',k,blob,m))
            u=seq(Lit('https://storage.googleapis.com'),lib.uri_path(uri),Lit('?'),cqs(uri),Lit('&X-Goog-Signature='),bmap(HEX,proj(0,'Ok',s)))
            return ite(isv('Ok',s),Ok(new(c,'SignedUrl',u)),e)
        return branch(c,And(Not(nohost),fits,vis),sign,lambda c: e)
    return branch(c,ok,rest,lambda c: e)
@contract('String::from(SignedUrl)',trt('String','From','from'))
def _(c): return fld(c,c.v(0),'SignedUrl',None)
# ---- policies
PD='private::policy_document'
FIELDS=dict(Acl='acl',Bucket='bucket',CacheControl='Cache-Control',ContentDisposition='Content-Disposition',ContentEncoding='Content-Encoding',ContentLength='Content-Length',ContentType='Content-Type',
    Expires='Expires',File='file',Key='key',Policy='policy',SuccessActionRedirect='success_action_redirect',SuccessActionStatus='success_action_status',XGoogAlgorithm='x-goog-algorithm',
    XGoogCredential='x-goog-credential',XGoogCustomTime='x-goog-custom-time',XGoogDate='x-goog-date',XGoogSignature='x-goog-signature')
def field_text(c,v):
    i=fld(c,v,'Field',None,PD); r=seq(Lit('x-goog-meta-'),proj(0,variant(c,'Inner','XGoogMeta'),i))
    for n,t in FIELDS.items(): r=ite(isvar(c,'Inner',n,i),Lit(t),r)
    return r
def field_new(c,s):
    F=lambda x: Ok(new(c,'Field',x,mod=PD)); M=Lit('x-goog-meta-')
    no=err('Field::new',s)
    r=onsome(lib.strip_fix(True,s,M),lambda t: ite(Not(eq(t,NIL)),F(mk(variant(c,'Inner','XGoogMeta'),t)),no),no)
    for n,t in FIELDS.items(): r=ite(eq(s,Lit(t)),F(mk(variant(c,'Inner',n))),r)
    return r
@contract('policy_document::Field::new',inh('Field','new',PD))
def _(c): return field_new(c,c.v(0))
@contract('<policy_document::Field as Display>::fmt',trt('Field','Display','fmt',PD))
def _(c): return put(c,1,field_text(c,c.v(0)))
@contract('policy_document::Value::new',inh('Value','new',PD))
def _(c): return new(c,'Value',c.v(0),mod=PD)
@contract('<policy_document::Value as Display>::fmt',trt('Value','Display','fmt',PD))
def _(c): return put(c,1,fld(c,c.v(0),'Value',None,PD))
@contract('policy_document::Expiration::from_unix_timestamp_obj',inh('Expiration','from_unix_timestamp_obj',PD))
def _(c): return new(c,'Expiration',c.v(0),mod=PD)
pexp=lambda c: ut(c,fld(c,c.v(0),'Expiration',None,PD))
@contract('<policy_document::Expiration as Display>::fmt',trt('Expiration','Display','fmt',PD),pre=lambda c: in_range(pexp(c)))
def _(c): return put(c,1,spec.rfc20(pexp(c)))
@contract('<policy_document::Expiration as Serialize>::serialize',trt('Expiration','Serialize','serialize',PD),pre=lambda c: in_range(pexp(c)))
def _(c): return Ok(mk('jstr',spec.rfc20(pexp(c))))
@contract('<policy_document::Condition as Serialize>::serialize',trt('Condition','Serialize','serialize',PD))
def _(c):
    v=c.v(0); js=lambda t: unit(mk('jstr',t)); V=lambda n: variant(c,'Condition',n)
    def text(n): return seq(js(seq(Lit('$'),field_text(c,proj(0,V(n),v)))),js(fld(c,proj(1,V(n),v),'Value',None,PD)))
    J=lambda l: Ok(mk('jarr',l)); cl=V('ContentLengthRange')
    return ite(isvar(c,'Condition','ExactMatching',v),J(seq(js(Lit('eq')),text('ExactMatching'))),ite(isvar(c,'Condition','StartsWith',v),J(seq(js(Lit('starts-with')),text('StartsWith'))),
        J(seq(js(Lit('content-length-range')),unit(mk('jint',proj(0,cl,v))),unit(mk('jint',proj(1,cl,v)))))))
# ---- forms
FORMS=('C08','C11','C12','C13','C14','C18','C20','C21','C22')
H='html_form_data'; HB='HtmlFormDataBuilder'
FORDER=[('acl','acl'),('bucket','bucket'),('cache_control','Cache-Control'),('content_disposition','Content-Disposition'),('content_encoding','Content-Encoding'),('content_length','Content-Length'),
    ('content_type','Content-Type'),('expires','Expires'),('key','key'),('policy','policy'),('success_action_redirect','success_action_redirect'),('success_action_status','success_action_status'),
    ('x_goog_algorithm','x-goog-algorithm'),('x_goog_credential','x-goog-credential'),('x_goog_custom_time','x-goog-custom-time'),('x_goog_date','x-goog-date'),('x_goog_signature','x-goog-signature')]
def some(v): return proj(0,'Some',v)
def when(v,f): return ite(isv('Some',v),f(some(v)),NIL)
def utc_seconds(t): return div(t,NSI)
def in_span(t): return And(le(Int(0),t),le(div(t,NSI),HI))
def policy_parts(c,b,future):
    """Ok((policy, algorithm, credential, date, signature)) of a builder"""
    g=lambda n: fld(c,b,HB,n,H); o=g('policy_document_signing_options'); e=err('build_policy_and_x_goog_signature')
    if o is NONE: return Ok(tup(*[NONE]*5))
    S=lambda n: fld(c,some(o),'PolicyDocumentSigningOptions',n,H)
    def signed(c):
        aa=S('accessible_at'); exp=S('expiration'); k=fld(c,S('signing_key'),'SigningKey',None); hmac=isvar(c,K,'Hmac',k)
        at=branch(c,isv('Some',aa),lambda c: some(aa),lambda c: lib.now(c))
        fine=And(lt(at,exp),in_span(at),in_span(exp),isv('Some',g('bucket')),isv('Some',g('key')),Not(hmac)); sec=utc_seconds(at)
        def rest(c):
            a=lib.run_future(c,mk('fut:authorizer',k)); region=S('region'); date=spec.basic16(sec)
            cred=seq(proj(0,'Ok',a),Lit('/'),spec.scope(sec,region)); val=dict(x_goog_algorithm=Lit('GOOG4-RSA-SHA256'),x_goog_credential=cred,x_goog_date=date)
            meta=g('x_goog_meta'); cs=[]
            for n,t in FORDER:
                if n in('policy','x_goog_signature'): continue
                J=lambda v,t=t: unit(spec.jeq(Lit('$'+t),v))
                if n in val: cs.append(J(val[n])); continue
                if n=='content_length': J=lambda v: unit(mk('jarr',seq(unit(mk('jstr',Lit('content-length-range'))),unit(mk('jint',v)),unit(mk('jint',v)))))
                if n=='success_action_status': J=lambda v,t=t: unit(spec.jeq(Lit('$'+t),dec(v)))
                cs.append(when(g(n),J))
            cs.append(spec.pairs(lambda n,v: spec.jeq(seq(Lit('$x-goog-meta-'),n),v),meta))
            doc=mk('jobj',seq(unit(tup(Lit('conditions'),mk('jarr',seq(*cs)))),unit(tup(Lit('expiration'),mk('jstr',spec.rfc20(utc_seconds(exp)))))))
            pol=R.b64enc(lib.json_text(doc))
            def sign(c):
                s=lib.run_future(c,mk('fut:key_sign',k,S('use_sign_blob'),pol))
                return ite(isv('Ok',s),Ok(tup(Some(pol),Some(val['x_goog_algorithm']),Some(cred),Some(date),Some(bmap(HEX,proj(0,'Ok',s))))),e)
            return branch(c,And(isv('Ok',a),R.all_(pr(lambda n,v: Not(eq(n,NIL))),meta)),sign,lambda c: e)
        return branch(c,fine,rest,lambda c: e)
    return branch(c,isv('Some',o),signed,lambda c: Ok(tup(*[NONE]*5)))
def form_cases(c):
    """every builder: without signing options, with an instant, without one"""
    p=path(c,HB,H); q=path(c,'PolicyDocumentSigningOptions',H); b=c.m.var('a0',p)
    fs=[f[0] for f in c.m.src.structs[p].fields]; i=1+fs.index('policy_document_signing_options')
    qs=[f[0] for f in c.m.src.structs[q].fields]; j=1+qs.index('accessible_at')
    o=list(c.m.var('o0',q).args)
    out=[]
    for x in (None,NONE,Some(Var('at','IT'))):
        a=list(b.args)
        if x is None: a[i]=NONE
        else: p2=list(o); p2[j]=x; a[i]=Some(mk(*p2))
        out.append([mk(*a)])
    return out
@contract('HtmlFormDataBuilder::build_policy_and_x_goog_signature',inh(HB,'build_policy_and_x_goog_signature'),cases=form_cases,props=FORMS)
@fut('policy_parts')
def _(c,b): return policy_parts(c,b,None)
@contract('HtmlFormDataBuilder::build',inh(HB,'build'),cases=form_cases,props=())
@fut('form')
def _(c,b):
    g=lambda n: fld(c,b,HB,n,H); r=lib.run_future(c,mk('fut:policy_parts',b)); e=err('HtmlFormDataBuilder::build')
    parts=dict(zip(('policy','x_goog_algorithm','x_goog_credential','x_goog_date','x_goog_signature'),[tproj(i,5,proj(0,'Ok',r)) for i in range(5)]))
    l=[]
    for n,t in FORDER:
        J=lambda v,t=t: unit(tup(Lit(t),v))
        if n in('content_length','success_action_status'): J=lambda v,t=t: unit(tup(Lit(t),dec(v)))
        l.append(when(parts[n] if n in parts else g(n),J))
    l.append(spec.pairs(lambda n,v: tup(seq(Lit('x-goog-meta-'),n),v),g('x_goog_meta')))
    good=And(isv('Ok',r),isv('Some',g('key')),R.all_(pr(lambda n,v: Not(eq(n,NIL))),g('x_goog_meta')))
    return ite(good,Ok(new(c,'HtmlFormData',seq(*l))),e)
@contract('HtmlFormData::into_vec',inh('HtmlFormData','into_vec'))
def _(c): return fld(c,c.v(0),'HtmlFormData',None)
# ------------------------------------------------------------------ proving
def mask(v):
    """forget error payloads"""
    if v.op=='ite': return ite(v.args[0],mask(v.args[1]),mask(v.args[2]))
    if v.op=='mk' and v.args[0]=='Err': return Err(UNIT)
    return v
def prove_one(c,k):
    """the body and a list of (obligation name, ok, detail); raises Moved / Unsupported"""
    b=k.find(c); out=[]; k.assumed=set(); k.bodies=set(); k.uses=set(); fused0=set(c.m.fused)
    for n,case in enumerate(k.cases(c)):
        m=c.m
        # symbolic arguments, the same for the body and for the specification
        st=State(); st[('W',)]=NIL; vals=[]
        for i,(pn,ty) in enumerate(b.params):
            if case is not None and i<len(case) and case[i] is not None: v=case[i]
            else:
                base=ty.split('mut ',1)[1] if drive.is_mutref(ty) else ty
                h=X.head_args(X.strip_refs(base))[0]
                v=svar('a%d'%i) if h=='Formatter' or X.strip_refs(base) in('S','P','__S') or base.startswith('impl ') else m.var('a%d'%i,base)
            if drive.is_mutref(ty):
                cell=('arg',i); st[cell]=v; v=mk_raw('ref',(cell,()))
            vals.append(v)
        cx=lib.Cx(m,b.name,vals,[t for _,t in b.params],b.ret,st.copy(),TRUE,b.name,None)
        pre=k.pre(cx) if k.pre else TRUE
        cx.pc=pre; m.log=[]; m.root=b
        want=k.spec(cx)
        if want is NotImplemented: continue
        if m.log: raise Moved()
        if drive.is_future(want): want=lib.run_future(cx,want)
        m.fused.clear(); r=drive.symcall(m,b,vals,pc=pre,st=st.copy())
        k.assumed|=r.assumed; k.bodies|={x.name for x in r.used}; k.uses|=m.fused
        tag='' if n==0 and len(k.cases(c))==1 else ' [case %d]'%n
        def ob(what,ok,d=''): out.append((k.name+': '+what+tag,ok,d))
        ob('returns on every path allowed by the precondition',P.equal(boolc_(r.pc),boolc_(cx.pc),TRUE) is None and not r.unknown,str([x[0] for x in r.unknown])[:200])
        g,w=mask(r.value),mask(want)
        e=P.equal(g,w,cx.pc)
        ob('result',e is None,'' if e is None else 'code %s ; contract %s'%(spec.short(e[1],200),spec.short(e[2],200)))
        Ww=cx.st[('W',)]
        ob('observations',P.equal(r.W,Ww,cx.pc) is None and not r.acquired and not r.newcells)
        for i in r.cells: pass
        for i,(pn,ty) in enumerate(b.params):
            if drive.is_mutref(ty):
                ref=mk_raw('ref',(('arg',i),()))
                e=P.equal(m.deref(ref,r.state),m.deref(ref,cx.st),cx.pc)
                ob('argument %d after the call'%i,e is None,'' if e is None else 'code %s ; contract %s'%(spec.short(e[1],200),spec.short(e[2],200)))
    c.m.fused.clear(); c.m.fused|=fused0
    return b,out
def boolc_(f): return ite(f,mk('T'),mk('F'))
def handler(k):
    def h(cx):
        cx.m_pre=None
        try:
            if k.shape: k.shape(cx)   # the call is of the form the contract was proved for
            if k.pre:
                p=k.pre(cx)
                if P.feasible_t(And(cx.pc,Not(p))): return NotImplemented
            return k.spec(cx)
        except Moved: return NotImplemented
    return h
class TooLong(Exception): pass
def install(c,prop=None,verbose=False,limit=40):
    """prove every contract bottom-up; install those that hold.  Returns rows for the evidence"""
    import signal
    rows=[]
    def stop(*a): raise TooLong()
    old=signal.signal(signal.SIGALRM,stop); end=time.time()+limit*3
    for k in ALL:
        if prop and k.props!='*' and prop not in k.props: continue
        t=time.time(); obs=[]; b=None
        try:
            signal.alarm(max(1,int(min(limit,end-t)))); b,obs=prove_one(c,k); ok=bool(obs) and all(o[1] for o in obs)
            why='proved' if ok else 'does not hold of the body'
        except Moved: ok=False; why='the function is not there in this form'
        except Exception as e:
            if verbose: raise
            ok=False; why='not proved: %s %s'%(type(e).__name__,str(e)[:200])
        finally: signal.alarm(0)
        rows.append(dict(name=k.name,ok=ok,why=why,obs=obs,secs=time.time()-t,function=b.name if b else '?',assumed=getattr(k,'assumed',set()),bodies=getattr(k,'bodies',set()),uses=getattr(k,'uses',set()),pre=bool(k.pre)))
        if ok: c.m.fcontracts[b]=(k,handler(k))
    signal.signal(signal.SIGALRM,old)
    return rows
def closure(rows,used):
    """the contracts behind a set of used ones"""
    by={r['name']:r for r in rows}; out=set(); todo=list(used)
    while todo:
        n=todo.pop()
        if n in out or n not in by: continue
        out.add(n); todo+=by[n]['uses']
    return [r for r in rows if r['name'] in out]
