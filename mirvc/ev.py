"""Concrete evaluation of terms under an assignment (used to confirm that a failed obligation is a real difference and
to obtain the inputs that show it)."""
import hashlib, base64, re, datetime
import term as tm, rules as R
from term import *
class Undef(Exception): pass
def h(tag,*xs): return hashlib.sha256(repr((tag,)+xs).encode()).digest()
def freeze(v): return tuple(freeze(x) for x in v) if isinstance(v,(list,tuple)) else v
def cat(a,b):
    if isinstance(a,bytes) and isinstance(b,bytes): return a+b
    if a==b'' or a==[]: return b
    if b==b'' or b==[]: return a
    if isinstance(a,list) and isinstance(b,list): return a+b
    raise Undef('cat %r %r'%(type(a),type(b)))
def aslist(v):
    if v==b'': return []
    if isinstance(v,bytes): return [x for x in v]
    return v
FIELDRE=re.compile(r'^[!#$%&\'*+\-.^_`|~0-9A-Za-z]*$')
def civil(sec): return datetime.datetime(1970,1,1)+datetime.timedelta(seconds=sec)
def pathnorm(p):
    """path of the url crate for an http URL whose path is p (a bytes starting with /)"""
    segs=p.split(b'/')[1:]; out=[]
    for i,s in enumerate(segs):
        l=s.lower().replace(b'%2e',b'.'); last=i==len(segs)-1
        if l==b'..':
            if out: out.pop()
            if last: out.append(b'')
        elif l==b'.':
            if last: out.append(b'')
        else: out.append(s)
    r=b'/'+b'/'.join(out)
    if re.search(rb'[^!#$%&\'()*+,\-./:;=@\[\]^_|~0-9A-Za-z"<>`{} ?\\]',p) or re.search(rb'["<>`{} ?#\\]',p): raise Undef('pathnorm')
    return r
FORMT=R.FORM
class Ev:
    def __init__(e,env): e.env=env; e.memo={}; e.stack=[]
    def __call__(e,t):
        if not t.fv or not any(isinstance(x,str) and x in e.bound for x in t.fv):
            k=t.id
            if k in e.memo: return e.memo[k]
            r=e.ev(t); e.memo[k]=r
            return r
        return e.ev(t)
    bound=frozenset()
    def lamcall(e,l,args):
        vs,body=open_lam(l)
        names=[v.args[0] for v in vs]
        old=e.bound,{n:e.env.get(n) for n in names}
        e.bound=e.bound|set(names)
        for n,a in zip(names,args): e.env[n]=a
        try: return e(body)
        finally:
            e.bound=old[0]
            for n,v in old[1].items(): 
                if v is None: e.env.pop(n,None)
                else: e.env[n]=v
    def ev(e,t):
        o=t.op; a=t.args
        f=getattr(e,'o_'+o,None)
        if f is None: raise Undef(o)
        return f(*a)
    def o_true(e): return True
    def o_false(e): return False
    def o_int(e,n): return n
    def o_lit(e,b): return b
    def o_seq(e,*ps):
        r=b''
        for p in ps: r=cat(r,e(p))
        return r
    def o_unit(e,x):
        v=e(x)
        return [v]
    def o_var(e,n,s):
        if n in e.env: return e.env[n]
        raise Undef('var '+n)
    def o_ite(e,c,x,y): return e(x) if e(c) else e(y)
    def o_mk(e,n,*a): return (n,)+tuple(e(x) if isinstance(x,T) else x for x in a)
    def o_proj(e,i,n,t):
        v=e(t)
        if isinstance(v,tuple) and v and v[0]==n: return v[1+i]
        if isinstance(v,dict): 
            return v[(n,i)]
        raise Undef('proj %s of %r'%(n,v if not isinstance(v,bytes) else v[:20]))
    def o_is(e,n,t):
        v=e(t)
        if isinstance(v,tuple) and v and isinstance(v[0],str): return v[0]==n
        raise Undef('is')
    def o_lin(e,c,its):
        r=c
        for y,k in its: r+=k*e(y)
        return r
    def o_le0(e,x): return e(x)<=0
    def o_eq0(e,x): return e(x)==0
    def o_div(e,x,k): return e(x)//e(k) if isinstance(k,T) else e(x)//k
    def o_mod(e,x,k): return e(x)%e(k) if isinstance(k,T) else e(x)%k
    def o_len(e,x): return len(e(x))
    def o_eq(e,x,y):
        a,b=e(x),e(y)
        if (a==b'' or a==[]) and (b==b'' or b==[]): return True
        return freeze(a)==freeze(b)
    def o_bmap(e,tab,s):
        v=e(s)
        if v==[]: return b''
        return b''.join(tab[x] for x in v)
    def o_ball(e,m,s): return all(m>>x&1 for x in e(s))
    def o_fm(e,l,xs):
        r=b''
        for x in aslist(e(xs)): r=cat(r,e.lamcall(l,[x]))
        return r
    def o_all(e,l,xs): return all(e.lamcall(l,[x]) for x in aslist(e(xs)))
    def o_any(e,l,xs): return any(e.lamcall(l,[x]) for x in aslist(e(xs)))
    def o_join(e,l,s): 
        x=e(s); return x.join(aslist(e(l)))
    def o_split(e,s,c): return e(s).split(e(c))
    def o_sort(e,l): return sorted(aslist(e(l)),key=freeze)
    def o_sset(e,l): return sorted(set(aslist(e(l))))
    def o_sgroup(e,l):
        d={}
        for x in aslist(e(l)): d.setdefault(x[1],[]).append(x[2])
        return [('(2)',k,d[k]) for k in sorted(d)]
    def o_hm_iter(e,l):
        d={}
        for x in aslist(e(l)): d.setdefault(x[1].lower(),[]).append(x)
        return [x for k in d for x in d[k]]
    def o_hm_keys(e,l):
        d={}
        for x in aslist(e(l)): d.setdefault(x[1].lower(),x[1])
        return list(d)
    def o_hm_vals(e,l,k):
        n=e(k); return [x[2] for x in aslist(e(l)) if x[1].lower()==n]
    def o_rev(e,l):
        v=e(l); return v[::-1]
    def o_trim(e,s):
        v=e(s)
        try: return v.decode().strip().encode()
        except UnicodeDecodeError: raise Undef('trim')
    def o_lower(e,s): return e(s).decode().lower().encode()
    def o_upper(e,s): return e(s).decode().upper().encode()
    def o_chars(e,s): return [ord(c) for c in e(s).decode()]
    def o_utf8(e,c):
        v=e(c)
        return ''.join(chr(x) for x in (v if isinstance(v,list) else [v])).encode()
    def o_bytes_of(e,s): return e(s)
    def o_dec(e,x): return str(e(x)).encode()
    def o_padd(e,x,n):
        return str(e(x)).rjust(n if isinstance(n,int) else e(n),'0').encode()
    def o_year(e,x): return civil(e(x)).year
    def o_month(e,x): return civil(e(x)).month
    def o_day(e,x): return civil(e(x)).day
    def o_hour(e,x): return civil(e(x)).hour
    def o_minute(e,x): return civil(e(x)).minute
    def o_second(e,x): return civil(e(x)).second
    def o_sha256hex(e,s): return hashlib.sha256(e(s)).hexdigest().encode()
    def o_b64enc(e,s): return base64.b64encode(e(s))
    def o_form_ser(e,l): return b'&'.join(b''.join(FORMT[c] for c in x[1])+b'='+b''.join(FORMT[c] for c in x[2]) for x in aslist(e(l)))
    def o_urlpath(e,p): return pathnorm(e(p))
    def o_uri_ok(e,s): v=e(s); return len(v)<65535
    def o_hm_room(e,*a): return True
    def o_slice(e,s,i,j): return e(s)[e(i) if isinstance(i,T) else i:e(j) if isinstance(j,T) else j]
    def o_take(e,s,n): return e(s)[:e(n)]
    def o_skip(e,s,n): return e(s)[e(n):]
    def o_starts_(e,s,p): return e(s).startswith(e(p))
    def o_ends_(e,s,p): return e(s).endswith(e(p))
    def o_contains_(e,s,p): return e(p) in e(s)
    def o_replace(e,s,a,b): return e(s).replace(e(a),e(b))
    def o_pem_contents(e,k): return h('pem',e(k))
    def o_rsa_sign(e,*a): return h('rsa',*[freeze(e(x)) if isinstance(x,T) else x for x in a])
    def o_name(e,n): return e(tm.DEFS[n])
    def o_sb_sig(e,*a): return h('sb',*[freeze(e(x)) for x in a])
    def o_gt_email(e,*a): return b'sa-'+h('em',*[freeze(e(x)) for x in a]).hex()[:8].encode()+b'@x.test'
    def o_gt_token(e,*a): return b'tok'+h('tk',*[freeze(e(x)) for x in a]).hex()[:8].encode()
    def o_gt_ok(e,*a): return e.env.get('gt_ok',True)
    def o_sb_ok(e,*a): return e.env.get('sb_ok',True)
    def o_pem_ok(e,*a): return True
    def o_pkcs8_ok(e,*a): return True
    def o_rsa_ok(e,*a): return True
    def o_env_some(e,n): return True
    def o_env(e,n): return b'meta.test'
    def o_now(e,w):
        v=e(w); return e.env.get('now',10**18)+len(aslist(v))
    def o_jobj(e,l): return ('jobj',freeze(e(l)))
    def o_jarr(e,l): return ('jarr',freeze(e(l)))
    def o_jstr(e,s): return ('jstr',e(s))
    def o_jint(e,s): return ('jint',e(s))
    def o_json(e,j):
        import json
        def r(j):
            if j[0]=='jstr': return json.dumps(j[1].decode(),ensure_ascii=False)
            if j[0]=='jint': return str(j[1])
            if j[0]=='jarr': return '['+','.join(r(x) for x in j[1])+']'
            if j[0]=='jobj': return '{'+','.join(json.dumps((x[1] if len(x)==3 else x[0]).decode())+':'+r(x[-1]) for x in j[1])+'}'
            raise Undef('json '+str(j[0]))
        return r(e(j)).encode()
def evaluate(t,env): return Ev(dict(env))(t)
