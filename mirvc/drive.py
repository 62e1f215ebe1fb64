"""Symbolic calls of single functions of the crate."""
import time
import exec as X, lib, term as tm
from term import *
from exec import State, Unsupported, strip_refs, head_args
class Call: pass
USED=set(); ASSUMED=set()
def is_mutref(t): return t.startswith('&mut ') or (t.startswith("&'") and ' mut ' in t.split(' ',2)[1]+' ')
def symcall(m,body,args=None,await_=True,pc=TRUE,st=None):
    """run a body on symbolic arguments; async functions are awaited"""
    r=Call(); r.body=body; t0=time.time()
    m.log=[];m.unknown=[];m.used=[];m.acquired=[];m.newcells=[];m.awaits=[];m.assumed=set()
    m.root=body; m.ccalls=[]
    st=st or State(); vals=[]; r.args=[]; r.cells={}
    if st[('W',)] is X.UNDEF_: st[('W',)]=NIL
    for i,(n,ty) in enumerate(body.params):
        if args is not None and i<len(args) and args[i] is not None: vals.append(args[i]); r.args.append(args[i]); continue
        base=ty
        if is_mutref(ty):
            base=ty.split('mut ',1)[1]
            h=head_args(strip_refs(base))[0]
            v=Var('a%d'%i,'S') if h=='Formatter' else m.var('a%d'%i,base)
            c=('arg',i); st[c]=v; r.cells[i]=c; vals.append(mk_raw('ref',(c,()))); r.args.append(v); continue
        v=m.var('a%d'%i,base); vals.append(v); r.args.append(v)
    v,s2,p=m.run(body,vals,st,pc)
    if await_ and is_future(v) and p is not FALSE:
        cx=lib.Cx(m,'drive::await',[],[],'?',s2,p,body.name,None)
        v=lib.run_future(cx,v); s2,p=cx.st,cx.pc
    r.value=m.deref(v,s2) if v is not X.UNDEF_ else v
    r.state=s2; r.pc=p; r.log=list(m.log); r.unknown=list(m.unknown); r.used=list(m.used); r.ccalls=list(m.ccalls); r.assumed=set(m.assumed)
    r.acquired=list(m.acquired); r.newcells=list(m.newcells); r.awaits=list(m.awaits)
    r.W=s2[('W',)] if s2[('W',)] is not X.UNDEF_ else NIL
    r.out={i:m.deref(mk_raw('ref',(c,())),s2) for i,c in r.cells.items()}
    r.secs=time.time()-t0
    USED.update(b.name for b in r.used); ASSUMED.update(r.assumed)
    return r
def is_future(v):
    if v.op=='ite': return is_future(v.args[1]) or is_future(v.args[2])
    return v.op=='mk' and (v.args[0].startswith('closure:{coroutine@') or v.args[0].startswith('closure:{async') or v.args[0] in lib.FUTURES)
