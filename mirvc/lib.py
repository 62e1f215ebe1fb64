"""Assumed contracts of library functions (std and the crates /repo depends on)."""
import re
import term as tm
from term import *
import rules as R
from rules import *
import src
import exec as X
from exec import Unsupported, UNIT, strip_refs, head_args, INT, parse_callee
NS=10**9
I64MAX=2**63-1
def const(m,p):
    q=src.strip_generics(p)
    last2='::'.join(q.split('::')[-2:])
    if last2 in('SystemTime::UNIX_EPOCH','time::UNIX_EPOCH'): return Int(0)
    mm=re.match(r'^.*Method::(\w+)$',q)
    if mm: return Lit(mm.group(1))
    mm=re.match(r'^.*header::([A-Z_]+)$',q)
    if mm: return Lit(mm.group(1).lower().replace('_','-'))
    mm=re.match(r'^(?:std::|core::)?(\w+)::(MAX|MIN|BITS)$',q)
    if mm and mm.group(1) in INT: 
        lo,hi=INT[mm.group(1)]
        return Int({'MAX':hi,'MIN':lo,'BITS':(hi-lo+1).bit_length()-1}[mm.group(2)])
    if last2=='Duration::ZERO': return Int(0)
    return None
class Cx:
    def __init__(c,m,callee,vals,tys,rty,st,pc,where,fr):
        c.m=m; c.callee=callee; c.vals=vals; c.tys=tys; c.rty=rty; c.st=st; c.pc=pc; c.where=where; c.fr=fr
        p=parse_callee(callee)
        c.T=c.tr=None; c.ta=[]
        if p[0]=='trait':
            _,c.T,c.tr,c.ta,c.meth=p
            c.key=c.tr+'::'+c.meth
        else:
            q=re.sub(r'^core::(str|slice|num|char)::<impl ([^>]*)>::',lambda mm:({'str':'str','slice':'slice','num':'num','char':'char'}[mm.group(1)])+'::',callee)
            mm=re.match(r'^.*<impl (.*?)>::(\w+)(::<.*>)?$',callee)
            c.implty=mm.group(1) if mm else None
            q=src.strip_generics(q)
            q=re.sub(r'<impl .*?>','',q)
            seg=[x for x in q.split('::') if x]
            c.meth=seg[-1]
            c.key='::'.join(seg[-2:])
        # explicit generic arguments of the last segment
        c.targs=[]
        if callee.endswith('>'):
            d=0
            for i in range(len(callee)-1,-1,-1):
                if callee[i]=='>' and callee[i-1]!='-': d+=1
                elif callee[i]=='<':
                    d-=1
                    if d==0: break
            if callee[:i].endswith('::'): c.targs=src.split(callee[i+1:-1])
    def v(c,i):
        return c.m.deref(c.vals[i],c.st)
    def put(c,i,new):
        c.m.store(c.vals[i],new,c.st)
    def panic(c,cond,msg):
        bad=And(c.pc,cond)
        if bad is not FALSE: c.m.log.append((bad,msg,c.where))
        c.pc=And(c.pc,Not(cond))
    def invoke(c,callee,vals,tys=None,rty='?'):
        v,c.st,c.pc=c.m.invoke(callee,vals,tys or ['?']*len(vals),rty,c.st,c.pc,c.where,c.fr)
        return v
    def apply(c,f,*args,under=None):
        """call a function value; under: condition (effects only happen there)"""
        if under is FALSE: return X.UNDEF_
        pc0=c.pc
        p=And(pc0,under) if under is not None else pc0
        if p is FALSE: return X.UNDEF_
        v,st,pc=c.m.call_value(f,list(args),c.st,p,c.where)
        if under is not None:
            pp_,c.st=merge_([(And(pc0,Not(under)),c.st),(pc,st)],c.st)
            c.pc=pp_
        else: c.st=st; c.pc=pc
        return v
    def lam1(c,f,sort,l=None):
        """run a function value on a fresh element: a lambda; it must not change the state"""
        x=c.m.expand(Var(fresh('e').args[0],sort)) 
        base=fresh(elemname(c,'e'),sort)
        x=c.m.expand(base)
        mark=len(c.m.log)
        before=c.st
        v,st,pc=c.m.call_value(f,[x],c.st,TRUE,c.where)
        for k in set(st.c)|set(before.c):
            if k[0]=='tmp': continue
            if k in before.c and st[k] is not before[k]: raise Unsupported('effect inside an iterator closure')
        logs=c.m.log[mark:]; del c.m.log[mark:]
        f_=lam([base],c.m.deref(v,st))
        if l is not None:
            for p,msg,w in logs:
                c.m.log.append((And(c.pc,Not(all_(lam([base],Not(p)),l))),msg+' (for some element)',w))
            if logs:
                bad=FALSE
                for p,_,_ in logs: bad=Or(bad,p)
                c.pc=And(c.pc,all_(lam([base],Not(bad)),l))
        return f_
    def event(c,ev):
        w=c.st[('W',)]
        if w is X.UNDEF_: w=NIL
        c.st[('W',)]=seq(w,unit(ev))
        return w
    def itemsort(c,t=None):
        """element sort of an iterator type"""
        return item_sort(c.m,t or c.T)
def merge_(lst,default):
    lst=[x for x in lst if x[0] is not FALSE]
    if not lst: return FALSE,default
    return X.merge(lst)
def elemname(c,d):
    """name of the variable for an element of the iterator: header names are ASCII"""
    try: t=strip_refs(item_type(c.m,c.T) or '') if c.T else ''
    except Exception: return d
    if head_args(t)[0]=='HeaderName': return 'hk'
    if t.startswith('(') and re.match(r"\(&?('\w+ )?[\w:]*HeaderName,",t): return 'hp'
    return d
def item_type(m,t):
    """item type text of an iterator/collection type, or None"""
    t=strip_refs(t); h,a,p=head_args(t)
    if t.startswith('['): return t[1:-1].split(';')[0].strip()
    if h in('Bytes',): return 'u8'
    if h in('Chars',): return 'char'
    if h in('CharIndices',): return '(usize, char)'
    if h=='Split' or h in('SplitN','Lines','SplitWhitespace','RSplit','SplitTerminator','SplitInclusive','SplitAsciiWhitespace'): return '&str'
    if h=='Parse' and 'form_urlencoded' in p: return '(std::borrow::Cow<str>, std::borrow::Cow<str>)'
    if h in('Keys',) and ('header' in p): return 'http::HeaderName'
    if h in('Iter','IntoIter','Drain') and 'header' in p: return '(http::HeaderName, http::HeaderValue)'
    if h=='HeaderMap': return '(http::HeaderName, http::HeaderValue)'
    if h in('IntoIter','Iter','IterMut') and 'btree_map' in p: return '(%s, %s)'%(a[0],a[1])
    if h=='BTreeMap': return '(%s, %s)'%(a[0],a[1])
    if h in('Values','ValuesMut','IntoValues') and a: return a[-1]
    if h in('Keys','IntoKeys') and a: return a[-2] if len(a)>1 else a[0]
    if h=='Map':
        return ret_type(m,a[1]) if len(a)>1 else None
    if h in('Filter','Rev','Skip','Take','TakeWhile','SkipWhile','Cloned','Copied','Peekable','Inspect','StepBy','Fuse'): return item_type(m,a[0])
    if h=='Chain': return item_type(m,a[0])
    if h=='Enumerate': return '(usize, %s)'%item_type(m,a[0])
    if h in('FilterMap','FlatMap'): 
        r=ret_type(m,a[-1]); 
        if r and h=='FilterMap': return head_args(r)[1][0]
        return item_type(m,r) if r else None
    if h in('Zip',): return '(%s, %s)'%(item_type(m,a[0]),item_type(m,a[1]))
    if h in('Iter','IterMut','IntoIter','Vec','BTreeSet','Once','Option','IntoIterSorted','Drain','VecDeque','Repeat') and a: return a[-1]
    return None
def ret_type(m,f):
    f=f.strip()
    b=m.bytype.get(f)
    if b: return b.ret
    mm=re.match(r"^(?:for<[^>]*> )?(?:unsafe )?fn\(.*?\) -> (.*?) \{",f)
    if mm: return mm.group(1)
    return None
def item_sort(m,t):
    it=item_type(m,t) if t else None
    return m.desc(it) if it else None
# ------------------------------------------------------------------ dispatch
TABLE={}
def model(*keys):
    def d(f):
        for k in keys: TABLE[k]=f
        return f
    return d
def dispatch(c):
    f=TABLE.get(c.key) or TABLE.get('*::'+c.meth if c.tr is None else c.tr+'::*')
    if f is not None:
        r=f(c)
        if r is not NotImplemented:
            c.m.assumed.add(c.key if c.T is None else '<%s as %s>::%s'%(short(c.T),c.tr,c.meth))
            return r
    return unknown(c)
def short(t):
    t=re.sub(r'\{closure@[^}]*\}','{closure}',t)
    t=re.sub(r'\{[^}]*\}','{fn}',t)
    return re.sub(r'(\w+::)+','',t)
def unknown(c):
    name='::'.join(x for x in [c.T and short(c.T),c.key] if x)
    c.m.unknown.append((c.pc,name,c.where))
    args=[c.v(i) for i in range(len(c.vals))]
    for i,(v,t) in enumerate(zip(c.vals,c.tys)):
        if v.op=='ref' or (v.op=='ite' and X.has_ref(v)):
            old=c.m.deref(v,c.st)
            c.put(i,mk_raw('unkmut',(name,i)+tuple(args),old.sort))
    # function values passed to an unknown callee could have effects
    for a in args:
        if a.op=='mk' and a.args[0].startswith('closure:') and any(X.has_ref(y) for y in a.args[1:] if isinstance(y,T)): raise Unsupported('unknown callee with a mutating closure: '+name)
    s=c.m.desc(c.rty) if c.rty!='?' else 'V'
    return mk_raw('unk',(name,)+tuple(args),s)
# ------------------------------------------------------------------ identities
def is_str(t):
    h,a,p=head_args(strip_refs(t)) if t else ('',[],'')
    return h in('str','String') or strip_refs(t or '')=='str'
def ident(c): return c.v(0)
for k in('Clone::clone','Deref::deref','AsRef::as_ref','Borrow::borrow','ToOwned::to_owned','IntoFuture::into_future','Pin::new_unchecked','Pin::new','String::as_str','String::as_bytes',
         'String::into_bytes','str::as_bytes','Vec::as_slice','hint::must_use','Cow::into_owned','String::into_boxed_str','str::to_owned','slice::to_vec','Arc::new','Rc::new','Box::new','Box::pin','String::leak','Vec::into_boxed_slice','slice::into_vec','slice::as_ref','str::into_string','Option::as_ref','Option::as_deref','Option::cloned','Option::copied','Option::as_mut_slice','Result::as_ref','Option::as_slice','mem::take_ref','slice::iter','Iterator::cloned','Iterator::copied','Iterator::by_ref','BTreeSet::iter','Iterator::fuse','Iterator::peekable','convert::identity','fmt::from_fn','Iterator::into_iter','hint::black_box','str::as_str','Result::as_deref','Result::copied','Result::cloned','MutexGuard::deref'):
    TABLE[k]=ident
@model('Arc::clone','Rc::clone')
def _(c): return c.v(0)
@model('Clone::clone','ToOwned::to_owned')
def _(c): return c.v(0)
@model('IntoIterator::into_iter')
def _(c):
    h,a,p=head_args(c.T)
    v=c.v(0)
    if h=='HeaderMap': return hm_iter(v)
    if h=='BTreeMap': return bt_list(v)
    if h=='Option': return opt_list(v)
    if h=='GetAll': return v
    if v.sort!='S': raise Unsupported('into_iter of '+c.T)
    if strip_refs(c.T)!=c.T and '&mut' in c.T and h!='IterMut': raise Unsupported('mutable iteration')
    return v
def opt_list(v): return ite(isv('Some',v),unit(proj(0,'Some',v)),NIL)
def bt_list(v):
    if v.op=='ite': return ite(v.args[0],bt_list(v.args[1]),bt_list(v.args[2]))
    if v.op=='mk' and v.args[0]=='btmap': return v.args[1]
    if v.op=='mk' and v.args[0]=='btnew': return NIL
    raise Unsupported('map contents')
@model('DerefMut::deref_mut','AsMut::as_mut','BorrowMut::borrow_mut','Vec::as_mut_slice','Pin::as_mut','Pin::get_mut')
def _(c):
    v=c.vals[0]
    # a guard value held in a cell: look through to the guarded place
    x=c.st[v.args[0]] if v.op=='ref' and not v.args[1] else None
    if x is not None and x.op=='ref': return x
    if v.op=='ref':
        y=v
        w=c.st[v.args[0]]
        for q in v.args[1]: w=c.m.rd(w,q,c.st)
        if w.op=='ref': return w
    return v
@model('ToString::to_string')
def _(c): return display(c,c.T,c.vals[0])
@model('Into::into')
def _(c):
    tgt=c.ta[0] if c.ta else '?'
    return convert(c,c.T,tgt,c.v(0))
@model('From::from')
def _(c):
    return convert(c,c.ta[0] if c.ta else '?',c.T,c.v(0))
def convert(c,a,b,v):
    A,B=strip_refs(a),strip_refs(b)
    ha,hb=head_args(A)[0],head_args(B)[0]
    if A==B: return v
    f=c.m.find_fn('<%s as std::convert::From<%s>>::from'%(b,a))
    if f is not None:
        r,c.st,c.pc=c.m.run(f,[v],c.st,c.pc,c.where); return r
    f=c.m.find_fn('<%s as std::convert::Into<%s>>::into'%(a,b))
    if f is not None:
        r,c.st,c.pc=c.m.run(f,[v],c.st,c.pc,c.where); return r
    if A in INT and B in INT: return v
    if A=='char' and hb=='String': return utf8(v)
    if A=='u8' and B=='char': return v
    if A=='char' and B in INT: return v
    if A=='bool' and B in INT: return ite(v,Int(1),Int(0))
    if hb in('String','Cow','Box','Arc','Vec','str','OsString','PathBuf','Rc') and v.sort=='S': return v
    if hb=='Option': return Some(v)
    if c.m.desc(a)=='S' and v.sort=='S' and (hb in('String',) or B.startswith('impl') or len(B)<=2): return v
    if v.sort=='S' and (A.startswith('impl ') or re.fullmatch(r'[A-Z]\w?',A)) and c.m.desc(b)=='S': return v
    if 'Error' in B or 'Error' in hb: return mk('from',v)
    raise NotConv('conversion %s -> %s'%(A,B))
class NotConv(Unsupported): pass
@model('Default::default')
def _(c):
    t=strip_refs(c.T); h=head_args(t)[0]
    if t in INT: return Int(0)
    if t=='bool': return FALSE
    if h in('String','Vec','str','BTreeSet','HeaderMap'): return NIL
    if h=='Option': return NONE
    if h=='BTreeMap': return mk('btnew')
    if h=='Duration': return Int(0)
    if t=='()': return UNIT
    raise Unsupported('Default for '+t)
# ------------------------------------------------------------------ comparison
@model('PartialEq::eq','PartialEq::ne')
def _(c):
    r=value_eq(c,c.T,c.v(0),c.v(1))
    return r if c.meth=='eq' else Not(r)
def value_eq(c,t,a,b):
    t=strip_refs(t)
    f=c.m.traits.get(('PartialEq','eq'))
    d=c.m.desc(t)
    if d.startswith('V:') and c.m.src.enums.get(d[2:]) is not None:
        # derived equality of an enum
        vs=c.m.variants(t); r=FALSE
        e=c.m.src.enums[d[2:]]
        for (vn,fs),n in zip(e.variants,vs):
            x=And(isv(n,a),isv(n,b))
            for i in range(len(fs)): x=And(x,eq(proj(i,n,a),proj(i,n,b))) if x is not FALSE else x
            r=Or(r,x)
        return r
    if head_args(t)[0]=='Option':
        x=And(isv('Some',a),isv('Some',b))
        it=head_args(t)[1][0]
        return Or(And(isv('None',a),isv('None',b)),And(x,value_eq(c,it,proj(0,'Some',a),proj(0,'Some',b))) if x is not FALSE else FALSE)
    if a.sort=='V' and b.sort=='V' and a.op!='mk' and b.op!='mk': return eq(a,b)
    return eq(a,b)
@model('PartialOrd::lt','PartialOrd::le','PartialOrd::gt','PartialOrd::ge')
def _(c):
    a,b=c.v(0),c.v(1)
    t=strip_refs(c.T)
    if t in INT or head_args(t)[0] in('SystemTime','Duration') or a.sort[0]=='I' or b.sort[0]=='I':
        return {'lt':lt,'le':le,'gt':gt,'ge':ge}[c.meth](a,b)
    s=c.m.src.find(c.m.tpath(t))
    if s is not None and len(s.fields)==1:
        p=c.m.tpath(t); a,b=proj(0,p,a),proj(0,p,b)
        if a.sort[0]=='I': return {'lt':lt,'le':le,'gt':gt,'ge':ge}[c.meth](a,b)
    return NotImplemented
@model('Ord::cmp')
def _(c):
    a,b=c.v(0),c.v(1)
    if a.sort[0]=='I' and b.sort[0]=='I': return cmp_(a,b)
    return mk_raw('cmp',(a,b))
@model('PartialOrd::partial_cmp')
def _(c):
    a,b=c.v(0),c.v(1)
    if a.sort[0]=='I' and b.sort[0]=='I': return Some(cmp_(a,b))
    return NotImplemented
def cmp_(a,b): return ite(lt(a,b),mk('Less'),ite(eq(a,b),mk('Equal'),mk('Greater')))
@model('Ord::max','cmp::max')
def _(c):
    a,b=c.v(0),c.v(1)
    return ite(le(a,b),b,a) if a.sort[0]=='I' or b.sort[0]=='I' else NotImplemented
@model('Ord::min','cmp::min')
def _(c):
    a,b=c.v(0),c.v(1)
    return ite(le(a,b),a,b) if a.sort[0]=='I' or b.sort[0]=='I' else NotImplemented
@model('Ord::clamp')
def _(c):
    a,l,h=c.v(0),c.v(1),c.v(2)
    return ite(lt(a,l),l,ite(lt(h,a),h,a)) if a.sort[0]=='I' else NotImplemented
@model('RangeInclusive::new')
def _(c): return mk('rangeincl',c.v(0),c.v(1))
@model('RangeInclusive::contains')
def _(c):
    r,x=c.v(0),c.v(1)
    if r.op=='mk' and r.args[0]=='std::ops::RangeInclusive': pass
    a,b=proj(0,'rangeincl',r),proj(1,'rangeincl',r)
    return And(le(a,x),le(x,b))
@model('Range::contains','RangeTo::contains','RangeFrom::contains','RangeToInclusive::contains')
def _(c):
    r,x=c.v(0),c.v(1)
    n=r.args[0]
    k=c.key.split('::')[0]
    f=lambda i: proj(i,n,r)
    if k=='Range': return And(le(f(0),x),lt(x,f(1)))
    if k=='RangeTo': return lt(x,f(0))
    if k=='RangeFrom': return le(f(0),x)
    return le(x,f(0))
# ------------------------------------------------------------------ option / result
def ok_(t): return isv('Ok',t)
def some_(t): return isv('Some',t)
@model('Option::is_some')
def _(c): return some_(c.v(0))
@model('Option::is_none')
def _(c): return Not(some_(c.v(0)))
@model('Result::is_ok')
def _(c): return ok_(c.v(0))
@model('Result::is_err')
def _(c): return Not(ok_(c.v(0)))
@model('Option::as_mut')
def _(c):
    v=c.vals[0]; o=c.m.deref(v,c.st)
    if v.op!='ref': raise Unsupported('as_mut')
    return ite(some_(o),Some(mk_raw('ref',(v.args[0],v.args[1]+(('f',0,'Some'),)))),NONE)
@model('Option::take')
def _(c):
    o=c.v(0); c.put(0,NONE); return o
@model('mem::take')
def _(c):
    o=c.v(0); h=head_args(strip_refs(c.targs[0]))[0] if c.targs else ''
    if h in('String','Vec'): c.put(0,NIL); return o
    if h=='Option': c.put(0,NONE); return o
    return NotImplemented
@model('mem::replace','Option::replace')
def _(c):
    o=c.v(0)
    if c.key=='Option::replace': c.put(0,Some(c.vals[1])); return o
    c.put(0,c.vals[1]); return o
@model('Option::insert')
def _(c):
    c.put(0,Some(c.vals[1])); v=c.vals[0]
    return mk_raw('ref',(v.args[0],v.args[1]+(('f',0,'Some'),)))
@model('Option::unwrap','Option::expect','Option::unwrap_unchecked')
def _(c):
    o=c.v(0); c.panic(Not(some_(o)),c.meth+' on None'); return proj(0,'Some',ite(some_(o),o,X.UNDEF_))
@model('Result::unwrap','Result::expect')
def _(c):
    o=c.v(0); c.panic(Not(ok_(o)),c.meth+' on Err'); return proj(0,'Ok',ite(ok_(o),o,X.UNDEF_))
@model('Result::unwrap_err','Result::expect_err')
def _(c):
    o=c.v(0); c.panic(ok_(o),c.meth+' on Ok'); return proj(0,'Err',ite(ok_(o),X.UNDEF_,o))
def ok_or_some(o,opt): return some_(o) if opt else ok_(o)
@model('Option::unwrap_or','Result::unwrap_or')
def _(c):
    opt=c.key[0]=='O'; o=c.v(0); k=ok_or_some(o,opt)
    return ite(k,proj(0,'Some' if opt else 'Ok',o),c.vals[1])
@model('Option::unwrap_or_default','Result::unwrap_or_default')
def _(c):
    opt=c.key[0]=='O'; o=c.v(0); k=ok_or_some(o,opt)
    s=c.m.desc(c.rty)
    d={'S':NIL,'I':Int(0),'B':FALSE,'I8':Int(0)}.get(s)
    if d is None: return NotImplemented
    return ite(k,proj(0,'Some' if opt else 'Ok',o),d)
@model('Option::unwrap_or_else','Result::unwrap_or_else')
def _(c):
    opt=c.key[0]=='O'; o=c.v(0); k=ok_or_some(o,opt)
    args=[] if opt else [proj(0,'Err',o)]
    d=c.apply(c.vals[1],*args,under=Not(k))
    return ite(k,proj(0,'Some' if opt else 'Ok',o),d)
@model('Option::map','Result::map','Option::inspect')
def _(c):
    opt=c.key[0]=='O'; n='Some' if opt else 'Ok'; o=c.v(0); k=ok_or_some(o,opt)
    d=c.apply(c.vals[1],proj(0,n,o),under=k)
    return ite(k,mk(n,d),NONE if opt else Err(proj(0,'Err',o)))
@model('Result::map_err')
def _(c):
    o=c.v(0); k=ok_(o)
    d=c.apply(c.vals[1],proj(0,'Err',o),under=Not(k))
    return ite(k,Ok(proj(0,'Ok',o)),Err(d))
@model('Option::and_then','Result::and_then')
def _(c):
    opt=c.key[0]=='O'; n='Some' if opt else 'Ok'; o=c.v(0); k=ok_or_some(o,opt)
    d=c.apply(c.vals[1],proj(0,n,o),under=k)
    return ite(k,d,NONE if opt else Err(proj(0,'Err',o)))
@model('Option::or_else','Result::or_else')
def _(c):
    opt=c.key[0]=='O'; n='Some' if opt else 'Ok'; o=c.v(0); k=ok_or_some(o,opt)
    d=c.apply(c.vals[1],*([] if opt else [proj(0,'Err',o)]),under=Not(k))
    return ite(k,mk(n,proj(0,n,o)),d)
@model('Option::or','Result::or')
def _(c):
    opt=c.key[0]=='O'; o=c.v(0); return ite(ok_or_some(o,opt),o,c.v(1))
@model('Option::and')
def _(c): return ite(some_(c.v(0)),c.v(1),NONE)
@model('Option::filter')
def _(c):
    o=c.v(0); k=some_(o); d=c.apply(c.vals[1],proj(0,'Some',o),under=k)
    return ite(And(k,d) if d is not X.UNDEF_ else FALSE,o,NONE)
@model('Option::map_or','Result::map_or')
def _(c):
    opt=c.key[0]=='O'; n='Some' if opt else 'Ok'; o=c.v(0); k=ok_or_some(o,opt)
    d=c.apply(c.vals[2],proj(0,n,o),under=k); return ite(k,d,c.vals[1])
@model('Option::map_or_else','Result::map_or_else')
def _(c):
    opt=c.key[0]=='O'; n='Some' if opt else 'Ok'; o=c.v(0); k=ok_or_some(o,opt)
    e=c.apply(c.vals[1],*([] if opt else [proj(0,'Err',o)]),under=Not(k))
    d=c.apply(c.vals[2],proj(0,n,o),under=k); return ite(k,d,e)
@model('Option::is_some_and','Result::is_ok_and')
def _(c):
    opt=c.key[0]=='O'; n='Some' if opt else 'Ok'; o=c.v(0); k=ok_or_some(o,opt)
    d=c.apply(c.vals[1],proj(0,n,o),under=k); return ite(k,d,FALSE)
@model('Option::is_none_or')
def _(c):
    o=c.v(0); k=some_(o)
    d=c.apply(c.vals[1],proj(0,'Some',o),under=k); return ite(k,d,TRUE)
@model('Option::ok_or')
def _(c):
    o=c.v(0); return ite(some_(o),Ok(proj(0,'Some',o)),Err(c.vals[1]))
@model('Option::ok_or_else')
def _(c):
    o=c.v(0); k=some_(o); d=c.apply(c.vals[1],under=Not(k)); return ite(k,Ok(proj(0,'Some',o)),Err(d))
@model('Result::ok')
def _(c):
    o=c.v(0); return ite(ok_(o),Some(proj(0,'Ok',o)),NONE)
@model('Result::err')
def _(c):
    o=c.v(0); return ite(ok_(o),NONE,Some(proj(0,'Err',o)))
@model('Option::transpose')
def _(c):
    o=c.v(0); x=proj(0,'Some',o)
    return ite(some_(o),ite(ok_(x),Ok(Some(proj(0,'Ok',x))),Err(proj(0,'Err',x))),Ok(NONE))
@model('Option::flatten')
def _(c):
    o=c.v(0); return ite(some_(o),proj(0,'Some',o),NONE)
@model('Option::zip')
def _(c):
    a,b=c.v(0),c.v(1); return ite(And(some_(a),some_(b)),Some(tup(proj(0,'Some',a),proj(0,'Some',b))),NONE)
@model('bool::then')
def _(c):
    b=c.v(0); d=c.apply(c.vals[1],under=b); return ite(b,Some(d),NONE)
@model('bool::then_some')
def _(c): return ite(c.v(0),Some(c.vals[1]),NONE)
@model('Try::branch')
def _(c):
    o=c.v(0); opt=head_args(c.T)[0]=='Option'
    if opt: return ite(some_(o),mk('Continue',proj(0,'Some',o)),mk('Break',NONE))
    return ite(ok_(o),mk('Continue',proj(0,'Ok',o)),mk('Break',Err(proj(0,'Err',o))))
@model('Try::from_output')
def _(c): return Ok(c.vals[0]) if head_args(c.T)[0]=='Result' else Some(c.vals[0])
@model('FromResidual::from_residual')
def _(c):
    if head_args(c.T)[0]=='Option': return NONE
    o=c.v(0); e=proj(0,'Err',o)
    return Err(mk('from',e) if e is not X.UNDEF_ else e)
@model('Iterator::next')
def _(c):
    r=c.vals[0]
    h=head_args(c.T)[0]
    if r.op!='ref': raise Unsupported('next on a non-place')
    x=c.st[r.args[0]]
    for q in r.args[1]: x=c.m.rd(x,q,c.st)
    if x.op=='ref': r=x
    l=c.m.deref(r,c.st)
    if l.sort!='S': raise Unsupported('iterator '+c.T)
    key=r.args[0]
    if not r.args[1]: c.m.itcells.add(key)
    if l.op=='loopit' and key in c.m.iters:
        info=c.m.iters[key]
        if info[1] is None:
            s=item_sort(c.m,c.T)
            if s is None:
                ro=head_args(c.rty)
                s=c.m.desc(ro[1][0]) if ro[0]=='Option' and ro[1] else 'V'
            info[1]=fresh(elemname(c,'x'),s); info[2]=fresh('more','B')
        else: raise Unsupported('several next calls in one iteration')
        return ite(info[2],Some(c.m.expand(info[1])),NONE)
    s=item_sort(c.m,c.T)
    if s is None:
        ro=head_args(c.rty)
        s=c.m.desc(ro[1][0]) if ro[0]=='Option' and ro[1] else 'V'
    f=first(l,s)
    if f.op=='ite': f=ite(f.args[0],f.args[1],Some(c.m.expand(proj(0,'Some',f.args[2])))) if f.args[2].op=='mk' else f
    c.m.store(r,tail(l),c.st)
    return f
# ------------------------------------------------------------------ iterators over sequences
def L(c,i=0):
    v=c.v(i)
    if v.sort!='S' and not (v.op=='ite' or v is X.UNDEF_): raise Unsupported('sequence expected: %s (%s)'%(c.callee[:80],v.sort))
    return v
def srt(c): return c.itemsort() or 'V'
@model('Iterator::map')
def _(c):
    l=L(c); f=c.lam1(c.vals[1],srt(c),l); return smap(f,l)
@model('Iterator::filter')
def _(c):
    l=L(c); f=c.lam1(c.vals[1],srt(c),l); (v,),b=open_lam(f)
    return fm(lam([v],ite(b,unit(v),NIL)),l)
@model('Iterator::filter_map')
def _(c):
    l=L(c); f=c.lam1(c.vals[1],srt(c),l); (v,),b=open_lam(f)
    return fm(lam([v],ite(some_(b),unit(proj(0,'Some',b)),NIL)),l)
@model('Iterator::flat_map')
def _(c):
    l=L(c); f=c.lam1(c.vals[1],srt(c),l); (v,),b=open_lam(f)
    rt=ret_type(c.m,c.targs[-1]) if c.targs else None
    if rt and head_args(rt)[0]=='Option': b=opt_list(b)
    if b.sort!='S': raise Unsupported('flat_map')
    return fm(lam([v],b),l)
@model('Iterator::flatten')
def _(c):
    l=L(c); v=fresh('f','S'); it=item_type(c.m,c.T)
    if it and head_args(it)[0]=='Option':
        o=fresh('f',c.m.desc(it)); return fm(lam([o],opt_list(o)),l)
    return fm(lam([v],v),l)
@model('Iterator::chain')
def _(c): return seq(L(c),as_list(c,c.vals[1],c.targs[0] if c.targs else None))
def as_list(c,v,t):
    v=c.m.deref(v,c.st)
    h=head_args(t)[0] if t else ''
    if h=='Option': return opt_list(v)
    if h=='HeaderMap': return hm_iter(v)
    if h=='BTreeMap': return bt_list(v)
    if v.sort!='S': raise Unsupported('list argument')
    return v
@model('iter::once')
def _(c): return unit(c.v(0))
@model('iter::empty')
def _(c): return NIL
@model('Iterator::rev')
def _(c): return mk_raw('rev',(L(c),))
@model('Iterator::enumerate')
def _(c): return mk_raw('enum',(L(c),))
@model('Iterator::count','Iterator::len','ExactSizeIterator::len')
def _(c): return length(L(c))
@model('Iterator::any','Iterator::all')
def _(c):
    l=c.v(0)
    f=c.lam1(c.vals[1],srt(c),l)
    r=any_(f,l) if c.meth=='any' else all_(f,l)
    return r
# iterator methods that drive a closure with effects: the loop the standard library runs, given to the verifier as MIR
SYN={}
def synth(kind,T_,it,acc,ret):
    k=(kind,T_,it,acc,ret)
    if k in SYN: return SYN[k]
    byref=kind.startswith('try'); fold=kind.endswith('fold'); opt=head_args(ret)[0]=='Option'
    IT='&mut '+T_ if byref else T_
    s='fn synth_%s(_1: %s%s, _%d: CLOSURE) -> %s {\n'%(kind,IT,', _2: '+acc if fold else '',3 if fold else 2,ret)
    R=ret if byref else (acc if fold else '()')
    for n,ty in((0,ret),(4,'CLOSURE'),(5,'&mut '+T_),(6,'std::option::Option<%s>'%it),(7,'isize'),(8,it),(9,'&mut CLOSURE'),(10,'(%s%s,)'%(acc+', ' if fold else '',it)),(11,R),(12,'isize'),(13,acc)): s+='    let mut _%d: %s;\n'%(n,ty)
    s+='    bb0: {\n        _4 = move _%d;\n%s        goto -> bb1;\n    }\n'%(3 if fold else 2,'        _13 = move _2;\n' if fold else '')
    s+='    bb1: {\n        _5 = %s;\n        _6 = <%s as std::iter::Iterator>::next(copy _5) -> [return: bb2, unwind continue];\n    }\n'%('copy _1' if byref else '&mut _1',T_)
    s+='    bb2: {\n        _7 = discriminant(_6);\n        switchInt(move _7) -> [0: bb6, 1: bb3, otherwise: bb7];\n    }\n'
    s+='    bb3: {\n        _8 = move ((_6 as Some).0: %s);\n        _9 = &mut _4;\n        _10 = (%smove _8%s);\n        _11 = <CLOSURE as std::ops::FnMut<(%s,)>>::call_mut(copy _9, move _10) -> [return: bb4, unwind continue];\n    }\n'%(it,'move _13, ' if fold else '','' if fold else ',',it)
    if not byref: s+='    bb4: {\n%s        goto -> bb1;\n    }\n'%('        _13 = move _11;\n' if fold else '')
    else:
        ok='Some' if opt else 'Ok'
        s+='    bb4: {\n        _12 = discriminant(_11);\n        switchInt(move _12) -> [%s, otherwise: bb7];\n    }\n'%('0: bb8, 1: bb5' if opt else '0: bb5, 1: bb8')
        s+='    bb5: {\n%s        goto -> bb1;\n    }\n'%('        _13 = move ((_11 as %s).0: %s);\n'%(ok,acc) if fold else '')
        s+='    bb8: {\n        _0 = move _11;\n        return;\n    }\n'
    end='move _13' if fold else 'const ()'
    s+='    bb6: {\n        _0 = %s;\n        return;\n    }\n'%(end if not byref else '%s(%s)'%('std::option::Option::<%s>::Some'%acc if opt else 'std::result::Result::<%s>::Ok'%', '.join(head_args(ret)[1]),end))
    s+='    bb7: {\n        unreachable;\n    }\n}\n'
    import tempfile,os,mir
    fd_,p=tempfile.mkstemp(suffix='.mir')
    try:
        os.write(fd_,s.encode()); os.close(fd_); b=mir.parse_file(p)[0]
    finally: os.unlink(p)
    b.file='synth'; b.statics={}; SYN[k]=b
    return b
def driven(c):
    f=c.m.deref(c.vals[-1],c.st)
    if f.op!='mk' or not f.args[0].startswith('closure:'): raise Unsupported(c.meth+' with an unknown function')
    b=c.m.bytype.get(f.args[0][8:])
    if b is None: raise Unsupported('closure body '+f.args[0])
    fold=c.meth.endswith('fold'); ps=[t for _,t in b.params[1:]]
    if len(ps)!=(2 if fold else 1): raise Unsupported(c.meth+' closure')
    acc=ps[0] if fold else '()'
    sb=synth(c.meth,c.T,ps[-1],acc,c.rty if c.meth.startswith('try') else acc)
    sb.modpath=getattr(b,'modpath',None)
    v,c.st,c.pc=c.m.run(sb,list(c.vals),c.st,c.pc,c.where)
    return v
@model('Iterator::for_each')
def _(c): return driven(c)
@model('Iterator::try_for_each','Iterator::try_fold')
def _(c):
    if head_args(c.rty)[0] not in('Result','Option'): return NotImplemented
    return driven(c)
@model('Iterator::fold')
def _(c):
    snap=(c.st,c.pc,len(c.m.log),len(c.m.unknown)); 
    try:
        c.st=snap[0].copy(); r=fold_simple(c)
        if r.op!='foldl': return r
    except Unsupported: r=None
    c.st,c.pc=snap[0],snap[1]; del c.m.log[snap[2]:]; del c.m.unknown[snap[3]:]
    try: return driven(c)
    except Unsupported:
        if r is None: raise
        c.st,c.pc=snap[0],snap[1]; del c.m.log[snap[2]:]; del c.m.unknown[snap[3]:]
        return fold_simple(c)
def fold_simple(c):
    l=L(c); s=srt(c)
    x=fresh('x',s); acc=fresh('acc',c.vals[1].sort if c.vals[1].sort!='V' else 'V')
    m=c.m; mark=len(m.log); before=c.st
    if c.vals[1].sort!='S': acc=fresh('acc',m.desc(c.rty))
    v,st,pc=m.call_value(c.vals[2],[acc,m.expand(x)],c.st,TRUE,c.where)
    for k in st.c:
        if k[0]!='tmp' and k in before.c and st[k] is not before[k]: raise Unsupported('effect inside fold')
    if len(m.log)>mark:
        logs=m.log[mark:]; del m.log[mark:]
        for p,msg,w in logs: m.log.append((And(c.pc,p),msg+' (in fold)',w))
    if v.op=='seq' and v.args[0] is acc and acc.args[0] not in seq(*v.args[1:]).fv:
        return seq(c.vals[1],fm(lam([x],seq(*v.args[1:])),l))
    if v is acc: return c.vals[1]
    return mk_raw('foldl',(lam([acc,x],v),c.vals[1],l),v.sort)
@model('Iterator::collect','FromIterator::from_iter')
def _(c):
    t=c.targs[0] if c.targs else c.rty
    if c.meth=='from_iter': t=c.T
    l=c.v(0)
    if c.meth=='from_iter' and l.sort!='S': return NotImplemented
    it=item_type(c.m,c.T) if c.meth=='collect' else (item_type(c.m,c.targs[0]) if c.targs else None)
    return collect(c,l,t,it)
def collect(c,l,t,it):
    h,a,p=head_args(t)
    if h in('Vec','VecDeque') : return l
    if h=='Box': return l
    if h=='BTreeSet': return sset(l)
    if h in('String','Cow'):
        i=strip_refs(it or '?')
        if i=='char':
            v=fresh('c','IC'); return fm(lam([v],utf8(v)),l)
        if is_str(i) or head_args(i)[0]=='Cow':
            v=fresh('c','S'); return fm(lam([v],v),l)
        raise Unsupported('collect into String from '+str(it))
    if h in('Result','Option'):
        ok='Ok' if h=='Result' else 'Some'
        v=fresh('r',c.m.desc(it) if it else 'V')
        allok=all_(lam([v],isv(ok,v)),l)
        inner=fm(lam([v],ite(isv(ok,v),unit(proj(0,ok,v)),X.UNDEF_)),l)
        r=collect(c,inner,a[0],head_args(it)[1][0] if it else None)
        return ite(allok,mk(ok,r),Err(mk_raw('firsterr',(l,))) if h=='Result' else NONE)
    if h=='BTreeMap':
        return NotImplemented
    return NotImplemented
@model('Iterator::nth')
def _(c): raise Unsupported('nth')
@model('Iterator::take','Iterator::skip')
def _(c):
    l=L(c); n=c.v(1)
    if c.meth=='skip' and n.op=='int':
        for _ in range(min(n.args[0],50)): l=tail(l)
        return l
    return mk_raw('take' if c.meth=='take' else 'skip',(l,n))
@model('Iterator::zip')
def _(c): return mk_raw('zip',(L(c),as_list(c,c.vals[1],None)))
@model('Iterator::sum')
def _(c):
    raise Unsupported('sum')
@model('Extend::extend')
def _(c):
    h=head_args(c.T)[0]; l=as_list(c,c.vals[1],c.targs[0] if c.targs else None)
    cur=c.v(0)
    if h=='HeaderMap':
        it=item_type(c.m,c.targs[0]) if c.targs else None
        if it and 'Option' in it: return NotImplemented
        t0=head_args(c.targs[0])[0] if c.targs else ''
        if t0=='HeaderMap': l=hm_iter_raw(l)
        c.put(0,seq(cur,l)); return UNIT
    if h in('Vec','VecDeque'): c.put(0,seq(cur,l)); return UNIT
    if h=='BTreeSet': c.put(0,sset(seq(cur,l))); return UNIT
    if h=='String':
        it=item_type(c.m,c.targs[0]) if c.targs else None
        if it is None: return NotImplemented
        c.put(0,seq(cur,collect(c,l,'String',it))); return UNIT
    return NotImplemented
def hm_iter_raw(l): return l.args[0] if l.op=='hm_iter' else l
# ------------------------------------------------------------------ strings and vectors
@model('String::new','Vec::new','Vec::with_capacity','String::with_capacity','BTreeSet::new','HeaderMap::new','HeaderMap::with_capacity','VecDeque::new')
def _(c): return NIL
@model('BTreeMap::new')
def _(c): return mk('btnew')
@model('String::push')
def _(c): c.put(0,seq(c.v(0),utf8(c.v(1)))); return UNIT
@model('String::push_str','Vec::extend_from_slice','Write::write_str','Formatter::write_str','Formatter::pad')
def _(c):
    c.put(0,seq(c.v(0),c.v(1))); return UNIT if c.meth in('push_str','extend_from_slice') else Ok(UNIT)
@model('Write::write_char','Formatter::write_char')
def _(c): c.put(0,seq(c.v(0),utf8(c.v(1)))); return Ok(UNIT)
@model('Vec::push','VecDeque::push_back')
def _(c): c.put(0,seq(c.v(0),unit(c.v(1)))); return UNIT
@model('Vec::append')
def _(c): c.put(0,seq(c.v(0),c.v(1))); c.put(1,NIL); return UNIT
@model('Vec::insert','String::insert_str','String::insert')
def _(c):
    i=c.v(1)
    if i.op=='int' and i.args[0]==0:
        x=unit(c.v(2)) if c.key=='Vec::insert' else c.v(2) if c.meth=='insert_str' else utf8(c.v(2))
        c.put(0,seq(x,c.v(0))); return UNIT
    return NotImplemented
@model('Vec::clear','String::clear')
def _(c): c.put(0,NIL); return UNIT
@model('Vec::reserve','String::reserve','Vec::shrink_to_fit','String::shrink_to_fit','Vec::reserve_exact')
def _(c): return UNIT
@model('Vec::len','String::len','str::len','slice::len','BTreeSet::len')
def _(c): return length(L(c))
@model('Vec::is_empty','String::is_empty','str::is_empty','slice::is_empty','BTreeSet::is_empty')
def _(c): return is_empty(L(c))
@model('vec::from_elem')
def _(c):
    n=c.v(1)
    if n.op=='int' and n.args[0]<10000: return seq(*[unit(c.v(0))]*n.args[0])
    return mk_raw('replit',(c.v(0),n),'S')
@model('str::chars')
def _(c): return chars(L(c))
@model('str::bytes','String::bytes')
def _(c): return L(c)
@model('str::to_string','str::to_owned','str::into','str::from')
def _(c): return L(c)
@model('str::trim')
def _(c): return trim(L(c))
@model('str::trim_ascii','slice::trim_ascii')
def _(c):
    s=L(c)
    return mk_raw('trim_ascii',(s,),'S')
@model('str::to_ascii_lowercase','String::to_ascii_lowercase','slice::to_ascii_lowercase')
def _(c): return bmap(LOWER,L(c))
@model('str::to_ascii_uppercase','String::to_ascii_uppercase','slice::to_ascii_uppercase')
def _(c): return bmap(UPPER,L(c))
def header_name(s):
    if s.op=='var': return s.args[0].startswith('hk!')
    return s.op=='proj' and s.args[0]==0 and s.args[-1].op=='var' and s.args[-1].args[0].startswith('hp!')
@model('str::to_lowercase','str::to_uppercase')
def _(c):
    s=L(c)
    if rng(s)<(1<<128) or header_name(s): return bmap(LOWER if 'lower' in c.meth else UPPER,s)
    return mk_raw(c.meth,(s,),'S')
@model('str::make_ascii_lowercase')
def _(c): c.put(0,bmap(LOWER,c.v(0))); return UNIT
@model('char::is_ascii_alphanumeric','u8::is_ascii_alphanumeric','num::is_ascii_alphanumeric')
def _(c): return in_set(c.v(0),b'0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz')
@model('char::is_ascii_alphabetic','u8::is_ascii_alphabetic','num::is_ascii_alphabetic')
def _(c): return in_set(c.v(0),b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz')
@model('char::is_ascii_digit','u8::is_ascii_digit','num::is_ascii_digit')
def _(c): return in_set(c.v(0),b'0123456789')
@model('char::is_ascii_uppercase','u8::is_ascii_uppercase','num::is_ascii_uppercase')
def _(c): return in_set(c.v(0),b'ABCDEFGHIJKLMNOPQRSTUVWXYZ')
@model('char::is_ascii_lowercase','u8::is_ascii_lowercase','num::is_ascii_lowercase')
def _(c): return in_set(c.v(0),b'abcdefghijklmnopqrstuvwxyz')
@model('char::is_ascii','u8::is_ascii','num::is_ascii')
def _(c): return And(le(Int(0),c.v(0)),lt(c.v(0),Int(128)))
@model('char::is_ascii_punctuation','u8::is_ascii_punctuation','num::is_ascii_punctuation')
def _(c): return in_set(c.v(0),bytes(b for b in range(33,127) if not chr(b).isalnum()))
def in_set(x,s):
    s=sorted(set(s)); r=FALSE; i=0
    while i<len(s):
        j=i
        while j+1<len(s) and s[j+1]==s[j]+1: j+=1
        r=Or(r,And(le(Int(s[i]),x),le(x,Int(s[j])))); i=j+1
    return r
@model('slice::contains')
def _(c):
    l,x=c.v(0),c.v(1)
    s='V'
    ps=pieces(l)
    r=FALSE
    for p in ps:
        if p.op=='unit': r=Or(r,eq(p.args[0],x))
        elif p.op=='lit': r=Or(r,in_set(x,p.args[0]))
        elif p is NIL: pass
        else: 
            v=fresh('e',x.sort); r=Or(r,any_(lam([v],eq(v,x)),p))
    return r
@model('char::from_u32')
def _(c): return NotImplemented
DIG=b'0123456789abcdefghijklmnopqrstuvwxyz'
@model('methods::from_digit','char::from_digit','convert::from_digit')
def _(c):
    n,r=c.v(0),c.v(1)
    if r.op!='int' or not 2<=r.args[0]<=36: return NotImplemented
    x=NONE
    for k in range(r.args[0]-1,-1,-1): x=ite(eq(n,Int(k)),Some(Int(DIG[k])),x)
    return x
@model('methods::to_digit','char::to_digit')
def _(c):
    ch,r=c.v(0),c.v(1)
    if r.op!='int' or not 2<=r.args[0]<=36: return NotImplemented
    x=NONE
    for k in range(r.args[0]-1,-1,-1): x=ite(in_set(ch,bytes({DIG[k],bytes([DIG[k]]).upper()[0]})),Some(Int(k)),x)
    return x
@model('char::len_utf8')
def _(c): return length(utf8(c.v(0)))
def pat_lit(c,v,t):
    v=c.m.deref(v,c.st)
    if v.sort[0]=='I' and v.op=='int': return utf8(v)
    if v.sort=='S': return v
    return None
@model('str::split')
def _(c):
    p=pat_lit(c,c.vals[1],None)
    if p is None or p is NIL: return NotImplemented
    return split(L(c),p)
@model('str::replace')
def _(c):
    p=pat_lit(c,c.vals[1],None)
    if p is None: return NotImplemented
    return replace_(L(c),p,c.v(2))
@model('str::starts_with','str::ends_with','str::contains','slice::starts_with')
def _(c):
    p=c.m.deref(c.vals[1],c.st)
    s=L(c)
    if p.op=='mk' and p.args[0].startswith(('closure:','fn:')):
        if c.meth!='contains': return NotImplemented
        l=chars(s); return any_(c.lam1(c.vals[1],'IC',l),l)
    if p.sort[0]=='I' and s.op=='lit' and c.meth=='contains' and c.key.startswith('str'):
        return Or(*[eq(p,Int(ord(x))) for x in sorted(set(s.args[0].decode()))])
    p=pat_lit(c,c.vals[1],None)
    if p is None: return NotImplemented
    return str_pred(c.meth,s,p)
def str_pred(k,s,p):
    if p is NIL: return TRUE
    if s.op=='ite': return ite(s.args[0],str_pred(k,s.args[1],p),str_pred(k,s.args[2],p))
    if s is NIL and p.op=='lit': return FALSE
    if p.op=='lit':
        q=p.args[0]
        if s.op=='lit': return boolc({'starts_with':s.args[0].startswith(q),'ends_with':s.args[0].endswith(q),'contains':q in s.args[0]}[k])
        if k=='contains' and len(q)==1: return Not(ball(FULL&~mask(q),s))
        if k=='starts_with' and s.op=='seq' and s.args[0].op=='lit':
            a=s.args[0].args[0]; n=min(len(a),len(q))
            if a[:n]!=q[:n]: return FALSE
            if n==len(q): return TRUE
        if k=='ends_with' and s.op=='seq' and s.args[-1].op=='lit':
            a=s.args[-1].args[0]; n=min(len(a),len(q))
            if a[-n:]!=q[-n:]: return FALSE
            if n==len(q): return TRUE
    return mk_raw('strp',(k,s,p),'B')
REBUILD['strp']=str_pred
@model('str::strip_prefix','str::strip_suffix')
def _(c):
    p=pat_lit(c,c.vals[1],None); s=L(c)
    if p is None: return NotImplemented
    return strip_fix(c.meth=='strip_prefix',s,p)
def strip_fix(pre,s,p):
    if s.op=='ite': return ite(s.args[0],strip_fix(pre,s.args[1],p),strip_fix(pre,s.args[2],p))
    k=str_pred('starts_with' if pre else 'ends_with',s,p)
    if k is FALSE: return NONE
    if p.op=='lit':
        q=p.args[0]
        ps=pieces(s); e=ps[0] if pre else ps[-1]
        if e.op=='lit' and len(e.args[0])>=len(q):
            x=Lit(e.args[0][len(q):] if pre else e.args[0][:len(e.args[0])-len(q)])
            return ite(k,Some(seq(x,*ps[1:]) if pre else seq(*ps[:-1],x)),NONE)
    return ite(k,Some(mk_raw('dropn',(pre,s,p),'S')),NONE)
@model('str::parse')
def _(c):
    t=c.targs[0] if c.targs else '?'
    s=L(c)
    if t in INT:
        ok=mk_raw('parse_ok',(t,s),'B')
        if s.op=='lit':
            try:
                n=int(s.args[0].decode())
                good=re.fullmatch(r'[+]?\d+' if t[0]=='u' else r'[+-]?\d+',s.args[0].decode()) and INT[t][0]<=n<=INT[t][1]
                return Ok(Int(n)) if good else Err(mk('ParseIntError'))
            except Exception: return Err(mk('ParseIntError'))
        return ite(ok,Ok(mk_raw('parsed',(t,s),'I')),Err(mk('ParseIntError')))
    if t!='?':
        return c.invoke('<%s as std::str::FromStr>::from_str'%t,[s],['&str'],c.rty)
    return NotImplemented
@model('FromStr::from_str')
def _(c):
    if is_str(c.T): return Ok(c.v(0))
    if head_args(c.T)[0]=='HeaderValue': return hv_from(c.v(0))
    if head_args(c.T)[0]=='HeaderName': return hn_from(c.v(0))
    if head_args(c.T)[0]=='Url': return url_parse(c,c.v(0))
    if head_args(c.T)[0]=='Uri': return uri_parse(c.v(0))
    return NotImplemented
@model('slice::join','slice::concat','Join::join','Concat::concat')
def _(c):
    l=L(c)
    if c.meth=='concat':
        v=fresh('j','S'); return fm(lam([v],v),l)
    return join(l,c.v(1))
@model('slice::sort','slice::sort_unstable')
def _(c):
    r=c.vals[0]; c.put(0,sort(c.v(0))); return UNIT
@model('Vec::sort','Vec::sort_unstable')
def _(c): c.put(0,sort(c.v(0))); return UNIT
@model('slice::sort_by','slice::sort_unstable_by','Vec::sort_by','Vec::sort_unstable_by')
def _(c):
    l=c.v(0); d=c.m.desc(X.elem_type(c.tys[0]))
    if d!='S': return NotImplemented
    a,b=fresh('e',d),fresh('e',d); r=c.apply(c.vals[1],a,b)
    if r is mk_raw('cmp',(a,b)): c.put(0,sort(l)); return UNIT
    return NotImplemented
@model('slice::sort_by_key','slice::sort_unstable_by_key','slice::sort_by_cached_key','Vec::sort_by_key','Vec::sort_unstable_by_key')
def _(c):
    l=c.v(0); d=c.m.desc(X.elem_type(c.tys[0]))
    if d!='S': return NotImplemented
    a=fresh('e',d)
    if c.apply(c.vals[1],a) is a: c.put(0,sort(l)); return UNIT
    return NotImplemented
@model('Vec::dedup')
def _(c):
    l=c.v(0); c.put(0,sset(l) if l.op in('sort','sset') else mk_raw('dedup',(l,))); return UNIT
@model('slice::reverse')
def _(c): c.put(0,mk_raw('rev',(c.v(0),))); return UNIT
@model('str::from_utf8','String::from_utf8')
def _(c):
    s=c.v(0)
    if rng(s)<(1<<128): return Ok(s)
    return ite(mk_raw('utf8_ok',(s,)),Ok(s),Err(mk('Utf8Error')))
@model('String::from_utf8_lossy')
def _(c):
    s=c.v(0)
    if rng(s)<(1<<128): return s
    return NotImplemented
@model('BTreeSet::insert')
def _(c):
    cur,x=c.v(0),c.v(1)
    if cur is NIL or cur.op in('sset',): c.put(0,sset(seq(cur,unit(x))))
    else: c.put(0,mk_raw('setins',(cur,x),'S'))
    return mk_raw('setnew',(cur,x),'B')
@model('BTreeMap::entry')
def _(c):
    r=c.vals[0]
    if r.op!='ref': raise Unsupported('entry')
    return mk('btentry',r,c.v(1))
@model('Entry::or_insert_with','Entry::or_default','Entry::or_insert')
def _(c):
    e=c.vals[0]
    if e.op!='mk' or e.args[0]!='btentry': return NotImplemented
    if c.meth=='or_insert_with':
        d=c.apply(c.vals[1])
    elif c.meth=='or_insert': d=c.v(1)
    else: d=NIL
    if d is not NIL: raise Unsupported('map entry default')
    r=e.args[1]
    return mk_raw('ref',(r.args[0],r.args[1]+(('bt',e.args[2]),)))
@model('BTreeMap::into_iter','BTreeMap::iter')
def _(c): return bt_list(c.v(0))
@model('BTreeMap::len')
def _(c): return length(bt_list(c.v(0)))
@model('BTreeMap::is_empty')
def _(c): return eq(bt_list(c.v(0)),NIL)
@model('BTreeMap::keys','BTreeMap::into_keys','BTreeMap::values','BTreeMap::into_values')
def _(c):
    l=bt_list(c.v(0)); v=fresh('kv','V:(S,S)')
    return fm(lam([v],unit(tproj(0 if 'keys' in c.meth else 1,2,v))),l)
# indexing
@model('Index::index')
def _(c):
    s=c.v(0); i=c.v(1)
    if i.sort[0]=='I':
        c.panic(Not(And(le(Int(0),i),lt(i,length(s)))),'index out of bounds'); return X.nth(s,i)
    if i.op=='mk' and 'Range' in i.args[0]:
        n=i.args[0].split('::')[-1]
        if n=='RangeFull': return s
        if n=='RangeFrom' and i.args[1].op=='int':
            k=i.args[1].args[0]; c.panic(lt(length(s),Int(k)),'slice index'); 
            ps=pieces(s)
            if ps and ps[0].op=='lit' and len(ps[0].args[0])>=k: return seq(Lit(ps[0].args[0][k:]),*ps[1:])
        a=i.args[1] if n in('Range','RangeFrom') else Int(0)
        b=i.args[2] if n=='Range' else i.args[1] if n=='RangeTo' else length(s)
        c.panic(mk_raw('badslice',(s,a,b),'B'),'slice index')
        return mk_raw('slice',(s,a,b))
    return NotImplemented
@model('slice::get','str::get','Vec::get')
def _(c):
    s,i=c.v(0),c.v(1)
    if i.sort[0]!='I': return NotImplemented
    return ite(And(le(Int(0),i),lt(i,length(s))),Some(X.nth(s,i,srt(c))),NONE)
@model('slice::first','Vec::first')
def _(c): return first(L(c),srt(c))
# ------------------------------------------------------------------ numbers
@model('TryFrom::try_from','TryInto::try_into')
def _(c):
    a,b=(c.ta[0] if c.ta else '?',c.T) if c.tr=='TryFrom' else (c.T,c.ta[0] if c.ta else '?')
    A,B=strip_refs(a),strip_refs(b)
    if c.tr=='TryInto':
        f=c.m.find_fn('<%s as std::convert::TryFrom<%s>>::try_from'%(b,a))
        if f is not None:
            r,c.st,c.pc=c.m.run(f,[c.vals[0]],c.st,c.pc,c.where); return r
    v=c.v(0)
    if B in INT and A in INT:
        lo,hi=INT[B]; slo,shi=INT[A]
        k=TRUE
        if slo<lo: k=And(k,le(Int(lo),v))
        if shi>hi: k=And(k,le(v,Int(hi)))
        return ite(k,Ok(v),Err(mk('TryFromIntError')))
    h=head_args(B)[0]
    if h=='Uri': return uri_parse(v)
    if h=='HeaderName': return hn_from(v)
    if h=='HeaderValue': return hv_from(v)
    if h=='Method': return NotImplemented
    return NotImplemented
def int_of(c): 
    t=c.implty
    return t if t in INT else None
@model('num::checked_add','num::checked_sub','num::checked_mul','num::saturating_add','num::saturating_sub','num::wrapping_add','num::wrapping_sub','num::overflowing_add')
def _(c):
    t=int_of(c)
    if t is None: return NotImplemented
    lo,hi=INT[t]; k,op=c.meth.split('_')
    r={'add':add,'sub':sub,'mul':mul}[op](c.v(0),c.v(1))
    inr=And(le(Int(lo),r),le(r,Int(hi)))
    if k=='checked': return ite(inr,Some(r),NONE)
    if k=='saturating': return ite(lt(r,Int(lo)),Int(lo),ite(lt(Int(hi),r),Int(hi),r))
    if k=='wrapping': return X.wrap(r,t,None)
    return NotImplemented
@model('num::abs')
def _(c):
    v=c.v(0); return ite(le(Int(0),v),v,scale(v,-1))
@model('num::div_euclid','num::rem_euclid')
def _(c):
    a,b=c.v(0),c.v(1)
    if b.op=='int' and b.args[0]>0: return div(a,b) if c.meth[0]=='d' else mod(a,b)
    return NotImplemented
@model('num::pow')
def _(c):
    a,b=c.v(0),c.v(1)
    if a.op=='int' and b.op=='int': return Int(a.args[0]**b.args[0])
    return NotImplemented
# ------------------------------------------------------------------ formatting
@model('Argument::new_display','Argument::new_debug','Argument::new_lower_hex','Argument::new_upper_hex')
def _(c): return mk('fmtarg:'+c.meth[4:],mk('ty:'+(c.targs[0] if c.targs else '?')),c.vals[0])
@model('Argument::from_usize')
def _(c): return mk('fmtarg:usize',UNIT,c.vals[0])
@model('Arguments::from_str','Arguments::new_const','Arguments::from_str_nonconst')
def _(c):
    v=c.v(0); return v
@model('Arguments::new')
def _(c):
    tpl=c.v(0); args=c.v(1)
    if tpl.op!='lit': 
        if tpl is NIL: return NIL
        raise Unsupported('format template')
    al=[p.args[0] for p in pieces(args)] if args is not NIL else []
    b=tpl.args[0]; i=0; nxt=0; out=[]
    def u32(k): return int.from_bytes(b[k:k+4],'little')
    while i<len(b):
        x=b[i]; i+=1
        if x==0: break
        if x<0x80: out.append(Lit(b[i:i+x])); i+=x; continue
        if x==0x80:
            n=int.from_bytes(b[i:i+2],'little'); i+=2; out.append(Lit(b[i:i+n])); i+=n; continue
        if x<0xc0: raise Unsupported('format template byte %x'%x)
        flags=0x60000020; width=prec=0
        if x&1: flags=u32(i); i+=4
        if x&2: width=int.from_bytes(b[i:i+2],'little'); i+=2
        if x&4: prec=int.from_bytes(b[i:i+2],'little'); i+=2
        if x&8: nxt=int.from_bytes(b[i:i+2],'little'); i+=2
        if x&0x30: raise Unsupported('format width argument')
        a=al[nxt]; nxt+=1
        out.append(fmt_arg(c,a,flags,width,bool(x&2),bool(x&4)))
    return seq(*out)
def fmt_arg(c,a,flags,width,haswidth,hasprec):
    kind=a.args[0][7:]; ty=a.args[1].args[0][3:]; v=a.args[2]
    zero=flags>>24&1; fill=flags&0x1fffff; alt=flags>>23&1; plus=flags>>21&1
    if hasprec or alt or plus: raise Unsupported('format flags')
    t=strip_refs(ty)
    if kind=='display':
        if not haswidth: return display(c,ty,v)
        if t in INT and zero: return padd(c.m.deref(v,c.st),width)
        raise Unsupported('format width')
    if kind in('lower_hex','upper_hex'):
        if t in INT and (zero or not haswidth): return fmtx(c.m.deref(v,c.st),width if haswidth else 1,kind[0]=='u')
        raise Unsupported('hex format')
    if kind=='debug': return mk_raw('debugfmt',(t,c.m.deref(v,c.st)),'S')
    raise Unsupported('format '+kind)
def display(c,ty,v):
    t=strip_refs(ty)
    x=c.m.deref(v,c.st)
    h=head_args(t)[0]
    if t in INT: return dec(x)
    if t=='char': return utf8(x)
    if t=='bool': return ite(x,Lit('true'),Lit('false'))
    if is_str(t) or h in('Cow','Method','HeaderName') : return x
    if h in('Box','Arc','Rc') and head_args(t)[1]: return display(c,head_args(t)[1][0],v)
    if h=='Arguments': return x
    f=c.m.find_fn('<%s as std::string::ToString>::to_string'%t)
    if f is not None:
        r,c.st,c.pc=c.m.run(f,[x],c.st,c.pc,c.where); return r
    f=c.m.find_fn('<%s as std::fmt::Display>::fmt'%t)
    if f is not None:
        cell=('tmp',next(c.m.frame)); c.st[cell]=NIL
        r,c.st,c.pc=c.m.run(f,[x,mk_raw('ref',(cell,()))],c.st,c.pc,c.where)
        c.panic(Not(ok_(r)),'a Display implementation returned an error')
        s=c.st[cell]; del c.st.c[cell]; return s
    if h=='Uri': return uri_str(x)
    if h=='Url': return url_str(c,x)
    if h=='DelayedFormat': return chrono_text(x)
    if x.sort=='S' and (t.startswith('impl') or re.fullmatch(r'[A-Z]',t)): return x
    c.m.unknown.append((c.pc,'Display for '+short(t),c.where))
    return mk_raw('unkdisplay',(t,x),'S')
@model('Display::fmt')
def _(c):
    # a library type's Display with the formatter passed through
    s=display(c,c.T,c.vals[0])
    c.put(1,seq(c.v(1),s)); return Ok(UNIT)
@model('Formatter::write_fmt','Write::write_fmt')
def _(c):
    c.put(0,seq(c.v(0),c.v(1))); return Ok(UNIT)
@model('fmt::format','fmt::format_inner')
def _(c): return c.v(0)
@model('Arguments::as_str','Arguments::as_statically_known_str')
def _(c): return NotImplemented
# ------------------------------------------------------------------ panics
@model('panicking::panic','panicking::panic_fmt','rt::panic_fmt','panicking::unreachable_display','panicking::panic_display','panicking::panic_explicit','rt::begin_panic','panicking::panic_str_2015','panicking::assert_failed','option::unwrap_failed','option::expect_failed','result::unwrap_failed','process::abort','panicking::todo','panicking::panic_nounwind','process::exit')
def _(c):
    c.panic(TRUE,c.meth); return X.UNDEF_
@model('panicking::unreachable_default_msg')
def _(c): return NIL
# ------------------------------------------------------------------ async
@model('future::get_context')
def _(c): return UNIT
@model('Future::poll')
def _(c):
    f=c.v(0)
    return mk('Ready',run_future(c,f))
def run_future(c,f):
    if f.op=='ite':
        k=f.args[0]; pc0=c.pc; st0=c.st
        c.pc=And(pc0,k); c.st=st0.copy(); a=run_future(c,f.args[1]) if c.pc is not FALSE else X.UNDEF_; p1,s1=c.pc,c.st
        c.pc=And(pc0,Not(k)); c.st=st0.copy(); b=run_future(c,f.args[2]) if c.pc is not FALSE else X.UNDEF_; p2,s2=c.pc,c.st
        c.pc,c.st=merge_([(p1,s1),(p2,s2)],st0)
        return ite(k,a,b)
    if f.op!='mk': raise Unsupported('await of an unknown future '+f.op)
    n=f.args[0]
    if n.startswith('closure:'):
        b=c.m.bytype.get(n[8:])
        if b is None: raise Unsupported('future body '+n)
        v,c.st,c.pc=c.m.run(b,[mk('closure:'+strip_refs(b.params[0][1]),*f.args[1:]),UNIT],c.st,c.pc,c.where)
        return v
    if n in FUTURES: return FUTURES[n](c,*f.args[1:])
    raise Unsupported('await of '+n)
FUTURES={}
def boundtoken_contracts():
    def gt(c): return mk('fut:gt',c.v(0))
    def sb(c): return mk('fut:sb',c.v(0),c.v(1))
    return {'BoundToken::get_email_and_token':gt,'BoundToken::sign':sb}
def future(n):
    def d(f): FUTURES[n]=f; return f
    return d
@future('fut:gt')
def _(c,self_):
    w=c.event(mk('gt',self_))
    return ite(mk_raw('gt_ok',(w,self_),'B'),Ok(tup(mk_raw('gt_email',(w,self_),'S'),mk_raw('gt_token',(w,self_),'S'))),Err(mk_raw('gt_err',(w,self_),'V')))
@future('fut:sb')
def _(c,self_,msg):
    import prove
    msg=tm.named(prove.assume(msg,c.pc)); w=tm.named(prove.assume(c.event(mk('sb',self_,msg)),c.pc))
    return ite(mk_raw('sb_ok',(w,self_,msg),'B'),Ok(mk_raw('sb_sig',(w,self_,msg),'S')),Err(mk_raw('sb_err',(w,self_,msg),'V')))
# ------------------------------------------------------------------ time
def now(c):
    w=c.event(mk('now'))
    return mk_raw('now',(w,))
@model('SystemTime::now')
def _(c): return now(c)
@model('SystemTime::duration_since')
def _(c):
    a,b=c.v(0),c.v(1); d=sub(a,b)
    return ite(le(Int(0),d),Ok(d),Err(mk('SystemTimeError',scale(d,-1))))
@model('SystemTimeError::duration')
def _(c): return proj(0,'SystemTimeError',c.v(0))
@model('SystemTime::elapsed')
def _(c):
    d=sub(now(c),c.v(0)); return ite(le(Int(0),d),Ok(d),Err(mk('SystemTimeError',scale(d,-1))))
def st_in(t): return And(le(Int(-(2**63)*NS),t),lt(t,Int(2**63*NS)))
@model('SystemTime::checked_add','SystemTime::checked_sub')
def _(c):
    t=add(c.v(0),c.v(1)) if c.meth.endswith('add') else sub(c.v(0),c.v(1))
    return ite(st_in(t),Some(t),NONE)
def du_in(t): return And(le(Int(0),t),lt(t,Int(2**64*NS)))
@model('Duration::from_secs','Duration::from_millis','Duration::from_nanos','Duration::from_micros')
def _(c): return scale(c.v(0),{'secs':NS,'millis':10**6,'micros':1000,'nanos':1}[c.meth.split('_')[1]])
@model('Duration::new')
def _(c):
    r=add(scale(c.v(0),NS),c.v(1)); c.panic(Not(du_in(r)),'overflow in Duration::new'); return r
@model('Duration::as_secs')
def _(c): return div(c.v(0),Int(NS))
@model('Duration::as_millis')
def _(c): return div(c.v(0),Int(10**6))
@model('Duration::as_nanos')
def _(c): return c.v(0)
@model('Duration::subsec_nanos')
def _(c): return mod(c.v(0),Int(NS))
@model('Duration::is_zero')
def _(c): return eq(c.v(0),Int(0))
@model('Duration::checked_add','Duration::checked_sub')
def _(c):
    t=add(c.v(0),c.v(1)) if c.meth.endswith('add') else sub(c.v(0),c.v(1))
    return ite(du_in(t),Some(t),NONE)
@model('Duration::saturating_sub')
def _(c):
    t=sub(c.v(0),c.v(1)); return ite(le(Int(0),t),t,Int(0))
@model('Duration::saturating_add')
def _(c):
    t=add(c.v(0),c.v(1)); return ite(du_in(t),t,Int(2**64*NS-1))
@model('Add::add','Sub::sub')
def _(c):
    h=head_args(c.T)[0]; t=strip_refs(c.T)
    a,b=c.v(0),c.v(1)
    if h in('SystemTime','Duration'):
        r=add(a,b) if c.meth=='add' else sub(a,b)
        if h=='SystemTime' and c.meth=='sub' and c.ta and head_args(c.ta[0])[0]=='SystemTime': return NotImplemented
        c.panic(Not((st_in if h=='SystemTime' else du_in)(r)),'overflow in %s %s'%(h,c.meth)); return r
    if h=='String' and c.meth=='add': return seq(a,b)
    return int_op(c)
def int_op(c):
    t=strip_refs(c.T); a,b=c.v(0),c.v(1)
    if t not in INT: return NotImplemented
    op={'add':'Add','sub':'Sub','mul':'Mul','div':'Div','rem':'Rem','shl':'Shl','shr':'Shr','bitand':'BitAnd','bitor':'BitOr','bitxor':'BitXor'}[c.meth]
    lo,hi=INT[t]
    if op in('Add','Sub','Mul'):
        r={'Add':add,'Sub':sub,'Mul':mul}[op](a,b)
        c.panic(Not(And(le(Int(lo),r),le(r,Int(hi)))),'arithmetic overflow'); return r
    if op in('Div','Rem'): c.panic(eq(b,Int(0)),'division by zero')
    if op in('Shl','Shr'): c.panic(Not(And(le(Int(0),b),lt(b,Int((hi-lo+1).bit_length()-1)))),'shift overflow')
    return c.m.arith_t(op,[a,b],t)
TABLE.update({'%s::%s'%(T,f):int_op for T,f in(('Mul','mul'),('Div','div'),('Rem','rem'),('Shl','shl'),('Shr','shr'),('BitAnd','bitand'),('BitOr','bitor'),('BitXor','bitxor'))})
@model('AddAssign::add_assign','SubAssign::sub_assign')
def _(c):
    h=head_args(c.T)[0]
    if h=='String': c.put(0,seq(c.v(0),c.v(1))); return UNIT
    if h in('SystemTime','Duration'):
        r=add(c.v(0),c.v(1)) if c.meth=='add_assign' else sub(c.v(0),c.v(1))
        c.panic(Not((st_in if h=='SystemTime' else du_in)(r)),'overflow'); c.put(0,r); return UNIT
    return NotImplemented
CH_MIN,CH_MAX=-8334601228800,8210266876799
@model('DateTime::from_timestamp')
def _(c):
    n,ns=c.v(0),c.v(1)
    k=And(le(Int(CH_MIN),n),le(n,Int(CH_MAX)),lt(ns,Int(2*NS)))
    return ite(k,Some(mk('chrono',n,ns)),NONE)
@model('DateTime::timestamp','NaiveDateTime::timestamp')
def _(c): return proj(0,'chrono',c.v(0))
def ymd(n,k): 
    if n.op=='int':
        import datetime
        try:
            d=datetime.datetime(1970,1,1)+datetime.timedelta(seconds=n.args[0]); return Int(getattr(d,k))
        except OverflowError: pass
    return mk_raw(k,(n,),'I')
for k in('year','month','day','hour','minute','second'): REBUILD[k]=tm._push1(lambda n,k=k: ymd(n,k))
@model('Datelike::year','Datelike::month','Datelike::day','Timelike::hour','Timelike::minute','Timelike::second')
def _(c): return REBUILD[c.meth](proj(0,'chrono',c.v(0)))
@model('Datelike::month0','Datelike::day0')
def _(c): return sub(REBUILD[c.meth[:-1]](proj(0,'chrono',c.v(0))),Int(1))
@model('DateTime::format')
def _(c): return mk('chronofmt',c.v(0),c.v(1))
@model('DateTime::date_naive','NaiveDateTime::date','NaiveDateTime::and_utc','DateTime::naive_utc','DateTime::to_utc')
def _(c): return c.v(0)
@model('NaiveDate::format')
def _(c): return mk('chronofmt',c.v(0),c.v(1))
@model('DateTime::to_rfc3339_opts')
def _(c): return NotImplemented
def chrono_text(x):
    if x.op=='ite': return ite(x.args[0],chrono_text(x.args[1]),chrono_text(x.args[2]))
    if x is X.UNDEF_: return x
    d,f=proj(0,'chronofmt',x),proj(1,'chronofmt',x)
    n=proj(0,'chrono',d)
    if f.op!='lit': raise Unsupported('chrono format')
    s=f.args[0].decode(); out=[]; i=0
    g=lambda k: REBUILD[k](n)
    while i<len(s):
        if s[i]=='%':
            k=s[i+1]; i+=2
            if k=='Y':
                y=g('year'); out.append(ite(And(le(Int(0),y),le(y,Int(9999))),padd(y,4),mk_raw('chrono_year',(y,),'S')))
            elif k in 'mdHMS': out.append(padd(g({'m':'month','d':'day','H':'hour','M':'minute','S':'second'}[k]),2))
            elif k=='F': s=s[:i]+'%Y-%m-%d'+s[i:]
            elif k=='T': s=s[:i]+'%H:%M:%S'+s[i:]
            elif k=='%': out.append(Lit('%'))
            else: return mk_raw('chronotext',(f,d),'S')
        else: out.append(Lit(s[i])); i+=1
    return seq(*out)
# ------------------------------------------------------------------ http
HOSTP=b'https://storage.googleapis.com'
def hn_from(k):
    ok=And(ball(TOKEN,k),Not(eq(k,NIL)),le(length(k),Int(65535)))
    return ite(ok,Ok(bmap(LOWER,k)),Err(mk('InvalidHeaderName')))
def hv_from(v):
    return ite(ball(VIS,v),Ok(v),Err(mk('InvalidHeaderValue')))
@model('HeaderName::from_bytes','HeaderName::from_str','HeaderName::try_from')
def _(c): return hn_from(c.v(0))
@model('HeaderName::from_static')
def _(c):
    k=c.v(0)
    if k.op=='lit' and k.args[0]==k.args[0].lower(): return k
    return NotImplemented
@model('HeaderName::as_str','HeaderName::as_ref')
def _(c): return c.v(0)
@model('HeaderValue::from_str')
def _(c): return hv_from(c.v(0))
@model('HeaderValue::from_static')
def _(c):
    v=c.v(0); c.panic(Not(ball(VIS,v)),'HeaderValue::from_static'); return v
@model('HeaderValue::to_str')
def _(c):
    v=c.v(0); return ite(ball(VIS,v),Ok(v),Err(mk('ToStrError')))
@model('HeaderValue::as_bytes')
def _(c): return c.v(0)
@model('HeaderValue::is_empty','HeaderMap::is_empty')
def _(c): return is_empty(c.v(0))
@model('HeaderMap::len')
def _(c): return length(c.v(0))
@model('HeaderMap::keys')
def _(c): return hm_keys(c.v(0))
@model('HeaderMap::iter')
def _(c): return hm_iter(c.v(0))
@model('HeaderMap::contains_key')
def _(c):
    k=c.v(1); v=fresh('p','V:(S,S)')
    return any_(lam([v],eq(tproj(0,2,v),bmap(LOWER,k))),c.v(0))
@model('HeaderMap::try_reserve')
def _(c):
    n=c.v(1); l=c.v(0)
    ok=mk_raw('hm_room',(length(l),n),'B')
    return ite(ok,Ok(UNIT),Err(mk('MaxSizeReached')))
@model('HeaderMap::append')
def _(c):
    k=c.v(1); c.put(0,seq(c.v(0),unit(tup(bmap(LOWER,k) if False else k,c.v(2))))); 
    c.panic(mk_raw('hm_over',(length(c.v(0)),),'B'),'HeaderMap::append beyond capacity')
    return mk_raw('hm_had',(c.v(0),k),'B')
@model('HeaderMap::try_append')
def _(c):
    k=c.v(1); l=c.v(0)
    ok=mk_raw('hm_room',(length(l),Int(1)),'B')
    c.put(0,ite(ok,seq(l,unit(tup(k,c.v(2)))),l))
    return ite(ok,Ok(mk_raw('hm_had',(l,k),'B')),Err(mk('MaxSizeReached')))
@model('HeaderMap::insert')
def _(c):
    k=c.v(1); l=c.v(0); p=fresh('p','V:(S,S)')
    c.put(0,seq(fm(lam([p],ite(eq(tproj(0,2,p),k),NIL,unit(p))),l),unit(tup(k,c.v(2)))))
    return mk_raw('hm_old',(l,k),'V')
@model('HeaderMap::get_all')
def _(c):
    k=c.v(1); t=c.targs[-1] if c.targs else c.tys[1]
    return R.hm_vals(c.v(0),k if head_args(strip_refs(t))[0]=='HeaderName' else bmap(LOWER,k))
@model('GetAll::iter')
def _(c): return c.v(0)
@model('HeaderMap::get')
def _(c):
    return NotImplemented
@model('Request::builder')
def _(c): return mk('reqb',Lit('GET'),Lit('/'),NIL,TRUE)
def reqb(c,**kw):
    b=c.v(0)
    f=[proj(i,'reqb',b) for i in range(4)]
    for k,v in kw.items(): f[{'method':0,'uri':1,'headers':2,'ok':3}[k]]=v
    return mk('reqb',*f)
@model('Builder::method')
def _(c):
    v=c.v(1)
    if c.targs and head_args(c.targs[0])[0]=='Method': return reqb(c,method=v)
    if v.op=='lit' and v.args[0] in(b'GET',b'PUT',b'POST',b'HEAD',b'DELETE'): return reqb(c,method=v)
    return NotImplemented
@model('Builder::header')
def _(c):
    k,v=c.v(1),c.v(2); b=c.v(0)
    isn=c.targs and head_args(c.targs[0])[0]=='HeaderName'
    isv_=len(c.targs)>1 and head_args(c.targs[1])[0]=='HeaderValue'
    kn=Ok(k) if isn else hn_from(k); vn=Ok(v) if isv_ else hv_from(v)
    ok=And(proj(3,'reqb',b),ok_(kn),ok_(vn))
    return reqb(c,headers=seq(proj(2,'reqb',b),ite(ok,unit(tup(proj(0,'Ok',kn),proj(0,'Ok',vn))),NIL)),ok=ok)
@model('Builder::uri')
def _(c):
    u=c.v(1)
    if c.targs and head_args(c.targs[0])[0]=='Uri': return reqb(c,uri=u)
    r=uri_parse(u)
    return reqb(c,uri=proj(0,'Ok',r),ok=And(proj(3,'reqb',c.v(0)),ok_(r)))
@model('Builder::body')
def _(c):
    b=c.v(0)
    return ite(proj(3,'reqb',b),Ok(mk('request',proj(0,'reqb',b),proj(1,'reqb',b),proj(2,'reqb',b))),Err(mk('http::Error')))
@model('Request::new')
def _(c): return mk('request',Lit('GET'),Lit('/'),NIL)
def reqf(i):
    def f(c): return proj(i,'request',c.v(0))
    return f
TABLE['Request::method']=reqf(0); TABLE['Request::uri']=reqf(1); TABLE['Request::headers']=reqf(2)
def reqm(i):
    def f(c):
        r=c.vals[0]
        if r.op!='ref': raise Unsupported('request reference')
        x=c.st[r.args[0]]
        for q in r.args[1]: x=c.m.rd(x,q,c.st)
        if x.op=='ref': r=x
        return mk_raw('ref',(r.args[0],r.args[1]+(('f',i,'request'),)))
    return f
TABLE['Request::method_mut']=reqm(0); TABLE['Request::uri_mut']=reqm(1); TABLE['Request::headers_mut']=reqm(2)
@model('Method::as_str')
def _(c): return c.v(0)
def uri_parse(s):
    """a Uri is represented by the text it was parsed from"""
    if s.op=='ite': return ite(s.args[0],uri_parse(s.args[1]),uri_parse(s.args[2]))
    if s is X.UNDEF_: return s
    return ite(mk_raw('uri_ok',(s,)),Ok(s),Err(mk('InvalidUri')))
@model('Uri::from_static')
def _(c): return c.v(0)
def split_url(s):
    """text -> (path, query or None), when it is https://storage.googleapis.com followed by a path"""
    ps=pieces(s)
    if not ps or ps[0].op!='lit' or not ps[0].args[0].startswith(HOSTP): return None
    rest=[Lit(ps[0].args[0][len(HOSTP):])]+ps[1:]
    rest=[p for p in rest if p is not NIL]
    # the first '?' must be in a literal, with no '?' or '#' possible before it
    path=[]
    bad=mask(b'?#')
    for i,p in enumerate(rest):
        if p.op=='lit' and b'?' in p.args[0]:
            k=p.args[0].index(b'?')
            if b'#' in p.args[0]: return None
            path.append(Lit(p.args[0][:k]))
            q=seq(Lit(p.args[0][k+1:]),*rest[i+1:])
            if rng(q)&mask(b'#'): return None
            P=seq(*path)
            return (P,q) if starts_slash(P) else None
        if rng(p)&bad: return None
        path.append(p)
    P=seq(*path)
    return (P,None) if starts_slash(P) else None
def starts_slash(P):
    ps=pieces(P)
    return bool(ps) and (ps[0].op=='lit' and ps[0].args[0].startswith(b'/') or ps[0].op=='urlpath')
@pushing('urlpath')
def urlpath(p):
    """path component after WHATWG normalisation"""
    if p.op=='urlpath': return p
    if p.op=='seq' and len(p.args)==1: return urlpath(p.args[0])
    if p.op=='lit' and rng(p)&~(UNRES|mask(b"/!$&'()*+,;=:@"))==0 and b'.' not in p.args[0] : return p
    return mk_raw('urlpath',(p,))
@model('Uri::path')
def _(c): return uri_path(c.v(0))
def uri_path(s):
    if s.op=='ite': return ite(s.args[0],uri_path(s.args[1]),uri_path(s.args[2]))
    if s is X.UNDEF_: return s
    r=split_url(s)
    if r: return r[0]
    return mk_raw('uri_path',(s,))
REBUILD['uri_path']=uri_path
@model('Uri::query')
def _(c): return uri_query(c.v(0))
def uri_query(s):
    if s.op=='ite': return ite(s.args[0],uri_query(s.args[1]),uri_query(s.args[2]))
    if s is X.UNDEF_: return s
    r=split_url(s)
    if r: return NONE if r[1] is None else Some(r[1])
    return mk_raw('uri_query',(s,),'V:Option<S>')
REBUILD['uri_query']=uri_query
def uri_str(s):
    if s.op=='ite': return ite(s.args[0],uri_str(s.args[1]),uri_str(s.args[2]))
    if s is X.UNDEF_: return s
    if split_url(s): return s
    return mk_raw('uri_str',(s,),'S')
REBUILD['uri_str']=uri_str
# ------------------------------------------------------------------ url: mk('url',path,hasquery,pairs)
@model('Url::parse')
def _(c): return url_parse(c,c.v(0))
def url_parse(c,s):
    if s.op=='ite': return ite(s.args[0],url_parse(c,s.args[1]),url_parse(c,s.args[2]))
    if s is X.UNDEF_: return s
    r=split_url(s)
    if r:
        P,q=r
        if q is None: return Ok(mk('url',urlpath(P),FALSE,NIL))
        if q.op=='form_ser' or q is NIL: return Ok(mk('url',urlpath(P),TRUE,form_parse(q)))
        if q.op=='seq' or q.op=='lit': return Ok(mk('url',urlpath(P),TRUE,mk_raw('rawquery',(q,),'S')))
    return ite(mk_raw('url_ok',(s,),'B'),Ok(mk_raw('url_of',(s,))),Err(mk('ParseError')))
@model('Url::path')
def _(c): return proj(0,'url',c.v(0))
@model('Url::query_pairs_mut')
def _(c):
    r=c.vals[0]
    u=c.v(0)
    c.put(0,mk('url',proj(0,'url',u),TRUE,proj(2,'url',u)))
    return mk('ser',mk_raw('ref',(r.args[0],r.args[1]+(('f',2,'url'),))))
@model('Url::set_query')
def _(c):
    o=c.v(1); u=c.v(0)
    if o is NONE: c.put(0,mk('url',proj(0,'url',u),FALSE,NIL)); return UNIT
    return NotImplemented
@model('Url::query')
def _(c):
    u=c.v(0); return ite(proj(1,'url',u),Some(form_ser(proj(2,'url',u))),NONE)
@model('Url::query_pairs')
def _(c):
    u=c.v(0); return proj(2,'url',u)
@model('Url::as_str','Url::into_string','Url::to_string')
def _(c): return url_str(c,c.v(0))
def url_str(c,u):
    if u.op=='ite': return ite(u.args[0],url_str(c,u.args[1]),url_str(c,u.args[2]))
    if u is X.UNDEF_: return u
    if u.op=='mk' and u.args[0]=='url':
        return seq(Lit(HOSTP),u.args[1],ite(u.args[2],seq(Lit('?'),form_ser(u.args[3])),NIL))
    return mk_raw('url_str',(u,))
def serref(c):
    s=c.vals[0]
    s=c.m.deref(s,c.st) if s.op=='ref' else s
    if s.op=='mk' and s.args[0]=='ser': return s.args[1]
    raise Unsupported('query serializer')
@model('Serializer::append_pair')
def _(c):
    r=serref(c); c.m.store(r,seq(c.m.deref(r,c.st),unit(tup(c.v(1),c.v(2)))),c.st); return c.vals[0]
@model('Serializer::extend_pairs')
def _(c):
    r=serref(c); l=as_list(c,c.vals[1],c.targs[0] if c.targs else None)
    c.m.store(r,seq(c.m.deref(r,c.st),l),c.st); return c.vals[0]
@model('Serializer::finish')
def _(c):
    s=c.vals[0]; s=c.m.deref(s,c.st) if s.op=='ref' else s
    if s.op=='mk' and s.args[0]=='serbuf': return form_ser(s.args[1])
    r=serref(c); return UNIT
@model('Serializer::clear')
def _(c):
    r=serref(c); c.m.store(r,NIL,c.st); return c.vals[0]
@model('form_urlencoded::parse')
def _(c): return form_parse(c.v(0))
# ------------------------------------------------------------------ digests and encodings
@model('sha256::digest')
def _(c): return sha256hex(c.v(0))
def b64cfg(c):
    e=c.v(0)
    return 'STANDARD' if (e.op=='mk' and e.args[0].endswith(('general_purpose::STANDARD','prelude::STANDARD','BASE64_STANDARD'))) else str(e)
@model('Engine::encode')
def _(c):
    if b64cfg(c)!='STANDARD': return mk_raw('b64encx',(c.v(0),c.v(1)),'S')
    return b64enc(c.v(1))
@model('Engine::decode')
def _(c):
    s=c.v(1); std=b64cfg(c)=='STANDARD'
    if std:
        if s.op=='b64enc': return Ok(s.args[0])
        return ite(mk_raw('b64_ok',(s,)),Ok(mk_raw('b64dec',(s,))),Err(mk('DecodeError')))
    return ite(mk_raw('b64x_ok',(c.v(0),s),'B'),Ok(mk_raw('b64xdec',(c.v(0),s),'S')),Err(mk('DecodeError')))
@model('pem::parse')
def _(c):
    s=c.v(0); return ite(mk_raw('pem_ok',(s,)),Ok(mk('pem',mk_raw('pem_contents',(s,)))),Err(mk('PemError')))
@model('Pem::contents','Pem::into_contents')
def _(c): return proj(0,'pem',c.v(0))
@model('RsaKeyPair::from_pkcs8','KeyPair::from_pkcs8','RsaKeyPair::from_der')
def _(c):
    s=c.v(0); k='pkcs8' if c.meth.endswith('pkcs8') else 'der'
    return ite(mk_raw('pkcs8_ok',(k,s)),Ok(mk('rsakey',Lit(k),s)),Err(mk('KeyRejected')))
@model('RsaKeyPair::public','KeyPair::public','KeyPair::public_key')
def _(c): return c.v(0)
@model('PublicKey::modulus_len','RsaKeyPair::public_modulus_len')
def _(c): return mk_raw('rsa_modlen',(c.v(0),))
@model('SystemRandom::new')
def _(c): return mk('sysrandom')
@model('RsaKeyPair::sign','KeyPair::sign')
def _(c):
    k,alg,msg,buf=c.v(0),c.v(1),c.v(3),c.v(4)
    a=str(alg.args[0]) if alg.op=='mk' else '?'
    ok=And(mk_raw('rsa_ok',(k,)),eq(length(buf),mk_raw('rsa_modlen',(k,))))
    if 'pkcs1' in a.lower() or 'PKCS1' in a:
        # which digest: named by the static it comes from
        pass
    sig=mk_raw('rsa_sign',(alg,k,msg))
    c.put(4,ite(ok,sig,mk_raw('rsa_junk',(buf,),'S')))
    return ite(ok,Ok(UNIT),Err(mk('Unspecified')))
# ------------------------------------------------------------------ environment and files
@model('env::var')
def _(c):
    k=c.v(0); c.event(mk('env',k))
    return ite(mk_raw('env_some',(k,)),Ok(mk_raw('env',(k,))),Err(mk('VarError')))
@model('env::var_os')
def _(c):
    k=c.v(0); c.event(mk('env',k))
    return ite(mk_raw('env_os',(k,),'B'),Some(mk_raw('env',(k,))),NONE)
@model('File::open')
def _(c):
    p=c.v(0); c.event(mk('open',p))
    return ite(mk_raw('file_ok',(p,)),Ok(mk('file',p)),Err(mk('io::Error')))
@model('Read::read_to_string')
def _(c):
    f=c.v(0); p=proj(0,'file',f)
    if f.op!='mk' or f.args[0]!='file': return NotImplemented
    ok=mk_raw('file_utf8',(p,),'B')
    txt=mk_raw('file_text',(p,),'S')
    c.put(1,ite(ok,seq(c.v(1),txt),mk_raw('partial',(p,),'S')))
    return ite(ok,Ok(length(txt)),Err(mk('io::Error')))
@model('fs::read_to_string')
def _(c):
    p=c.v(0); c.event(mk('open',p))
    return ite(And(mk_raw('file_ok',(p,)),mk_raw('file_utf8',(p,),'B')),Ok(mk_raw('file_text',(p,),'S')),Err(mk('io::Error')))
# ------------------------------------------------------------------ async mutex
@model('Mutex::new')
def _(c):
    n=next(c.m.frame); c.m.newcells.append((n,c.v(0)))
    return mk('mutex',Var('newcell%d'%n,c.m.desc(c.targs[0]) if c.targs else c.m.desc(re.search(r'Mutex<(.*)>$',strip_refs(c.rty)).group(1)) if 'Mutex<' in c.rty else 'V'))
@model('Mutex::lock')
def _(c):
    r=c.vals[0]
    return mk('fut:lock',r)
@future('fut:lock')
def _(c,mx):
    """acquiring the lock yields an arbitrary content satisfying the shared-cell invariant (other
    holders of clones may have run), whatever it was before"""
    v=mx; n=0
    while v.op=='ref':
        x=c.st[v.args[0]]
        for q in v.args[1]: x=c.m.rd(x,q,c.st)
        v=x; n+=1
        if n>10: break
    if not (v.sort.startswith('V:Mutex<') or (v.op=='mk' and v.args[0]=='mutex')): raise Unsupported('lock of an unknown mutex')
    if v.op=='ite': raise Unsupported('lock of one of several mutexes')
    d=v.sort[8:-1] if v.op!='mk' else v.args[1].sort
    k=sum(1 for x in c.m.acquired if x[0] is v)
    var=Var('cell%d(%s)'%(k,tm.pp(v)),d)
    c.m.acquired.append((v,var,c.pc,c.where))
    cell=('shared',v); c.st[cell]=var
    c.pc=And(c.pc,shared_inv(c.m,var))
    c.event(mk('lock',v))
    return mk_raw('ref',(cell,()))
def shared_inv(m,v,d=None):
    """the invariant of a shared cell: every SystemTime stored in it is not before the epoch"""
    d=d or v.sort
    if d=='IT': return le(Int(0),v)
    if not d.startswith('V:'): return TRUE
    b=d[2:]
    if b.startswith('Option<'):
        return Implies(some_(v),shared_inv(m,proj(0,'Some',v),b[7:-1]))
    if b.startswith('('):
        ds=tm.desc_split(b[1:-1]); return And(*[shared_inv(m,tproj(i,len(ds),v),x) for i,x in enumerate(ds)])
    s=m.src.structs.get(b)
    if s is not None: return And(*[shared_inv(m,proj(i,b,v),m.fieldsort(b,b,i) or 'V') for i in range(len(s.fields))])
    return TRUE
# ------------------------------------------------------------------ reqwest
@model('Client::new')
def _(c): return mk('client')
@model('Client::request','Client::get','Client::post','Client::put')
def _(c):
    if c.meth=='request': me,u=c.v(1),c.v(2)
    else: me,u=Lit(c.meth.upper()),c.v(1)
    return mk('rb',me,u,NIL,NONE)
def rbf(c,b=None):
    b=c.v(0) if b is None else b
    return [proj(i,'rb',b) for i in range(4)]
@model('RequestBuilder::header')
def _(c):
    f=rbf(c); k,v=c.v(1),c.v(2)
    f[2]=seq(f[2],unit(tup(bmap(LOWER,k),v))); return mk('rb',*f)
@model('RequestBuilder::bearer_auth')
def _(c):
    f=rbf(c); f[2]=seq(f[2],unit(tup(Lit('authorization'),seq(Lit('Bearer '),c.v(1))))); return mk('rb',*f)
@model('RequestBuilder::body')
def _(c):
    f=rbf(c); f[3]=Some(c.v(1)); return mk('rb',*f)
@model('RequestBuilder::json')
def _(c):
    f=rbf(c); t=c.targs[0] if c.targs else '?'
    f[2]=seq(f[2],unit(tup(Lit('content-type'),Lit('application/json')))); f[3]=Some(json_text(serialize(c,t,c.v(1)))); return mk('rb',*f)
@model('RequestBuilder::build')
def _(c):
    b=mk('rb',*rbf(c))
    return ite(mk_raw('rb_ok',(b,),'B'),Ok(b),Err(mk('reqwest::Error')))
@model('Client::execute')
def _(c): return mk('fut:exec',c.v(1))
@model('RequestBuilder::send')
def _(c):
    b=mk('rb',*rbf(c)); return mk('fut:send',b)
def suspend(c):
    """a suspension point: the future may be dropped here, so what is shared at this moment stays"""
    c.m.awaits.append((c.pc,{k:v for k,v in c.st.c.items() if k[0]=='shared'}))
def do_exec(c,b):
    suspend(c); c.event(mk('http',b)); w=c.st[('W',)]
    return ite(mk_raw('resp_ok',(w,),'B'),Ok(mk('resp',w)),Err(mk('reqwest::Error')))
@future('fut:exec')
def _(c,b): return do_exec(c,b)
@future('fut:send')
def _(c,b):
    k=mk_raw('rb_ok',(b,),'B')
    w0=c.st[('W',)]
    r=do_exec(c,b); c.st[('W',)]=ite(k,c.st[('W',)],w0)
    return ite(k,r,Err(mk('reqwest::Error')))
@model('Response::status')
def _(c): return mk('status',mk_raw('resp_status',(proj(0,'resp',c.v(0)),)))
@model('StatusCode::is_success')
def _(c):
    n=proj(0,'status',c.v(0)); return And(le(Int(200),n),lt(n,Int(300)))
@model('StatusCode::as_u16')
def _(c): return proj(0,'status',c.v(0))
@model('Response::text')
def _(c): return mk('fut:text',proj(0,'resp',c.v(0)))
@future('fut:text')
def _(c,w):
    suspend(c)
    return ite(mk_raw('resp_body_ok',(w,),'B'),Ok(mk_raw('resp_text',(w,))),Err(mk('reqwest::Error')))
@model('Response::error_for_status')
def _(c):
    n=mk_raw('resp_status',(proj(0,'resp',c.v(0)),))
    return ite(And(le(Int(400),n),lt(n,Int(600))),Err(mk('reqwest::Error')),Ok(c.v(0)))
@model('Response::json')
def _(c): return mk('fut:json',proj(0,'resp',c.v(0)),mk('ty:'+(c.targs[0] if c.targs else '?')))
@future('fut:json')
def _(c,w,ty):
    suspend(c); t=mk_raw('resp_text',(w,)); r=from_json(c,ty.args[0][3:],t)
    return ite(mk_raw('resp_body_ok',(w,),'B'),r,Err(mk('reqwest::Error')))
# ------------------------------------------------------------------ serde_json
def serde_info(c,t):
    """[(field name, member name, type, optional-skip)] of a struct from its serde attributes"""
    s=c.m.src.find(c.m.tpath(t))
    if s is None or s.kind!='named': raise Unsupported('serde type '+t)
    rename=None; deny=False
    for a in s.attrs:
        m=re.match(r'serde\s*\((.*)\)$',a,re.S)
        if m:
            for x in src.split(m.group(1)):
                y=re.match(r'rename_all\s*=\s*"(\w+)"',x)
                if y: rename=y.group(1)
                elif x.strip()=='deny_unknown_fields': deny=True
                else: raise Unsupported('serde attribute '+x)
    out=[]
    for n,ty,at in s.fields:
        name=n; skip=None; dflt=False
        if rename=='camelCase':
            p=n.split('_'); name=p[0]+''.join(x.capitalize() for x in p[1:])
        elif rename is not None: raise Unsupported('rename_all '+rename)
        for a in at:
            m=re.match(r'serde\s*\((.*)\)$',a,re.S)
            if not m: continue
            for x in src.split(m.group(1)):
                y=re.match(r'rename\s*=\s*"([^"]*)"',x)
                if y: name=y.group(1); continue
                if re.match(r'skip_serializing_if',x): continue
                if x.strip()=='default': dflt=True; continue
                raise Unsupported('serde attribute '+x)
        out.append((n,name,ty,dflt))
    return s,out,deny
@model('serde_json::from_str')
def _(c): return from_json(c,c.targs[-1],c.v(0))
@model('serde_json::from_slice')
def _(c): return from_json(c,c.targs[-1],c.v(0))
def from_json(c,t,s):
    h=head_args(t)[0]
    if h=='Value': return ite(mk_raw('json_ok',(s,)),Ok(mk('jv',mk_raw('jroot',(s,)))),Err(mk('serde_json::Error')))
    if is_str(t): return NotImplemented
    st,fs,deny=serde_info(c,t)
    key=tuple((name,re.sub(r'(\w+::)+','',ty),d) for _,name,ty,d in fs)+(deny,)
    ok=mk_raw('json_fits',(key,s),'B')
    # acceptance condition of the derived deserializer is a fact about the declared members (order-insensitive)
    vals=[]
    for n,name,ty,d in fs:
        vals.append(mk_raw('jmember',(name,re.sub(r'(\w+::)+','',ty),s),c.m.desc(ty,st.mod)))
    p=c.m.tpath(t)
    ok=mk_raw('json_fits',(tuple(sorted(key[:-1]))+(deny,),s),'B')
    return ite(ok,Ok(mk(p,*vals)),Err(mk('serde_json::Error')))
def jnode(c):
    v=c.v(0); return proj(0,'jv',v)
@model('Value::as_object')
def _(c):
    j=jnode(c); return ite(mk_raw('jis',('object',j),'B'),Some(mk('jo',j)),NONE)
@model('Value::as_str')
def _(c):
    j=jnode(c); return ite(mk_raw('jis',('string',j),'B'),Some(mk_raw('jstr_',(j,),'S')),NONE)
@model('Value::is_object','Value::is_string')
def _(c): return mk_raw('jis',(c.meth[3:],jnode(c)),'B')
@model('Map::get')
def _(c):
    j=proj(0,'jo',c.v(0)); k=c.v(1)
    return ite(mk_raw('jhas',(j,k),'B'),Some(mk('jv',mk_raw('jget',(j,k)))),NONE)
@model('Map::contains_key')
def _(c): return mk_raw('jhas',(proj(0,'jo',c.v(0)),c.v(1)),'B')
@model('Value::get')
def _(c):
    j=jnode(c); k=c.v(1)
    if k.sort!='S': return NotImplemented
    return ite(And(mk_raw('jis',('object',j),'B'),mk_raw('jhas',(j,k),'B')),Some(mk('jv',mk_raw('jget',(j,k)))),NONE)
@model('Index::index_json')
def _(c): return NotImplemented
def json_text(d): return mk_raw('json',(d,),'S')
@model('serde_json::to_string','serde_json::to_vec')
def _(c):
    return Ok(json_text(serialize(c,c.targs[0] if c.targs else c.tys[0],c.vals[0])))
def serialize(c,t,v):
    t=strip_refs(t); h,a,p=head_args(t)
    x=c.m.deref(v,c.st)
    if is_str(t) or h=='Cow': return mk('jstr',x)
    if t in INT: return mk('jint',x)
    if t=='bool': return mk('jbool',x)
    if h=='Option': return ite(some_(x),serialize(c,a[0],proj(0,'Some',x)),mk('jnull'))
    if h in('Vec',) or t.startswith('['):
        et=a[0] if a else X.elem_type(t)
        return mk('jarr',ser_list(c,et,x))
    if t.startswith('('):
        ts=src.split(t[1:-1])
        return mk('jarr',seq(*[unit(serialize(c,y,tproj(i,len(ts),x))) for i,y in enumerate(ts)]))
    if h in('Box','Arc','Rc'): return serialize(c,a[0],v)
    f=c.m.find_fn('<%s as serde::Serialize>::serialize'%t)
    if f is None and re.match(r'\{|.*\{closure',t): pass
    if f is None: f=find_ser(c,t)
    if f is None: raise Unsupported('Serialize for '+t)
    r,c.st,c.pc=c.m.run(f,[x,mk('jser')],c.st,c.pc,c.where)
    c.panic(Not(ok_(r)),'serialization failed')
    return proj(0,'Ok',r)
def find_ser(c,t):
    last=c.m.tpath(t).split('::')[-1]
    r=[b for (sp,ta,b) in c.m.traits.get(('Serialize','serialize'),[]) if sp.split('::')[-1]==last]
    return r[0] if len(r)==1 else None
def ser_list(c,et,l):
    if l is NIL: return NIL
    if l.op=='seq': return seq(*[ser_list(c,et,p) for p in l.args])
    if l.op=='unit': return unit(serialize(c,et,l.args[0]))
    if l.op=='ite':
        k=l.args[0]; pc=c.pc; st=c.st
        c.pc=And(pc,k); a=ser_list(c,et,l.args[1]) if c.pc is not FALSE else X.UNDEF_
        c.pc=And(pc,Not(k)); b=ser_list(c,et,l.args[2]) if c.pc is not FALSE else X.UNDEF_
        c.pc=pc; return ite(k,a if a is not X.UNDEF_ else NIL,b if b is not X.UNDEF_ else NIL)
    if l.op=='fm':
        (v,),b=open_lam(l.args[0])
        pc=c.pc; mark=len(c.m.log); c.pc=TRUE
        r=ser_list(c,et,b)
        logs=c.m.log[mark:]; del c.m.log[mark:]; c.pc=pc
        for p,msg,w in logs: c.m.log.append((And(pc,Not(all_(lam([v],Not(p)),l.args[1]))),msg,w))
        return fm(lam([v],r),l.args[1])
    v=fresh('e',c.m.desc(et))
    r=serialize(c,et,c.m.expand(v))
    return smap(lam([v],r),l)
@model('Serialize::serialize')
def _(c): return Ok(serialize(c,c.T,c.vals[0]))
@model('Serializer::serialize_struct','Serializer::serialize_map')
def _(c): return Ok(mk('jobj',NIL))
@model('SerializeStruct::serialize_field','SerializeMap::serialize_entry')
def _(c):
    o=c.v(0); t=c.targs[-1] if c.targs else c.tys[2]
    k=c.v(1)
    d=serialize(c,t,c.vals[2])
    c.put(0,mk('jobj',seq(proj(0,'jobj',o),unit(tup(k,d))))); return Ok(UNIT)
@model('SerializeStruct::skip_field')
def _(c): return Ok(UNIT)
@model('SerializeStruct::end','SerializeMap::end','SerializeTuple::end','SerializeSeq::end','SerializeTupleStruct::end')
def _(c): return Ok(c.v(0))
@model('Serializer::serialize_str')
def _(c): return Ok(mk('jstr',c.v(1)))
@model('Serializer::collect_str')
def _(c): return Ok(mk('jstr',display(c,c.targs[-1],c.vals[1])))
@model('Serializer::serialize_u64','Serializer::serialize_i64','Serializer::serialize_u32')
def _(c): return Ok(mk('jint',c.v(1)))
@model('Serializer::serialize_none','Serializer::serialize_unit')
def _(c): return Ok(mk('jnull'))
@model('Serializer::serialize_tuple','Serializer::serialize_seq','Serializer::serialize_tuple_struct')
def _(c): return Ok(mk('jarr',NIL))
@model('SerializeTuple::serialize_element','SerializeSeq::serialize_element','SerializeTupleStruct::serialize_field')
def _(c):
    o=c.v(0); d=serialize(c,c.targs[-1] if c.targs else c.tys[1],c.vals[1])
    c.put(0,mk('jarr',seq(proj(0,'jarr',o),unit(d)))); return Ok(UNIT)
# calls of closures through the Fn traits
@model('FnOnce::call_once','FnMut::call_mut','Fn::call')
def _(c):
    a=c.vals[1]
    args=list(a.args[1:]) if a.op=='mk' and a.args[0].startswith('(') else [a]
    return c.apply(c.vals[0],*args)
@model('mem::discriminant','intrinsics::discriminant_value')
def _(c): return NotImplemented
@model('mem::drop')
def _(c): return UNIT
@model('mem::swap')
def _(c):
    a,b=c.v(0),c.v(1); c.put(0,b); c.put(1,a); return UNIT
