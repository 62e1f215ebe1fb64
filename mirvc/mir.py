"""Parser for rustc's textual MIR."""
import re, os, glob
class ParseError(Exception): pass
OPEN='([{<'; CLOSE=')]}>'
def skip_str(s,i):
    """i at opening quote; returns index after closing quote"""
    q=s[i]; i+=1
    while s[i]!=q:
        if s[i]=='\\': i+=1
        i+=1
    return i+1
def is_char_lit(s,i):
    # 'x' or '\n' or '\u{..}' versus lifetime
    return re.match(r"'(\\u\{[0-9a-f]+\}|\\x[0-9a-f]{2}|\\.|[^'\\])'",s[i:])
def split_top(s,sep=','):
    out=[];d=0;i=0;st=0
    while i<len(s):
        c=s[i]
        if c=='"': i=skip_str(s,i); continue
        if c=="'":
            m=is_char_lit(s,i)
            if m: i+=m.end(); continue
        if c in '([{': d+=1
        elif c in ')]}': d-=1
        elif c=='<': d+=1
        elif c=='>' and s[i-1:i]!='-' and s[i-1:i]!='=': d-=1
        elif c==sep and d==0:
            out.append(s[st:i].strip()); st=i+1
        i+=1
    last=s[st:].strip()
    if last: out.append(last)
    return out
def match_close(s,i):
    """s[i] is an opening bracket; index of its match"""
    d=0
    while i<len(s):
        c=s[i]
        if c=='"': i=skip_str(s,i); continue
        if c=="'":
            m=is_char_lit(s,i)
            if m: i+=m.end(); continue
        if c in '([{<': d+=1
        elif c in ')]}' or (c=='>' and s[i-1]!='-' and s[i-1]!='='):
            d-=1
            if d==0: return i
        i+=1
    raise ParseError('unbalanced '+s)
# ---- places: ('local',n, [proj...]) with proj = ('deref',)|('field',i)|('as',Variant)|('idx',local)|('cidx',k,fromend)|('sub',a,b,fromend)
def parse_place(s,i=0):
    if s[i]=='_':
        m=re.match(r'_(\d+)',s[i:])
        base=int(m.group(1)); i+=m.end(); pr=[]
    elif s[i]=='(':
        if s[i+1]=='*':
            (base,pr),j=parse_place(s,i+2)
            pr=pr+[('deref',)]
            if s[j]!=')': raise ParseError(s)
            i=j+1
        else:
            (base,pr),j=parse_place(s,i+1)
            if s[j]=='.':
                m=re.match(r'\.(\d+): ',s[j:])
                e=match_close(s,i)
                pr=pr+[('field',int(m.group(1)),s[j+m.end():e])]
                i=e+1
            elif s.startswith(' as ',j):
                e=match_close(s,i)
                pr=pr+[('as',s[j+4:e])]
                i=e+1
            elif s[j]==')': i=j+1
            else: raise ParseError('place '+s)
    else: raise ParseError('place '+s[i:])
    while i<len(s) and s[i]=='[':
        e=match_close(s,i); t=s[i+1:e]
        m=re.match(r'_(\d+)$',t)
        if m: pr=pr+[('idx',int(m.group(1)))]
        else:
            m=re.match(r'(-?)(\d+) of (\d+)$',t)
            if m: pr=pr+[('cidx',int(m.group(2)),bool(m.group(1)))]
            else:
                m=re.match(r'(\d+):(-?)(\d*)$',t)
                if not m: raise ParseError('index '+t)
                pr=pr+[('sub',int(m.group(1)),int(m.group(3) or 0),bool(m.group(2)) or not m.group(3))]
        i=e+1
    return (base,pr),i
def place(s):
    p,i=parse_place(s.strip())
    if i!=len(s.strip()): raise ParseError('place tail: '+s)
    return p
# ---- operands
ESC={'n':10,'t':9,'r':13,'0':0,'\\':92,'"':34,"'":39}
def unescape(s):
    out=bytearray(); i=0
    while i<len(s):
        c=s[i]
        if c=='\\':
            d=s[i+1]
            if d in ESC: out.append(ESC[d]); i+=2
            elif d=='x': out.append(int(s[i+2:i+4],16)); i+=4
            elif d=='u':
                e=s.index('}',i); out+=chr(int(s[i+3:e],16)).encode(); i=e+1
            elif d=='\n':
                i+=2
                while i<len(s) and s[i] in ' \n\t': i+=1
            else: raise ParseError('escape '+s[i:i+4])
        else: out+=c.encode(); i+=1
    return bytes(out)
def const(s):
    s=s.strip()
    m=re.match(r'^(-?\d+)_([iu](?:8|16|32|64|128|size))$',s)
    if m: return ('int',int(m.group(1)),m.group(2))
    m=re.match(r'^(-?[\d.]+(?:E[+-]?\d+)?)f(32|64)$',s)
    if m: return ('float',s)
    if s in('true','false'): return ('bool',s=='true')
    if s=='()': return ('unit',)
    if s.startswith('"'): return ('str',unescape(s[1:-1]))
    if s.startswith('b"'): return ('bytes',unescape(s[2:-1]))
    if s.startswith("'"):
        b=unescape(s[1:-1]); return ('char',ord(b.decode()))
    m=re.match(r'^[ui](\d+|size)::(MAX|MIN)$',s)
    if m:
        w=64 if m.group(1)=='size' else int(m.group(1))
        if s[0]=='u': return ('int',(1<<w)-1 if m.group(2)=='MAX' else 0,s.split(':')[0])
        return ('int',(1<<(w-1))-1 if m.group(2)=='MAX' else -(1<<(w-1)),s.split(':')[0])
    return ('path',s)
def operand(s):
    s=s.strip()
    if s.startswith('copy '): return ('copy',place(s[5:]))
    if s.startswith('move '): return ('move',place(s[5:]))
    if s.startswith('const '): return ('const',const(s[6:]))
    if s.startswith('deref_copy '): return ('copy',place(s[11:]))
    # bare path: function item / constructor
    return ('fn',s)
BINOPS={'Eq','Ne','Lt','Le','Gt','Ge','Add','Sub','Mul','Div','Rem','BitAnd','BitOr','BitXor','Shl','Shr','AddWithOverflow','SubWithOverflow','MulWithOverflow','Cmp','Offset','AddUnchecked','SubUnchecked','MulUnchecked','ShlUnchecked','ShrUnchecked'}
UNOPS={'Not','Neg','PtrMetadata'}
def rvalue(s):
    s=s.strip()
    if s.startswith('&'):
        m=re.match(r'^&(raw const |raw mut |mut |fake shallow |fake deep |fake |two_phase )?',s)
        return ('ref',(m.group(1) or '').strip(),place(s[m.end():]))
    m=re.match(r'^(\w+)\(',s)
    if m and m.group(1) in BINOPS|UNOPS and s.endswith(')'):
        return ('op',m.group(1),[operand(x) for x in split_top(s[m.end():-1])])
    if s.startswith('discriminant('): return ('discr',place(s[13:-1]))
    if s.startswith('Len('): return ('len',place(s[4:-1]))
    if s.startswith(('copy ','move ','const ','deref_copy ')):
        # possibly a cast
        m=re.search(r' as (.*) \((\w+.*)\)$',s)
        if m and not s.startswith('const "'):
            # make sure the operand part parses
            try:
                o=operand(s[:m.start()])
                return ('cast',o,m.group(1),m.group(2))
            except ParseError: pass
            except IndexError: pass
        return ('use',operand(s))
    if s.startswith('['):
        e=match_close(s,0); inner=s[1:e]
        parts=split_top(inner,';')
        if len(parts)==2: return ('repeat',operand(parts[0]),parts[1])
        return ('array',[operand(x) for x in split_top(inner)])
    if s.startswith('('):
        return ('tuple',[operand(x) for x in split_top(s[1:-1])])
    if s.startswith('{'):
        e=match_close(s,0); head=s[:e+1]; rest=s[e+1:].strip()
        caps=[]
        if rest:
            inner=rest[1:-1].strip()
            for x in split_top(inner):
                k,v=x.split(': ',1); caps.append((k,operand(v)))
        return ('closure',head,caps)
    # cast of a function item
    m=re.search(r' as (.*) \((PointerCoercion.*)\)$',s)
    if m: return ('cast',operand(s[:m.start()]),m.group(1),m.group(2))
    # aggregates
    if s.endswith('}'):
        i=find_top(s,' {')
        if i>=0:
            name=s[:i]; inner=s[i+2:-1].strip()
            ops=[]
            for x in split_top(inner):
                k,v=x.split(': ',1); ops.append((k.strip(),operand(v)))
            return ('agg',name,ops)
    if s.endswith(')'):
        i=find_top(s,'(')
        if i>=0: return ('agg',s[:i],[(None,operand(x)) for x in split_top(s[i+1:-1])])
    return ('agg',s,[])
def find_top(s,pat):
    d=0;i=0
    while i<len(s):
        if d==0 and s.startswith(pat,i): return i
        c=s[i]
        if c=='"': i=skip_str(s,i); continue
        if c in '([{<': d+=1
        elif c in ')]}' or (c=='>' and s[i-1]!='-' and s[i-1]!='='): d-=1
        i+=1
    return -1
class Body: pass
def targets(s):
    """'[return: bb1, unwind: bb2]' or 'bb3' or 'unwind continue' -> dict"""
    s=s.strip()
    if s.startswith('bb'): return {'goto':int(s[2:])}
    if s.startswith('['):
        d={}
        for x in split_top(s[1:-1]):
            if ': ' in x:
                k,v=x.split(': ',1)
                d[k]=int(v[2:]) if v.startswith('bb') and v[2:].isdigit() else v
            else: d[x]=True
        return d
    return {}
def arrow(s):
    i=s.rfind(' -> ')
    # choose last top-level ' -> ' followed by '[' or 'bb' or 'unwind'
    while i>=0:
        if re.match(r' -> (\[|bb\d+$|unwind)',s[i:]): return s[:i],s[i+4:]
        i=s.rfind(' -> ',0,i)
    return s,None
def stmt(s):
    """returns (kind,...)"""
    if s.startswith(('StorageLive','StorageDead','PlaceMention','FakeRead','AscribeUserType','Coverage','nop','Retag','ConstEvalCounter','BackwardIncompatibleDropHint')): return None
    if s=='return' : return ('return',)
    if s in('unreachable',): return ('unreachable',)
    if s.startswith('resume') or s.startswith('terminate') or s=='coroutine_drop': return ('resume',)
    if s.startswith('goto -> '): return ('goto',int(s[10:]))
    if s.startswith('switchInt('):
        a,t=arrow(s)
        tt=[]
        for x in split_top(t[1:-1]):
            k,v=x.split(': '); tt.append((None if k=='otherwise' else k,int(v[2:])))
        return ('switch',operand(a[10:-1]),tt)
    if s.startswith('drop('):
        a,t=arrow(s); return ('goto',targets(t)['return'])
    if s.startswith('assert('):
        a,t=arrow(s)
        parts=split_top(a[7:-1])
        c=parts[0]; neg=c.startswith('!')
        return ('assert',operand(c[1:] if neg else c),not neg,parts[1],[operand(x) for x in parts[2:]],targets(t)['success'])
    if s.startswith('falseEdge') or s.startswith('falseUnwind'):
        a,t=arrow(s); d=targets(t); return ('goto',d['real'])
    m=re.match(r'^discriminant\((.*)\) = (\d+)$',s)
    if m: return ('setdiscr',place(m.group(1)),int(m.group(2)))
    i=find_top(s,' = ')
    if i<0:
        # call without destination? or deinit
        if s.startswith('Deinit') : return None
        a,t=arrow(s)
        if t is not None and a.endswith(')'):
            return call(None,a,t)
        raise ParseError('stmt '+s)
    lhs,rhs=s[:i],s[i+3:]
    a,t=arrow(rhs)
    if t is not None:
        if a.startswith('yield('):
            return ('yield',place(lhs),operand(a[6:-1]),targets(t).get('resume'))
        return call(lhs,a,t)
    return ('assign',place(lhs),rvalue(rhs))
def call(lhs,a,t):
    # find the '(' that matches the final ')'
    d=0; i=len(a)-1
    # scan forward for last top-level '('
    j=0;last=-1;dd=0
    while j<len(a):
        c=a[j]
        if c=='"': j=skip_str(a,j); continue
        if c=="'":
            m=is_char_lit(a,j)
            if m: j+=m.end(); continue
        if c=='(' and dd==0: last=j
        if c in '([{<': dd+=1
        elif c in ')]}' or (c=='>' and a[j-1]!='-' and a[j-1]!='='): dd-=1
        j+=1
    if last<0: raise ParseError('call '+a)
    f=a[:last].strip(); args=[operand(x) for x in split_top(a[last+1:-1])]
    tg=targets(t)
    return ('call',place(lhs) if lhs else None,f,args,tg.get('return'))
def parse_file(path):
    """list of Body"""
    text=open(path).read()
    out=[]; 
    lines=text.split('\n'); i=0
    while i<len(lines):
        L=lines[i]
        m=re.match(r'^(fn|const|static|static mut) (.*)$',L)
        if not m or L.startswith('const fn'): i+=1; continue
        head=L
        while not head.rstrip().endswith('{'):
            i+=1; head+=' '+lines[i].strip()
        b=Body(); b.file=path; b.locals={}; b.blocks={}; b.debug={}
        head=head.rstrip()[:-1].strip()
        head=re.sub(r'\s+yields \(\)\s*$','',head)
        if head.startswith('fn '):
            h=head[3:]
            # name up to the '(' of the parameter list: the one whose content starts with '_1:' or is empty followed by ' ->'
            k=find_param(h)
            b.name=h[:k].strip(); e=match_close(h,k)
            b.params=[]
            for x in split_top(h[k+1:e]):
                n,t=x.split(': ',1); b.params.append((int(n[1:]),t))
            b.ret=h[e+1:].strip()
            b.ret=b.ret[3:].strip() if b.ret.startswith('->') else '()'
            b.kind='fn'
        else:
            h=re.sub(r'^(const|static mut|static) ','',head)
            k=h.rindex(': ',0,len(h)-2) if False else None
            mm=re.match(r'^(.*?): (.*) =$',h)
            # name may contain ': ' inside impl spans; use promoted marker
            pm=re.match(r'^(.*::promoted\[\d+\]): (.*) =$',h)
            if pm: mm=pm
            else:
                j=find_top(h,': '); 
                mm=re.match(r'^(.*)$',h)
                b.name=h[:j]; b.ret=h[j+2:-2].strip()
            if pm: b.name,b.ret=mm.group(1),mm.group(2)
            b.params=[]; b.kind='const'; b.mutable=head.startswith('static mut ')
        i+=1; cur=None; depth=1
        while i<len(lines):
            L=lines[i]; s=L.strip()
            if L=='}': break
            if re.match(r'^bb\d+( \(cleanup\))?: \{$',s):
                cur=[]; n=int(re.match(r'bb(\d+)',s).group(1)); b.blocks[n]=cur
                if 'cleanup' in s: cur.append('CLEANUP')
            elif s=='}': cur=None
            elif cur is not None:
                full=s
                while not full.endswith(';') and i+1<len(lines):
                    # strings may span lines only via escapes; be conservative
                    i+=1; full+=' '+lines[i].strip()
                cur.append(full[:-1])
            else:
                mm=re.match(r'^let (?:mut )?_(\d+): (.*);$',s)
                if mm: b.locals[int(mm.group(1))]=mm.group(2)
                mm=re.match(r'^debug (\w+) => (.*);$',s)
                if mm: b.debug[mm.group(2)]=mm.group(1)
            i+=1
        for n,t in b.params: b.locals[n]=t
        b.raw=b.blocks; b.parsed={}
        out.append(b)
        i+=1
    return out
def find_param(h):
    d=0
    for j,c in enumerate(h):
        if c=='(' and d==0: return j
        if c in '([{<': d+=1
        elif c in ')]}' or (c=='>' and h[j-1]!='-'): d-=1
    raise ParseError('header '+h)
def block(b,n):
    r=b.parsed.get(n)
    if r is None:
        r=[]
        for s in b.raw[n]:
            if s=='CLEANUP': continue
            x=stmt(s)
            if x is not None: r.append(x)
        b.parsed[n]=r
    return r
def load(dir):
    bodies=[]
    for f in sorted(glob.glob(os.path.join(glob.escape(dir),'*.ElaborateDrops.before.mir'))):
        bs=parse_file(f); al=dict(re.findall(r'^(alloc\d+) \(static: ([\w:]+)',open(f).read(),re.M))
        for b in bs: b.statics=al
        bodies+=bs
    have={b.name for b in bodies}
    for f in sorted(glob.glob(os.path.join(glob.escape(dir),'*.built.after.mir'))):   # trivial constants have no later phase
        if '{constant#' in f or not re.search(r'^(const|static)\b',open(f).read(),re.M): continue
        for b in parse_file(f):
            if b.kind=='const' and b.name not in have and '{constant#' not in b.name: b.statics={}; bodies.append(b); have.add(b.name)
    return bodies
if __name__=='__main__':
    import sys
    bs=load(sys.argv[1] if len(sys.argv)>1 else '/verif/.build/mir')
    bad=0
    for b in bs:
        for n in b.raw:
            if b.raw[n] and b.raw[n][0]=='CLEANUP': continue
            try: block(b,n)
            except Exception as e:
                bad+=1
                if bad<15: print(b.name,n,repr(e)[:300])
    print(len(bs),bad)
