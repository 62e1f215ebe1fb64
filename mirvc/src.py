"""Facts read from the Rust source text that MIR dumps do not print: enum variant order, struct fields,
serde attributes, and what each `<impl at file:line:col>` is an impl of."""
import os, re, glob
def strip_comments(s):
    out=[];i=0
    while i<len(s):
        c=s[i]
        if s.startswith('//',i):
            j=s.find('\n',i); j=len(s) if j<0 else j
            out.append(' '*(j-i)); i=j; continue
        if s.startswith('/*',i):
            j=s.find('*/',i)+2
            out.append(re.sub(r'[^\n]',' ',s[i:j])); i=j; continue
        if c=='"':
            m=re.search(r'r(#*)$',s[max(0,i-6):i])
            if m:
                e='"'+m.group(1); j=s.find(e,i+1)+len(e)
            else:
                j=i+1
                while s[j]!='"':
                    if s[j]=='\\': j+=1
                    j+=1
                j+=1
            out.append(s[i:j]); i=j; continue
        if c=="'":
            m=re.match(r"'(\\u\{[0-9a-fA-F]+\}|\\x[0-9a-fA-F]{2}|\\.|[^'\\])'",s[i:])
            if m: out.append(m.group(0)); i+=m.end(); continue
        out.append(c); i+=1
    return ''.join(out)
def close(s,i):
    """index of bracket matching s[i], skipping strings and chars"""
    o=s[i]; c={'{':'}','(':')','[':']','<':'>'}[o]; d=0
    while i<len(s):
        ch=s[i]
        if ch=='"':
            i+=1
            while s[i]!='"':
                if s[i]=='\\': i+=1
                i+=1
        elif ch=="'":
            m=re.match(r"'(\\u\{[0-9a-fA-F]+\}|\\x[0-9a-fA-F]{2}|\\.|[^'\\])'",s[i:])
            if m: i+=m.end(); continue
        elif ch==o: d+=1
        elif ch==c and not(c=='>' and s[i-1] in '-='):
            d-=1
            if d==0: return i
        i+=1
    return len(s)-1
def split(s):
    out=[];d=0;st=0;i=0
    while i<len(s):
        c=s[i]
        if c=='"':
            i+=1
            while s[i]!='"':
                if s[i]=='\\': i+=1
                i+=1
        elif c in '([{<': d+=1
        elif c in ')]}' or (c=='>' and s[i-1] not in '-='): d-=1
        elif c==',' and d==0: out.append(s[st:i]); st=i+1
        i+=1
    out.append(s[st:])
    return [x.strip() for x in out if x.strip()]
def attrs(s):
    """leading attributes of an item text -> (list of attr bodies, rest)"""
    at=[]; s=s.strip()
    while s.startswith('#'):
        j=close(s,s.index('['))
        at.append(s[s.index('[')+1:j].strip()); s=s[j+1:].strip()
    return at,s
class Item: pass
class Source:
    def __init__(self,repo):
        self.repo=repo; self.text={}; self.lines={}; self.structs={}; self.enums={}; self.implc={}
        for f in sorted(glob.glob(os.path.join(glob.escape(repo),'src/**/*.rs'),recursive=True)):
            rel=os.path.relpath(f,repo)
            t=open(f).read(); self.lines[rel]=t.split('\n')
            t=strip_comments(t); self.text[rel]=t
            self.scan(rel,t)
    def modpath(self,rel):
        p=rel[4:-3]
        if p in('lib','main'): return ''
        if p.endswith('/mod'): p=p[:-4]
        return p.replace('/','::')
    def scan(self,rel,t):
        mod=self.modpath(rel)
        m=re.search(r'#\[cfg\(test\)\]\s*mod\s+\w+\s*\{',t)
        if m: t=t[:m.start()]
        for m in re.finditer(r'(?<![\w])(struct|enum)\s+(\w+)\s*(<[^{(;]*?>)?\s*(where[^{;]*)?([{(;])',t):
            kind,name,_,_,br=m.groups()
            it=Item(); it.name=name; it.mod=mod; it.path=(mod+'::' if mod else '')+name; it.file=rel
            it.line=t.count('\n',0,m.start())+1
            # attributes before the item
            pre=t[:m.start()]
            a=[]
            pre=re.sub(r'(pub(\s*\([^)]*\))?\s*)$','',pre.rstrip()+' ').rstrip()
            while pre.endswith(']'):
                # walk back to matching [
                d=0;k=len(pre)-1
                while k>=0:
                    if pre[k]==']': d+=1
                    elif pre[k]=='[':
                        d-=1
                        if d==0: break
                    k-=1
                if k<1 or pre[k-1]!='#': break
                a.insert(0,pre[k+1:-1].strip()); pre=pre[:k-1].rstrip()
            it.attrs=a
            depth=0
            it.toplevel=True
            if br==';': it.fields=[]; it.kind='unit'; self.structs.setdefault(it.path,it); self.byname(it); continue
            e=close(t,m.end()-1); body=t[m.end():e]
            if kind=='struct':
                it.kind='named' if br=='{' else 'tuple'
                it.fields=[]
                for i,x in enumerate(split(body)):
                    fa,x=attrs(x); x=re.sub(r'^pub(\s*\([^)]*\))?\s+','',x)
                    if br=='{': n,ty=x.split(':',1)
                    else: n,ty=str(i),x
                    it.fields.append((n.strip(),re.sub(r'\s+',' ',ty.strip()),fa))
                self.structs.setdefault(it.path,it); self.byname(it)
            else:
                it.variants=[]
                for x in split(body):
                    fa,x=attrs(x); vm=re.match(r'(\w+)\s*(.*)$',x,re.S)
                    vn,rest=vm.groups(); rest=rest.strip(); fs=[]
                    if rest.startswith('('): 
                        for i,y in enumerate(split(rest[1:close(rest,0)])):
                            ya,y=attrs(y); fs.append((str(i),re.sub(r'\s+',' ',y)))
                    elif rest.startswith('{'):
                        for y in split(rest[1:close(rest,0)]):
                            ya,y=attrs(y); n,ty=y.split(':',1); fs.append((n.strip(),re.sub(r'\s+',' ',ty.strip())))
                    it.variants.append((vn,fs))
                self.enums.setdefault(it.path,it); self.byname(it,True)
    def byname(self,it,enum=False):
        d=self.__dict__.setdefault('ename' if enum else 'sname',{})
        d.setdefault(it.name,[]).append(it)
    def find(self,path,enum=False):
        """look a type path up: exact, else unique by module prefix and last segment (types nested in functions)"""
        path=strip_generics(path)
        d=self.enums if enum else self.structs
        if path in d: return d[path]
        last=path.split('::')[-1]
        c=[i for i in self.__dict__.get('ename' if enum else 'sname',{}).get(last,[])]
        c2=[i for i in c if i.mod=='' or path.startswith(i.mod+'::')]
        if len(c2)>=1:
            # prefer the longest matching module
            c2.sort(key=lambda i:-len(i.mod))
            if path.startswith(c2[0].mod) and (c2[0].mod or '::' not in path): return c2[0]
        return None
    def impl_at(self,file,l1,c1,l2,c2):
        """header text of the impl (or derive) at the span"""
        k=(file,l1,c1)
        if k in self.implc: return self.implc[k]
        L=self.lines.get(file)
        r=None
        if L:
            if l1==l2: txt=L[l1-1][c1-1:c2-1]
            else: txt='\n'.join([L[l1-1][c1-1:]]+L[l1:l2-1]+[L[l2-1][:c2-1]])
            txt=strip_comments(txt)
            m=re.match(r'\s*(unsafe\s+)?impl\b',txt)
            if m:
                h=txt[m.end():].strip()
                if h.startswith('<'): h=h[close(h,0)+1:].strip()
                h=re.sub(r'\bwhere\b.*$','',h,flags=re.S).strip()
                mm=re.match(r'(.*?)\s+for\s+(.*)$',h,re.S)
                if mm: r=(re.sub(r'\s+',' ',mm.group(1)),re.sub(r'\s+',' ',mm.group(2)))
                else: r=(None,re.sub(r'\s+',' ',h))
            else:
                # derive: the type is the next struct/enum after the span
                off=sum(len(x)+1 for x in L[:l1-1])
                t=self.text[file]
                mm=re.search(r'\b(struct|enum)\s+(\w+)',t[off:])
                r=('derive '+txt.strip(),mm.group(2) if mm else '?')
        self.implc[k]=r
        return r
def strip_generics(p):
    """drop <...> groups from a path"""
    out=[];d=0
    i=0
    while i<len(p):
        c=p[i]
        if c=='<': d+=1
        elif c=='>' and p[i-1:i] not in('-','='): d-=1
        elif d==0: out.append(c)
        i+=1
    r=''.join(out)
    return re.sub(r'::(?=::)|::$','',r)
