"""Literals of the crate's non-test source: inputs that a changed line singles out are usually spelled in it."""
import os, re, glob, json
HERE=os.path.dirname(os.path.abspath(__file__))
TOK=re.compile(r'''//[^\n]*|/\*.*?\*/|b?r(#*)"(.*?)"\1|b?"((?:\\.|[^"\\])*)"|b?'((?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.))|[^'\\])'|\b(0x[0-9a-fA-F_]+|0o[0-7_]+|0b[01_]+|\d[\d_]*)(?:\.\d+)?(?:[iu](?:8|16|32|64|128|size))?\b''',re.S)
ESC={'n':'\n','t':'\t','r':'\r','0':'\0','\\':'\\','"':'"',"'":"'"}
def unesc(s):
    def f(m):
        x=m.group(1)
        if x[0]=='x': return chr(int(x[1:],16))
        if x[0]=='u': return chr(int(x[2:-1].replace('_',''),16))
        if x[0]=='\n': return ''
        return ESC.get(x,x)
    return re.sub(r'\\(x[0-9a-fA-F]{2}|u\{[^}]*\}|\n\s*|.)',f,s)
def strip_tests(t):
    while True:
        m=re.search(r'#\[cfg\(test\)\]\s*(?:pub\s+)?mod\s+\w+\s*\{',t)
        if not m: return t
        d=0;i=m.end()-1
        for i in range(m.end()-1,len(t)):
            if t[i]=='{': d+=1
            elif t[i]=='}':
                d-=1
                if d==0: break
        t=t[:m.start()]+t[i+1:]
def of_text(t):
    out=[]
    # constants of the http crate stand for their text
    for m in re.finditer(r'\bheader::([A-Z][A-Z0-9_]*)\b',t): out.append(m.group(1).lower().replace('_','-'))
    for m in re.finditer(r'\bMethod::([A-Z]+)\b',t): out.append(m.group(1))
    for m in TOK.finditer(t):
        if m.group(2) is not None: out.append(m.group(2))
        elif m.group(3) is not None: out.append(unesc(m.group(3)))
        elif m.group(4) is not None: out.append(unesc(m.group(4)))
        elif m.group(5) is not None:
            try: out.append(int(m.group(5).replace('_',''),0) if m.group(5)[:2] in('0x','0o','0b') else int(m.group(5).replace('_','')))
            except ValueError: pass
    return out
def harvest(repo):
    s=[]
    for f in sorted(glob.glob(os.path.join(repo,'src','**','*.rs'),recursive=True)):
        s+=of_text(strip_tests(open(f,errors='replace').read()))
    u=[]; seen=set()
    for x in s:
        k=(type(x).__name__,x)
        if k in seen or x=='' : continue
        seen.add(k); u.append(x)
        if isinstance(x,str):
            for p in re.split(r'\{[^}]*\}',x):
                if p and p!=x and ('str',p) not in seen: seen.add(('str',p)); u.append(p)
    return u
def load(repo):
    """new literals (relative to the committed baseline) first and repeated, so that they dominate"""
    a=harvest(repo)
    try: base={(type(x).__name__,x) for x in json.load(open(os.path.join(HERE,'baseline_lits.json')))}
    except FileNotFoundError: base=set()
    new=[x for x in a if (type(x).__name__,x) not in base]
    # sums of new integers with small neighbours are covered by the generators (+-1)
    ns=len([x for x in a if isinstance(x,str)]); ni=len([x for x in a if isinstance(x,int)])
    rs=max(1,ns//max(1,len([x for x in new if isinstance(x,str)])))
    ri=max(1,ni//max(1,len([x for x in new if isinstance(x,int)])))
    out=list(a)
    for x in new: out+=[x]*(2*(rs if isinstance(x,str) else ri))
    return out,new
if __name__=='__main__':
    import sys
    if len(sys.argv)>1 and sys.argv[1]=='baseline': json.dump(harvest('/repo'),open(os.path.join(HERE,'baseline_lits.json'),'w'),ensure_ascii=True,indent=0)
    print(len(load('/repo')[0]),load('/repo')[1])
