"""Bounded search on the real code: run generated sessions through the harness and judge them."""
import time, os, sys, tempfile, shutil, json
import harness, gen, oracle
def search(binary,prop,seed,budget_s,max_cases,lits=(),nproc=8,extra=()):
    """returns (stats, first deviation or None)"""
    scratch=tempfile.mkdtemp(prefix='css')
    stats=dict(evaluations=0,calls=0,ok=0,refused=0,distinct=0,samples=[]); seen=set(); found=[]
    def cases():
        n=0
        for x in extra: yield x
        for x in gen.generate(prop,seed,lits,scratch):
            x['id']=n; n+=1
            yield x
            if n>=max_cases: return
    try:
        for s,r in harness.run_all(binary,cases(),nproc,deadline=time.time()+budget_s,stop=lambda: bool(found)):
            stats['evaluations']+=1
            for op,x in zip(s['ops'],r):
                if op['do'] in('url','form','key','hook','par','threads'):
                    stats['calls']+=1; stats['ok' if 'ok' in x else 'refused']+=1
            key=hash(json.dumps(r,sort_keys=True,default=str))
            if key not in seen: seen.add(key)
            if len(stats['samples'])<3 and len(json.dumps(s))<3000: stats['samples'].append({'session':s,'result':r})
            d=[m for p,m in oracle.judge(s,r) if p==prop]
            if d: found.append((s,r,d))
        stats['distinct']=len(seen)
        return stats,(found[0] if found else None)
    finally: shutil.rmtree(scratch,ignore_errors=True)
def shrink(binary,prop,s,budget_s=20):
    """greedy reduction of a failing session"""
    end=time.time()+budget_s; w=harness.Worker(binary)
    def fails(x):
        try: return [m for p,m in oracle.judge(x,w.ask(x)) if p==prop]
        except Exception: return None
    def variants(x):
        for i in range(len(x['ops'])-1,-1,-1):
            if len(x['ops'])>1: 
                y=json.loads(json.dumps(x)); del y['ops'][i]; yield y
        for i,op in enumerate(x['ops']):
            for k in('headers','query','fields','calls'):
                for j in range(len(op.get(k) or [])):
                    y=json.loads(json.dumps(x)); del y['ops'][i][k][j]; yield y
            for k,v in(('bucket','b'),('object','o'),('region',None),('method','GET')):
                if k in op and op[k]!=v: y=json.loads(json.dumps(x)); y['ops'][i][k]=v; yield y
            for k in('bucket','object'):
                t=op.get(k)
                if isinstance(t,str) and len(t)>1:
                    for a,b in((0,len(t)//2),(len(t)//2,len(t)),(1,len(t)),(0,len(t)-1)): y=json.loads(json.dumps(x)); y['ops'][i][k]=t[a:b]; yield y
            for k in('headers','query','fields'):
                for j,p in enumerate(op.get(k) or []):
                    for q in(0,1):
                        t=p[q]
                        if isinstance(t,str) and len(t)>1 and not(k=='fields' and q==0):
                            for a,b in((0,len(t)//2),(len(t)//2,len(t)),(1,len(t)),(0,len(t)-1)): y=json.loads(json.dumps(x)); y['ops'][i][k][j][q]=t[a:b]; yield y
    cur=s; msg=fails(s)
    if not msg: w.kill(); return s,None
    go=True
    while go and time.time()<end:
        go=False
        for y in variants(cur):
            if time.time()>end: break
            m=fails(y)
            if m: cur,msg,go=y,m,True; break
    w.kill()
    return cur,msg
if __name__=='__main__':
    b,h=harness.build()
    props=sys.argv[1:] or ['C%02d'%i for i in range(1,23)]
    for p in props:
        t=time.time(); st,f=search(b,p,1,60,int(os.environ.get('N','1500')))
        print(p,{k:v for k,v in st.items() if k!='samples'},'%.1fs'%(time.time()-t))
        if f:
            s,m=shrink(b,p,f[0]); print('   ',m or f[2]); print('   ',json.dumps(s)[:3000])
