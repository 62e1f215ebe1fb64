#!/usr/bin/env python3-vt
"""check.py <property>: decide one property on /repo's current tree.  See DESIGN.md."""
import sys, os, time, json, subprocess, traceback, multiprocessing, signal
V=os.path.dirname(os.path.abspath(__file__))
sys.path[:0]=[os.path.join(V,'mirvc'),os.path.join(V,'conc')]
sys.setrecursionlimit(60000)
REPO=os.environ.get('VERIF_REPO','/repo')
T0=time.time()
PROP=sys.argv[1]
TIER=os.environ.get('VERIF_TIER','quick')
SEED=int(os.environ.get('VERIF_SEED','1') or 1)
BUDGET=dict(quick=22,thorough=400)[TIER]; CASES=dict(quick=6000,thorough=10**7)[TIER]
NP=8
def log(*a): print('[%6.1fs]'%(time.time()-T0),*a,flush=True)
# ---------------------------------------------------------------- proof
CTX=None; TASKS=None; CONTRACTS=[]; FUSED=set()
def run_task(i):
    import spec, exec as X, prove as P
    f,args=TASKS[i]; t=time.time(); name=f.__name__+repr(args)
    st0=dict(P.STATS.__dict__)
    try: obs=[o.row() for o in f(CTX,*args)]
    except spec.Lost as e: obs=[dict(name=name,function='?',status='unproved',detail='anchor not found: %s'%e,secs=0,hints=[])]
    except X.Unsupported as e: obs=[dict(name=name,function='?',status='unproved',detail='outside the verifier\'s reach: %s'%e,secs=0,hints=[])]
    except (RecursionError,MemoryError) as e: obs=[dict(name=name,function='?',status='unproved',detail=type(e).__name__,secs=0,hints=[])]
    except Exception as e: obs=[dict(name=name,function='?',status='unproved',detail='verifier error: %s'%traceback.format_exc()[-600:],secs=0,hints=[])]
    import drive
    used=set(drive.USED); assumed=set(drive.ASSUMED); fused=set(CTX.m.fused)
    return i,obs,dict(z3_calls=P.STATS.z3_calls-st0['z3_calls'],z3_secs=P.STATS.z3_secs-st0['z3_secs'],eqs=P.STATS.eqs-st0['eqs'],splits=P.STATS.splits-st0['splits'],secs=time.time()-t),used,assumed,fused
def worker(q,out):
    signal.signal(signal.SIGINT,signal.SIG_IGN)
    while True:
        i=q.get()
        if i is None: return
        out.put(run_task(i))
def prove(deadline):
    global CTX,TASKS,CONTRACTS,FUSED
    import dump, mir, src, exec as X, lib, spec, lits, contracts
    rows=[]; stats=dict(z3_calls=0,z3_secs=0.0,eqs=0,splits=0,secs=0.0); used=set(); assumed=set(); note=''
    try:
        d,secs=dump.dump()
        log('MIR regenerated in %.1fs'%secs)
        m=X.Machine(mir.load(d),src.Source(REPO)); m.contracts=lib.boundtoken_contracts()
    except Exception as e:
        return [dict(name='verification conditions',function='crate',status='unproved',detail='MIR not available: %s'%str(e)[-500:],secs=0,hints=[])],stats,used,assumed
    CTX=spec.Ctx(m); spec.LITS=lits.load(REPO)[0]
    TASKS=spec.tasks(PROP,TIER)
    CONTRACTS=contracts.install(CTX,PROP if TIER=='quick' else None)
    import drive; drive.USED.clear(); drive.ASSUMED.clear(); CTX.m.fused.clear()
    log('%d of %d contracts of internal functions proved'%(sum(r['ok'] for r in CONTRACTS),len(CONTRACTS)))
    ctx=multiprocessing.get_context('fork'); q=ctx.Queue(); out=ctx.Queue()
    for i in range(len(TASKS)): q.put(i)
    ps=[]
    for _ in range(min(NP,len(TASKS))): q.put(None)
    for _ in range(min(NP,len(TASKS))):
        p=ctx.Process(target=worker,args=(q,out),daemon=True); p.start(); ps.append(p)
    got=set()
    while len(got)<len(TASKS):
        try: i,obs,st,u,a,fu=out.get(timeout=1)
        except Exception:
            if time.time()>deadline or not any(p.is_alive() for p in ps):
                break
            continue
        got.add(i); rows+=obs; used|=u; assumed|=a; FUSED|=fu
        for k in stats: stats[k]+=st[k]
    for i in range(len(TASKS)):
        if i not in got: rows.append(dict(name=TASKS[i][0].__name__+repr(TASKS[i][1]),function='?',status='timeout',detail='no answer within the time limit',secs=0,hints=[]))
    for p in ps:
        if p.is_alive(): p.terminate()
    return rows,stats,used,assumed
# ---------------------------------------------------------------- main
def main():
    import harness, search, lits
    os.makedirs(os.path.join(V,'evidence'),exist_ok=True); os.makedirs(os.path.join(V,'replay'),exist_ok=True)
    hb=subprocess.Popen([sys.executable,'-c','import sys,json;sys.path.insert(0,%r)\nimport harness\ntry: print(json.dumps(harness.build()))\nexcept harness.BuildError as e: print(json.dumps([None,str(e)]))'%os.path.join(V,'conc')],stdout=subprocess.PIPE,text=True)
    rows,stats,used,assumed=prove(T0+(420 if TIER=='quick' else 3000))
    n=len(rows); ok=sum(r['status']=='proved' for r in rows); bad=[r for r in rows if r['status']!='proved']
    log('%d of %d obligations discharged'%(ok,n))
    for r in bad: print('%s %s: %s'%(r['status'].upper(),r['name'],r['detail'][:1500]))
    built=json.loads(hb.communicate()[0].strip().split('\n')[-1])
    allits,new=lits.load(REPO)
    hints=[h for r in bad for h in r['hints']]
    dev=None; cst=dict(evaluations=0,distinct=0,calls=0,ok=0,refused=0,samples=[])
    if built[0] is None:
        print('harness does not build:',built[1][-1500:])
    else:
        log('harness built (hooks %s)'%built[1])
        extra=[]
        for h in hints:
            h=dict(h); h['focus']=[PROP]; extra.append(h)
        cst,dev=search.search(built[0],PROP,SEED,BUDGET if not bad else max(BUDGET,60),CASES if not bad else CASES*10,allits,NP,extra)
        log('replay harness: %d sessions, %d calls'%(cst['evaluations'],cst['calls']))
    failed=[r for r in bad if r['status']!='timeout']
    violation=0; replay=os.path.join(V,'replay',PROP+'.json'); known=known_findings()
    if dev:
        s,msgs=search.shrink(built[0],PROP,dev[0])
        msgs=msgs or dev[2]
        json.dump(dict(property=PROP,session=s,messages=msgs,failed_obligations=bad,how='python3-vt %s/replay.py %s'%(V,replay)),open(replay,'w'),indent=1,default=str)
        violation=1
        print('failing input:',json.dumps(s)[:3000]); print('observed:',msgs[:3])
        print('VIOLATION property=%s replay=%s'%(PROP,replay))
    elif failed:
        json.dump(dict(property=PROP,failed_obligations=failed,note='the proof obligations above fail on this source; no failing input found against the real code'),open(replay,'w'),indent=1,default=str)
        violation=1
        print('VIOLATION property=%s replay=%s no-failing-input-found'%(PROP,replay))
    elif bad:
        print('UNPROVED %d obligations of %s: the prover gave no answer within its time limit; the bounded stand-in found no deviation'%(len(bad),PROP))
    import spec, contracts
    cused=contracts.closure(CONTRACTS,FUSED)
    for r in cused: used|=r['bodies']; assumed|=r['assumed']
    cobs=[o[0] for r in cused for o in r['obs']]
    level='proof' if n and not bad else 'other'
    ev=dict(property=PROP,tier=TIER,seed=SEED,level=level,
        coverage=dict(obligations=n+len(cobs),discharged=ok+len(cobs),checker_cmd='python3-vt check.py '+PROP,
            trusted_base=['rustc nightly (MIR of the crate, -Zdump-mir=ElaborateDrops, regenerated from /repo)','mirvc (/verif/mirvc): symbolic execution, rewriting to canonical form, decision diagrams','z3 (linear integer arithmetic, path feasibility)']+spec.TRUST.get(PROP,[]),
            functions_under_contract=sorted({r['function'] for r in rows}|{r['function'] for r in cused}),contracts_of_internal_functions=[dict(name=r['name'],function=r['function'],precondition=r['pre'],obligations=[o[0] for o in r['obs']],secs=round(r['secs'],3)) for r in cused],contracts_proved_but_not_needed=sorted(r['name'] for r in CONTRACTS if r['ok'] and r not in cused),contracts_not_used=[dict(name=r['name'],why=r['why']) for r in CONTRACTS if not r['ok']],bodies_executed=sorted(used),
            back_ends=dict(canonical_equality=stats['eqs'],case_splits=stats['splits'],z3_calls=stats['z3_calls'],z3_secs=round(stats['z3_secs'],3)),prover_cpu_s=round(stats['secs'],2),
            undischarged=[{k:r[k] for k in('name','function','status','detail')} for r in bad][:40],
            obligation_names=[r['name'] for r in rows][:400],
            evaluations=cst['evaluations'],distinct_nontrivial=cst['distinct'],calls=cst['calls'],accepted=cst['ok'],refused=cst['refused'],
            rule='bounded replay on the compiled crate: sessions of public API calls from a seeded generator (seeded with the literals of the source); distinct = different result records',
            samples=cst['samples'][:2],new_source_literals=[x for x in new][:50]),
        wall_s=round(time.time()-T0,2),
        assumptions=['library contract (assumed): '+a for a in sorted(assumed)]+spec.ASSUME,
        violations=violation)
    json.dump(ev,open(os.path.join(V,'evidence',PROP+'.json'),'w'),indent=1,default=str)
    for k in known: print(k)
    log('done: %s'%('violation' if violation else 'held (%s)'%level))
    if built[0] is None and not violation and bad: return 2
    return 1 if violation else 0
def known_findings():
    out=[]
    try:
        for l in open(os.path.join(V,'KNOWN_FINDINGS')):
            l=l.strip()
            if l.startswith('finding: property=%s '%PROP): out.append('KNOWN-FINDING: property=%s %s'%(PROP,l.split(' ',2)[2]))
    except FileNotFoundError: pass
    return out
if __name__=='__main__':
    rc=main(); sys.stdout.flush(); os._exit(rc)
