"""Build the replay harness against /repo's current tree and talk to it (one JSON session per line)."""
import os, json, subprocess, threading, select, shutil, glob, time
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get('VERIF_REPO','/repo')
BUILD=os.environ.get('VERIF_BUILD') or os.path.join(VERIF,'.build')
class BuildError(Exception): pass
def build():
    """returns (binary, hooks_enabled)"""
    d=os.path.join(BUILD,'harness'); tgt=os.path.join(BUILD,'h-target')
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d); os.makedirs(tgt,exist_ok=True)
    shutil.copytree(os.path.join(VERIF,'harness','src'),os.path.join(d,'src'))
    shutil.copy(os.path.join(VERIF,'harness','Cargo.lock'),d)
    s=open(os.path.join(VERIF,'harness','Cargo.toml')).read()
    s=s.replace('"/repo"',json.dumps(REPO)).replace('"../fakereqwest"',json.dumps(os.path.join(VERIF,'fakereqwest')))
    open(os.path.join(d,'Cargo.toml'),'w').write(s)
    for f in glob.glob(os.path.join(tgt,'debug','.fingerprint','cloud-storage-signature-*'))+glob.glob(os.path.join(tgt,'debug','.fingerprint','harness-*')): shutil.rmtree(f)
    env=dict(os.environ,CARGO_NET_OFFLINE='true',CARGO_TARGET_DIR=tgt,CARGO_INCREMENTAL='0')
    env.pop('RUSTC_WRAPPER',None)
    out=''
    for hooks in(True,False):
        env['RUSTFLAGS']='-Awarnings --cfg harness_build'+(' --cfg cloud_storage_signature_verif' if True and hooks else '')
        if hooks: env['RUSTFLAGS']+=' --cfg feature_hooks'
        r=subprocess.run(['cargo','+stable','build','--offline','--manifest-path',os.path.join(d,'Cargo.toml')],env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        if r.returncode==0: return os.path.join(tgt,'debug','harness'),hooks
        out=r.stdout
    raise BuildError(out[-4000:])
class Worker:
    def __init__(s,binary,timeout=20): s.bin=binary; s.p=None; s.timeout=timeout
    def start(s):
        env=dict(os.environ); env.pop('GCE_METADATA_HOST',None); env['RUST_BACKTRACE']='0'
        s.p=subprocess.Popen([s.bin],stdin=subprocess.PIPE,stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,env=env)
        s.buf=b''
    def ask(s,sess):
        if s.p is None: s.start()
        data=json.dumps(sess).encode()+b'\n'
        def w():
            try: s.p.stdin.write(data); s.p.stdin.flush()
            except Exception: pass
        t=threading.Thread(target=w,daemon=True); t.start()
        end=time.time()+s.timeout
        while True:
            i=s.buf.find(b'\n')
            if i>=0:
                line,s.buf=s.buf[:i],s.buf[i+1:]
                return json.loads(line)['res']
            left=end-time.time()
            r=select.select([s.p.stdout],[],[],max(0,left))[0] if left>0 else []
            if not r:
                s.kill(); return [{'hang':s.timeout}]
            c=os.read(s.p.stdout.fileno(),1<<16)
            if not c:
                rc=s.p.wait(); s.kill(); return [{'died':rc}]
            s.buf+=c
    def kill(s):
        if s.p:
            try: s.p.kill()
            except Exception: pass
            s.p.wait(); s.p=None
def run_all(binary,sessions,nproc=8,deadline=None,stop=None):
    """yields (session,result) in order of completion; stops early when stop() is true"""
    lock=threading.Lock(); it=iter(sessions); out=[]
    cond=threading.Condition(lock); active=[nproc]
    def loop():
        w=Worker(binary)
        try:
            while True:
                with lock:
                    if deadline and time.time()>deadline: break
                    if stop and stop(): break
                    try: x=next(it)
                    except StopIteration: break
                r=w.ask(x)
                with cond: out.append((x,r)); cond.notify()
        finally:
            w.kill()
            with cond: active[0]-=1; cond.notify()
    ts=[threading.Thread(target=loop,daemon=True) for _ in range(nproc)]
    for t in ts: t.start()
    while True:
        with cond:
            while not out and active[0]>0: cond.wait()
            batch,out[:]=out[:],[]
            done=active[0]==0 and not batch
        for b in batch: yield b
        if done: return
