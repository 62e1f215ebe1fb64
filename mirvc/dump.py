"""Regenerate rustc MIR of /repo's current working tree (nightly rustc, pre drop elaboration)."""
import os, subprocess, shutil, glob, hashlib, time
REPO=os.environ.get('VERIF_REPO','/repo')
BUILD=os.environ.get('VERIF_BUILD') or os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'.build')
class DumpError(Exception): pass
def crate_name():
    import re
    s=open(os.path.join(REPO,'Cargo.toml')).read()
    return re.search(r'^\s*name\s*=\s*"([^"]+)"',s,re.M).group(1).replace('-','_')
def dump():
    tgt=os.path.join(BUILD,'mir-target'); out=os.path.join(BUILD,'mir')
    os.makedirs(tgt,exist_ok=True)
    shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
    cn=crate_name().replace('_','-')
    for d in glob.glob(os.path.join(tgt,'debug','.fingerprint',cn+'-*'))+glob.glob(os.path.join(tgt,'debug','build',cn)): shutil.rmtree(d,ignore_errors=True)
    env=dict(os.environ,CARGO_INCREMENTAL='0',CARGO_NET_OFFLINE='true',CARGO_TARGET_DIR=tgt,RUSTFLAGS='')
    env.pop('RUSTC_WRAPPER',None)
    lock=os.path.join(REPO,'Cargo.lock'); had=os.path.exists(lock)
    cmd=['cargo','+nightly','rustc','--lib','--offline','--manifest-path',os.path.join(REPO,'Cargo.toml'),'--',
         '-Zdump-mir=ElaborateDrops | built','-Zdump-mir-dir='+out,'-Ztrim-diagnostic-paths=no','-Awarnings','-Copt-level=0']
    t=time.time()
    r=subprocess.run(cmd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if r.returncode==0 and not os.listdir(out):   # cargo thought the crate was fresh
        shutil.rmtree(tgt,ignore_errors=True)
        r=subprocess.run(cmd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if not had and os.path.exists(lock): os.remove(lock)
    if r.returncode!=0: raise DumpError(r.stdout[-4000:])
    return out, time.time()-t
if __name__=='__main__':
    print(dump())
