import sys,os,subprocess,json,shutil,tempfile,runpy,glob
REPO='/repo'; SEED='/verif/seeded'
def sh(cmd,cwd=None,env=None,timeout=900):
    e=dict(os.environ); e.update(env or {})
    try:
        p=subprocess.run(cmd,shell=True,cwd=cwd,env=e,capture_output=True,text=True,timeout=timeout)
        return p.returncode,p.stdout+p.stderr
    except subprocess.TimeoutExpired: return 124,'TIMEOUT'
def do(spec,check=True):
    s=runpy.run_path(spec); bid=os.path.basename(spec)[:-3]
    d=tempfile.mkdtemp(prefix='plant_',dir='/tmp'); r=f'{d}/repo'
    try:
        shutil.copytree(REPO,r,symlinks=True)
        for f,o,n in s['EDITS']:
            p=f'{r}/{f}'; t=open(p).read()
            if t.count(o)!=1: return bid,f'EDIT matches {t.count(o)} in {f}: {o[:60]!r}'
            open(p,'w').write(t.replace(o,n))
        diff=sh('git diff',r)[1]
        b=f'{d}/bug'; os.makedirs(b)
        open(f'{b}/demo.py','w').write(s['DEMO'].lstrip())
        for k,v in s.get('FILES',{}).items(): open(f'{b}/{k}','w').write(v)
        open(f'{b}/demo.sh','w').write('#!/bin/bash\n'+s.get('SH','export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'))
        os.chmod(f'{b}/demo.sh',0o755)
        rc0,o0=sh(f'bash {b}/demo.sh',REPO); rc1,o1=sh(f'bash {b}/demo.sh',r)
        if rc0!=0 or rc1==0: return bid,f'DEMO clean={rc0} patched={rc1}\n{o0[-600:]}\n--\n{o1[-600:]}'
        rc,o=sh(f'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/opt/vp/plugin:{r} /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p vp_seed tests',r)
        if rc!=0: return bid,'TESTS FAIL\n'+'\n'.join(l for l in o.splitlines() if l.startswith('FAILED'))[:800]+o[-300:]
        dst=f'{SEED}/{bid}'; os.makedirs(dst,exist_ok=True)
        for f in os.listdir(b): shutil.copy(f'{b}/{f}',dst)
        open(f'{dst}/patch.diff','w').write(diff)
        json.dump({'property':s['PROP'],'needs':s['NEEDS'],'what_it_breaks':s['BREAKS']},open(f'{dst}/meta.json','w'),indent=1)
        if not check: return bid,'kept'
        rep=f'{d}/out'
        rc,o=sh(f'/opt/venv/bin/python -m dst check {s["PROP"]} --tier quick','/verif',{'VERIF_REPO':r,'VERIF_SEED':'1','VERIF_OUT':rep})
        return bid,('CAUGHT' if rc==1 and 'VIOLATION property='+s['PROP'] in o else f'MISSED rc={rc}')+' '+o.strip().splitlines()[-1][:150]
    finally: shutil.rmtree(d)
if __name__=='__main__':
    from concurrent.futures import ThreadPoolExecutor
    args=[a for a in sys.argv[1:] if not a.startswith('-')]
    with ThreadPoolExecutor(2) as ex:
        for bid,m in ex.map(lambda a:do(a,'-n' not in sys.argv),args): print(bid,m,flush=True)
