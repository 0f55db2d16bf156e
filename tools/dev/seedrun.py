"""seedrun.py [-t] id=PROPS... : per seed own copy; tests (-t) + checks against it"""
import subprocess,sys,os,shutil,json,concurrent.futures as cf
T='-t' in sys.argv
items=[a for a in sys.argv[1:] if a!='-t']
def one(a):
    id,_,props=a.partition('=')
    meta=json.load(open(f'/verif/seeded/{id}/meta.json'))
    props=props.split(',') if props else [meta['property']]
    wt=f'/tmp/wt_{id}'
    shutil.rmtree(wt,ignore_errors=True)
    subprocess.run(['git','clone','-q','/repo',wt],check=True)
    out=[id]
    r=subprocess.run(['git','-C',wt,'apply',f'/verif/seeded/{id}/patch.diff'],capture_output=True,text=True)
    if r.returncode: return id+' PATCH FAILS '+r.stderr
    if T:
        env=dict(os.environ,HOME='/root',LANG='C.UTF-8',PYTHONDONTWRITEBYTECODE='1',PYTHONHASHSEED='0',MPLBACKEND='Agg',OPENBLAS_NUM_THREADS='1',OMP_NUM_THREADS='1')
        r=subprocess.run('/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 tests 2>&1 | tail -1',shell=True,cwd=wt,env=env,capture_output=True,text=True)
        out.append(r.stdout.strip())
    for p in props:
        env=dict(os.environ,PRODSYS_REPO=wt,VERIF_SEED='1')
        r=subprocess.run(['bash','/verif/check.sh',p,'quick'],env=env,capture_output=True,text=True)
        l=[x for x in r.stdout.splitlines() if x.strip()]
        out.append(f'{p}: rc={r.returncode} '+(l[0][:150] if l else r.stderr[-300:]))
    shutil.rmtree(wt,ignore_errors=True)
    return '\n   '.join(out)
with cf.ThreadPoolExecutor(2) as ex:
    for o in ex.map(one,items): print(o,flush=True)
