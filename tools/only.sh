# usage: only.sh PROP  : run every config separately on asan, print first failure of each
cd /verif; P=$1; FL=${2:-asan}; N=${3:-20000}
python3 - "$P" "$FL" "$N" <<'PY'
import sys,subprocess,os
sys.path.insert(0,'/verif/bin')
import check
prop,fl,n=sys.argv[1],sys.argv[2],sys.argv[3]
spec=check.PROPS[prop]
b=check.build(prop,spec,[fl])[fl]
cfgs=subprocess.run([b,'list'],stdout=subprocess.PIPE).stdout.decode().split()
import concurrent.futures as cf
def go(c):
    r=subprocess.run([b,'run','--only',c,'--seed','5','--to',n,'--stats','/tmp/st.%s.json'%c,'--cpu','20']+spec.get('args',[]),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,env=check.child_env(fl))
    return c,r.returncode,check.summarize(r.stdout.decode(errors='replace'))
with cf.ThreadPoolExecutor(8) as ex:
    for c,rc,s in ex.map(go,cfgs): print(c,rc,s if rc else 'ok')
PY
