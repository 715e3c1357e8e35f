#!/usr/bin/env python3
"""Confirm planted bugs: plant.py ID...   (no ID: all of seeded/)
Works on a scratch copy of /repo: demo passes unpatched; patched tree builds, passes the stable tests, demo fails;
then runs the property's check against the scratch copy and says whether it is caught."""
import json,os,re,shutil,subprocess,sys,tempfile
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd,cwd=None,env=None,t=900):
    r=subprocess.run(cmd,shell=True,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t)
    return r.returncode,r.stdout.decode(errors='replace')
def one(i,check=True):
    d=f"{V}/seeded/{i}"; meta=json.load(open(d+"/meta.json"))
    w=tempfile.mkdtemp(prefix=f"plant_{i}_"); R=w+"/repo"
    try:
        subprocess.check_call(["cp","-a","/repo",R])
        for s in ("build.sh","test.sh"):
            t=open("/opt/vp/"+s).read(); open(f"{w}/{s}","w").write(re.sub(r"/repo\b",R,t))
        D=w+"/demo"; shutil.copytree(d,D)
        for f in os.listdir(D):
            if f.endswith(('.diff','.patch')) or f=='meta.json': os.remove(D+"/"+f)
        sh(f"bash {w}/build.sh")
        rc,o=sh(f"bash {D}/demo.sh",cwd=R,t=300)
        if rc: return i,f"BAD demo fails on clean tree rc={rc}\n{o[-1500:]}"
        rc,o=sh(f"git apply {d}/patch.diff",cwd=R)
        if rc: return i,"BAD patch: "+o
        rc,o=sh(f"bash {w}/build.sh")
        if rc: return i,"BAD build: "+o[-1500:]
        sh(f"bash {w}/test.sh {w}/t.json")
        b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])-set(json.load(open(w+'/t.json'))['passed'])
        if b: return i,f"BAD tests fail: {b}"
        rc,o=sh(f"bash {D}/demo.sh",cwd=R,t=300)
        if not rc: return i,"BAD demo passes with patch\n"+o[-800:]
        if not check: return i,"ok (not checked)"
        e=dict(os.environ,REPO=R,VERIF_SEED="1",VERIF_TIER="quick",VP_EVIDENCE=w)
        m=json.load(open(V+"/MANIFEST.json")); c=[x for x in m["checks"] if x["property"]==meta["property"]] if "property" in m["checks"][0] else [x for x in m["checks"] if meta["property"] in json.dumps(x)]
        rc,o=sh(f"python3 {V}/check.py {meta['property']}",cwd=V,env=e,t=1000)
        hit=[l for l in o.splitlines() if l.startswith("VIOLATION")]
        return i,("CAUGHT " if rc==1 and hit else f"MISSED rc={rc} ")+meta["property"]+" "+" | ".join(hit[:2])+("" if hit else "\n"+o[-600:])
    finally: shutil.rmtree(w,ignore_errors=True)
if __name__=="__main__":
    a=[x for x in sys.argv[1:] if not x.startswith('-')] or sorted(os.listdir(V+"/seeded"))
    for i in a:
        r=one(i,'--nocheck' not in sys.argv); print(*r,flush=True)
        if r[1].startswith(('CAUGHT','MISSED')):
            f=V+'/gen/caught.txt'; L=[l for l in (open(f).read().splitlines() if os.path.exists(f) else []) if l.split()[0]!=i]
            open(f,'w').write('\n'.join(sorted(L+[i+' '+r[1].split()[0].lower()]))+'\n')
