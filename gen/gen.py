#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json: a property is claimed when a harness declares a quick job for it."""
import json,glob,re,os,sys
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,os.path.join(R,'gen'))
from props import P
jobs={}; funcs={}
for f in glob.glob(R+'/harness/h_*.c'):
    for l in open(f):
        m=re.match(r'//@job (\S+) (.*)',l)
        if m:
            for p in m.group(1).split(','):
                e='sx' if 'engine=sx' in m.group(2) else 'cbmc'; jobs.setdefault(p,[]).append(e)
                funcs.setdefault(p,{}).setdefault((os.path.basename(f),re.search(r'func=(\S+)',m.group(2)).group(1),e),[0,0])['tier=thorough' in m.group(2)]+=1
with open(R+'/properties.jsonl','w') as o:
    for p in P:
        if p['id'] not in jobs and not p['na'] and '--all' not in sys.argv: print('unclaimed, skipped:',p['id']); continue
        o.write(json.dumps(dict(id=p['id'],title=p['title'],statement=p['statement'],quantifier=dict(over=p['over'],text=p['text']),
            why_tests_cant=p['why'],anchors=dict(files=p['files'],mechanism=[dict(name=a,where=b) for a,b in p['mech']])))+'\n')
def tech(j):
    e=[]
    if 'cbmc' in j: e.append('bounded symbolic execution of the real C code (CBMC, SAT/SMT verdict)')
    if 'sx' in j: e.append('path-wise symbolic execution of the real code\'s LLVM IR (own engine, Z3 verdict on every branch, access and assertion)')
    return ' and '.join(e)+', counterexamples replayed natively under ASan/UBSan'
def note(j):
    e=[]
    if 'cbmc' in j: e.append('Unwinding assertions show the loop bounds suffice.')
    if 'sx' in j: e.append('Every path within the bounds is followed to its end; object addresses are those of one layout.')
    t=[]
    if 'cbmc' in j: t.append('CBMC\'s C semantics and libc models')
    if 'sx' in j: t.append('clang\'s IR, engine/sx.cpp and its libc models')
    return ' '.join(e)+' Trusted: '+', '.join(t)
checks=[]; na=[]
for p in P:
    if p['id'] in jobs:
        c=dict(property=p['id'],quick_cmd='python3 check.py %s --tier quick'%p['id'],thorough_cmd='python3 check.py %s --tier thorough'%p['id'],
          technique=tech(jobs[p['id']]),level='other',
          level_note='Holds for every value within the bounds: '+p['bounds']+'. '+note(jobs[p['id']])+' and the harness\'s reference model; a violation is reported only after the counterexample reproduces in a native build.')
        checks.append(c)
    elif p['na']: na.append(dict(property=p['id'],reason=p['na']))
json.dump(dict(version=1,setup_cmd='python3 check.py --list',checks=checks,not_applicable=na),open(R+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'not applicable')

# the per-property part of DESIGN.md
o=['<!-- generated by gen/gen.py from gen/props.py, the job lines of the harnesses and seeded/ -->','']
for p in P:
    o.append('### %s %s'%(p['id'],p['title']))
    if p['id'] not in jobs: o+=['Not applicable: '+p['na']+'.','']; continue
    o.append('Anchors: '+'; '.join('%s (%s)'%(b,a) for a,b in p['mech'])+'. Symbolic: '+p['text']+'. Bounds: '+p['bounds']+'. Beyond tests: '+p['why']+'.')
    for (f,fn,e),(q,t) in sorted(funcs.get(p['id'],{}).items()):
        o.append('- `%s`: `%s`, %s, %d quick job%s%s'%(f,fn,'CBMC' if e=='cbmc' else 'path-wise engine',q,'' if q==1 else 's',' + %d thorough'%t if t else ''))
    o.append('')
st={}
if os.path.exists(R+'/gen/caught.txt'):
    for l in open(R+'/gen/caught.txt'):
        w=l.split()
        if w: st[w[0]]=w[1]
o+=['## Planted bugs','','| bug | property | needs | check |','|---|---|---|---|']
for i in sorted(os.listdir(R+'/seeded')) if os.path.isdir(R+'/seeded') else []:
    m=json.load(open(R+'/seeded/'+i+'/meta.json')); o.append('| %s | %s | %s | %s |'%(i,m['property'],m['needs'],st.get(i,'not run')))
D=open(R+'/DESIGN.md').read(); mk='## Per property\n'
if mk in D: open(R+'/DESIGN.md','w').write(D[:D.index(mk)]+mk+'\n'.join(o)+'\n')
