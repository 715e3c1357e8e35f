#!/usr/bin/env python3
"""Sensitivity audit: mutate.py FILE N [SEED]   small random changes of a library file, checked in a scratch copy; prints those no check sees.
They are not planted bugs (no demonstration; some change no behaviour): survivors are read by hand."""
import os,random,re,shutil,subprocess,sys,tempfile
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS={'region.c':'A01','bistack.c':'A02','objpool.c':'A03','mempool.c':'A04 A05','array.c':'C01 C02 O01','bytebuffer.c':'C03 O01','deque.c':'C04 O01',
 'map.c':'C05 C06 O01','tree.c':'C07 O01','tuple.c':'C08 O01','variant.c':'C09 O01','linked_list.h':'C10','str.c':'S01 S02 O01','lex.c':'L01 L02 L03 L04 L05 G01',
 'math_parser.c':'M03 M02 M01','harbol_common_includes.h':'U01 I01 L03 L05 C10 C01 O01 S02','mtwister.h':'R01','cfg.c':'G01 G02 G03 G04','plugins.c':'K01 K02',
 'msg_span.c':'D01 D02 D03','msg_sys.c':'D03 D01'}
OPS=[(r'(?<![<>=!-])<(?![<=])','<='),(r'<=(?!=)','<'),(r'(?<![->])>(?![>=])','>='),(r'>=','>'),(r'==','!='),(r'!=','=='),(r'&&','||'),(r'\|\|','&&'),
 (r'(?<=[\w\])]) *\+ *(?=[\w(])','-'),(r'(?<=[\w\])]) *- *(?=[\w(])','+'),(r'\+\+','--'),(r'--','++'),(r'\b0\b','1'),(r'\b1\b','2'),(r'\b1\b','0'),(r'\+=','-='),(r'-=','+='),
 (r'\btrue\b','false'),(r'\bfalse\b','true'),(r'\*','/'),(r'\bcontinue;','break;'),(r'\bbreak;','continue;'),(r'->next\b','->prev'),(r'->prev\b','->next'),
 (r'\bif\( ','if( !'),(r'NULL\b','(void*)1'),(r"'(.)'",lambda m:"'%c'"%(ord(m.group(1))^1))]
def mutants(src,rnd):
    L=src.split('\n'); out=[]; inc=False
    for i,l in enumerate(L):
        if '/*' in l and '*/' not in l: inc=True
        if inc:
            if '*/' in l: inc=False
            continue
        if not l.startswith('\t') or l.strip().startswith(('//','#','*','fputs','printf','fprintf','harbol_err')): continue
        code=l.split('//')[0]
        for a,b in OPS:
            for m in re.finditer(a,code):
                if code[:m.start()].count('"')%2: continue
                n=code[:m.start()]+(b(m) if callable(b) else b)+code[m.end():]
                out.append((i,n))
        if re.match(r'\s+[\w*>.()\[\]+-]+(\s*[+|&-]?=[^=].*|\(.*\)|\+\+|--);\s*$',code) and not re.match(r'\s+(return|const|static)\b',code): out.append((i,'\t;'))
    rnd.shuffle(out); return L,out
def main():
    f=[x for x in subprocess.check_output(['git','ls-files'],cwd='/repo',text=True).split('\n') if os.path.basename(x)==sys.argv[1]][0]
    n=int(sys.argv[2]); rnd=random.Random(int(sys.argv[3]) if len(sys.argv)>3 else 1); props=(sys.argv[4] if len(sys.argv)>4 else PROPS[sys.argv[1]]).split()
    src=open('/repo/'+f,errors='surrogateescape').read(); L,M=mutants(src,rnd); lines=set(); done=0
    w=tempfile.mkdtemp(prefix='mut_'); R=w+'/repo'; subprocess.check_call(['cp','-a','/repo',R])
    base=None
    def obj():
        c=R+'/'+f if f.endswith('.c') else None
        if not c: return os.urandom(8)
        r=subprocess.run(['gcc','-std=c99','-O2','-w','-I',R,'-c','-o',w+'/o.o',c],capture_output=True)
        if r.returncode: return None
        return subprocess.check_output(['objdump','-d','-s',w+'/o.o'])
    T=w+'/tmp'; os.mkdir(T); base=obj()
    try:
        for i,new in M:
            if done>=n: break
            if i in lines: continue
            K=list(L); K[i]=new; open(R+'/'+f,'w',errors='surrogateescape').write('\n'.join(K))
            o=obj()
            if o is None or o==base: continue
            lines.add(i); done+=1; res='SURVIVED'; notes=[]; shutil.rmtree(T); os.mkdir(T)
            for p in props:
                try: r=subprocess.run([sys.executable,V+'/check.py',p],cwd=V,env=dict(os.environ,REPO=R,VERIF_TIER='quick',VP_EVIDENCE=w,VP_FIRST='1',TMPDIR=T),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,start_new_session=True,timeout=1000)
                except subprocess.TimeoutExpired: notes.append(p+':timeout'); continue
                o=r.stdout.decode(errors='replace')
                if 'VIOLATION' in o: res='killed '+p; break
                if r.returncode: notes.append(p+':rc%d %s'%(r.returncode,[l[:160] for l in o.splitlines() if l.startswith('INCONC')][:2]))
            print('%-10s %s:%d  %s   =>   %s %s'%(res,f,i+1,L[i].strip(),new.strip(),' '.join(notes)),flush=True)
    finally: shutil.rmtree(w,ignore_errors=True)
main()
