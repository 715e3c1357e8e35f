# sxrun.sh harness.c FUNC secs "defs" -> builds per //@src lines and runs engine
cd /verif; python3 - "$@" <<'P'
import sys,importlib.util,os,tempfile
sys.argv_=sys.argv
spec=importlib.util.spec_from_file_location('check','/verif/check.py'); c=importlib.util.module_from_spec(spec); spec.loader.exec_module(c)
h,f,secs,defs=sys.argv[1:5]
srcs=[];rts=[]
import re
for l in open(h):
    m=re.match(r"\s*//@src\s+(.*)",l); 
    if m: srcs=m.group(1).split()
    m=re.match(r"\s*//@rt\s+(.*)",l)
    if m: rts=m.group(1).split()
j=c.Job('X',h,{'func':f,'defs':defs,'engine':'sx'},srcs,rts)
c.sx_binary(); c.sx_build(j,'/tmp/mp/x.bc')
P
time /verif/build/sx /tmp/mp/x.bc $2 $3
