#!/usr/bin/env python3
"""Lists the planted bugs whose patch removes no line of the original repository (base commit)."""
import subprocess,os,re,sys
BASE=sys.argv[1] if len(sys.argv)>1 else '6d511fc'
cache={}
def blame(f):
    if f not in cache:
        out=subprocess.run(['git','-C','/repo','blame','-l','-s',BASE+'..HEAD','--',f],capture_output=True,text=True).stdout
        cache[f]=[l.startswith('^') for l in out.splitlines()]
    return cache[f]
for s in sorted(os.listdir('/verif/seeded')):
    f=None;ok=0;bad=0;n=0
    for l in open(f'/verif/seeded/{s}/patch.diff'):
        if l.startswith('--- a/'): f=l[6:].strip()
        elif l.startswith('@@'): n=int(re.match(r'@@ -(\d+)',l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            if blame(f)[n-1]: ok+=1
            else: bad+=1
            n+=1
        elif l.startswith(' '): n+=1
    if ok==0 or bad: print(s,'original',ok,'mine',bad)
