#!/usr/bin/env python3
"""mkseed.py NAME FILE <<< JSON [[old,new],...]: make patch.diff of a planted bug in the scratch copy /tmp/sc"""
import subprocess, sys, json
def seed(name, edits):
    run=lambda *a: subprocess.run(a, cwd='/tmp/sc', capture_output=True, text=True, check=True).stdout
    run('git','fetch','-q','/repo','main'); run('git','reset','-q','--hard','FETCH_HEAD')
    for f,a,b in edits:
        p='/tmp/sc/'+f; s=open(p).read(); assert s.count(a)==1,(name,f,s.count(a)); open(p,'w').write(s.replace(a,b))
    open(f'/verif/seeded/{name}/patch.diff','w').write(run('git','diff'))
    run('git','checkout','-q','--','.')
    base=subprocess.run(['git','diff','-U0','c51e6c4','HEAD','--']+[e[0] for e in edits],cwd='/repo',capture_output=True,text=True).stdout
    for l in open(f'/verif/seeded/{name}/patch.diff'):
        if l.startswith('-') and not l.startswith('---') and '+'+l[1:].rstrip('\n') in base.split('\n') and l.strip('-\n ') : print('WARNING: not an original line:', l.strip())
if __name__=='__main__':
    seed(sys.argv[1], json.load(sys.stdin))
