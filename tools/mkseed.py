#!/usr/bin/env python3
# mkseed.py spec.py (then seedrun.py ID): spec defines ID, PROP, NEEDS, BREAKS, EDITS=[(file,old,new)], DEMO (go source)
import sys, os, json, subprocess, runpy
s = runpy.run_path(sys.argv[1])
def sh(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
V='/verif/seeded/'+s['ID']
subprocess.run(['rm','-rf','/tmp/seedwork']); sh('cp -a /repo /tmp/seedwork')
for f,o,n in s['EDITS']:
    p='/tmp/seedwork/'+f; t=open(p).read()
    assert t.count(o)==1, (f, t.count(o), o)
    open(p,'w').write(t.replace(o,n))
os.makedirs(V, exist_ok=True)
sh('gofmt -w '+' '.join('/tmp/seedwork/'+f for f,_,_ in s['EDITS']))
open(V+'/patch.diff','w').write(sh('git -C /tmp/seedwork diff').stdout)
json.dump(dict(property=s['PROP'], needs=s['NEEDS'], what_it_breaks=s['BREAKS']), open(V+'/meta.json','w'), indent=1)
if s.get('LIB'): sh('cp /tmp/specs2/peerlib.tgz '+V+'/')
if s.get('DEMO'):
    subprocess.run(['bash','/verif/tools/mkdemo.sh',s['ID']], input=s['DEMO'], text=True, check=True)
if s.get('DEMO_SH'):
    open(V+'/demo.sh','w').write(s['DEMO_SH'])
for name, content in s.get('FILES',{}).items():
    open(V+'/'+name,'w').write(content)
subprocess.run(['rm','-rf','/tmp/seedwork'])
