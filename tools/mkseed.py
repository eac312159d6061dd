#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines name, prop, pkg, needs, breaks, edits=[(file,old,new)], test."""
import sys,subprocess,os,json
ns={}; exec(open(sys.argv[1]).read(),ns)
s='/tmp/seedwork/repo'
if not os.path.isdir(s):
    os.makedirs('/tmp/seedwork',exist_ok=True); subprocess.check_call(['cp','-a','/repo',s])
subprocess.check_call('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD',shell=True,cwd=s)
for f,o,n in ns['edits']:
    t=open(s+'/'+f).read()
    assert t.count(o)==1,(f,o,t.count(o))
    open(s+'/'+f,'w').write(t.replace(o,n))
d='/verif/seeded/'+ns['name']; os.makedirs(d,exist_ok=True)
open(d+'/patch.diff','w').write(subprocess.check_output(['git','diff'],cwd=s,text=True))
subprocess.check_call('git checkout -q -- .',shell=True,cwd=s)
open(d+'/demo_test.go','w').write(ns['test'])
open(d+'/demo.sh','w').write(open('/verif/tools/demo_template.sh').read().replace('PKG',ns['pkg']).replace('go test -vet','go test -race -vet' if ns.get('race') else 'go test -vet'))
json.dump({'property':ns['prop'],'needs':ns['needs'],'what_it_breaks':ns['breaks']},open(d+'/meta.json','w'),indent=1)
sys.exit(subprocess.call(['/verif/tools/seed.sh',ns['name']]+sys.argv[2:]))
