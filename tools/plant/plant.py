"""plant.py DEFS [ID...]: make and try planted bugs."""
import importlib.util, json, os, shutil, subprocess, sys
PB='/tmp/pb'
defs=sys.argv[1]; only=sys.argv[2:]
spec=importlib.util.spec_from_file_location('defs',defs); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
base={}
for b in m.BUGS:
    if only and b['id'] not in only: continue
    d='/verif/seeded/'+b['id']
    shutil.rmtree(PB,ignore_errors=True); subprocess.run(['cp','-a','/repo',PB],check=True)
    ok=True
    for f,o,n in b['edits']:
        s=open(PB+'/'+f).read()
        if s.count(o)!=1: print(b['id'],'EDIT',f,s.count(o),repr(o[:60])); ok=False; break
        open(PB+'/'+f,'w').write(s.replace(o,n))
    if not ok: continue
    patch=subprocess.run(['git','-C',PB,'diff'],capture_output=True,text=True).stdout
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    open(d+'/patch.diff','w').write(patch)
    shutil.copy('/tmp/pl/demolib.py',d)
    open(d+'/demo.py','w').write('import os\nimport sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom demolib import *\n\n'+b['demo'].lstrip('\n'))
    open(d+'/demo.sh','w').write('#!/bin/bash\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
    f=None
    for l in patch.splitlines():
        if l.startswith('--- a/'): f=l[6:]; bt=subprocess.run(['git','-C','/repo','show','35e226b:'+f],capture_output=True,text=True).stdout.splitlines()
        elif l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] not in bt: print(b['id'],'NOT ORIGINAL',l)
    r1=subprocess.run(['bash',d+'/demo.sh'],cwd=PB,capture_output=True,text=True,timeout=300)
    subprocess.run(['git','-C',PB,'checkout','-q','--','.'])
    r0=subprocess.run(['bash',d+'/demo.sh'],cwd=PB,capture_output=True,text=True,timeout=300)
    msg='demo clean=%d patched=%d'%(r0.returncode,r1.returncode)
    if r0.returncode or not r1.returncode:
        print(b['id'],msg,'BAD'); print(r0.stdout[-600:],r0.stderr[-1500:],'----',r1.stdout[-600:],r1.stderr[-800:]); continue
    subprocess.run(['git','-C',PB,'apply',d+'/patch.diff'],check=True)
    t=subprocess.run(['bash','/tmp/pl/test.sh'],capture_output=True,text=True)
    msg+=' tests='+t.stdout.strip().splitlines()[-1] if t.stdout.strip() else ' tests?'
    for c in [b['property']]:
        r=subprocess.run(['/opt/venv/bin/python','-m','sim.check',c],cwd='/verif',env=dict(os.environ,RKSV_REPO=PB,VERIF_SEED='1',VERIF_TIER='quick'),capture_output=True,text=True)
        l=[x for x in r.stdout.splitlines() if x.startswith('violation') or 'HARNESS' in x or 'ERROR' in x]
        msg+=' | %s rc=%d %s'%(c,r.returncode,(l[0][:150] if l else ''))
    print(b['id'],msg,r1.stdout.strip()[:150],flush=True)
