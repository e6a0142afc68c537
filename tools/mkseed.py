#!/usr/bin/env python3
"""mkseed.py DIR: DIR/seed.json {id, property, needs, what_it_breaks, edits:[[file, old, new],...], pkg:"streams", race:false} and DIR/demo_test.go
creates /verif/seeded/<id>/ after confirming: builds, stable tests pass, demo passes unchanged and fails patched."""
import json,os,subprocess,sys,shutil,tempfile
d=sys.argv[1]
s=json.loads(open(d+"/seed.json").read(),strict=False)
out='/verif/seeded/'+s['id']
tmp=tempfile.mkdtemp(prefix='seed')
repo=tmp+'/repo'
subprocess.check_call(['cp','-a','/repo',repo])
for f,o,n in s['edits']:
    p=repo+'/'+f; t=open(p).read()
    assert t.count(o)==1,(f,o,t.count(o))
    open(p,'w').write(t.replace(o,n))
diff=subprocess.check_output(['git','-C',repo,'diff']).decode()
os.makedirs(out,exist_ok=True)
open(out+'/patch.diff','w').write(diff)
json.dump({"property":s['property'],"needs":s['needs'],"what_it_breaks":s['what_it_breaks']},open(out+'/meta.json','w'),indent=1)
shutil.copy(d+'/demo_test.go',out+'/demo_test.go.txt')
hasH=os.path.exists(d+'/helper_test.go')
if hasH: shutil.copy(d+'/helper_test.go',out+'/helper_test.go.txt')
pkg=s.get('pkg','streams')
mod=pkg.split('/')[0]; rel='/'.join(pkg.split('/')[1:])
dst='$PWD/'+pkg+'/zz_seed_demo_test.go'
HC='\ncp "$here/helper_test.go.txt" "$tmp/helper_test.go"' if hasH else ''
HO=',\\"$PWD/'+pkg+'/zz_seed_helper_test.go\\":\\"$tmp/helper_test.go\\"' if hasH else ''
open(out+'/demo.sh','w').write(f'''#!/bin/bash
# run with cwd = the repository: an in-package test put in by overlay
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
tmp=$(mktemp -d); trap '/bin/rm -rf "$tmp"' EXIT
cp "$here/demo_test.go.txt" "$tmp/demo_test.go"{HC}
echo "{{\\"Replace\\":{{\\"$PWD/{pkg}/zz_seed_demo_test.go\\":\\"$tmp/demo_test.go\\"{HO}}}}}" > "$tmp/ov.json"
cd {mod} && timeout 240 go test -overlay "$tmp/ov.json" -vet=off -short -count=1 -timeout 200s -run '^TestSeedDemo' ./{rel}
''')
os.chmod(out+'/demo.sh',0o755)
env=dict(os.environ)
def demo(r):
    p=subprocess.run(['bash',out+'/demo.sh'],cwd=r,capture_output=True,text=True)
    return p.returncode,p.stdout+p.stderr
a,o1=demo('/repo'); b,o2=demo(repo)
print('unchanged',a, '' if a==0 else o1[-1500:]); print('patched',b,o2[-700:])
ok=a==0 and b!=0 and 'build failed' not in o2
# stable tests
bl=json.load(open('/opt/vp/BASELINE.json'))
r=subprocess.run(f'. /opt/vp/env.sh; cd {repo}; for m in $MODULES; do (cd $m; go build ./... && go test -short -count=1 -json ./... ); done',shell=True,capture_output=True,text=True,executable='/bin/bash')
fails=[l for l in r.stdout.splitlines() if '"Action":"fail"' in l]
print('fails:',fails[:5], r.stderr[-500:])
subprocess.call(['/bin/rm','-rf',tmp])
print('OK' if ok and not fails and not r.stderr.strip() else 'NOT OK')
