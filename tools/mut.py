#!/usr/bin/env python3
"""mut.py IDS file OLD NEW [file OLD NEW ...]: apply a textual mutant in a clone, build, run checks; print result"""
import sys,subprocess,os
D=os.environ.get('SUITE_DIR') or sys.exit('run by suite.sh')
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R=D+'/repo'
if not os.path.exists(R):
    subprocess.check_call(['git','clone','-q','/repo',R])
subprocess.check_call('git checkout -q -- . && git clean -fdq && git pull -q',shell=True,cwd=R)
ids=sys.argv[1].split(',')
a=sys.argv[2:]
while a:
    f,o,n=a[:3];a=a[3:]
    p=os.path.join(R,f);s=open(p).read()
    o=o.encode().decode('unicode_escape');n=n.encode().decode('unicode_escape')
    if o not in s: print('OLD NOT FOUND',f,o);sys.exit(9)
    open(p,'w').write(s.replace(o,n,1))
b=subprocess.run('gofmt -l . ; go build ./... && go vet ./... ',shell=True,cwd=R,capture_output=True,text=True)
if b.returncode: print('BUILD FAIL',b.stderr[-800:])
os.makedirs(D+'/verif',exist_ok=True);subprocess.call(['cp',V+'/known-findings.txt',D+'/verif/'])
for i in ids:
    o=subprocess.run([V+'/.bin/wegocheck','-repo',R,'-verif',D+'/verif',i],capture_output=True,text=True)
    print('%s rc=%d %s'%(i,o.returncode,'CAUGHT' if o.returncode==1 else 'quiet'))
    print('\n'.join('   '+l for l in o.stdout.splitlines()[1:14] if not l.startswith('  the rule')))
    if o.stderr: print(o.stderr[-300:])
