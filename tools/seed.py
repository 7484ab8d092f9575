#!/usr/bin/env python3
"""seed.py ID PROPERTY: make /verif/seeded/ID from a block on stdin:
   @@ file / old / ---- / new  (repeated, separated by ====), then @needs, @breaks, @demo (C++) or @demosh parts."""
import sys,subprocess,os,json,re
sid,prop=sys.argv[1:3]
R=os.environ.get('SEEDREPO','/repo')
txt=sys.stdin.read()
parts=dict((m[0],m[1]) for m in re.findall(r'^@(\w+)\n(.*?)(?=^@\w+\n|\Z)',txt,re.S|re.M))
d=os.environ.get('SEEDDIR','/verif/seeded')+f'/{sid}'; os.makedirs(d,exist_ok=True)
assert subprocess.run(['git','-C',R,'status','--porcelain','--untracked-files=no'],capture_output=True,text=True).stdout=='' , 'repo dirty'
try:
    for blk in parts['edit'].split('\n====\n'):
        f,rest=blk.strip('\n').split('\n',1)
        r=subprocess.run(['/verif/fx',f'{R}/{f}'],input=rest,text=True)
        assert r.returncode==0
    p=subprocess.run(['git','-C',R,'diff'],capture_output=True).stdout
    open(d+'/patch.diff','wb').write(p)
finally:
    subprocess.run(['git','-C',R,'checkout','-q','--','.'])
json.dump({"property":prop,"needs":parts['needs'].strip(),"what_it_breaks":parts['breaks'].strip()},open(d+'/meta.json','w'),indent=1)
if 'demo' in parts: open(d+'/demo.cc','w').write(parts['demo'])
flags=parts.get('flags','').strip()
open(d+'/demo.sh','w').write(f'''#!/bin/bash
# exit 0 when the behaviour is right, nonzero otherwise; everything it writes is in a scratch directory
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
g++ -std=gnu++14 -w -g {flags} -I/repo/include -I/repo/fcontext/src "$d/demo.cc" -o "$t/demo" \\
	/repo/_build/libkasync.a /repo/_build/fcontext/libboost_context.a -lssl -lcrypto -lpthread -ldl || exit 8
cd "$t" && timeout -s KILL 60 ./demo
''')
os.chmod(d+'/demo.sh',0o755)
