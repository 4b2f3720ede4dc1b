#!/usr/bin/env python3
"""plant.py ID PROP 'needs' 'breaks'  (reads edits + demo from stdin as python: edits=[(file,old,new),...]; demo='''...''')
Creates /verif/seeded/ID from edits against /repo HEAD (in the scratch copy /tmp/seedwt) and confirms it."""
import sys, os, json, subprocess, shutil
sid, prop, needs, breaks = sys.argv[1:5]
ns = {}
exec(sys.stdin.read(), ns)
W='/tmp/seedwt'; R='/repo'
D=f'/verif/seeded/{sid}'
sh=lambda c,**k: subprocess.run(c,shell=True,capture_output=True,text=True,**k)
if not os.path.exists(W): sh(f'cp -a {R} {W}')
sh(f'cd {W} && git checkout -q -- . && git fetch -q {R} HEAD && git reset -q --hard FETCH_HEAD')
for f,o,n in ns['edits']:
    s=open(f'{W}/{f}').read()
    if s.count(o)!=1: sys.exit(f'{f}: {s.count(o)} matches of {o!r}')
    open(f'{W}/{f}','w').write(s.replace(o,n))
diff=sh(f'cd {W} && git diff').stdout
os.makedirs(D,exist_ok=True)
open(f'{D}/patch.diff','w').write(diff)
shutil.copy('/verif/tools/seedlib/util.mjs',f'{D}/util.mjs')
open(f'{D}/demo.mjs','w').write("import { answer, assert, call, chunk, main, mod, pkg, read, server, sleep, sse, tool } from './util.mjs'\n\nawait main(async () => {\n"+ns['demo'].strip('\n')+"\n})\n")
open(f'{D}/demo.sh','w').write('#!/bin/bash\nexec /opt/veriftools/node/node_modules/.bin/tsx "$(dirname "$0")/demo.mjs"\n'); os.chmod(f'{D}/demo.sh',0o755)
json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(f'{D}/meta.json','w'),indent=1)
sh(f'cd {W} && git checkout -q -- .')
r=subprocess.run(['/verif/tools/confirm.sh',sid]+( ['--check'] if '--check' in sys.argv else []))
sys.exit(r.returncode)
