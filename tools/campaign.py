#!/usr/bin/env python3
"""campaign.py MUTANTS.jsonl OUT.jsonl [WORKERS]: runs the checks against each mutant (scratch copies under /tmp/camp);
prints and records the survivors. Development aid; no check uses it."""
import json, os, subprocess, sys, threading, queue, shutil
src, out, nw = sys.argv[1], sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 3
MAP = [
 ('packages/generate-text/', 'C01 C02 C07 C14 C15 C12 C06 C05 C03 C20 C10'),
 ('packages/stream-text/', 'C08 C09 C10 C01 C02 C11 C06 C07 C12 C14 C15 C05 C13 C19'),
 ('packages-ext/telemetry/', 'C22 C23 C08 C09 C10 C01 C02 C11 C06 C07 C12 C05 C14 C15'),
 ('packages-ext/responses/', 'C21 C10 C01 C02 C06 C07 C09 C11 C12 C05 C03 C04 C13 C14 C15'),
 ('packages/shared-chat/', 'C03 C04 C05 C12 C06 C29 C01 C02 C07 C15 C22 C14'),
 ('packages/shared-stream/', 'C13 C11 C10 C08 C25'),
 ('packages/shared/', 'C14 C15 C27 C13 C26 C10'),
 ('packages/generate-object/', 'C20 C19'), ('packages/stream-object/', 'C19 C20'),
 ('packages/utils-reasoning/', 'C17'), ('packages/utils-stream/', 'C18'), ('packages/utils-chat/', 'C31'),
 ('packages/generate-image/', 'C26 C14 C15'),
 ('packages/stream-speech/', 'C25 C27 C14 C15'), ('packages/stream-transcription/', 'C25 C27 C14 C15'),
 ('packages/generate-speech/', 'C27 C14 C15'), ('packages/generate-transcription/', 'C27 C14 C15'), ('packages/embed/', 'C27 C14 C15'), ('packages/model/', 'C27 C14 C15'),
 ('packages/tool/', 'C28 C30'), ('packages-top/xsschema/', 'C28 C30 C20'), ('packages-top/xsfetch/', 'C16'),
 ('packages-ext/providers/', 'C24'),
]
def checks(f):
    for p, c in MAP:
        if f.startswith(p): return [x for x in c.split() if os.path.exists(f'/verif/checks/{x}.mjs')]
    return []
jobs = queue.Queue(); done = set()
if os.path.exists(out): done = {json.loads(l)['id'] for l in open(out)}
total = 0
for l in open(src):
    m = json.loads(l); m['id'] = f"{m['file']}:{m['start']}:{m['end']}:{m['op']}:{m['replacement']}"
    if m['id'] not in done: jobs.put(m); total += 1
lock = threading.Lock()
def run(c, V, W, env, limit):
    e = dict(os.environ, VERIF_REPO=W, VERIF_TLC_CACHE='/tmp/tlccache', **env)
    try: r = subprocess.run(['node', 'bin/check.mjs', c], cwd=V, env=e, capture_output=True, text=True, timeout=limit)
    except subprocess.TimeoutExpired: return 1, 'timeout'
    return r.returncode, r.stdout + r.stderr
def work(n):
    W, V = f'/tmp/camp/w{n}', f'/tmp/camp/v{n}'
    subprocess.run(f'rm -rf {W} {V}; cp -a /repo {W}; mkdir -p {V}; cp -a /verif/bin /verif/lib /verif/specs /verif/harness /verif/checks /verif/known-findings.txt {V}/', shell=True)
    while True:
        try: m = jobs.get_nowait()
        except queue.Empty: return
        f = f"{W}/{m['file']}"; orig = open(f, encoding='utf8').read()
        # offsets are UTF-16
        u = orig.encode('utf-16-le'); new = (u[:2*m['start']] + m['replacement'].encode('utf-16-le') + u[2*m['end']:]).decode('utf-16-le')
        open(f, 'w', encoding='utf8').write(new)
        res = None; cs = checks(m['file'])
        try:
            for c in cs:
                rc, text = run(c, V, W, {'VERIF_LIMIT': '300', 'VERIF_PROCS': '2'}, 300)
                if rc == 1: res = 'killed ' + c; break
                if rc == 3 and ('Build failed' in text or 'ERROR' in text): res = 'broken'; break
            if not res:
                r = subprocess.run(['/verif/tools/stable.sh', W], capture_output=True, text=True, timeout=120)
                if r.returncode != 0: res = 'tests'
            res = res or 'SURVIVED'
        except Exception as e: res = f'error {e}'
        open(f, 'w', encoding='utf8').write(orig)
        with lock:
            m['result'] = res; open(out, 'a').write(json.dumps(m) + '\n')
            if res in ('SURVIVED',) or res.startswith('error'): print(f"{res} {m['file']}:{m['line']} [{m['op']}] {m['was']!r} -> {m['replacement']!r}", flush=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(nw)]
[t.start() for t in ts]; [t.join() for t in ts]
