#!/usr/bin/env python3
"""plant.py DEFS.py... [-j N] [--only ID,...] [--checks]
Each DEFS file defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)].
For each bug, in private copies of /repo and /verif bound over the real ones in a mount namespace of
its own: the demo passes on the unchanged tree, the patch builds and passes the stable tests, the demo
fails with it; then the property's quick check is run. Writes /tmp/plant/out/<id>/ {patch.diff, demo.sh,
demo.cpp, meta.json} and result.json."""
import sys, os, json, subprocess, re, shutil, runpy
from concurrent.futures import ThreadPoolExecutor
import queue
args = sys.argv[1:]
J = 4
only = None
tier = 'quick'
defs = []
i = 0
while i < len(args):
    if args[i] == '-j': J = int(args[i+1]); i += 2
    elif args[i] == '--only': only = set(args[i+1].split(',')); i += 2
    elif args[i] == '--tier': tier = args[i+1]; i += 2
    else: defs.append(args[i]); i += 1
ROOT = '/tmp/plant'
OUT = ROOT + '/out'
os.makedirs(OUT, exist_ok=True)
DEMO = open(ROOT + '/demo.sh').read()
bugs = []
for d in defs:
    bugs += runpy.run_path(d)['BUGS']
if only: bugs = [b for b in bugs if b['id'] in only]
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
ws = queue.Queue()
for k in range(J):
    w = f'{ROOT}/w{k}'
    os.makedirs(w, exist_ok=True)
    r = sh(f'rsync -a --delete /repo/ {w}/repo/ && rsync -a --delete --exclude /build --exclude .git --exclude /seeded --exclude /evidence --exclude /replays /verif/ {w}/verif/')
    assert r.returncode == 0, r.stdout
    if not os.path.isdir(f'{w}/verif/build'):
        r = sh(f'rsync -a /verif/build {w}/verif/'); assert r.returncode == 0, r.stdout
    sh(f'git -C {w}/repo checkout -q -- .')
    ws.put(w)
def inns(w, cmd, timeout=1500):
    return sh(f"unshare -m bash -c 'mount --bind {w}/repo /repo && mount --bind {w}/verif /verif && cd /repo && exec bash {w}/cmd.sh'", timeout=timeout) if open(f'{w}/cmd.sh', 'w').write(cmd) is not None else None
def one(b):
    w = ws.get()
    res = dict(id=b['id'], prop=b['prop'])
    try:
        d = f"{OUT}/{b['id']}"
        os.makedirs(d, exist_ok=True)
        sh(f'git -C {w}/repo checkout -q -- .')
        for f, old, new in b['edits']:
            p = f'{w}/repo/{f}'
            s = open(p).read()
            n = s.count(old)
            if n != 1:
                res['status'] = f'EDIT {f}: {n} matches'; return res
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(f'git -C {w}/repo diff', shell=True, stdout=subprocess.PIPE, text=True).stdout
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.cpp', 'w').write(b['demo'])
        open(d + '/demo.sh', 'w').write(b.get('sh', DEMO))
        for src, dst in b.get('files', []):
            if os.path.isdir(src): shutil.copytree(src, f'{d}/{dst}', dirs_exist_ok=True)
            else: shutil.copy(src, f'{d}/{dst}')
        json.dump({"property": b['prop'], "needs": b['needs'], "what_it_breaks": b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        sh(f'git -C {w}/repo checkout -q -- .')
        r = inns(w, f'bash /opt/vp/build.sh >/dev/null 2>&1 || exit 99\nbash {d}/demo.sh')
        if r.returncode != 0:
            res['status'] = 'DEMO FAILS UNCHANGED'; res['out'] = r.stdout[-1500:]; return res
        # original lines only
        r = inns(w, f'git apply {d}/patch.diff || exit 98\nbash /opt/vp/test.sh /tmp/plant/o_{os.path.basename(w)}.json')
        res['tests'] = r.stdout.strip().split('\n')[-1]
        if '96 passed, 0 failed' not in r.stdout:
            res['status'] = 'TESTS/BUILD'; res['out'] = r.stdout[-1500:]; return res
        r = inns(w, f'bash {d}/demo.sh')
        res['demo'] = r.returncode; res['demo_out'] = r.stdout[-300:]
        if r.returncode == 0:
            res['status'] = 'DEMO PASSES WITH BUG'; return res
        r = inns(w, f'cd /verif; export VERIF_SEED=1 VERIF_TIER=quick; python3 check.py {b["prop"]} --tier {tier}')
        v = f'VIOLATION property={b["prop"]} ' in r.stdout and r.returncode == 1
        res['status'] = 'caught' if v else 'MISSED'
        res['out'] = '\n'.join(r.stdout.strip().split('\n')[-(6 if v else 3):])[-900:]
        # a statement that lies in original code?
        return res
    except Exception as e:
        res['status'] = 'ERROR ' + repr(e)
        return res
    finally:
        sh(f'git -C {w}/repo checkout -q -- .')
        ws.put(w)
        json.dump(res, open(f"{OUT}/{b['id']}.result.json", 'w'), indent=1)
        print(b['id'], res.get('status'), '' if res.get('status') in ('caught',) else res.get('out', '') , flush=True)
with ThreadPoolExecutor(J) as ex:
    list(ex.map(one, bugs))
