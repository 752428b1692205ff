#!/usr/bin/env python3
"""mutate.py [-j WORKERS] [-n N] [--seed S] [--files REGEX] [--frac F]
Changes one token or statement of /repo/src at a time in private copies, rebuilds, and runs the checks whose anchors
name the file (then a second ring of broad ones) with a fraction F of their quick cases. Prints each mutant that none of them noticed.
A measure of the checks' reach beyond the planted bugs: survivors are judged by hand (equivalent, or a gap)."""
import argparse, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import queue
ap = argparse.ArgumentParser()
ap.add_argument('-j', type=int, default=4); ap.add_argument('-n', type=int, default=100)
ap.add_argument('--seed', type=int, default=1); ap.add_argument('--files', default='.'); ap.add_argument('--frac', type=float, default=0.3)
ap.add_argument('--skip', default='ROOTMultiPlot|CMake|SConscript|ini.hpp|Exceptions.h')
a = ap.parse_args()
W = '/tmp/mut'; V = '/verif'
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
cases = {}
for p in props:
    import glob
    t = open(glob.glob(f"{V}/harness/{p['id']}_*.cpp")[0]).read()
    cases[p['id']] = int(re.search(r'PLAN\("P\d+", (\d+)', t)[1])
MAP = {}
for p in props:
    for f in p['anchors']['files']:
        MAP.setdefault(f, []).append(p['id'])
RING = ['P16', 'P38']
OPS = [
 (r'(?<![<>=!\-\w])<(?![<=])(?=\s)', ['<=']), (r'(?<=\s)>(?![>=])(?=\s)', ['>=']), (r'<=', ['<']), (r'>=', ['>']), (r'==', ['!=']), (r'!=', ['==']),
 (r'(?<=\s)\+(?=\s)', ['-']), (r'(?<=\s)-(?=\s)', ['+']), (r'(?<=\s)\*(?=\s)', ['/']), (r'(?<=\s)/(?=\s)', ['*']), (r'\+=', ['-=', '=']), (r'-=', ['+=']), (r'\*=', ['/=']), (r'/=', ['*=']),
 (r'&&', ['||']), (r'\|\|', ['&&']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'(?<![\w.\]])0(?![\w.])', ['1']), (r'(?<![\w.])1(?![\w.])', ['0', '2']), (r'(?<![\w.])2(?![\w.])', ['3']),
 (r'!(?=[\w(])', ['']), (r'\bbreak;', [';', 'continue;']), (r'\bcontinue;', [';']), (r'\.first\b', ['.second']), (r'\.second\b', ['.first']), (r'\.at\(\w+\)', ['.at(0)']),
 (r'\bmin\b(?=\()', ['max']), (r'\bmax\b(?=\()', ['min']), (r'\.size\(\)', ['.size() - 1']),
]
def mutants():
    out = []
    for d, _, fs in os.walk('/repo/src'):
        for f in sorted(fs):
            p = os.path.join(d, f); rel = p[len('/repo/'):]
            if not f.endswith(('.cpp', '.h', '.hpp', '.hh')) or re.search(a.skip, rel) or not re.search(a.files, rel): continue
            L = open(p).read().split('\n'); inc = False
            for i, l in enumerate(L):
                s = l.strip()
                if '/*' in s: inc = True
                if inc:
                    if '*/' in s: inc = False
                    continue
                if not s or s.startswith(('//', '#', 'template', 'class', 'using', 'typedef', 'namespace')) or 'cout' in s or 'throw' in s or 'virtual' in s or 'Formatter' in s or 'errmsg' in s: continue
                code = re.sub(r'//.*', '', l)
                masked = re.sub(r'"(\\.|[^"])*"', lambda m: '"' + '~' * (len(m[0]) - 2) + '"', code)
                if f.endswith(('.h', '.hh')) and not re.search(r'[{};]\s*$', masked): continue
                if f.endswith('.h') and '(' in masked and masked.rstrip().endswith(');') and not re.search(r'=|\.|->|return', masked): continue
                for pat, reps in OPS:
                    for m in re.finditer(pat, masked):
                        if 'template' in masked or 'operator' in masked or re.search(r'(map|vector|set|pair|cast)<', masked) and pat.startswith('(?<![<'): continue
                        for r in reps:
                            out.append((rel, i, code[:m.start()] + r + code[m.end():]))
                if f.endswith(('.cpp', '.hpp')) and re.match(r'^\s+[\w\[\]\.\->\(\)\*:]+.*;\s*$', masked) and not re.match(r'^\s*(return|const|double|int|size_t|unsigned|std::|auto|bool|break|continue|throw|delete|typedef|[A-Z]\w+(<.*>)?\s[&*]?\w+)', masked.strip()) and '(' in masked + '=':
                    out.append((rel, i, re.match(r'\s*', code)[0] + ';'))
    return out
M = mutants()
random.Random(a.seed).shuffle(M)
# at most a fair share per file
byf = {}
for m in M: byf.setdefault(m[0], []).append(m)
sel = []
while len(sel) < a.n and any(byf.values()):
    for f in sorted(byf, key=lambda f: -len(byf[f])):
        k = 1 + len(byf[f]) // 60
        sel += byf[f][:k]; byf[f] = byf[f][k:]
random.Random(a.seed).shuffle(sel)
sel = sel[:a.n]
print(len(M), 'possible,', len(sel), 'chosen', flush=True)
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
ws = queue.Queue()
for k in range(a.j):
    w = f'{W}/w{k}'; os.makedirs(w, exist_ok=True)
    sh(f'rsync -a --delete /repo/src {w}/repo/ && rsync -a --delete --exclude /build --exclude .git --exclude /seeded --exclude /evidence --exclude /replays {V}/ {w}/verif/')
    if not os.path.isdir(f'{w}/verif/build'): sh(f'rsync -a {V}/build {w}/verif/')
    ws.put(w)
log = open(f'{W}/survivors.{a.seed}.txt', 'a')
stat = {'killed': 0, 'invalid': 0, 'survived': 0}
def run(w, p, frac):
    env = dict(os.environ, OXV_REPO=f'{w}/repo', OXV_BUILD=f'{w}/verif/build', VERIF_SEED='1')
    try:
        r = subprocess.run(['timeout', '300', 'python3', 'check.py', p, '--cases', str(max(200, int(cases[p] * frac))), '--shards', '2'], cwd=f'{w}/verif', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    except Exception as e: return 'error', str(e)
    if 'VIOLATION' in r.stdout: return 'killed', p
    if r.returncode == 2: return ('invalid' if 'build failed' in r.stdout else 'killed'), r.stdout[-300:]
    if r.returncode: return 'killed', p
    return 'survived', ''
def one(m):
    rel, i, new = m
    w = ws.get()
    try:
        path = f'{w}/repo/{rel[0:]}'
        orig = open('/repo/' + rel).read(); L = orig.split('\n'); old = L[i]; L[i] = new
        open(path, 'w').write('\n'.join(L))
        base = re.sub(r'\.(hpp|hh|h|cpp)$', '', rel)
        mine = [p for p in sorted(set(sum((MAP.get(base + e, []) for e in ('.h', '.cpp', '.hpp', '.hh')), [])))]
        if re.search(r'src/(function|systematic|eventSystematic|fitutil)/', rel) and 'P20' not in mine: mine.append('P20')
        if re.search(r'Combinations|HistTools|ContainerTools', rel): mine = sorted(set(mine + ['P03', 'P01', 'P22']))
        order = mine + [p for p in RING if p not in mine]
        res = 'survived'
        for k, p in enumerate(order):
            res, info = run(w, p, a.frac if k < len(mine) else a.frac / 2)
            if res != 'survived': break
        stat[res] = stat.get(res, 0) + 1
        if res == 'survived':
            s = f'{rel}:{i+1}\n   - {old.strip()}\n   + {new.strip()}   [{",".join(order)}]\n'
            print(s, flush=True); log.write(s); log.flush()
        open(path, 'w').write(orig)
        n = sum(stat.values())
        if n % 10 == 0: print(time.strftime('%H:%M'), stat, flush=True)
    finally:
        ws.put(w)
with ThreadPoolExecutor(a.j) as ex: list(ex.map(one, sel))
print('done', stat)
