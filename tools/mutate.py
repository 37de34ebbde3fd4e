#!/usr/bin/env python3
"""mutate.py DIR [-j WORKERS] [-per N] [-seed S] [-files REGEX] [-secs S]
A development aid that no check uses: makes small changes of the repository's
sources (harness/mutate lists them), one at a time, runs on each the quick
explorations that enter the changed function, and writes the changes that none
of them notices, and that the stable tests do not notice either, to
DIR/survivors.  Works on copies of /repo and of the harness below DIR."""
import json, os, re, subprocess, sys, random, shutil, time, threading, argparse, collections
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('dir'); ap.add_argument('-j', type=int, default=8); ap.add_argument('-per', type=int, default=2)
ap.add_argument('-seed', type=int, default=1); ap.add_argument('-files', default='.'); ap.add_argument('-secs', type=int, default=7200)
ap.add_argument('-max', type=int, default=100000)
a = ap.parse_args()
d = os.path.abspath(a.dir); os.makedirs(d, exist_ok=True)
env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off')
R = d + '/repo'; H = d + '/verif/harness'
if not os.path.exists(R):
    shutil.copytree('/repo', R, ignore=shutil.ignore_patterns('.git'))
    shutil.copytree(here, d + '/verif', ignore=shutil.ignore_patterns('.git', 'evidence', 'seeded'))
    g = open(H + '/go.mod').read().replace('/repo', R); open(H + '/go.mod', 'w').write(g)
def sh(cmd, cwd=H, timeout=900, **e):
    return subprocess.run(cmd, cwd=cwd, env=dict(env, **e), capture_output=True, text=True, timeout=timeout)
kf = open(os.path.join(here, 'KNOWN_FINDINGS.txt')).read()
SKIP = {'C23', 'C24', 'C50'}
# what each exploration enters, and how long it takes on one core
cov = os.path.join(d, 'cover')
instr = os.path.join(d, 'instr'); assert sh(['go', 'build', '-o', instr, './instr']).returncode == 0
if not os.path.exists(os.path.join(d, 'times.json')):
    r = sh(['bash', d + '/verif/check.sh', 'build', 'cover', cov], VERIF_REPO=R); assert r.returncode == 0, r.stderr
    props = [l.split()[0] for l in sh([cov + '/harness', 'list']).stdout.splitlines() if l.strip()]
    props = [p for p in props if p not in SKIP]
    times, lock = {}, threading.Lock()
    def tm(q):
        while True:
            with lock:
                if not q: return
                p = q.pop()
            t = time.time()
            r = sh([cov + '/harness', 'shard', '-prop', p, '-tier', 'quick', '-i', '0', '-n', '1', '-out', d + '/o' + p], VERIF_COVER=d + '/hits.' + p, GOMAXPROCS='2')
            assert r.returncode == 0, (p, r.stderr)
            times[p] = time.time() - t
            print(p, round(times[p], 1), flush=True)
    q = list(props); ts = [threading.Thread(target=tm, args=(q,)) for _ in range(6)]
    [t.start() for t in ts]; [t.join() for t in ts]
    json.dump(times, open(d + '/times.json', 'w'))
times = json.load(open(d + '/times.json'))
# a long exploration is only run in part (one shard of it): a survivor may be caught by the rest
blocks = open(cov + '/blocks').read().split('\n')[:-1]
hit = collections.defaultdict(set)   # (file, line of function) -> properties
for p in times:
    for l in open(d + '/hits.' + p):
        hit[int(l.split()[1])].add(p)
byfile = collections.defaultdict(list)
for n, b in enumerate(blocks):
    f, ln, col = b.rsplit(':', 2)
    byfile[os.path.relpath(f, R)].append((int(ln), n))
for f in byfile: byfile[f].sort()
r = sh(['go', 'run', './mutate', '-repo', R]); assert r.returncode == 0
muts = [json.loads(l) for l in r.stdout.splitlines()]
muts = [m for m in muts if re.search(a.files, m['file'])]
done = set()
for n in ('log',):
    if os.path.exists(d + '/' + n):
        for l in open(d + '/' + n):
            j = json.loads(l); done.add((j['file'], j['off'], j['end'], j['repl']))
g = collections.defaultdict(list)
for m in muts: g[m['file'], m['func']].append(m)
rnd = random.Random(a.seed); todo = []
for k in sorted(g):
    l = list(g[k]); rnd.shuffle(l); n = max(a.per, int(a.per * len(l) ** 0.5 / 2)); todo += l[:n]
todo = [m for m in todo if (m['file'], m['off'], m['end'], m['repl']) not in done]
rnd.shuffle(todo); todo = todo[:a.max]
print(len(muts), 'changes,', len(todo), 'to try', flush=True)
base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', json.load(open('/opt/vp/BASELINE.json')).get('passed', [])))
lock = threading.Lock(); t0 = time.time(); logf = open(d + '/log', 'a'); surf = open(d + '/survivors', 'a'); stat = collections.Counter()
def lookup(m):
    s = set()
    for ln, n in byfile[m['file']]:
        if ln == m['at']: s |= hit.get(n, set())
    return s
def work(i):
    w = d + '/w%d' % i; shutil.rmtree(w, ignore_errors=True); os.makedirs(w + '/build')
    shutil.copytree(R, w + '/repo')
    while True:
        with lock:
            if not todo or time.time() - t0 > a.secs: return
            m = todo.pop()
        f = os.path.join(R, m['file']); src = open(f, 'rb').read()
        new = src[:m['off']] + m['repl'].encode() + src[m['end']:]
        tgt = os.path.join(w, 'repo', m['file']); open(tgt, 'wb').write(new)
        res, info = None, ''
        try:
            r = sh([instr, '-repo', w + '/repo', '-mode', 'fuel', '-shim', H + '/shim', '-out', w + '/build'])
            if r.returncode: res = 'nobuild'
            else:
                o = open(w + '/build/overlay.json').read().replace(w + '/repo', R); open(w + '/build/overlay.json', 'w').write(o)
                r = sh(['go', 'build', '-overlay', w + '/build/overlay.json', '-o', w + '/build/harness', '.'])
                if r.returncode: res = 'nobuild'
            if not res:
                ps = sorted(lookup(m), key=lambda p: times[p])
                if not ps: res = 'uncovered'
                for p in ps:
                    try:
                        r = subprocess.run([w + '/build/harness', 'shard', '-prop', p, '-tier', 'quick', '-i', '0', '-n', str(max(1, int(times[p] / 8))), '-out', w + '/out'], cwd=w, env=dict(env, VERIF_FAST=kf, GOMAXPROCS='2'), capture_output=True, text=True, timeout=60 + 3 * min(times[p], 30))
                        if r.returncode: res, info = 'caught', p; break
                    except subprocess.TimeoutExpired: res, info = 'caught', p + ' timeout'; break
            if not res or res == 'uncovered':
                o = sh(['go', 'test', '-json', './...'], cwd=w + '/repo').stdout; ok = set()
                for l in o.splitlines():
                    try: e = json.loads(l)
                    except ValueError: continue
                    if e.get('Action') == 'pass' and e.get('Test'): ok.add(e['Package'] + '/' + e['Test'])
                if base - ok: res = 'tests'
                elif res != 'uncovered': res = 'SURVIVED'
        except Exception as e: res, info = 'error', str(e)[:200]
        open(tgt, 'wb').write(src)
        with lock:
            stat[res] += 1; m.update(res=res, info=info); logf.write(json.dumps(m) + '\n'); logf.flush()
            if res in ('SURVIVED', 'uncovered', 'error'):
                lines = new.decode().split('\n'); 
                surf.write('%s %s:%d %s | %s | %s\n' % (res, m['file'], m['line'], m['func'], m['what'].replace('\n', ' ')[:160], info)); surf.flush()
            n = sum(stat.values())
            if n % 25 == 0: print(int(time.time() - t0), n, dict(stat), flush=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(a.j)]
[t.start() for t in ts]; [t.join() for t in ts]
print(dict(stat))
