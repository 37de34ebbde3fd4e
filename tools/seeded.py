#!/usr/bin/env python3
"""seeded.py [-t tier] [ID...]: confirms planted bugs in scratch copies of the repository (builds,
stable tests pass, demo fails with the patch and passes without) and tells
which of them the property's check catches."""
import json, os, subprocess, sys, tempfile, shutil, concurrent.futures
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sd = os.path.join(here, 'seeded')
args = sys.argv[1:]
tier = 'quick'
if args[:1] == ['-t']:
    tier = args[1]; args = args[2:]
ids = args or sorted(os.listdir(sd))
base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', json.load(open('/opt/vp/BASELINE.json')).get('passed', [])))
env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, env=dict(env, **kw.pop('env', {})), **kw)
def one(i):
    d = os.path.join(sd, i)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    t = tempfile.mkdtemp(prefix='seed-')
    try:
        r = os.path.join(t, 'repo')
        shutil.copytree('/repo', r)
        sh(['git', 'checkout', '-q', '-f', 'HEAD'], r)
        p = sh(['git', 'apply', os.path.join(d, 'patch.diff')], r)
        if p.returncode: return i, meta['property'], 'PATCH DOES NOT APPLY ' + p.stderr[:200]
        if sh(['go', 'build', './...'], r).returncode: return i, meta['property'], 'DOES NOT BUILD'
        o = sh(['go', 'test', '-json', './...'], r).stdout
        ok = set()
        for l in o.splitlines():
            try: e = json.loads(l)
            except ValueError: continue
            if e.get('Action') == 'pass' and e.get('Test'): ok.add(e['Package'] + '/' + e['Test'])
        bad = base - ok
        if bad: return i, meta['property'], 'BREAKS TESTS %s' % sorted(bad)[:3]
        dm = os.path.join(t, 'demo'); shutil.copytree(d, dm)
        for x in ('patch.diff', 'meta.json'): os.remove(os.path.join(dm, x))
        a = sh(['bash', os.path.join(dm, 'demo.sh')], r, timeout=300)
        b = sh(['bash', os.path.join(dm, 'demo.sh')], '/repo', timeout=300)
        if a.returncode == 0: return i, meta['property'], 'DEMO PASSES WITH THE PATCH'
        if b.returncode != 0: return i, meta['property'], 'DEMO FAILS WITHOUT THE PATCH ' + b.stdout[-300:] + b.stderr[-300:]
        v = os.path.join(t, 'verif'); shutil.copytree(here, v, ignore=shutil.ignore_patterns('seeded', '.git', 'evidence'))
        os.makedirs(os.path.join(v, 'evidence'))
        sed = os.path.join(v, 'harness', 'go.mod'); s = open(sed).read().replace('/repo', r); open(sed, 'w').write(s)
        c = sh(['bash', 'check.sh', meta['property'], tier], v, env={'VERIF_REPO': r}, timeout=1800)
        caught = c.returncode == 1 and ('VIOLATION property=%s ' % meta['property']) in c.stdout
        return i, meta['property'], 'caught' if caught else 'MISSED (exit %d) %s' % (c.returncode, c.stderr[-300:] if c.returncode not in (0, 1) else '')
    except Exception as e:
        return i, meta['property'], 'ERROR %s' % e
    finally:
        shutil.rmtree(t)
with concurrent.futures.ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, ids): print(*r, flush=True)
