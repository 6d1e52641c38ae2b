#!/usr/bin/env python3
"""Validate planted bugs: seedcheck.py [--nocheck] ID...   (all in scratch copies of /repo)

For each /verif/seeded/ID: the patch applies, builds, passes the stable tests; demo.sh passes
without and fails with it; then the property's check is run against the patched copy."""
import json, os, subprocess, sys, shutil, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = V + '/seeded'
BASE = '/tmp/seedcheck'

def sh(cmd, cwd, env=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
    return p.returncode, p.stdout

def scripts(d):
    for n in ('build.sh', 'test.sh'):
        t = open('/opt/vp/' + n).read().replace('/repo', d).replace('/opt/vp/build.sh', d + '.build.sh')
        open('%s.%s' % (d, n), 'w').write(t)

def copy(d):
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', d])
    scripts(d)

def demo(i, d):
    t = d + '.demo'
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(S + '/' + i, t, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
    r = sh('timeout 300 bash %s/demo.sh' % t, d)
    shutil.rmtree(t)
    return r

def one(i, check=True, extra=None):
    d = '%s/%s' % (BASE, i)
    copy(d)
    out = []
    try:
        r, o = sh('git apply %s/%s/patch.diff' % (S, i), d)
        if r: return i, 'PATCH-FAILS ' + o
        r, o = sh('bash %s.test.sh %s.json' % (d, d), d)
        j = json.load(open(d + '.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))['stable']
        res = json.dumps(j)
        failed = [t for t in base if t not in (j.get('passed') or j.get('pass') or [])]
        if failed: return i, 'TESTS-FAIL %s %s' % (failed, o[-1500:])
        r, o = demo(i, d)
        out.append('demo rc=%d %s' % (r, '' if r else 'DEMO-PASSES'))
        out.append(o.strip()[-200:])
        if check:
            meta = json.load(open('%s/%s/meta.json' % (S, i)))
            for p in [meta['property']] + (extra or []):
                env = dict(os.environ, CODA_REPO=d, CODA_EVIDENCE=d + '.ev', CODA_BUILD=d + '.bld')
                r, o = sh('python3 %s/check.py %s' % (V, p), d, env)
                v = re.findall(r'^VIOLATION.*', o, re.M)
                out.append('%s: %s' % (p, 'CAUGHT' if r == 1 and v else 'MISSED rc=%d %s' % (r, o[-600:])))
                m = re.search(r'.*class=.*|.*failure.*', o)
                if m: out.append(m.group(0)[:160])
        return i, ' | '.join(out)
    finally:
        for s in ('', '.build.sh', '.test.sh', '.json', '.ev', '.bld', '.demo'):
            p = d + s
            shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else (os.path.exists(p) and os.unlink(p))

def main():
    a = sys.argv[1:]
    check = '--nocheck' not in a
    a = [x for x in a if not x.startswith('-')] or sorted(os.listdir(S))
    os.makedirs(BASE, exist_ok=True)
    # the unchanged tree: every demo must pass
    d = BASE + '/clean'
    copy(d)
    r, o = sh('bash %s.build.sh' % d, d)
    assert r == 0, o
    for i in a:
        r, o = demo(i, d)
        if r: print(i, 'DEMO-FAILS-UNCHANGED', r, o[-500:], flush=True)
    with ThreadPoolExecutor(int(os.environ.get('SEED_JOBS', '1' if check else '4'))) as ex:
        for i, m in ex.map(lambda x: one(x, check), a):
            print(i, m, flush=True)
    shutil.rmtree(BASE, ignore_errors=True)
main()
