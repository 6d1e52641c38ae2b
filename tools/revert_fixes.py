#!/usr/bin/env python3
# Reverts each repair listed in known_findings.txt in a scratch copy and checks that the property's check reports it again.
# usage: tools/revert_fixes.py [commit-prefix...]
import os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
want = sys.argv[1:]
for l in open(V + '/known_findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if not m or (want and not any(m[2].startswith(w) for w in want)):
        continue
    d = tempfile.mkdtemp(prefix='rv')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', d + '/r'])
        r = subprocess.run(['git', '-C', d + '/r', '-c', 'user.name=x', '-c', 'user.email=x@x', 'revert', '-n', m[2]], capture_output=True, text=True)
        if r.returncode:
            print('CONFLICT', m[1], m[2], m[3][:60], flush=True)
            continue
        r = subprocess.run(['python3', 'check.py', m[1], '--tier', 'quick'], cwd=V, env=dict(os.environ, CODA_REPO=d + '/r'), capture_output=True, text=True)
        hit = re.search(r'^run .*', r.stdout + r.stderr, re.M)
        print('caught' if r.returncode == 1 and 'VIOLATION property=' + m[1] in r.stdout else 'MISSED rc=%d' % r.returncode, m[1], m[2], m[3][:60], '|', hit.group(0)[:110] if hit else '', flush=True)
    finally:
        shutil.rmtree(d)
