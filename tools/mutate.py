#!/usr/bin/env python3
# Measures the checks with small mechanical changes: tools/mutate.py OUT PROP[,PROP...] FILE[:FIRST-LAST] ...
# Each mutant of the files is built in a scratch copy and given to the checks in turn; survivors are written to OUT.
import concurrent.futures as cf, os, random, re, shutil, subprocess, sys, tempfile, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, props, files = sys.argv[1], sys.argv[2].split(','), sys.argv[3:]
W = int(os.environ.get('MUT_WORKERS', 4))
LIMIT = int(os.environ.get('MUT_LIMIT', 10000))


def mutants(text, lo, hi):
    lines = text.split('\n')
    pos = 0
    res = []
    incomment = False
    for n, l in enumerate(lines, 1):
        s = l.strip()
        if '/*' in s and '*/' not in s:
            incomment = True
        if incomment:
            if '*/' in s:
                incomment = False
            continue
        if not lo <= n <= hi or not s or s.startswith(('#', '//', '*', 'template', 'class', 'struct', 'typedef', 'static const')):
            continue
        code = s.split('/*')[0].split('//')[0].strip()
        def put(new, what):
            if new != l:
                res.append((n, what, new))
        # delete a statement
        if code.endswith(';') and not re.match(r'(return|\}|(const )?(unsigned |signed )?(int|char|bool|size_t|ssize_t|uint\w+|int\w+|u_char|double|auto|FILE|pid_t|struct \w+|std::\w+[^(;=]*|T|_\w+|sigset_t|va_list|typename [\w:<> ,]+)\s*(\*|&)*\s*\w+\s*(\[[^]]*\]\s*)*(,[^()]*)?(=.*)?;)', code) and code not in (';', '};'):
            if '(' in code or '=' in code or '++' in code or '--' in code or code in ('break;', 'continue;'):
                put(re.match(r'\s*', l).group(0) + ';', 'delete')
        if re.match(r'(const )?(unsigned |signed )?(int|char|bool|size_t|ssize_t|uint\w+|void)\s*\**\s*\w+\s*=', code):
            pass
        m = re.match(r'(\s*(?:\}?\s*else )?(?:if|while)\s*)\((.*)\)(\s*\{?.*)$', l)
        if m and l.count('(') == l.count(')'):
            # the condition's own closing parenthesis
            rest = l[m.end(1):]
            d = 0
            for i, c in enumerate(rest):
                d += (c == '(') - (c == ')')
                if d == 0:
                    break
            cond = rest[1:i]
            if code.startswith(('if', 'else', '}')):
                put(m.group(1) + '(!(' + cond + '))' + rest[i + 1:], 'negate')
                put(m.group(1) + '(false && (' + cond + '))' + rest[i + 1:], 'never')
                put(m.group(1) + '(true || (' + cond + '))' + rest[i + 1:], 'always')
        for a, b in (('==', '!='), ('!=', '=='), ('<=', '<'), ('>=', '>'), ('&&', '||'), ('||', '&&'), (' + 1', ''), (' - 1', ''), (' < ', ' <= '), (' > ', ' >= '), ('++', '--'), ('--', '++'),
                     (' + ', ' - '), (' - ', ' + '), ('return 0;', 'return -1;'), ('return -1;', 'return 0;'), ('true', 'false'), ('false', 'true'), ('SEM_UNDO', '0'), (' += ', ' -= '), (' -= ', ' += '),
                     (' | ', ' & '), ('= 0;', '= 1;'), ('= 1;', '= 0;'), ('(1)', '(0)'), ('(0)', '(1)'), ('NULL', '((char *) 1)'), ('return ', 'if (0) return '), ('EINTR', 'EIO')):
            i = l.find(a)
            while i >= 0:
                if not (a in ('==', '<=', '>=') and l[max(0, i - 1)] in '<>!=' ) and not (a == '!=' and False):
                    if a != 'NULL' or code.startswith(('if', 'return')):
                        put(l[:i] + b + l[i + len(a):], a + ' -> ' + b)
                i = l.find(a, i + len(a))
        # swap with the next statement
        if code.endswith(';') and n < len(lines):
            nx = lines[n].strip()
            if nx.endswith(';') and not code.startswith(('return', 'break')) and not nx.startswith(('return', 'break')):
                res.append((n, 'swap', None))
    return res


def main():
    jobs = []
    for f in files:
        lo, hi = 1, 1 << 30
        if ':' in f:
            f, r = f.split(':')
            lo, hi = (int(x) for x in r.split('-'))
        text = open('/repo/' + f).read()
        for n, what, new in mutants(text, lo, hi):
            lines = text.split('\n')
            old = lines[n - 1]
            if what == 'swap':
                lines[n - 1], lines[n] = lines[n], lines[n - 1]
                new = lines[n - 1].strip() + ' <-> ' + lines[n].strip()
            else:
                lines[n - 1] = new
            jobs.append((f, n, what, old.strip(), new.strip(), '\n'.join(lines)))
    random.Random(7).shuffle(jobs)
    jobs = jobs[:LIMIT]
    print(len(jobs), 'mutants', flush=True)
    base = tempfile.mkdtemp(prefix='mut')
    slots = list(range(W))
    lock = threading.Lock()
    cnt = dict(caught=0, survived=0, invalid=0, error=0)
    of = open(out, 'w')
    cf_ = open(out + '.caught', 'w')
    for w in slots:
        subprocess.check_call('mkdir -p %s/%d && cp -r /repo/coda %s/%d/' % (base, w, base, w), shell=True)

    def one(j):
        f, n, what, old, new, text = j
        with lock:
            w = slots.pop()
        try:
            d = '%s/%d' % (base, w)
            orig = open('/repo/' + f).read()
            open(d + '/' + f, 'w').write(text)
            env = dict(os.environ, CODA_REPO=d, CODA_BUILD=d + '/build', CODA_WORKERS=str(max(2, 8 // W)), CODA_ONLY_DETECT='1', CODA_EVIDENCE=d + '/ev')
            status, detail = 'survived', ''
            for p in props:
                r = subprocess.run(['python3', V + '/check.py', p, '--tier', 'quick'] + (['--runs', os.environ['MUT_RUNS']] if os.environ.get('MUT_RUNS') else []), env=env, capture_output=True, text=True)
                if r.returncode == 1 and 'VIOLATION property=' in r.stdout:
                    status, detail = 'caught', p + ': ' + ' '.join((r.stdout + r.stderr).split())[:300]
                    break
                if 'command failed' in r.stdout + r.stderr:
                    status = 'invalid'
                    break
                if r.returncode:
                    status, detail = 'error', p + ': ' + (r.stdout + r.stderr)[-300:]
                    break
            open(d + '/' + f, 'w').write(orig)
        finally:
            with lock:
                slots.append(w)
        with lock:
            cnt[status] += 1
            if status == 'caught':
                cf_.write('%s:%d [%s] %s  ==>  %s %s\n' % (f, n, what, old, new, detail))
            if status in ('survived', 'error'):
                of.write('%s %s:%d [%s] %s  ==>  %s %s\n' % (status, f, n, what, old, new, detail))
                of.flush()
            if sum(cnt.values()) % 20 == 0:
                print(cnt, flush=True)
    try:
        with cf.ThreadPoolExecutor(W) as ex:
            list(ex.map(one, jobs))
    finally:
        shutil.rmtree(base)
    of.write('# %s\n' % cnt)
    print(cnt)


main()
