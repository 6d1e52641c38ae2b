#!/usr/bin/env python3
"""Runs one property's simulation check, or replays a recorded violation.

  check.py PROPERTY [--tier quick|thorough] [--runs N]
  check.py --replay FILE [--trace]
  check.py --build-all

exit 0: held on everything explored; 1: VIOLATION line printed; 2/3: error of the check itself.
"""
import argparse, concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('CODA_REPO', '/repo')
BUILD = os.environ.get('CODA_BUILD', os.path.join(VERIF, 'build'))
sys.path.insert(0, VERIF)
from props import HARNESS, PROPS, WRAP  # noqa: E402

NW = int(os.environ.get('CODA_WORKERS', 0)) or min(8, os.cpu_count() or 1)
LIMIT_AS = 6 << 30


class CheckError(Exception):
    pass


# ------------------------------------------------------------------ build
def sut_files():
    r = []
    for root, _, files in os.walk(os.path.join(REPO, 'coda')):
        r += [os.path.join(root, f) for f in files]
    return sorted(r)


def tree_hash(files, extra):
    h = hashlib.sha256(repr(extra).encode())
    for f in files:
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


FLAV = {
    # the compiler's thread-sanitizer instrumentation without its runtime: the simulator supplies the entry points
    'tsan': ['-fsanitize=thread', '-fno-builtin', '-U_FORTIFY_SOURCE'],
    # single-task fault-injection harnesses: real AddressSanitizer
    'asan': ['-fsanitize=address', '-fno-omit-frame-pointer', '-U_FORTIFY_SOURCE'],
}
COMMON = ['-O2', '-g1', '-pipe', '-w', '-fPIC']
LOW = '-O0'     # a quarter of the runs: every store of the source is a store, none merged by the optimiser


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise CheckError('command failed: %s\n%s' % (' '.join(cmd), p.stdout.decode(errors='replace')[-6000:]))
    return p.stdout


def rename_sections(obj):
    """static state of the code under test is put where the simulator can restore it before every run"""
    out = subprocess.run(['objdump', '-h', '-w', obj], stdout=subprocess.PIPE, check=True).stdout.decode()
    ren = []
    for line in out.splitlines():
        m = re.match(r'\s*\d+ (\S+)\s', line)
        if not m:
            continue
        n = m.group(1)
        if re.match(r'\.data(\.|$)', n) and not n.startswith('.data.rel.ro'):
            ren.append('--rename-section=%s=sutdata,alloc,load,data,contents' % n)
        elif re.match(r'\.bss(\.|$)', n):
            ren.append('--rename-section=%s=sutbss' % n)
    if ren:
        run(['objcopy'] + ren + [obj])


def build(name):
    # "map" is the harness map at the shipped optimisation level, "map-O0" the same with every source-level store kept apart
    hname, low = (name[:-len(LOW)], True) if name.endswith(LOW) else (name, False)
    h = HARNESS[hname]
    COMMON = [LOW if low and x == '-O2' else x for x in globals()['COMMON']]
    hname = name
    simfiles = sorted(glob.glob(VERIF + '/sim/*')) + [VERIF + '/harness/' + x for x in h['src']] + \
        sorted(glob.glob(VERIF + '/harness/*.hpp'))
    key = tree_hash(sut_files() + simfiles, [hname, h, FLAV, COMMON, WRAP])
    d = os.path.join(BUILD, '%s-%s' % (hname, key))
    exe = os.path.join(d, hname)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, hname + '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(exe):
            return exe
        t = d + '.tmp'
        shutil.rmtree(t, ignore_errors=True)
        os.makedirs(t)
        fl = FLAV[h['flavour']]
        asan = h['flavour'] == 'asan'
        jobs = []
        libobjs, simobjs = [], []
        incs = ['-I' + REPO]
        defs = ['-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', '-D_FILE_OFFSET_BITS=64']

        def sut(src, obj):
            if src.endswith('.c'):
                run(['gcc', '-std=gnu11'] + COMMON + fl + incs + defs + h.get('defs', []) + ['-c', src, '-o', obj])
            else:
                run(['g++', '-std=gnu++11'] + COMMON + fl + incs + defs + h.get('defs', []) + ['-c', src, '-o', obj])
            rename_sections(obj)

        def sim(src, obj):
            run(['g++', '-std=gnu++17', '-O2', '-g1', '-pipe', '-w'] + (['-fsanitize=address'] if asan else []) + ['-c', src, '-o', obj])

        def har(src, obj):
            run(['g++', '-std=' + h.get('std', 'gnu++11')] + COMMON + fl + incs + ['-I' + VERIF + '/sim'] + defs + h.get('defs', []) + ['-c', src, '-o', obj])
            if h.get('rename'):
                rename_sections(obj)

        for s in h['src']:
            o = os.path.join(t, os.path.basename(s) + '.o')
            simobjs.append(o)
            jobs.append((har, VERIF + '/harness/' + s, o))
        for s in h['sim']:
            o = os.path.join(t, 'sim_' + s + '.o')
            simobjs.append(o)
            jobs.append((sim, VERIF + '/sim/' + s + '.cpp', o))
        for s in sut_files():
            if os.path.dirname(s) == os.path.join(REPO, 'coda') and re.search(r'\.(c|cpp|cc|cxx)$', s):
                o = os.path.join(t, 'sut_' + os.path.basename(s) + '.o')
                libobjs.append(o)
                jobs.append((sut, s, o))
        with cf.ThreadPoolExecutor(NW) as ex:
            for f in [ex.submit(*j) for j in jobs]:
                f.result()
        run(['ar', 'crs', os.path.join(t, 'libsut.a')] + libobjs)
        wraps = sorted(set(w for s in h['sim'] for w in WRAP.get(s, [])) | set(h.get('wrap', [])))
        if asan:
            wraps = [w for w in wraps if w not in WRAP['mem']]
        cmd = ['g++', '-o', os.path.join(t, hname)] + (['-fsanitize=address'] if asan else []) + simobjs + \
            [os.path.join(t, 'libsut.a')] + ['-Wl,--wrap=' + w for w in wraps] + h.get('libs', [])
        run(cmd)
        for f in glob.glob(t + '/*.o') + glob.glob(t + '/*.a'):
            os.unlink(f)
        os.rename(t, d)
        old = sorted(glob.glob(os.path.join(BUILD, hname + '-' + '[0-9a-f]' * 20)), key=os.path.getmtime)
        for o in old[:-3]:
            shutil.rmtree(o, ignore_errors=True)
        return exe
    finally:
        lock.close()


# ------------------------------------------------------------------ running the simulator
class Res:
    pass


ENV = dict(os.environ, ASAN_OPTIONS='exitcode=78:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:abort_on_error=0:print_summary=1:symbolize=1',
           LC_ALL='C', TZ='UTC', MALLOC_PERTURB_='0')
CRASH = {77: 'crash', 78: 'memory-error', 79: 'hang'}


def sim_call(exe, prop, base, tmp, tag, start=0, count=1, choices=None, trace=False, hashes=None, timeout=800):
    out, prog = os.path.join(tmp, tag + '.json'), os.path.join(tmp, tag + '.prog')
    cmd = [exe, '--prop', prop, '--base', str(base), '--start', str(start), '--count', str(count), '--out', out, '--prog', prog]
    if choices is not None:
        cf_ = os.path.join(tmp, tag + '.ch')
        with open(cf_, 'w') as f:
            f.write(' '.join(map(str, choices)))
        cmd += ['--choices', cf_]
    if trace:
        cmd += ['--trace']
    if hashes:
        cmd += ['--hashes', hashes]
    for f in (out, prog):
        if os.path.exists(f):
            os.unlink(f)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=timeout, cwd=tmp)
    except subprocess.TimeoutExpired:
        raise CheckError('simulator did not end: %s' % ' '.join(cmd))
    r = Res()
    r.trace = p.stdout.decode(errors='replace') if trace else ''
    r.err = p.stderr.decode(errors='replace')
    rc = p.returncode
    if rc == 0 and os.path.exists(out):
        with open(out) as f:
            r.j = json.load(f)
    elif rc in CRASH or rc < 0:
        cls = CRASH.get(rc, 'crash')
        with open(prog, 'rb') as f:
            hd = f.read(56)
            run_, hash_, nch, state = struct.unpack('<QQII', hd[:24])
            ch = list(struct.unpack('<%dI' % nch, f.read(4 * nch)))
        msg = 'the process died (%s)' % ('signal %d' % -rc if rc < 0 else CRASH[rc])
        m = re.search(r'ERROR: AddressSanitizer:? (.*)', r.err)
        if m:
            msg = 'AddressSanitizer: ' + re.sub(r'0x[0-9a-f]+', 'ADDR', m.group(1))[:200]
            fr = re.findall(r'#\d+ 0x[0-9a-f]+ in (\S+) (?:/\S+/)?(coda/\S+)', r.err)
            if fr:
                msg += ' in %s' % fr[0][0]
        r.j = dict(runs=run_ - start + 1, discarded=0, nontrivial=0, sim_ns=0, next=run_ + 1, failed=True, index=run_, hash='crash',
                   message=msg, choices=ch, nch=nch, stats={}, **{'class': cls})
        r.j['runs'] = max(r.j['runs'], 1)
    else:
        raise CheckError('simulator failed (exit %s): %s\n%s' % (rc, ' '.join(cmd), r.err[-3000:]))
    try:
        os.unlink(prog)
    except OSError:
        pass
    return r


def relevant(j, cls):
    return j['failed'] and j['class'] == cls


def minimise(exe, prop, base, tmp, ch, cls, budget_s):
    """delete, zero and lower choices while the same class of violation remains"""
    t0 = time.time()
    n = [0]

    def attempt(cands):
        # several candidates at a time; the first in order that still fails is taken, so the result does not depend on timing
        if not cands:
            return None
        n[0] += len(cands)
        with cf.ThreadPoolExecutor(NW) as ex:
            rs = list(ex.map(lambda kc: sim_call(exe, prop, base, tmp, 'm%d' % kc[0], choices=kc[1], timeout=60), enumerate(cands)))
        for c, r in zip(cands, rs):
            if relevant(r.j, cls):
                used = r.j['choices'][:r.j['nch']]
                c2 = used
                while c2 and c2[-1] == 0:
                    c2 = c2[:-1]
                if len(c2) <= len(c):
                    return c2
                return c
        return None
    best = list(ch)
    while best and best[-1] == 0:
        best.pop()
    improved = True
    rounds = 0
    while improved and time.time() - t0 < budget_s and rounds < 6:
        improved = False
        rounds += 1
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() - t0 < budget_s:
            i = 0
            while i < len(best) and time.time() - t0 < budget_s:
                cands, k = [], i
                while k < len(best) and len(cands) < NW:
                    seg = best[k:k + size]
                    cands.append(best[:k] + best[k + size:])
                    if any(seg) and size > 1:
                        cands.append(best[:k] + [0] * len(seg) + best[k + size:])
                    k += size
                got = attempt(cands)
                if got is not None and (len(got), sum(got)) < (len(best), sum(best)):
                    best = got
                    improved = True
                else:
                    i = k
            size //= 2
        i = 0
        while i < len(best) and time.time() - t0 < budget_s:
            idx = [k for k in range(i, len(best)) if best[k]][:NW // 2]
            if not idx:
                break
            cands = []
            for k in idx:
                cands.append(best[:k] + [0] + best[k + 1:])
                if best[k] > 1:
                    cands.append(best[:k] + [best[k] // 2] + best[k + 1:])
            got = attempt(cands)
            if got is not None and (len(got), sum(got)) < (len(best), sum(best)):
                best = got
                improved = True
            else:
                i = idx[-1] + 1
    return best, n[0]


# ------------------------------------------------------------------ known findings
def known_findings():
    r = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) class=(\S+) match=/(.*?)/ (.*)', line)
            if m:
                r.append(m.groups())
    return r


# ------------------------------------------------------------------ one check
def check(prop, tier, seed, runs=None):
    t0 = time.time()
    P = PROPS[prop]
    low = HARNESS[P['h']]['flavour'] == 'tsan'
    names = [P['h'], P['h'] + LOW] if low else [P['h']]
    with cf.ThreadPoolExecutor(2) as ex:
        exes = list(ex.map(build, names))
    t_build = time.time() - t0
    total = runs or (P['quick'] if tier == 'quick' else P['thorough'])
    known = [k for k in known_findings() if k[0] == prop]
    tmp = tempfile.mkdtemp(prefix='run-', dir=BUILD)
    try:
        return check_(prop, tier, seed, P, names, exes, total, known, tmp, t0, t_build)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check_sequence(prop, seed, hname, exe, tmp, viol, g):
    """a run that fails only after others in the same process (damaged memory, state outside the simulated one): the replay is the sequence of runs"""
    n, i = 0, viol['index']
    while True:
        st = max(viol['chunk'], i - n)
        r = sim_call(exe, prop, seed, tmp, 'seq', start=st, count=i - st + 1)
        if relevant(r.j, viol['class']) and r.j['index'] == i:
            break
        if st == viol['chunk']:
            raise CheckError('run %d failed (%s: %s) but does not fail again from the same seed: %s' % (
                i, viol['class'], viol['message'], {k: g.j.get(k) for k in ('failed', 'class', 'message', 'hash')}))
        n = n * 2 or 1
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    replay_path = os.path.join(VERIF, 'replays', '%s-%d-%d.json' % (prop, seed, i))
    with open(replay_path, 'w') as f:
        json.dump(dict(property=prop, harness=hname, verif_seed=seed, run=i, **{'class': viol['class']}, message=r.j['message'], hash=r.j['hash'],
                       sequence=[st, i - st + 1], stderr=r.err[-4000:]), f, indent=1)
    print('run %d of seed %d, after runs %d to %d: %s: %s' % (i, seed, st, i - 1, viol['class'], r.j['message']))
    print('VIOLATION property=%s replay=%s' % (prop, replay_path))
    return 1


def check_(prop, tier, seed, P, names, exes, total, known, tmp, t0, t_build):
    edge = total - total // 4 if len(exes) > 1 else total       # runs from here on use the build without optimisation

    def which(i):
        return 0 if i < edge else 1
    t1 = time.time()
    nchunks = max(NW * 4, min(512, total // 20000))
    step = max(1, (total + nchunks - 1) // nchunks)
    todo = [(s, min(step, e - s)) for b, e in ((0, edge), (edge, total)) for s in range(b, e, step)]
    agg = dict(runs=0, discarded=0, sim_ns=0)
    stats = {}
    best = [None]           # lowest failing index
    knownhits = {}
    allhash = set()
    flags = dict(nontrivial=0)
    hashfiles = {}
    seq_ = [0]

    def one(job):
        s, c = job
        if best[0] is not None and s > best[0]['index']:
            return None
        seq_[0] += 1
        hf = os.path.join(tmp, 'h%d-%d' % (s, c))
        return (job, hf, sim_call(exes[which(s)], prop, seed, tmp, 'c%d' % s, start=s, count=c, hashes=hf, timeout=20000 if tier == 'thorough' else 850))

    with cf.ThreadPoolExecutor(NW) as ex:
        pend = set(ex.submit(one, j) for j in todo)
        while pend:
            done, pend = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
            for f in done:
                r = f.result()
                if r is None:
                    continue
                (s, c), hf, res = r
                j = res.j
                agg['runs'] += j['runs']
                agg['discarded'] += j['discarded']
                agg['sim_ns'] += j['sim_ns']
                for k, v in j['stats'].items():
                    stats[k] = stats.get(k, 0) + v
                if os.path.exists(hf):
                    data = open(hf, 'rb').read()
                    hashfiles[s] = data
                    for hsh, fl in struct.iter_unpack('<QQ', data[:len(data) // 16 * 16]):
                        if fl & 1:
                            flags['nontrivial'] += 1
                            if len(allhash) < 20000000:
                                allhash.add(hsh)
                    os.unlink(hf)
                if j['failed']:
                    kn = [k for k in known if k[1] == j['class'] and re.search(k[2], j['message'])]
                    if kn:
                        knownhits.setdefault(kn[0], []).append(j['index'])
                        rest = s + c - (j['index'] + 1)
                        if rest > 0:
                            pend.add(ex.submit(one, (j['index'] + 1, rest)))
                    elif best[0] is None or j['index'] < best[0]['index']:
                        best[0] = dict(j, chunk=s)
    t_runs = time.time() - t1
    viol = best[0]
    replay_path = None
    determ = None
    if viol is None and not knownhits:
        # determinism: a sample again, in other processes and cut up differently; the event-log hashes must agree
        n = min(edge, max(64, total // 50))
        cut = max(1, n // 5 + 1)
        base_h = b''.join(hashfiles[s] for s in sorted(hashfiles) if s < n)[:16 * n]

        def again(s):
            hf = os.path.join(tmp, 'd%d' % s)
            sim_call(exes[0], prop, seed, tmp, 'd%d' % s, start=s, count=min(cut, n - s), hashes=hf, timeout=850)
            return open(hf, 'rb').read()
        with cf.ThreadPoolExecutor(3) as ex:
            h2 = b''.join(ex.map(again, range(0, n, cut)))
        bad = [i for i in range(n) if h2[16 * i:16 * i + 16] != base_h[16 * i:16 * i + 16]]
        determ = dict(reruns=n, differing=len(bad))
        if bad:
            print('WARNING: %d of %d re-run simulations differ (first: run %d)' % (len(bad), n, bad[0]))
            if tier == 'thorough':
                raise CheckError('the simulation is not deterministic')
    if viol is not None:
        exe, hname = exes[which(viol['index'])], names[which(viol['index'])]
        # gate: the same seed must fail the same way in a fresh process
        g = sim_call(exe, prop, seed, tmp, 'gate', start=viol['index'], count=1)
        if g.j['failed'] and g.j['class'] != viol['class']:
            # it fails, but otherwise: the earlier runs in the process (or memory never written) had a part in it
            g2 = sim_call(exe, prop, seed, tmp, 'gate', start=viol['index'], count=1)
            if g2.j['failed'] and g2.j['class'] == g.j['class']:
                viol = dict(g2.j, chunk=viol['chunk'])
        if not relevant(g.j, viol['class']):
            return check_sequence(prop, seed, hname, exe, tmp, viol, g)
        if os.environ.get('CODA_ONLY_DETECT'):
            print('run %d of seed %d: %s: %s' % (viol['index'], seed, viol['class'], viol['message']))
            print('VIOLATION property=%s replay=none' % prop)
            return 1
        ch, tries = minimise(exe, prop, seed, tmp, viol['choices'], viol['class'], 40 if tier == 'quick' else 120)
        a = sim_call(exe, prop, seed, tmp, 'ra', choices=ch, trace=True)
        b = sim_call(exe, prop, seed, tmp, 'rb', choices=ch, trace=True)
        if not (relevant(a.j, viol['class']) and relevant(b.j, viol['class']) and a.j['hash'] == b.j['hash'] and a.j['message'] == b.j['message']):
            # fall back to the unminimised choices
            ch = viol['choices']
            a = sim_call(exe, prop, seed, tmp, 'ra', choices=ch, trace=True)
            b = sim_call(exe, prop, seed, tmp, 'rb', choices=ch, trace=True)
            if not (relevant(a.j, viol['class']) and relevant(b.j, viol['class'])):
                return check_sequence(prop, seed, hname, exe, tmp, viol, g)
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        replay_path = os.path.join(VERIF, 'replays', '%s-%d-%d.json' % (prop, seed, viol['index']))
        trace = [x for x in a.trace.splitlines() if x.startswith('T ')]
        with open(replay_path, 'w') as f:
            json.dump(dict(property=prop, harness=hname, verif_seed=seed, run=viol['index'], **{'class': viol['class']},
                           message=a.j['message'], message_before_minimisation=viol['message'], hash=a.j['hash'],
                           choices=ch, choices_before=len(viol['choices']), minimisation_runs=tries,
                           trace=trace[-400:], stderr=a.err[-4000:]), f, indent=1)
        print('run %d of seed %d: %s: %s' % (viol['index'], seed, viol['class'], viol['message']))
        print('minimised to %d choices (from %d): %s' % (len(ch), len(viol['choices']), a.j['message']))
        for line in trace[-25:]:
            print('   ', line)
    for k, hits in sorted(knownhits.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, k[3]))

    # sample cases, written out
    samples = []
    if viol is None:
        for i in range(0, min(total, 40)):
            s = sim_call(exes[which(i)], prop, seed, tmp, 'sm', start=i, count=1, trace=True)
            if s.j['nontrivial'] or i == 39:
                tr = [x[2:] for x in s.trace.splitlines() if x.startswith('T ')]
                samples.append(dict(run=i, choices=s.j['nch'], log=tr[:60] + (['... %d more' % (len(tr) - 60)] if len(tr) > 60 else [])))
                if len(samples) == 2:
                    break
    else:
        samples.append(dict(run=viol['index'], violation=viol['message']))
    wall = time.time() - t0
    h = HARNESS[P['h']]
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', wall_s=round(wall, 2), violations=1 if viol else 0,
              assumptions=P.get('assume', []) + h.get('assume', []),
              coverage=dict(
                  evaluations=agg['runs'],
                  distinct_nontrivial=len(allhash),
                  rule='One evaluation is one simulated execution; every choice in it is drawn from hash(VERIF_SEED, property, run index). '
                       'Non-trivial: at least one pre-emption inside an operation, blocked task, injected fault or death took place in the run' + (' (%s)' % P['rule'] if P.get('rule') else '') +
                       '; distinct: by the hash of the run\'s complete event log (schedule switches, system calls and their results, faults, operation results).',
                  samples=samples,
                  nontrivial_runs=flags['nontrivial'],
                  discarded=agg['discarded'],
                  runs_per_hour=int(agg['runs'] / max(t_runs, 1e-3) * 3600),
                  seeds_per_hour=int(agg['runs'] / max(t_runs, 1e-3) * 3600),
                  simulated_seconds=round(agg['sim_ns'] / 1e9, 3),
                  faults_injected={k: v for k, v in sorted(stats.items()) if k.startswith('fault.')},
                  conditions_hit={k: v for k, v in sorted(stats.items()) if not k.startswith('fault.')},
                  determinism=determ,
                  builds={n: c for n, c in zip(names, (edge, total - edge))},
                  real_code=h['real'], stubs=h['stub'],
                  build_s=round(t_build, 2), run_s=round(t_runs, 2), workers=NW))
    ed = os.environ.get('CODA_EVIDENCE', os.path.join(VERIF, 'evidence'))
    os.makedirs(ed, exist_ok=True)
    ep = os.path.join(ed, prop + '.json')
    with open(ep + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(ep + '.tmp', ep)
    print('%s: %d simulated runs (%d distinct non-trivial), %.1f s (build %.1f)' % (prop, agg['runs'], len(allhash), wall, t_build))
    missing = [p for p in P.get('probes', []) if not stats.get(p)]
    if missing and viol is None:
        print('note: conditions never hit in this run: %s' % ', '.join(missing))
    if viol is not None:
        print('VIOLATION property=%s replay=%s' % (prop, replay_path))
        return 1
    return 0


def replay(path, trace):
    with open(path) as f:
        r = json.load(f)
    exe = build(r['harness'])
    tmp = tempfile.mkdtemp(prefix='run-', dir=BUILD)
    try:
        if 'sequence' in r:
            a = sim_call(exe, r['property'], r['verif_seed'], tmp, 'r', start=r['sequence'][0], count=r['sequence'][1], trace=True)
        else:
            a = sim_call(exe, r['property'], r['verif_seed'], tmp, 'r', choices=r['choices'], trace=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if trace:
        sys.stdout.write(a.trace)
    if a.j['failed']:
        same = a.j['class'] == r['class'] and a.j['hash'] == r['hash']
        print('%s: %s%s' % (a.j['class'], a.j['message'], '' if same else ' (not identical to the recorded failure)'))
        print('VIOLATION property=%s replay=%s' % (r['property'], path))
        return 1
    print('the recorded execution does not fail on this tree')
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--trace', action='store_true')
    ap.add_argument('--build-all', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    os.makedirs(BUILD, exist_ok=True)
    try:
        if a.build_all:
            for h in [n for h in HARNESS for n in ((h, h + LOW) if HARNESS[h]['flavour'] == 'tsan' else (h,))]:
                t = time.time()
                build(h)
                print('built %s in %.1f s' % (h, time.time() - t))
            return 0
        if a.replay:
            return replay(os.path.abspath(a.replay), a.trace)
        if a.property not in PROPS:
            print('unknown property %s' % a.property)
            return 2
        return check(a.property, a.tier, seed, a.runs)
    except CheckError as e:
        print('CHECK ERROR: %s' % e)
        return 3
    except Exception:
        traceback.print_exc()
        return 3


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
