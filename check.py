#!/usr/bin/env python3
"""Runs one property check: build from /repo's working tree, run the seeded
simulation campaign, gate and minimise any violation, write the evidence file.

  check.py run C01            (VERIF_SEED, VERIF_TIER from the environment)
  check.py replay FILE        replay a replay file in a fresh process
  check.py build [C01 ...]    build only
  check.py determinism C01 N  execute N seeds several ways and compare logs
"""
import fcntl, hashlib, json, mmap, os, re, shutil, struct, subprocess, sys, time, math

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SIM = os.path.join(VERIF, 'sim')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
REPLAYS = os.path.join(VERIF, 'replays')
WORKERS = 8

sys.path.insert(0, SIM)
from props import PROPS  # per-property table: binary, budgets, texts

ASAN = ('detect_leaks=0:exitcode=77:abort_on_error=0:max_malloc_fill_size=65536:'
        'malloc_fill_byte=190:allocator_may_return_null=1:detect_stack_use_after_return=0:'
        'quarantine_size_mb=32:print_summary=1')

def env():
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = ASAN
    e['UBSAN_OPTIONS'] = 'exitcode=77:print_stacktrace=1:print_summary=0'
    e['LC_ALL'] = 'C'
    e.pop('SIM_REEXEC', None)
    return e

def source_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, 'src', 'mathic'), os.path.join(REPO, 'src', 'pqsim'), os.path.join(REPO, 'src', 'divsim'), SIM):
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(('.h', '.cpp', 'Makefile')):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, root).encode()); h.update(b'\0')
                    h.update(open(p, 'rb').read()); h.update(b'\0')
    for f in ('mathic.h',):
        p = os.path.join(REPO, 'src', f)
        if os.path.exists(p): h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]

class CheckError(Exception): pass

def parts(prop, tier='quick'):
    """The campaigns of a property: (binary, name the binary knows it by, runs)."""
    P = PROPS[prop]
    if 'parts' not in P: return [(P['binary'], prop, P['runs'][tier])]
    return [(b, '%s.%s' % (prop, sub), n[tier]) for b, sub, n in P['parts']]

def binary_of(name):
    """name is a property or, of one with parts, a part."""
    return [b for b, n, _ in parts(name.split('.')[0]) if n == name][0]

def build(target):
    return build_all([target])[target]

def build_all(targets):
    """A target is the name of a program, dbg/program for a build with assertions,
    ub/program for a build in which undefined behaviour ends the run, or stat/program for
    a build with div mask statistics, printed every 2^5 mask checks."""
    out = os.path.join(BUILD, source_hash())
    for d in ('dbg', 'ub', 'stat'): os.makedirs(os.path.join(out, d), exist_ok=True)
    progs = dict((t, os.path.join(out, t)) for t in targets)
    with open(os.path.join(out, '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        missing = [t for t in targets if not os.path.exists(progs[t])]
        if missing:
            # drop builds of other source states
            for d in os.listdir(BUILD):
                p = os.path.join(BUILD, d)
                if p != out and os.path.isdir(p) and re.fullmatch('[0-9a-f]{20}', d) and \
                   time.time() - os.path.getmtime(p) > 3 * 3600:
                    shutil.rmtree(p, ignore_errors=True)
        plain = [t for t in missing if '/' not in t]
        debug = [t[4:] for t in missing if t.startswith('dbg/')]
        ub = [t[3:] for t in missing if t.startswith('ub/')]
        stat = [t[5:] for t in missing if t.startswith('stat/')]
        for ts, args in ((plain, ['OUT=' + out]), (debug, ['OUT=' + out + '/dbg', 'ASSERTIONS=1']),
                         (ub, ['OUT=' + out + '/ub', 'UNDEFINED=1']), (stat, ['OUT=' + out + '/stat', 'MASKSTATS=5'])):
            if not ts: continue
            r = subprocess.run(['make', '-j%d' % WORKERS, '-s', 'REPO=' + REPO] + args + ts,
                               cwd=SIM, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                sys.stderr.write(r.stdout[-6000:])
                raise CheckError('build of %s failed' % ' '.join(ts))
        for t in targets:
            if not os.path.exists(progs[t]): raise CheckError('build of %s failed' % t)
    return progs

# ---------------------------------------------------------------- plan files
def parse_plan(text):
    head, cfg, ops = None, [], []
    for l in text.splitlines():
        if l.startswith('plan '): head = l
        elif l.startswith('cfg '): cfg.append(l)
        elif l.startswith('op '): ops.append(l)
    return head, cfg, ops

def plan_text(head, cfg, ops):
    return '\n'.join([head] + cfg + ops) + '\n'

def crash_class(rc, text):
    m = re.search(r'ERROR: AddressSanitizer: ([A-Za-z0-9-]+)', text)
    if m:
        k = m.group(1)
        return 'memory-error:' + k
    if ': runtime error: ' in text: return 'undefined-behaviour'
    if 'SIM: hang' in text: return 'hang'
    if 'SIM: assertion failed' in text: return 'assertion'
    if 'SIM: runaway' in text: return 'runaway-allocation'
    return 'crash:rc=%d' % rc

def exec_plan(prog, path, timeout=120):
    """Fresh process. Returns (class or None, message, hash, output tail)."""
    try:
        r = subprocess.run([prog, 'exec', path], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=env(), timeout=timeout, errors='replace', text=True)
    except subprocess.TimeoutExpired:
        return 'hang', 'wall clock limit', 'hang', ''
    m = re.search(r'^RESULT (.*)$', r.stdout, re.M)
    if m and r.returncode in (0, 1):
        j = json.loads(m.group(1))
        if j['status'] == 'ok': return None, '', j['hash'], ''
        return j['class'], j['msg'], j['hash'], ''
    if r.returncode == 2: raise CheckError('exec failed: ' + r.stderr[-500:])
    c = crash_class(r.returncode, r.stderr)
    lines = [l for l in r.stderr.splitlines() if 'ERROR' in l or 'SUMMARY' in l or ': runtime error: ' in l or l.startswith('SIM')]
    frames = [re.sub(r'^\s*(#\d+) 0x[0-9a-f]+ ', r'\1 ', l) for l in r.stderr.splitlines() if re.match(r'\s*#\d+ ', l)][:12]
    msg = re.sub(r'0x[0-9a-f]+', '0x..', re.sub(r'==\d+==', '', ' | '.join(lines[:2])))
    return c, msg, 'crash', '\n'.join(frames)

def same(a, b):
    if a is None or b is None: return False
    return a == b or (a.startswith('memory-error') and b.startswith('memory-error')) or \
        (a.startswith(('crash', 'memory-error')) and b.startswith(('crash', 'memory-error')))

def minimise(prog, head, cfg, ops, cls, tmp, budget=150):
    end = time.time() + budget
    tries = [0]
    def fails(c, o):
        if time.time() > end: return False
        tries[0] += 1
        with open(tmp, 'w') as f: f.write(plan_text(head, c, o))
        try: return same(exec_plan(prog, tmp, 60)[0], cls)
        except CheckError: return False
    # drop operations (ddmin)
    n = 2
    while len(ops) >= 2 and time.time() < end:
        size = max(1, len(ops) // n)
        done = False
        for i in range(0, len(ops), size):
            cand = ops[:i] + ops[i + size:]
            if cand != ops and fails(cfg, cand):
                ops = cand; n = max(2, n - 1); done = True
                break
        if not done:
            if size == 1: break
            n = min(len(ops), n * 2)
    # drop faults, shrink arguments
    changed, rounds = True, 0
    while changed and rounds < 3 and time.time() < end:
        changed = False; rounds += 1
        for i, l in enumerate(ops):
            if ' ! ' in l:
                cand = ops[:]; cand[i] = l.split(' ! ')[0]
                if fails(cfg, cand): ops = cand; changed = True; continue
            body, sep, flt = ops[i].partition(' ! ')
            w = body.split()
            # shorten long argument lists
            j = len(w)
            while j > 3:
                k = max(2, j // 2) if j > 8 else j - 1
                cand = ops[:]; cand[i] = ' '.join(w[:k]) + (sep + flt if flt else '')
                if fails(cfg, cand): w = w[:k]; ops = cand; changed = True; j = k
                else:
                    if j > 8: j = 8 if len(w) <= 8 else 0
                    else: break
                    if j == 0: break
            if len(w) <= 14:
                for a in range(2, len(w)):
                    try: v = int(w[a])
                    except ValueError: continue
                    for nv in (0, 1, v // 2):
                        if nv == v or abs(nv) > abs(v): continue
                        w2 = w[:]; w2[a] = str(nv)
                        cand = ops[:]; cand[i] = ' '.join(w2) + (sep + flt if flt else '')
                        if fails(cfg, cand): ops = cand; w = w2; changed = True; break
            if flt:
                f = flt.split()
                for nf in ([f[0], '1', '1'], [f[0], f[1], '1']):
                    if nf != f:
                        cand = ops[:]; cand[i] = ' '.join(w) + ' ! ' + ' '.join(nf)
                        if fails(cfg, cand): ops = cand; changed = True; break
            if time.time() > end: break
        for i, l in enumerate(cfg):
            w = l.split()
            for nv in (0, 1):
                if int(w[2]) > nv:
                    cand = cfg[:]; cand[i] = ' '.join([w[0], w[1], str(nv)])
                    if fails(cand, ops): cfg = cand; changed = True; break
    return cfg, ops, tries[0]

# ------------------------------------------------------------------ campaign
def campaign(prog, prop, seed, runs, tier, seconds, tmp, workers=WORKERS, first=0):
    os.makedirs(tmp, exist_ok=True)
    bitmap = os.path.join(tmp, 'bitmap')
    if os.path.exists(bitmap): os.unlink(bitmap)
    ps = []
    for w in range(workers):
        out = os.path.join(tmp, 'w%d' % w)
        for ext in ('.cur', '.rec', '.json'):
            if os.path.exists(out + ext): os.unlink(out + ext)
        log = open(out + '.log', 'w')
        ps.append((w, out, subprocess.Popen(
            [prog, 'campaign', '--prop', prop, '--seed', str(seed), '--from', str(first + w), '--to', str(first + runs),
             '--step', str(workers), '--tier', tier, '--seconds', str(seconds), '--out', out, '--bitmap', bitmap],
            stdout=log, stderr=subprocess.STDOUT, env=env())))
    failures, live = [], list(ps)
    grace = time.time() + seconds + 120
    stop_at = None
    while live:
        time.sleep(0.02)
        for x in live[:]:
            rc = x[2].poll()
            if rc is None: continue
            live.remove(x)
            if rc == 0: continue
            if rc == 1:
                j = json.load(open(x[1] + '.json'))
                failures.append((j['violation']['index'], j['violation']['class']))
            else:
                cur = struct.unpack('<Q', open(x[1] + '.cur', 'rb').read())[0]
                text = open(x[1] + '.log', errors='replace').read()
                if cur == 0xffffffffffffffff:
                    raise CheckError('worker ended with %d outside a run: %s' % (rc, text[-1500:]))
                failures.append((cur, crash_class(rc, text)))
            if stop_at is None: stop_at = time.time() + 3
        if (stop_at and time.time() > stop_at) or time.time() > grace:
            for x in live: x[2].kill(); x[2].wait()
            if time.time() > grace and not failures: raise CheckError('campaign ran out of time')
            live = []
    tot, recs = {}, []
    for w, out, p in ps:
        if os.path.exists(out + '.json'):
            j = json.load(open(out + '.json'))
            add(tot, j)
        if os.path.exists(out + '.rec'):
            data = open(out + '.rec', 'rb').read()
            recs += [struct.unpack_from('<QQQ', data, i) for i in range(0, len(data) - 23, 24)]
    states = 0
    if os.path.exists(bitmap):
        data = open(bitmap, 'rb').read()
        ones = bin(int.from_bytes(data, 'little')).count('1')
        m = len(data) * 8
        states = int(round(-m * math.log(1 - ones / m))) if ones < m else m
        os.unlink(bitmap)
    return tot, recs, states, failures

def known_findings(prop):
    r = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) plan=(\S+) class=(\S+) (.*)$', l.strip())
            if m and m.group(1) == prop: r.append(m.groups()[1:])
    return r

def report_violation(prog, prop, seed, idx, cls, tier, tmp):
    """Gate, minimise, write the replay file. Returns its path, or None if it does not reproduce."""
    r = subprocess.run([prog, 'gen', '--prop', prop, '--seed', str(seed), '--index', str(idx), '--tier', tier],
                       stdout=subprocess.PIPE, env=env(), text=True)
    if r.returncode != 0: raise CheckError('cannot regenerate plan')
    head, cfg, ops = parse_plan(r.stdout)
    path = os.path.join(tmp, 'cand.plan')
    with open(path, 'w') as f: f.write(r.stdout)
    a, b = exec_plan(prog, path), exec_plan(prog, path)
    if not (same(a[0], cls) and same(b[0], cls) and a[2] == b[2]):
        print('NOT-REPRODUCED property=%s index=%d class=%s again=%s/%s hash=%s/%s' % (prop, idx, cls, a[0], b[0], a[2], b[2]))
        return None
    n0 = len(ops)
    cfg2, ops2, tries = minimise(prog, head, cfg, ops, a[0], os.path.join(tmp, 'min.plan'))
    os.makedirs(REPLAYS, exist_ok=True)
    replay = os.path.join(REPLAYS, '%s-seed%d-run%d.plan' % (prop, seed, idx))
    body = plan_text(head, cfg2, ops2)
    with open(replay, 'w') as f: f.write(body)
    c, d = exec_plan(prog, replay), exec_plan(prog, replay)
    if not (same(c[0], a[0]) and same(d[0], a[0]) and c[2] == d[2]):
        with open(replay, 'w') as f: f.write(r.stdout)
        c = a; ops2 = ops
    with open(replay) as f: body = f.read()
    with open(replay, 'w') as f:
        f.write('# property %s violated: %s\n# %s\n' % (prop, c[0], c[1].replace('\n', ' ')))
        for l in c[3].splitlines(): f.write('#   ' + l + '\n')
        f.write('# VERIF_SEED=%d run index %d; minimised from %d to %d operations in %d tries\n' % (seed, idx, n0, len(ops2), tries))
        f.write('# replay: python3 check.py replay %s\n' % os.path.relpath(replay, VERIF))
        f.write(body)
    print('violation class %s: %s' % (c[0], c[1]))
    print('minimised to %d operations:' % len(ops2))
    print(body)
    return replay

def add(tot, j):
    for k, v in j.items():
        if isinstance(v, bool): tot[k] = tot.get(k, False) or v
        elif isinstance(v, int): tot[k] = tot.get(k, 0) + v
        elif k == 'slowest': tot[k] = max(tot.get(k, v), v)
        elif isinstance(v, dict) and k != 'violation':
            d = tot.setdefault(k, {})
            for a, b in v.items(): d[a] = d.get(a, 0) + b

def cmd_run(prop):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    P = PROPS[prop]
    built = build_all([b for b, n, r in parts(prop, tier)])
    progs = [(built[b], n, r) for b, n, r in parts(prop, tier)]
    tbuild = time.time() - t0
    tmp = os.path.join(BUILD, 'run-%s-%d' % (prop, os.getpid()))
    limit = 420 if tier == 'quick' else 7200
    try:
        tot, recs, states, failures, wall, redone = {}, [], 0, [], 0.0, 0
        for part, (prog, name, runs) in enumerate(progs):
            t1 = time.time()
            ptot, precs, pstates, pfail = campaign(prog, name, seed, runs, tier, limit / len(progs), tmp)
            wall += time.time() - t1
            # same seeds again, in other processes and another worker count: logs must match
            redo = min(P.get('redo', 400), runs)
            if not pfail:
                tot2, recs2, _, fail2 = campaign(prog, name, seed, redo, tier, limit, tmp, workers=3)
                h1 = {i: h for i, h, f in precs}
                mismatches = sum(1 for i, h, f in recs2 if h1.get(i) != h)
                if mismatches or fail2:
                    raise CheckError('determinism: %d of %d repeated runs differ' % (mismatches, len(recs2)))
                redone += redo
            add(tot, ptot)
            recs += [(part, i, h, f) for i, h, f in precs]
            states += pstates
            failures += [(part, i, c) for i, c in pfail]
            if failures: break
        known = known_findings(prop)
        suppressed = 0
        replay = None
        failures.sort()
        for part, idx, cls in failures:
            replay = report_violation(progs[part][0], progs[part][1], seed, idx, cls, tier, tmp)
            if replay: break
        for plan, kcls, text in known:
            print('KNOWN-FINDING: property=%s %s' % (prop, text))
        distinct = len(set((p, h) for p, i, h, f in recs if f & 1))
        samples = []
        for part, idx in [(p, i) for p, i, h, f in sorted(recs) if f & 1][:2]:
            r = subprocess.run([progs[part][0], 'gen', '--prop', progs[part][1], '--seed', str(seed), '--index', str(idx), '--tier', tier],
                               stdout=subprocess.PIPE, env=env(), text=True)
            samples.append(r.stdout[:1500])
        ev = dict(property=prop, tier=tier, seed=seed, level='exploration', wall_s=round(time.time() - t0, 2),
            violations=1 if replay else 0,
            coverage=dict(
                evaluations=tot.get('runs', 0), distinct_nontrivial=distinct,
                rule=P['rule'] + ' A run is non-trivial if it executed at least 8 operations; runs are distinct if the hash '
                     'of the complete event log (operations, callback invocations with their arguments, faults, results) differs.',
                samples=samples,
                operations=tot.get('ops', 0), runs_with_injected_faults=tot.get('faultRuns', 0),
                fault_free_runs=tot.get('cleanRuns', 0),
                faults_fired=tot.get('fired', {}), faults_armed=tot.get('armed', {}), probes=tot.get('probes', {}),
                distinct_states=states, state_measure=P['state'],
                simulated_time_ms=tot.get('simTimeMs', 0),
                simulated_time_note=P.get('time', 'the code under test has no clock on these paths; progress is counted in operations and callback events'),
                runs_per_hour=int(tot.get('runs', 0) / max(wall, 0.01) * 3600),
                seeds='one seed per run: runs per hour is also seeds per hour',
                campaign_wall_s=round(wall, 2), build_wall_s=round(tbuild, 2), workers=WORKERS,
                stopped_by_time=tot.get('timeUp', False), slowest_run_cpu_ms_and_index=tot.get('slowest', []),
                determinism_repeats=redone, determinism_mismatches=0,
                real_code=P['real'], stubs=P['stubs']),
            assumptions=P['assumptions'])
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        if failures and not replay:
            raise CheckError('%d failing runs, none reproduced from its plan' % len(failures))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if replay:
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    print('%s: held on %d runs (%d distinct, %d operations, %d runs with faults) in %.1fs' %
          (prop, tot.get('runs', 0), distinct, tot.get('ops', 0), tot.get('faultRuns', 0), time.time() - t0))
    return 0

def cmd_replay(path, trace=False):
    head = [l for l in open(path) if l.startswith('plan ')][0].split()
    prog = build(binary_of(head[1]))
    if trace:
        return subprocess.run([prog, 'trace', path], env=env()).returncode
    cls, msg, h, frames = exec_plan(prog, path)
    if cls is None:
        print('no violation, log hash ' + h)
        return 0
    print('%s: %s (log hash %s)\n%s' % (cls, msg, h, frames))
    print('VIOLATION property=%s replay=%s' % (head[1].split('.')[0], os.path.abspath(path)))
    return 1

def cmd_determinism(prop, n):
    if '.' not in prop and 'parts' in PROPS[prop]:
        return max(cmd_determinism(name, n) for _, name, _ in parts(prop))
    prog = build(binary_of(prop))
    tmp = os.path.join(BUILD, 'det-%s-%d' % (prop, os.getpid()))
    base = None
    try:
        for seed_run, workers in enumerate((1, 8, 5, 8, 13, 1)):
            tot, recs, st, fails = campaign(prog, prop, 4711, n, 'quick', 3600, tmp, workers=workers)
            d = {i: h for i, h, f in recs}
            if base is None: base = d
            bad = [i for i in base if d.get(i) != base[i]]
            print('%s: %d runs with %d workers, %d differ from the first pass, %d failures' % (prop, len(d), workers, len(bad), len(fails)))
            if bad: return 1
        # fresh process per run from the plan file
        bad = 0
        for i in range(0, n, max(1, n // 40)):
            r = subprocess.run([prog, 'gen', '--prop', prop, '--seed', '4711', '--index', str(i)], stdout=subprocess.PIPE, env=env(), text=True)
            p = os.path.join(tmp, 'x.plan')
            open(p, 'w').write(r.stdout)
            c, m, h, _ = exec_plan(prog, p)
            if int(h, 16) != base[i]: bad += 1
        print('%s: fresh-process replays from plan text: %d differ' % (prop, bad))
        return 1 if bad else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ['run']: return cmd_run(a[1])
        if a[:1] == ['replay']: return cmd_replay(a[1])
        if a[:1] == ['trace']: return cmd_replay(a[1], True)
        if a[:1] == ['determinism']: return cmd_determinism(a[1], int(a[2]))
        if a[:1] == ['build']:
            build_all(sorted(set(b for p in (a[1:] or PROPS) for b, _, _ in parts(p))))
            return 0
    except CheckError as e:
        print('CHECK-ERROR: %s' % e)
        return 3
    print(__doc__)
    return 2

if __name__ == '__main__':
    sys.exit(main())
