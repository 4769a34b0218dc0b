#!/usr/bin/env python3
"""run.py CNN [--tier quick|thorough] [--seed N] [--replay FILE] [--workers N] [--only SUITE]"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time, importlib
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
import build

PY = shutil.which('python3-vt') or sys.executable
ap = argparse.ArgumentParser()
ap.add_argument('prop')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 4))
ap.add_argument('--replay')
ap.add_argument('--only')
ap.add_argument('--scale', type=float, default=1.0)
ap.add_argument('--budget', type=float)
A = ap.parse_args()
PROP = A.prop.upper()
MODULE = PROP.lower()
T0 = time.time()
scratch = tempfile.mkdtemp(prefix='verif-%s-' % PROP)
replay_dir = os.path.join(VERIF, 'replays')


def finish(code):
    shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


try:
    P = build.ensure('std')
except Exception as e:
    print('build failed: %s' % e)
    finish(2)
ENV = build.sim_env(P, VERIF_REPO=build.REPO)
T1 = time.time()
nspec = [0]


def worker_cmd(spec):
    nspec[0] += 1
    base = os.path.join(scratch, 'w%d' % nspec[0])
    os.makedirs(base)
    spec = dict(spec, module=MODULE, property=PROP, out=base + '/out.json', log=base + '/log', heart=base + '/heart',
                scratch=base, tier=spec.get('tier', A.tier))
    json.dump(spec, open(base + '/spec.json', 'w'))
    p = subprocess.Popen([PY, os.path.join(VERIF, 'lib', 'worker.py'), base + '/spec.json'], env=ENV, cwd=base,
                         stdin=subprocess.DEVNULL, start_new_session=True)
    p.base = base
    p.spec = spec
    p.t0 = time.time()
    return p


def result(p):
    try:
        return json.load(open(p.base + '/out.json'))
    except Exception:
        return None


def logtail(p, n=1500):
    try:
        return open(p.base + '/log', errors='replace').read()[-n:]
    except OSError:
        return ''


def kill(p):
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass
    p.wait()


def run_single(spec, timeout):
    """Returns None if the case passes, otherwise a message."""
    p = worker_cmd(spec)
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        kill(p)
        return 'no answer within %d s' % timeout
    kill(p)
    r = result(p)
    if p.returncode != 0 or r is None:
        return 'process died (status %s) %s' % (p.returncode, logtail(p, 600))
    return r['fail']


def run_workers(specs, hang):
    """Runs the worker specs concurrently; returns list of (proc, result, problem)."""
    ps = [worker_cmd(s) for s in specs]
    live = set(ps)
    res = {}
    failed = None
    while live:
        time.sleep(0.1)
        for p in list(live):
            rc = p.poll()
            now = time.time()
            if rc is None:
                try:
                    hb = os.stat(p.base + '/heart').st_mtime
                except OSError:
                    hb = p.t0
                if now - hb > hang:
                    kill(p)
                    res[p] = (None, 'hang')
                    live.discard(p)
                    failed = failed or now
            else:
                kill(p)
                r = result(p)
                res[p] = (r, None if (rc == 0 and r is not None) else 'died with status %s' % rc)
                live.discard(p)
                if res[p][1] or r.get('failure'):
                    failed = failed or now
        # once one worker has a failure the others only get a little longer
        if failed and time.time() - failed > 8:
            for p in list(live):
                kill(p)
                res[p] = (None, 'stopped')
                live.discard(p)
    return [(p,) + res[p] for p in ps]


def confirm(rep, hang):
    """A violation counts only if it reproduces in fresh processes."""
    for _ in range(2):
        m = replay(rep, hang)
        if not m:
            return None
    return m


def replay(rep, hang=150):
    if rep['mode'] == 'probe':
        return run_single({'mode': 'probe', 'probe': rep['probe']}, hang)
    if rep['mode'] == 'case':
        return run_single({'mode': 'case', 'suite': rep['suite'], 'case': rep['case']}, hang)
    spec = dict(rep['spec'])
    spec['deadline'] = time.time() + 400
    spec['shrink_s'] = 0
    (p, r, prob), = run_workers([spec], hang)
    if prob:
        return prob
    return r['failure']['msg'] if r.get('failure') else None


def emit(rep, msg):
    os.makedirs(replay_dir, exist_ok=True)
    import hashlib
    h = hashlib.sha256(json.dumps(rep, sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(replay_dir, '%s-%s.json' % (PROP, h))
    json.dump(dict(rep, property=PROP, message=msg), open(path, 'w'), indent=1)
    print('  ' + msg.replace('\n', '\n  ')[:3000])
    print('VIOLATION property=%s replay=%s' % (PROP, path))
    sys.stdout.flush()


if A.replay:
    rep = json.load(open(A.replay))
    m = replay(rep)
    if m:
        print('  ' + m)
        print('VIOLATION property=%s replay=%s' % (PROP, A.replay))
        finish(1)
    print('replay passes')
    finish(0)

# metadata of the check comes from a subprocess so that this process never loads the simulator
p = subprocess.run([PY, '-c', 'import sys,json,os; fd=os.dup(1); os.dup2(2,1); import %s as m; '
                    'os.write(fd, json.dumps({"rule":m.RULE,"suites":[(s.name,s.quick,s.thorough,s.hang) for s in m.SUITES],'
                    '"probes":list(getattr(m,"PROBES",{})),"assumptions":getattr(m,"ASSUMPTIONS",[]),'
                    '"budget":getattr(m,"BUDGET",{})}).encode())' % MODULE],
                   env=ENV, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
try:
    meta = json.loads(p.stdout)
except Exception:
    print('cannot load check: ' + p.stderr.decode(errors='replace')[-3000:])
    # the simulator module itself not importing is a failure of the tree, but not a verdict on this property
    finish(2)

known = {}
kf = os.path.join(VERIF, 'known_findings.txt')
if os.path.exists(kf):
    for line in open(kf):
        m = re.match(r'open: property=(\S+) probe=(\S+) (.*)', line)
        if m and m.group(1) == PROP:
            known[m.group(2)] = m.group(3).strip()

violations = 0
suites = [s for s in meta['suites'] if not A.only or s[0] in A.only.split(',')]
NW = A.workers
budget = A.budget or meta['budget'].get(A.tier) or (330 if A.tier == 'quick' else 2400)
deadline = time.time() + budget
hang = max([s[3] for s in suites] or [150])

# probes: one fresh process each
probe_n = 0
known_hit = []
if not A.only:
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(NW) as ex:
        for name, msg in zip(meta['probes'], ex.map(lambda n: run_single({'mode': 'probe', 'probe': n}, 150), meta['probes'])):
            probe_n += 1
            if msg:
                if name in known:
                    print('KNOWN-FINDING: property=%s %s' % (PROP, known[name]))
                    known_hit.append(name)
                else:
                    rep = {'mode': 'probe', 'probe': name}
                    m2 = confirm(rep, 150)
                    if m2:
                        emit(rep, 'probe %s: %s' % (name, m2))
                        violations += 1
                    else:
                        print('  probe %s failed once, not reproducible: %s' % (name, msg[:500]))

specs = []
for w in range(NW):
    ss = []
    for name, q, t, h in suites:
        tot = (q if A.tier == 'quick' else t) * A.scale
        ss.append([name, max(1, int(round(tot / NW)))])
    # rotate so that workers do not all sit in the same suite
    k = w % max(1, len(ss))
    specs.append({'mode': 'explore', 'suites': ss[k:] + ss[:k], 'seed': A.seed, 'worker': w, 'deadline': deadline})
results = run_workers(specs, hang) if specs and suites and not violations else []

evaluations = probe_n
hashes = set()
counts = {}
samples = []
unconfirmed = []
done_fail = set()
for p, r, prob in results:
    if r:
        evaluations += r['evaluations']
        hashes.update(r['hashes'])
        samples += r['samples']
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
for p, r, prob in results:
    if violations:
        break
    rep = None
    msg = None
    if prob in ('stopped',):
        continue
    if prob:
        # the process died or hung: take the case it was on
        try:
            hb = json.load(open(p.base + '/heart'))
        except Exception:
            hb = None
        if hb is None:
            print('  worker %d %s before any case: %s' % (p.spec['worker'], prob, logtail(p)))
            unconfirmed.append(prob)
            continue
        # look for a small case, every case in a process of its own
        n = dict(map(tuple, p.spec['suites']))[hb['suite']]
        if prob != 'hang':
            sp = dict(p.spec, isolate=True, suites=[[hb['suite'], n]], deadline=time.time() + 120, shrink_s=40)
            (p2, r2, prob2), = run_workers([sp], hang)
            if r2 and r2.get('failure') and r2['failure'].get('case') is not None:
                rep = {'mode': 'case', 'suite': hb['suite'], 'case': r2['failure']['case']}
                msg = confirm(rep, hang)
        if not msg:
            rep = {'mode': 'case', 'suite': hb['suite'], 'case': json.loads(hb['case'])}
            msg = confirm(rep, hang)
        if not msg:
            rep = {'mode': 'worker', 'spec': {k: p.spec[k] for k in ('mode', 'suites', 'seed', 'worker', 'tier')}}
            msg = confirm(rep, hang)
        first = prob + ' ' + logtail(p, 800)
    elif r.get('failure'):
        f = r['failure']
        first = f['msg'] + '\n' + f.get('tb', '')
        if f.get('case') is not None:
            rep = {'mode': 'case', 'suite': f['suite'], 'case': f['case']}
            msg = confirm(rep, hang)
            if not msg:
                # shrunk on state left behind by an earlier case: look again, every case in a process of its own
                n = dict(map(tuple, p.spec['suites']))[f['suite']]
                sp = dict(p.spec, isolate=True, suites=[[f['suite'], n]], deadline=time.time() + 120, shrink_s=40)
                (p2, r2, prob2), = run_workers([sp], hang)
                if r2 and r2.get('failure') and r2['failure'].get('case') is not None:
                    rep = {'mode': 'case', 'suite': f['suite'], 'case': r2['failure']['case']}
                    msg = confirm(rep, hang)
        if not msg:
            rep = {'mode': 'worker', 'spec': {k: p.spec[k] for k in ('mode', 'suites', 'seed', 'worker', 'tier')}}
            msg = confirm(rep, hang)
    else:
        continue
    if msg:
        emit(rep, msg)
        violations += 1
    else:
        print('  a failure did not reproduce and is not reported as a violation: ' + first[:2500])
        unconfirmed.append(first[:300])

wall = time.time() - T0
ev = {'property': PROP, 'tier': A.tier if A.tier in ('quick', 'thorough') else 'quick', 'seed': A.seed, 'level': 'exploration',
      'coverage': {'evaluations': evaluations, 'distinct_nontrivial': len(hashes), 'rule': meta['rule'],
                   'samples': samples[:12], 'counters': counts, 'workers': NW, 'probes_run': probe_n,
                   'known_findings_seen': known_hit, 'unconfirmed': unconfirmed,
                   'build': {'seconds': round(T1 - T0, 1), 'cached': P.cached}},
      'assumptions': meta['assumptions'], 'wall_s': round(wall, 2), 'violations': violations}
os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
json.dump(ev, open(os.path.join(VERIF, 'evidence', PROP + '.json'), 'w'), indent=1)
print('%s %s: %d cases, %d distinct non-trivial, %d violation(s), %.1f s (build %.1f s)' % (
    PROP, A.tier, evaluations, len(hashes), violations, wall, T1 - T0))
finish(1 if violations else 0)
