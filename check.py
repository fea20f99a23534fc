#!/usr/bin/env python3
"""check.py <property> [--replay FILE] [--time S] [--runs N] [--from I]

Builds the simulator from /repo's working tree, searches seeded schedules and fault sequences for a violation of one
property, and reports. Exit 0: held on everything explored. Exit 1: VIOLATION line and a replay file. Other: error.
"""
import argparse, hashlib, importlib, json, multiprocessing as mp, os, queue, random, signal, subprocess, sys, time, traceback

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from hs.runner import Hsim, SimError, BIN  # noqa: E402

LONG = ('hist', 'obs')


def load(pid):
    m = importlib.import_module('hs.' + pid.lower())
    return getattr(m, pid)()


class Runner:
    """runs scenarios, adds up what was covered"""

    def __init__(self, cpu=None):
        self.cpu = cpu
        self.h = None
        self.reset()

    def reset(self):
        self.cov = dict(runs=0, steps=0, sim_us=0, switches=0, preemptions=0, sync=0, shared=0, mem=0, frames=0,
                        contention=0, max_threads=0)
        self.faults = {}
        self.probes = {}
        self.hashes = set()

    def run(self, sc):
        if self.h is None:
            self.h = Hsim(cpu=self.cpu)
        try:
            r = self.h.run(sc)
        except SimError:
            self.h.close()
            self.h = None
            raise
        s = r['stats']
        c = self.cov
        c['runs'] += 1
        for k in ('steps', 'sim_us', 'switches', 'preemptions', 'sync', 'shared', 'mem', 'frames', 'contention'):
            c[k] += s[k]
        c['max_threads'] = max(c['max_threads'], s['threads'])
        for k, n in s['faults'].items():
            self.faults[k] = self.faults.get(k, 0) + n
        for k, n in r.get('probes', {}).items():
            self.probes[k] = self.probes.get(k, 0) + n
        self.hashes.add(r['hash'])
        return r

    def close(self):
        if self.h:
            self.h.close()
            self.h = None


def case_rng(pid, seed, i):
    return random.Random('%s/%d/%d' % (pid, seed, i))


def worker(pid, seed, k, n, start, limit, deadline, q):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        prop = load(pid)
        R = Runner(cpu=k % os.cpu_count())
        nontrivial = set()
        samples = []
        evals = 0
        extra = {}
        i = start + k
        while i < start + limit and time.time() < deadline:
            case = prop.make(case_rng(pid, seed, i), i)
            first = []

            def run(sc):
                r = R.run(sc)
                if not first:
                    first.append(r)
                return r
            try:
                v, info = prop.evaluate(run, case)
            except SimError as e:
                q.put(('simerror', i, str(e)))
                i += n
                continue
            evals += 1
            st = first[0]['stats']
            key = info.get('nontrivial')
            if key is None and (st['preemptions'] > 0 or st['faults']):
                key = first[0]['hash']
            if key:
                nontrivial.add(str(key))
            for a, b in info.get('count', {}).items():
                extra[a] = extra.get(a, 0) + b
            if len(samples) < 1 and key and k == 0:
                samples.append({'index': i, 'ops': case['sc']['ops'], 'sched': case['sc'].get('sched'),
                                'faults': case['sc'].get('faults', []), 'hash': first[0]['hash'], 'stats': st})
            if v:
                q.put(('violation', i, case, v))
                break
            i += n
        R.close()
        q.put(('done', k, dict(evals=evals, cov=R.cov, faults=R.faults, probes=R.probes, hashes=sorted(R.hashes),
                               nontrivial=sorted(nontrivial), samples=samples, extra=extra)))
    except Exception:
        q.put(('error', k, traceback.format_exc()))


# ---- minimisation -------------------------------------------------------------------------------------------------
def ddmin(items, bad, deadline):
    n = 2
    items = list(items)
    while len(items) >= 1 and time.time() < deadline:
        size = max(1, len(items) // n)
        done = False
        for s in range(0, len(items), size):
            cand = items[:s] + items[s + size:]
            if time.time() >= deadline:
                break
            if bad(cand):
                items = cand
                n = max(2, n - 1)
                done = True
                break
        if not done:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


def get(case, path):
    for p in path:
        case = case[p]
    return case


def put(case, path, value):
    case = json.loads(json.dumps(case))
    c = case
    for p in path[:-1]:
        c = c[p]
    c[path[-1]] = value
    return case


STAY = ('init', 'settle', 'snapshot', 'touch_all', 'join_bg', 'shutdown', 'exit', 'faults_off')  # what the oracles rely on


def stays(o):
    return isinstance(o, dict) and (o.get('keep') or o.get('op') in STAY)


def shrink(case, path, items, bad, deadline):
    free = [i for i, o in enumerate(items) if not stays(o)]

    def build_items(idx):
        s = set(idx)
        return [o for i, o in enumerate(items) if stays(o) or i in s]
    keep = ddmin(free, lambda x: bad(put(case, path, build_items(x))), deadline)
    return put(case, path, build_items(keep)) if keep != free else case


def minimise(prop, R, case, cls, budget):
    deadline = time.time() + budget

    def bad(c):
        try:
            v, _ = prop.evaluate(R.run, c)
        except (SimError, KeyError, IndexError):
            return False
        return any(x[0] == cls for x in v)
    for _ in range(2):
        before = json.dumps(case)
        for path in prop.shrinkables(case):
            try:
                items = get(case, path)
            except (KeyError, IndexError):
                continue
            case = shrink(case, path, items, bad, deadline)
        # inner lists: edits of a change, texts
        if json.dumps(case) == before:
            break
    # the schedule: none at all, or an explicit list of deviations from running each thread until it blocks
    simple = put(case, ('sc', 'sched'), {'seed': 1, 'policy': 0})
    if time.time() < deadline and bad(simple):
        return simple
    try:
        sc = put(case, ('sc', 'want_dev'), True)['sc']
        r = R.run(sc)
        s = dict(case['sc'].get('sched', {}))
        dev = r.get('dev', [])
        ex = dict(seed=s.get('seed', 1), policy=9, dev=dev)
        if s.get('max_steps'):
            ex['max_steps'] = s['max_steps']
        cand = put(case, ('sc', 'sched'), ex)
        if len(dev) < 4000 and bad(cand):
            case = cand
            path = ('sc', 'sched', 'dev')
            keep = ddmin(dev, lambda x: bad(put(case, path, x)), deadline)
            case = put(case, path, keep)
            case = shrink(case, ('sc', 'ops'), case['sc']['ops'], bad, min(deadline, time.time() + 5))
    except SimError:
        pass
    return case


def classes(v):
    return sorted({x[0] for x in v})


def evaluate_fresh(prop, case):
    R = Runner()
    try:
        hs = []

        def run(sc):
            r = R.run(sc)
            hs.append(r['hash'])
            return r
        v, _ = prop.evaluate(run, case)
        return v, hs
    finally:
        R.close()


def gate(prop, case, tries=2, strict=True):
    """the case must violate in the same way every time, in fresh processes (not strict: the violations have a class in common;
    code that reads memory it never wrote may differ in detail)"""
    ref, common = None, None
    for _ in range(tries):
        try:
            v, hs = evaluate_fresh(prop, case)
        except SimError as e:
            if strict:
                return None
            v, hs = [('no-result', 'the simulated process ended or hung without a result: %s' % e)], []
        cur = (hs, [list(x) for x in v])
        if not v or (strict and ref is not None and cur != ref):
            return None
        common = set(classes(v)) if common is None else common & set(classes(v))
        if not common:
            return None
        ref = cur
    return ref


def build():
    p = subprocess.run([sys.executable, os.path.join(V, 'tools', 'build.py')], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-4000:])
        print('error: the simulator could not be built')
        sys.exit(2)
    return p.stdout.strip().splitlines()[-1] if p.stdout.strip() else ''


def known_findings(pid):
    out = []
    d = os.path.join(V, 'known')
    path = os.path.join(d, 'findings.json')
    if os.path.exists(path):
        for f in json.load(open(path))['findings']:
            if f['property'] == pid and f.get('scenario'):
                out.append(f)
    return out


def write_replay(pid, tier, seed, i, case, ref, orig):
    d = os.path.join(V, 'out')
    os.makedirs(d, exist_ok=True)
    name = os.path.join(d, '%s-%s.json' % (pid, hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]))
    with open(name, 'w') as f:
        json.dump({'property': pid, 'seed': seed, 'index': i, 'violations': ref[1], 'hashes': ref[0], 'case': case,
                   'original_ops': len(orig['sc']['ops']), 'ops': len(case['sc']['ops'])}, f, indent=1)
    return name


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--replay')
    ap.add_argument('--time', type=float)
    ap.add_argument('--runs', type=int)
    ap.add_argument('--from', dest='start', type=int, default=0)
    ap.add_argument('--procs', type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args()
    pid = a.property
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    print('%s tier=%s seed=%d' % (pid, tier, seed), flush=True)
    print(build(), flush=True)
    t_build = time.time() - t0
    prop = load(pid)

    if a.replay:
        rep = json.load(open(a.replay))
        v, hs = evaluate_fresh(prop, rep['case'])
        for c, d in v:
            print('  %s: %s' % (c, d[:2000]))
        same = [list(x) for x in v] == rep['violations'] and hs == rep['hashes']
        print('replay: %s' % ('identical' if same else 'differs from the recorded violation'))
        if v:
            print('VIOLATION property=%s replay=%s' % (pid, a.replay))
            sys.exit(1)
        sys.exit(0)

    # the recorded findings
    kf = 0
    for f in known_findings(pid):
        case = json.load(open(os.path.join(V, 'known', f['scenario'])))
        try:
            v, _ = evaluate_fresh(prop, case)
        except SimError as e:
            print('error: known finding %s: %s' % (f['id'], e))
            sys.exit(2)
        other = [x for x in v if x[0] not in f['classes'] or f.get('match', '') not in x[1]]
        if other:
            ref = gate(prop, case)
            if ref:
                name = write_replay(pid, tier, seed, -1, case, ref, case)
                print('  %s: %s' % tuple(other[0]))
                print('VIOLATION property=%s replay=%s' % (pid, name))
                sys.exit(1)
        if v:
            kf += 1
            print('KNOWN-FINDING: property=%s %s' % (pid, f['what']), flush=True)

    budget = a.time or float(os.environ.get('VERIF_TIME', 0)) or (prop.quick_s if tier == 'quick' else prop.thorough_s)
    limit = a.runs or (prop.quick_runs if tier == 'quick' else 10 ** 9)
    t1 = time.time()
    deadline = t1 + budget
    q = mp.Queue()
    ps = [mp.Process(target=worker, args=(pid, seed, k, a.procs, a.start, limit, deadline, q)) for k in range(a.procs)]
    for p in ps:
        p.start()
    tot = dict(evals=0, cov={}, faults={}, probes={}, extra={})
    hashes, nontrivial, samples = set(), set(), []
    cands, simerrors, errors = [], [], []
    left = a.procs
    stop_at = None
    while left:
        try:
            m = q.get(timeout=1)
        except queue.Empty:
            if stop_at and time.time() > stop_at:
                break
            if time.time() > deadline + 150:
                break
            if not any(p.is_alive() for p in ps) and q.empty():
                break
            continue
        if m[0] == 'violation':
            cands.append(m[1:])
            if not stop_at:
                stop_at = time.time() + (3 if tier == 'quick' else 3)
        elif m[0] == 'simerror':
            simerrors.append(m[1:])
        elif m[0] == 'error':
            errors.append(m[2])
            left -= 1
        else:
            left -= 1
            d = m[2]
            tot['evals'] += d['evals']
            for k, n in d['cov'].items():
                tot['cov'][k] = max(tot['cov'].get(k, 0), n) if k == 'max_threads' else tot['cov'].get(k, 0) + n
            for w in ('faults', 'probes', 'extra'):
                for k, n in d[w].items():
                    tot[w][k] = tot[w].get(k, 0) + n
            hashes |= set(d['hashes'])
            nontrivial |= set(d['nontrivial'])
            samples += d['samples']
    for p in ps:
        if p.is_alive():
            p.terminate()
    for p in ps:
        p.join()
    t_search = time.time() - t1

    verdict = None
    unreproduced = 0
    # exactly repeatable ones first; then ones that violate every time but differ in detail; then runs without a result
    todo = [(i, case, v, True) for i, case, v in sorted(cands, key=lambda x: x[0])]
    todo += [(i, case, v, False) for i, case, v, _ in todo]
    todo += [(i, prop.make(case_rng(pid, seed, i), i), [('no-result', e)], False) for i, e in sorted(simerrors)[:2]]
    for i, case, v, strict in todo:
        if time.time() - t0 > budget + 420:
            break
        ref = gate(prop, case, 2 if strict else 3, strict)
        if not ref:
            if strict:
                unreproduced += 1
                print('not reproduced: run %d: %s' % (i, v[0][0]), flush=True)
            continue
        cls = v[0][0]
        small = case
        if cls != 'no-result':
            R = Runner()
            small = minimise(prop, R, case, cls, 60 if tier == 'quick' else 300)
            R.close()
        sref = gate(prop, small, 2 if strict else 3, strict) if small is not case else ref
        if not sref:
            small, sref = case, ref
        name = write_replay(pid, tier, seed, i, small, sref, case)
        print('violation of %s found in run %d (seed %d), %d operations after minimisation:' % (pid, i, seed, len(small['sc']['ops'])))
        for c, d in sref[1][:5]:
            print('  %s: %s' % (c, d[:1500]))
        verdict = name
        break

    wall = time.time() - t0
    c = tot['cov']
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': prop.level, 'wall_s': round(wall, 2),
        'violations': 1 if verdict else 0,
        'assumptions': prop.assumptions,
        'coverage': {
            'evaluations': tot['evals'], 'distinct_nontrivial': len(nontrivial),
            'rule': prop.rule,
            'samples': samples[:2],
            'exhaustive': False,
            'simulated_runs': c.get('runs', 0),
            'runs_per_hour': int(c.get('runs', 0) / max(t_search, 0.001) * 3600),
            'seeds_per_hour': int(tot['evals'] / max(t_search, 0.001) * 3600),
            'search_s': round(t_search, 2), 'build_s': round(t_build, 2),
            'simulated_seconds': round(c.get('sim_us', 0) / 1e6, 3),
            'scheduling_points': {k: c.get(k, 0) for k in ('steps', 'sync', 'shared', 'mem')},
            'context_switches': c.get('switches', 0), 'forced_preemptions': c.get('preemptions', 0),
            'lock_contentions': c.get('contention', 0), 'max_threads': c.get('max_threads', 0),
            'messages_received': c.get('frames', 0),
            'distinct_executions': len(hashes),
            'distinct_executions_measure': 'hash over every context switch, its position and all bytes written by the server',
            'faults_injected': tot['faults'], 'probes': tot['probes'], 'counts': tot['extra'],
            'known_findings_confirmed': kf, 'unreproduced_candidates': unreproduced, 'simulator_errors': len(simerrors),
            'real_code': prop.real, 'stubs': prop.stubs,
        }}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%d cases, %d simulated runs, %d distinct executions in %.1f s; faults %s; counts %s' % (
        tot['evals'], c.get('runs', 0), len(hashes), t_search, json.dumps(tot['faults']), json.dumps(tot['extra'])))
    if verdict:
        print('VIOLATION property=%s replay=%s' % (pid, verdict))
        sys.exit(1)
    if errors:
        print(errors[0])
    if simerrors:
        print('simulator errors: %s' % simerrors[:5])
    if errors or simerrors or unreproduced or not tot['evals']:
        print('error: no verdict')
        sys.exit(2)
    print('held on everything explored')
    sys.exit(0)


if __name__ == '__main__':
    main()
