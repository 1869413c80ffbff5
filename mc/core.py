"""Bounded exhaustive explorer.

A harness is a module with
    PROPERTY   : id
    scenarios(ch, tier)  -> case (JSON-able)      generator body, calls ch.choose(...)
    run(case, obs)       -> None / raises Violation
or a list of several named (scenarios, run, bound) triples (FAMILIES).

`scenarios` is executed once per choice sequence (stateless search): every
`ch.choose(name, options)` is a choice point whose option 0 is the default; every other
option costs one deviation (or nothing, with free=True).  All sequences with at most
`bound` deviations are enumerated, in order of increasing number of deviations, so that the
first counterexample is a smallest one.  Each complete sequence is a case; cases are run
on the real code in worker processes, each judged by the harness' oracle.
"""
import hashlib
import importlib
import json
import math
import multiprocessing as mp
import os
import pickle
import re
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    """The implementation broke the property on this execution."""


class CheckError(Exception):
    """The machinery itself is wrong (divergent replay, bad prefix ...)."""


class Skip(Exception):
    """This case is outside the property's domain."""


# --------------------------------------------------------------------------- choice points
class Chooser:
    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.points = []          # (name, n_options, index, cost)

    def choose(self, name, options, free=False):
        i = len(self.points)
        options = list(options)
        idx = self.prefix[i] if i < len(self.prefix) else 0
        if idx >= len(options):
            raise CheckError('replay diverged at %s: option %d of %d' % (name, idx, len(options)))
        self.points.append((name, len(options), idx, 0 if free else 1))
        return options[idx]

    def free(self, name, options):
        return self.choose(name, options, free=True)


def enumerate_cases(body, bound, cap=None):
    """Yield (deviations, choices, case) for every choice sequence with at most `bound`
    deviations, by increasing deviations.  Also counts nodes and edges of the choice tree."""
    stats = {'states': 1, 'transitions': 0, 'complete': True, 'bound': bound}
    out = []
    level = [((), 0)]            # prefixes to run, with deviations used
    while level:
        nxt_same = []
        # process in order of deviations: small heap by deviations
        level.sort(key=lambda t: t[1])
        stack = level[::-1]
        level = []
        pending = []
        while stack:
            prefix, dev = stack.pop()
            ch = Chooser(prefix)
            case = body(ch)
            choices = [p[2] for p in ch.points]
            used = sum(p[3] for p in ch.points if p[2] > 0)
            stats['states'] += len(ch.points) - len(prefix) + (1 if prefix else 0)
            stats['transitions'] += len(ch.points) - len(prefix) + (1 if prefix else 0)
            if case is not None:
                out.append((used, tuple(choices), case))
                if cap is not None and len(out) >= cap:
                    stats['complete'] = False
                    return out, stats
            for i in range(len(prefix), len(ch.points)):
                name, n, _, cost = ch.points[i]
                before = sum(p[3] for p in ch.points[:i] if p[2] > 0)
                if before + cost > bound:
                    continue
                for alt in range(1, n):
                    pending.append((tuple(choices[:i]) + (alt,), before + cost))
        level = pending
    out.sort(key=lambda t: (t[0], t[1]))
    return out, stats


def explore_inline(run, bound, max_runs=None):
    """Stateless exploration inside one process: run(chooser) executes the real code and
    checks it.  Returns (executions, nodes, edges, complete)."""
    stack = [()]
    n = nodes = edges = 0
    complete = True
    seen_dev = {}
    while stack:
        prefix = stack.pop(0)
        if max_runs is not None and n >= max_runs:
            complete = False
            break
        ch = Chooser(prefix)
        try:
            run(ch)
        except Violation as v:
            v.choices = [p[2] for p in ch.points]
            raise
        n += 1
        nodes += len(ch.points) - len(prefix) + 1
        edges += len(ch.points) - len(prefix) + (1 if prefix else 0)
        choices = [p[2] for p in ch.points]
        for i in range(len(prefix), len(ch.points)):
            name, m, _, cost = ch.points[i]
            before = sum(p[3] for p in ch.points[:i] if p[2] > 0)
            if before + cost > bound:
                continue
            for alt in range(1, m):
                stack.append(tuple(choices[:i]) + (alt,))
    return n, nodes, edges, complete


# --------------------------------------------------------------------------- observations
class Obs:
    """Per-case observation record filled by a harness' run()."""

    def __init__(self):
        self.compared = 0       # executions compared step by step with the reference model
        self.inner_states = 0
        self.inner_transitions = 0
        self.inner_execs = 0
        self.outcome = None
        self.incomplete = 0

    def model(self, n=1):
        self.compared += n

    def inner(self, n, nodes, edges, complete=True):
        self.inner_execs += n
        self.inner_states += nodes
        self.inner_transitions += edges
        if not complete:
            self.incomplete += 1


# --------------------------------------------------------------------------- workers
_RUNS = None
_HISTORY = []


class _Timeout(Exception):
    pass


def _alarm(signum, frame):
    raise _Timeout()


def _quiet():
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')


def run_one(run, case, limit=150):
    """-> (status, message, Obs)"""
    obs = Obs()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    out, sys.stdout = sys.stdout, open(os.devnull, 'w')
    try:
        _quiet()
        run(case, obs)
        return 'ok', None, obs
    except Skip as e:
        return 'skip', str(e), obs
    except Violation as v:
        return 'violation', str(v), obs
    except _Timeout:
        return 'violation', 'execution did not finish within %d s' % limit, obs
    except CheckError:
        return 'error', traceback.format_exc(), obs
    except Exception:
        # an exception nobody expected.  If it was raised below a frame of the code under
        # test the implementation failed on an input of the documented domain.
        tb = traceback.extract_tb(sys.exc_info()[2])
        inside = any(f.filename.startswith(REPO + '/') for f in tb)
        return ('violation' if inside else 'error'), 'unexpected exception\n' + traceback.format_exc(), obs
    finally:
        sys.stdout.close()
        sys.stdout = out
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def _work(job):
    fam, idx, case = job
    t = time.time()
    status, msg, obs = run_one(_RUNS[fam], case)
    hist = None
    if status in ('violation', 'error'):
        hist = list(_HISTORY[-40:])
    _HISTORY.append((fam, case))
    oc = obs.outcome
    if oc is not None and not isinstance(oc, str):
        oc = digest(oc)
    return (fam, idx, status, msg, oc, obs.compared, obs.inner_execs, obs.inner_states,
            obs.inner_transitions, obs.incomplete, hist, time.time() - t)


def digest(x):
    return hashlib.sha1(canon_bytes(x)).hexdigest()[:16]


def canon_bytes(x):
    import numpy as np
    import pandas as pd
    h = []

    def rec(v):
        if isinstance(v, pd.Series):
            h.append('S'); rec(v.index); rec(v.to_numpy())
        elif isinstance(v, pd.DataFrame):
            h.append('D'); rec(list(map(str, v.columns))); rec(v.index)
            for c in range(v.shape[1]):
                rec(v.iloc[:, c].to_numpy())
        elif isinstance(v, pd.DatetimeIndex):
            h.append('T'); h.append(str(v.tz)); h.append(','.join(map(str, v.asi8)))
        elif isinstance(v, pd.Index):
            h.append('I'); h.append(repr(list(v)))
        elif isinstance(v, np.ndarray):
            h.append('A' + str(v.shape))
            if v.dtype.kind == 'f':
                h.append(','.join('%.10g' % z for z in v.ravel()))
            else:
                h.append(repr(v.ravel().tolist()))
        elif isinstance(v, dict):
            h.append('{')
            for k in sorted(v, key=str):
                h.append(str(k)); rec(v[k])
        elif isinstance(v, (list, tuple)):
            h.append('[')
            for k in v:
                rec(k)
        elif isinstance(v, (float, np.floating)):
            h.append('%.10g' % float(v))
        else:
            r = repr(v)
            h.append(re.sub(r'0x[0-9a-f]+', '0x', r) if '0x' in r else r)
    rec(x)
    return '|'.join(h).encode()


# --------------------------------------------------------------------------- driver
class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.families = []
        self.tot = dict(cases=0, states=0, transitions=0, compared=0, execs=0, skipped=0)
        self.outcomes = set()
        self.samples = []
        self.violations = []
        self.incomplete = []
        self.assumptions = []
        self.slow = []

    def family(self, name, scenarios, run, bound):
        self.families.append((name, scenarios, run, bound))


def _init_worker():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[v] = '1'


def nproc():
    return int(os.environ.get('VERIF_JOBS', os.cpu_count() or 8))


def known_findings(prop):
    """Lines 'finding: property=<id> key=<substring> <text>' of KNOWN_FINDINGS.md"""
    out = []
    try:
        for line in open(os.path.join(VERIF, 'KNOWN_FINDINGS.md')):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                key, text = rest.split(' ', 1)
                out.append((key[len('key='):], text))
    except FileNotFoundError:
        pass
    return out


def write_replay(prop, fam, case, msg, history, choices=None):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    body = {'property': prop, 'family': fam, 'case': case, 'choices': choices,
            'message': msg, 'history': history,
            'replay_cmd': './check %s --replay <this file>' % prop}
    s = json.dumps(body, default=str, indent=1)
    p = os.path.join(d, '%s-%s.json' % (prop, hashlib.sha1(s.encode()).hexdigest()[:10]))
    with open(p, 'w') as f:
        f.write(s)
    return p


def main_driver(mod, prop, tier, seed, budget):
    """mod.FAMILIES(tier) -> list of dicts(name, gen, run, bound[, bfs])"""
    global _RUNS
    t0 = time.time()
    fams = mod.families(tier)
    _RUNS = {f['name']: f['run'] for f in fams}
    tot = dict(cases=0, states=0, transitions=0, compared=0, execs=0, skipped=0)
    outcomes, samples, violations, errors, incomplete, notes = set(), [], [], [], [], {}
    nontrivial = 0
    ctx = mp.get_context('fork')
    slow = []
    only = os.environ.get('VERIF_FAMILY')

    with ctx.Pool(nproc(), initializer=_init_worker) as pool:
        def feed(fam, jobs):
            nonlocal nontrivial
            results = []
            # round-robin so that neighbouring (equally expensive) cases go to different workers;
            # the smallest failing index is reported, so order does not matter for minimality
            chunk = max(1, min(64, len(jobs) // (nproc() * 12) or 1))
            done = 0
            stop = False
            for r in pool.imap_unordered(_work, jobs, chunksize=chunk):
                (f, idx, status, msg, oc, comp, ie, ist, itr, inc, hist, dt) = r
                done += 1
                tot['cases'] += 1
                tot['compared'] += comp
                tot['execs'] += max(1, ie)
                tot['states'] += ist
                tot['transitions'] += itr
                slow.append((dt, f, idx))
                if inc:
                    incomplete.append('%s: inner exploration of case %d capped' % (f, idx))
                if status == 'skip':
                    tot['skipped'] += 1
                elif oc is not None:
                    outcomes.add((f, oc))
                if status == 'violation':
                    violations.append((f, idx, msg, hist))
                    if len(violations) >= 20:
                        stop = True
                elif status == 'error':
                    errors.append((f, idx, msg))
                    if len(errors) > 3:
                        stop = True
                results.append(r)
                if time.time() - t0 > budget:
                    incomplete.append('%s: time budget %.0f s used after %d of %d cases'
                                      % (fam, budget, done, len(jobs)))
                    stop = True
                if stop:
                    break
            return results, stop

        stop = False
        casemap = {}
        for f in fams:
            if only and f['name'] != only:
                continue
            if stop:
                incomplete.append('%s: not started' % f['name'])
                continue
            ft = time.time()
            if 'bfs' in f:
                # level-synchronous breadth-first search over operation sequences
                b = f['bfs']
                frontier = list(b['init'])
                seen = set()
                depth = 0
                nstates = ntrans = 0
                base = 0
                while frontier and not stop:
                    jobs = [(f['name'], base + i, h) for i, h in enumerate(frontier)]
                    for _, i, h in jobs:
                        casemap[(f['name'], i)] = h
                    base += len(jobs)
                    res, stop = feed(f['name'], jobs)
                    ntrans += len(res)
                    nxt = []
                    for r in sorted(res, key=lambda r: r[1]):
                        if r[2] != 'ok':
                            continue
                        if r[4] in seen and not b.get('nodedup'):
                            continue
                        seen.add(r[4])
                        nstates += 1
                        h = casemap[(f['name'], r[1])]
                        if depth < b['depth']:
                            nxt.extend(b['expand'](h))
                    frontier = nxt
                    depth += 1
                tot['states'] += nstates
                tot['transitions'] += ntrans
                notes[f['name']] = {'depth': depth - 1, 'states': nstates, 'transitions': ntrans}
            else:
                cases, st = enumerate_cases(f['gen'], f['bound'], f.get('cap'))
                uniq, jobs = {}, []
                for dev, choices, case in cases:
                    k = json.dumps(case, sort_keys=True, default=str)
                    if k in uniq:
                        continue
                    uniq[k] = 1
                    casemap[(f['name'], len(jobs))] = case
                    jobs.append((f['name'], len(jobs), case))
                if not st['complete']:
                    incomplete.append('%s: case cap %s hit' % (f['name'], f.get('cap')))
                tot['states'] += st['states']
                tot['transitions'] += st['transitions']
                notes[f['name']] = {'deviation_bound': f['bound'], 'cases': len(jobs),
                                    'choice_nodes': st['states']}
                order = list(range(len(jobs)))
                res, stop = feed(f['name'], jobs)
                if jobs:
                    samples.append({'family': f['name'], 'case': jobs[0][2]})
                    samples.append({'family': f['name'], 'case': jobs[-1][2]})
            notes[f['name']]['wall_s'] = round(time.time() - ft, 2)
        pool.terminate()

    violations.sort(key=lambda v: ([f['name'] for f in fams].index(v[0]), v[1]))
    known = known_findings(prop)
    new, kn = [], []
    for v in violations:
        hit = [t for k, t in known if k in v[2]]
        (kn if hit else new).append((v, hit))
    cov = {
        'states': tot['states'], 'transitions': tot['transitions'],
        'traces_validated_against_impl': tot['compared'],
        'evaluations': tot['execs'], 'cases': tot['cases'],
        'skipped_outside_domain': tot['skipped'],
        'distinct_outcomes': len(outcomes),
        'exhaustive': not incomplete,
        'capped': incomplete[:10],
        'families': notes,
        'rule': 'states/transitions: nodes/edges of the explored choice trees (plus distinct canonical '
                'states/steps of the operation-sequence searches); traces_validated: executions of the '
                'real code compared in full with the reference model or differential oracle',
        'samples': samples[:12] or [{'family': k} for k in notes],
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': cov, 'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    if os.environ.get('VERIF_VERBOSE'):
        slow.sort(reverse=True)
        print('slowest', [(round(d, 2), f, i) for d, f, i in slow[:5]])
        print(json.dumps(notes, indent=1))
        print('outcomes', len(outcomes))
    print('%s %s: cases=%d execs=%d states=%d transitions=%d compared=%d outcomes=%d exhaustive=%s wall=%.1fs' % (
        prop, tier, tot['cases'], tot['execs'], tot['states'], tot['transitions'], tot['compared'],
        len(outcomes), not incomplete, time.time() - t0))
    for c in incomplete[:5]:
        print('  capped:', c)
    for (v, hit) in kn[:1]:
        pass
    for text in sorted({h[0] for _, h in kn}):
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    if new:
        (fam, idx, msg, hist), _ = new[0]
        case = casemap[(fam, idx)]
        path = write_replay(prop, fam, case, msg, hist)
        print('violations: %d; first: family %s case %s' % (len(new), fam, json.dumps(case, default=str)[:1500]))
        print(msg[-3500:])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        fam, idx, msg = errors[0]
        print('CHECK ERROR in family %s case %s' % (fam, json.dumps(casemap[(fam, idx)], default=str)[:1500]))
        print(msg[-3500:])
        return 2
    if tot['cases'] == 0 or (len(outcomes) == 0):
        print('CHECK ERROR: vacuous exploration')
        return 2
    return 0


def replay(mod, prop, path, tier):
    d = json.load(open(path))
    runs = {f['name']: f['run'] for f in mod.families(tier)}
    st, msg, _ = run_one(runs[d['family']], d['case'])
    if st != 'violation' and d.get('history'):
        for fam, case in d['history']:
            run_one(runs[fam], case)
        st, msg, _ = run_one(runs[d['family']], d['case'])
    print(st)
    if msg:
        print(msg)
    if st == 'violation':
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0


def entry(argv=None):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    sys.path.insert(0, REPO)
    _quiet()
    try:
        import rdtools
        assert os.path.abspath(rdtools.__file__).startswith(REPO + '/')
        mod = importlib.import_module('mc.checks.' + a.property.lower())
    except Exception:
        tb = traceback.extract_tb(sys.exc_info()[2])
        if any(f.filename.startswith(REPO + '/') for f in tb):
            path = write_replay(a.property, 'import', {}, traceback.format_exc(), None)
            traceback.print_exc()
            print('VIOLATION property=%s replay=%s' % (a.property, path))
            return 1
        raise
    if a.replay:
        return replay(mod, a.property, a.replay, tier)
    budget = float(os.environ.get('VERIF_BUDGET', 420 if tier == 'quick' else 6 * 3600))
    return main_driver(mod, a.property, tier, seed, budget)
