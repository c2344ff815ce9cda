"""Runs the verification and the search of one property and reports."""
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
CORES = max(2, min(8, os.cpu_count() or 2))

TIERS = {
    # search seconds, extended search seconds, seconds per function case
    'quick': dict(search_s=20, extended_s=60, case_s=420, ob_ms=40000,
                  shards=3, total_s=820),
    'thorough': dict(search_s=600, extended_s=300, case_s=1800, ob_ms=120000,
                     shards=4, total_s=7200),
}

ENGINE_TRUST = [
    'pyvc (/verif/pyvc): the symbolic semantics of the Python subset that '
    'is executed (str, int, bool, list, dict, exceptions); the real source '
    'text of /repo is parsed on every run, nothing is dropped except '
    'annotations and docstrings',
    'z3 (SMT solver) answering unsat',
    'strings are sequences of code points; Python integers are '
    'mathematical (they are unbounded in Python as well)',
    'memory and recursion limits of the interpreter are not modelled',
]


def spawn(fn, args):
    r, w = mp.Pipe(False)

    def run():
        try:
            os.setpgid(0, 0)
        except OSError:
            pass
        try:
            out = fn(*args)
        except BaseException as e:
            out = {'crash': ''.join(
                traceback.format_exception_only(type(e), e)).strip(),
                'trace': traceback.format_exc()}
        try:
            w.send(out)
        except Exception:
            pass
        w.close()
        sys.stdout.flush()
        os._exit(0)

    p = mp.Process(target=run)
    p.start()
    w.close()
    return p, r


class Sched:
    """Jobs in fresh processes, at most n at a time."""

    def __init__(self, n, deadline):
        self.n, self.deadline = n, deadline
        self.queue, self.live = [], []
        self.done = {}

    def add(self, key, fn, args, limit):
        self.queue.append((key, fn, args, limit))

    def kill(self, p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        try:
            p.kill()
        except Exception:
            pass
        p.join(5)

    def step(self):
        now = time.time()
        if now > self.deadline:
            for key, _, _, _ in self.queue:
                self.done[key] = {'timeout': True}
            self.queue = []
        while self.queue and len(self.live) < self.n:
            key, fn, args, limit = self.queue.pop(0)
            p, r = spawn(fn, args)
            self.live.append((key, p, r, now + limit))
        if not self.live:
            return
        ready = mp.connection.wait([x[2] for x in self.live], 0.2)
        keep = []
        for key, p, r, dl in self.live:
            if r in ready:
                try:
                    self.done[key] = r.recv()
                except EOFError:
                    self.done[key] = {'crash': 'process ended'}
                p.join(5)
                self.kill(p)
            elif time.time() > min(dl, self.deadline):
                self.kill(p)
                self.done[key] = {'timeout': True}
            else:
                keep.append((key, p, r, dl))
        self.live = keep

    def busy(self):
        return bool(self.queue or self.live)

    def stop(self, pred=lambda k: True):
        self.queue = [q for q in self.queue if not pred(q[0])]
        keep = []
        for x in self.live:
            if pred(x[0]):
                self.kill(x[1])
                self.done[x[0]] = {'stopped': True}
            else:
                keep.append(x)
        self.live = keep


# --------------------------------------------------------------------- jobs
def load(prop):
    from props import PROPS
    cfg = PROPS[prop]
    for m in cfg['modules']:
        importlib.import_module('contracts.' + m)
    return cfg


def prove(prop, n, case, tier, attempt):
    """Verify one function case."""
    from pyvc import contract as C
    cfg = load(prop)
    use = cfg['uses'][n]
    t = TIERS[tier]
    extra = {}
    ob = t['ob_ms']
    if attempt:
        extra = {'seed': 11 * attempt, 'feas_ms': 400, 'gen': True}
        ob *= 2
    c = C.REGISTRY[use.target]
    res = C.verify_case(c, case, budget=t['case_s'], ob_ms=ob, config=extra,
                        comps=use.comps)
    out = res.asdict()
    if c.config.get('soft') and unproved(out):
        # another way to do the same, or something else: the search tells
        out['unsupported'] = 'not shown to be the specification'
    return out


def searcher(spec):
    mod, cls = spec.split(':')
    return getattr(importlib.import_module('search.' + mod), cls)


def judge(S, x):
    """None, or what the real code does wrong on x."""
    from search.common import Timeout
    try:
        return S.judge(x)
    except Timeout:
        return 'no answer within the time limit'


def search(prop, tier, seed, shard, shards, seconds, extra):
    """One shard of the search for a failing input."""
    from search.common import cleanup
    from props import PROPS
    S = searcher(PROPS[prop]['search'])
    rng = random.Random('%s/%s/%s' % (prop, seed, shard))
    end = time.time() + seconds
    n = nt = 0
    seen = set()
    samples = []
    out = {'fail': None}
    known = known_inputs(prop)
    errors = []
    try:
        it = iter(extra or ())
        for phase in (iter(extra or ()), S.cases(rng, tier)):
            for k, x in enumerate(phase):
                if phase is not it and not x.get('_r') and shards > 1:
                    # the enumerated part is split, the random part differs
                    # by seed
                    if k % shards != shard and k < 400000:
                        continue
                if time.time() > end:
                    break
                n += 1
                try:
                    msg = judge(S, x)
                except RecursionError:
                    continue
                except Exception as e:
                    errors.append('%r on %r' % (e, x))
                    if len(errors) > 20:
                        raise
                    continue
                key = repr(sorted(x.items(), key=str))
                if key not in seen and len(seen) < 2000000:
                    seen.add(hash(key))
                    try:
                        if S.nontrivial(x):
                            nt += 1
                            if len(samples) < 3 and n % 7 == 0:
                                samples.append(x)
                    except Exception:
                        pass
                if msg is not None:
                    if any(matches(x, kx) for kx in known):
                        continue
                    out['fail'] = {'input': x, 'what': msg}
                    break
            if out['fail'] is not None:
                break
    finally:
        cleanup()
    out.update(evaluations=n, nontrivial=nt, samples=samples, errors=errors)
    return out


def known_inputs(prop):
    """Inputs of the known findings of a property."""
    out = []
    p = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(p):
        for e in json.load(open(p)):
            if e['status'] == 'known' and e['property'] == prop:
                out.append(e['match'])
    return out


def matches(x, m):
    from search import known
    return getattr(known, m['rule'])(x, **m.get('args', {}))


# --------------------------------------------------------------------- main
def main(argv):
    if argv and argv[0] == '--replay':
        return replay(argv[1])
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    if tier not in TIERS:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    return check(prop, tier, seed)


def replay(path):
    d = json.load(open(path))
    from props import PROPS
    if not d.get('input'):
        print(json.dumps(d, indent=1)[:20000])
        return 1
    S = searcher(PROPS[d['property']]['search'])
    from search.common import cleanup
    try:
        msg = judge(S, d['input'])
    finally:
        cleanup()
    print('input:', d['input'])
    print('result:', msg)
    return 1 if msg else 0


def check(prop, tier, seed):
    t0 = time.time()
    T = TIERS[tier]
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + '-'):
            os.unlink(os.path.join(rdir, f))
    try:
        cfg = load(prop)
    except Exception:
        return finish(prop, tier, seed, t0, {}, [], {}, None,
                      'md_toc cannot be imported: '
                      + traceback.format_exc()[-1500:])
    from pyvc import contract as C
    jobs = []
    for n, use in enumerate(cfg['uses']):
        c = C.REGISTRY[use.target]
        for case in C.cases(c):
            if use.cases(case):
                jobs.append((n, case))
    sched = Sched(CORES, t0 + T['total_s'])
    shards = T['shards'] if cfg.get('search') else 0
    for s in range(shards):
        sched.add(('search', s), search,
                  (prop, tier, seed, s, shards, T['search_s'], None),
                  T['search_s'] + 60)
    # long jobs first
    order = sorted(range(len(jobs)), key=lambda j: -weight(cfg, jobs[j]))
    for j in order:
        n, case = jobs[j]
        sched.add(('prove', j, 0), prove, (prop, n, case, tier, 0),
                  T['case_s'] + 30)
    fail = None
    results = {}
    attempts = {}
    while sched.busy():
        sched.step()
        for key in list(sched.done):
            out = sched.done.pop(key)
            if key[0] == 'search':
                results[key] = out
                if out.get('fail') and fail is None:
                    fail = out['fail']
                    # the answer is known: name the obligations that fail
                    # soon and stop
                    sched.deadline = min(sched.deadline, time.time() + 60)
            else:
                _, j, a = key
                if (unproved(out) and a == 0 and fail is None
                        and time.time() - t0 < T['total_s'] * 0.45):
                    n, case = jobs[j]
                    attempts[j] = out
                    sched.add(('prove', j, 1), prove,
                              (prop, n, case, tier, 1), T['case_s'] + 30)
                    continue
                if a == 1 and not good(out) and not unproved(out):
                    out = attempts[j]
                results[('prove', j)] = out
    proofs = {j: results.get(('prove', j), {'timeout': True})
              for j in range(len(jobs))}
    bad = [j for j in proofs if unproved(proofs[j])]
    if bad and fail is None and shards:
        # the solver's candidate inputs, then more seeds
        models = []
        for j in bad:
            n, case = jobs[j]
            S = searcher(cfg['search'])
            conv = getattr(S, 'from_model', None)
            for m in proofs[j].get('models', []):
                try:
                    x = conv(cfg['uses'][n].target, m) if conv else None
                except Exception:
                    x = None
                if x is not None:
                    models.append(x)
        sched = Sched(CORES, time.time() + T['extended_s'] + 60)
        for s in range(CORES):
            sched.add(('ext', s), search,
                      (prop, 'thorough', seed * 1000 + 17, s, CORES,
                       T['extended_s'], models), T['extended_s'] + 30)
        while sched.busy():
            sched.step()
            for key in list(sched.done):
                out = sched.done.pop(key)
                results[key] = out
                if out.get('fail') and fail is None:
                    fail = out['fail']
                    sched.stop()
    return finish(prop, tier, seed, t0, cfg, jobs, results, fail, None,
                  proofs)


def weight(cfg, job):
    n, case = job
    w = getattr(cfg['uses'][n], 'weight', 0)
    return w + (5 if case.get('no_links') is False else 0)


def good(out):
    return (bool(out.get('obligations')) and not out.get('unsupported')
            and all(o[1] for o in out['obligations']))


def unproved(out):
    """An obligation was generated and not discharged."""
    return (not out.get('unsupported')
            and any(not o[1] for o in out.get('obligations') or []))


def finish(prop, tier, seed, t0, cfg, jobs, results, fail, broken,
           proofs=None):
    from props import PROPS
    proofs = proofs or {}
    nob = ndis = 0
    functions = {}
    trusted = set()
    failed = []
    standins = []
    solver_s = 0.0
    applied = set()
    for j, out in proofs.items():
        n, case = jobs[j]
        tgt = cfg['uses'][n].target
        f = functions.setdefault(tgt, {'cases': 0, 'obligations': 0,
                                       'discharged': 0, 'loops': 0,
                                       'loops_shown_to_end': 0})
        f['cases'] += 1
        if out.get('unsupported') or not out.get('obligations'):
            standins.append('%s %s: %s' % (
                tgt, case, out.get('unsupported') or out.get('crash')
                or 'no answer within the time limit'))
            continue
        k = len(out['obligations'])
        d = sum(1 for o in out['obligations'] if o[1])
        nob += k
        ndis += d
        f['obligations'] += k
        f['discharged'] += d
        f['loops'] += len(out.get('loops') or [])
        f['loops_shown_to_end'] += sum(
            1 for x in out.get('loops') or [] if x.get('measure'))
        solver_s += out.get('solver_s', 0)
        applied |= set(out.get('applied') or [])
        trusted |= set(out.get('externals') or [])
        for o in out['obligations']:
            if not o[1]:
                failed.append({'function': tgt, 'case': case,
                               'obligation': o[0]})
    ev = nt = 0
    samples = []
    errors = []
    for k, out in results.items():
        if k[0] in ('search', 'ext'):
            ev += out.get('evaluations', 0)
            nt += out.get('nontrivial', 0)
            samples += out.get('samples', [])
            errors += out.get('errors', [])
            if out.get('crash'):
                errors.append(out['crash'] + out.get('trace', ''))
            if out.get('timeout'):
                errors.append('search shard killed at its time limit')
    own = {u.target for u in cfg.get('uses', [])} if cfg else set()
    elsewhere = {u.target for c in PROPS.values() for u in c['uses']}
    assumed = sorted((applied - own) & elsewhere)
    assumptions = list((cfg or {}).get('assumptions', []))
    for t in sorted(applied - own - elsewhere):
        from pyvc.contract import REGISTRY
        why = t in REGISTRY and REGISTRY[t].trusted
        assumptions.append('contract of %s (not proved): %s' % (
            t, why or 'see DESIGN.md'))
    level = (cfg or {}).get('level') or ('proof' if nob else 'exploration')
    if not nob and cfg and not cfg.get('uses'):
        level = cfg.get('level', 'exploration')
    viol = None
    if broken:
        viol = {'broken': broken}
    elif fail is not None:
        viol = fail
    elif failed:
        viol = {'obligations': failed}
    rel = None
    if viol is not None:
        rel = os.path.join('evidence', 'replay', '%s-%d.json' % (prop, seed))
        rec = {'property': prop, 'input': viol.get('input'),
               'what': viol.get('what') or viol.get('broken'),
               'failed_obligations': failed,
               'verifier_output': [
                   {k: v for k, v in out.items()
                    if k in ('target', 'case', 'obligations', 'loops',
                             'models')}
                   for j, out in proofs.items() if unproved(out)],
               'replay': 'python3-vt check.py --replay ' + rel}
        with open(os.path.join(HERE, rel), 'w') as fo:
            json.dump(rec, fo, indent=1, default=str)
    cov = {
        'obligations': nob,
        'discharged': ndis,
        'checker_cmd': 'python3-vt check.py %s --tier %s' % (prop, tier),
        'trusted_base': ENGINE_TRUST + ['external: ' + t
                                        for t in sorted(trusted)],
        'functions_under_contract': functions,
        'backend': 'z3 (python API) over the verification conditions of pyvc',
        'solver_seconds': round(solver_s, 2),
        'contracts_assumed_here_discharged_by_other_checks': assumed,
        'bounded_stand_ins': standins,
        'failed_obligations': failed[:20],
        'evaluations': ev,
        'distinct_nontrivial': nt,
        'rule': getattr(searcher(cfg['search']), 'rule', '')
        if cfg and cfg.get('search') else '',
        'samples': samples[:6],
        'search_errors': errors[:5],
        'explanation': (cfg or {}).get('note', ''),
    }
    rec = {'property': prop, 'tier': tier, 'seed': seed, 'level': level,
           'coverage': cov, 'wall_s': round(time.time() - t0, 2),
           'assumptions': assumptions,
           'violations': 1 if viol else 0}
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as fo:
        json.dump(rec, fo, indent=1, default=str)
    print('%s %s: %d/%d obligations discharged over %d function cases, '
          '%d stand-ins; search: %d evaluations; %.0f s' % (
              prop, tier, ndis, nob, len(proofs), len(standins), ev,
              time.time() - t0))
    for s in standins[:10]:
        print('bounded stand-in:', s[:300])
    for e in errors[:3]:
        print('search error:', e[:600])
    p = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(p):
        for e in json.load(open(p)):
            if e['status'] == 'known' and e['property'] == prop:
                print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
    if viol is None:
        return 0
    if viol.get('input') is not None:
        print('failing input:', json.dumps(viol['input'])[:500])
        print('what:', str(viol['what'])[:800])
    for o in failed[:8]:
        print('failed obligation: %(function)s %(case)s %(obligation)s' % o)
    if broken:
        print(broken)
    tail = '' if viol.get('input') is not None or broken else \
        ' no-failing-input-found'
    print('VIOLATION property=%s replay=%s%s' % (prop, rel, tail))
    return 1
