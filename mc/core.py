"""Runner: enumerates all cases of a property in 8 processes, compares, writes
evidence and replays.

A property module provides
  ID, BOUNDS (text per tier), cases(tier) -> iterable of JSON-able cases
  (simplest first), run(case, log) which calls log.* for every comparison.
"""
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_SECONDS = 240
MAX_VIOLATIONS = 20


class Log(object):
    """What one case explored and found."""

    def __init__(self):
        self.transitions = 0
        self.states = set()
        self.outcomes = collections.Counter()
        self.bad = []           # (key, message)
        self.samples = []
        self.undecided = 0

    def state(self, obj):
        h = hashlib.blake2b(repr(obj).encode(), digest_size=8).digest()
        self.states.add(h)

    def step(self, outcome=None):
        self.transitions += 1
        if outcome is not None:
            self.outcomes[outcome] += 1

    def fail(self, msg, key=None):
        if len(self.bad) < 5 or key is not None:
            self.bad.append((key, msg))

    def check(self, cond, msg, outcome=None):
        self.step(outcome)
        if not cond:
            self.fail(msg() if callable(msg) else msg)
        return cond

    def compare(self, got, exp, what, cmp=None, key=None):
        """Observed against expected outcome of one operation."""
        from . import real
        self.transitions += 1
        if exp[0] == 'err':
            self.outcomes['refused:' + '/'.join(sorted(exp[1]))] += 1
        else:
            self.outcomes['answered'] += 1
        ok = real.agree(got, exp, cmp or real.same)
        if not ok:
            w = what() if callable(what) else what
            self.fail('%s: %s; expected: %s' % (w, real.show(got),
                                                real.show(exp)), key)
        return ok


def _alarm(_s, _f):
    raise TimeoutError('case did not finish in %d s' % CASE_SECONDS)


def run_case(mod, case):
    log = Log()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_SECONDS)
    try:
        mod.run(case, log)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException:
        tb = traceback.format_exc()
        log.fail('unexpected failure:\n' + tb[-1800:])
        log.crash = True
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return log


_MOD = None


def _init(name):
    global _MOD
    _MOD = importlib.import_module(name)
    gb = 1 << 30
    try:
        resource.setrlimit(resource.RLIMIT_AS, (4 * gb, 4 * gb))
    except (ValueError, OSError):
        pass


def _chunk(arg):
    out = Log()
    bad = []
    n = 0
    for i, case in arg:
        lg = run_case(_MOD, case)
        n += 1
        out.transitions += lg.transitions
        out.states |= lg.states
        out.outcomes.update(lg.outcomes)
        out.undecided += lg.undecided
        if lg.samples and len(out.samples) < 2:
            out.samples += lg.samples[:1]
        if lg.bad:
            bad.append((i, case, lg.bad))
    return (n, out.transitions, list(out.states), dict(out.outcomes),
            out.undecided, out.samples, bad, arg[0][0])


def load_known(pid):
    """Lines 'known: property=<id> key=<key> <text>' of the file."""
    known = collections.OrderedDict()
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            w = line.strip().split(' ', 3)
            if len(w) == 4 and w[0] == 'known:' and w[1] == 'property=' + pid:
                known[w[2][len('key='):]] = w[3]
    return known


def heavy(case):
    return any(k in case or case.get('kind') == k
               for k in ('huge', 'vast', 'long'))


def chunks(cases, size):
    """Cases on big boards go first, each alone."""
    cur = []
    for i, c in enumerate(cases):
        if heavy(c):
            yield [(i, c)]
    for i, c in enumerate(cases):
        if heavy(c):
            continue
        cur.append((i, c))
        if len(cur) >= size:
            yield cur
            cur = []
    if cur:
        yield cur


def replay(modname, path):
    data = json.load(open(path))
    _init(modname)
    lg = run_case(_MOD, data['case'])
    known = load_known(data['property'])
    bad = [b for b in lg.bad if b[0] is None or b[0] not in known]
    for k, m in bad:
        print(m)
    if bad:
        print('VIOLATION property=%s replay=%s' % (data['property'], path))
        return 1
    print('not reproduced')
    return 0


def main(pid, tier, seed):
    t0 = time.time()
    modname = 'mc.props.' + pid.lower()
    mod = importlib.import_module(modname)
    cases = list(mod.cases(tier))
    total = len(cases)
    size = max(1, min(getattr(mod, 'CHUNK', 50), total // 64 or 1))
    known = load_known(pid)
    states, outcomes = set(), collections.Counter()
    transitions = n = undecided = 0
    violations, seen_known, samples = [], collections.OrderedDict(), []
    truncated = False
    procs = int(os.environ.get('MC_PROCS') or 8)
    pool = mp.Pool(procs, _init, (modname,))
    try:
        for r in pool.imap_unordered(_chunk, chunks(cases, size)):
            n += r[0]
            transitions += r[1]
            states.update(r[2])
            outcomes.update(r[3])
            undecided += r[4]
            samples += [(r[7], s) for s in r[5]]
            for i, case, bad in r[6]:
                new = []
                for k, m in bad:
                    if k is not None and k in known:
                        seen_known[k] = m
                    else:
                        new.append(m)
                if new:
                    violations.append((i, case, new))
            if len(violations) >= MAX_VIOLATIONS:
                truncated = n < total
                break
    finally:
        pool.terminate()
        pool.join()
    violations.sort(key=lambda v: v[0])
    for k in known:
        if k in seen_known:
            print('KNOWN-FINDING: property=%s %s' % (pid, known[k]))
    rep = os.path.join(HERE, 'evidence', 'replay')
    if os.path.isdir(rep):
        for f in os.listdir(rep):
            if f.startswith(pid + '-'):
                os.remove(os.path.join(rep, f))
    else:
        os.makedirs(rep)
    samples.sort(key=lambda s: s[0])
    shown = [s for _, s in samples[:2]] or []
    if cases:
        shown += [{'case': cases[0]}, {'case': cases[total // 2]},
                  {'case': cases[-1]}]
    shown = [s if len(json.dumps(s, default=str)) < 6000 else
             json.dumps(s, default=str)[:6000] for s in shown]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': 'model_checking',
        'coverage': {
            'states': len(states), 'transitions': transitions,
            'traces_validated_against_impl': n,
            'samples': shown,
            'exhaustive': not truncated,
            'bounds': mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict)
            else mod.BOUNDS,
            'distinct_outcomes': {k: outcomes[k] for k in sorted(outcomes)},
            'left_open_by_the_model': undecided,
            'rule': 'states: distinct canonical timeboard/object states '
                    'reached (hashed); transitions: operations executed on '
                    'the real code and compared with the reference model; '
                    'traces: enumerated cases replayed from construction',
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []) + [
            'pandas, numpy and dateutil of /opt/venv behave as installed',
            'values outside the stated alphabet are not explored'],
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    print('%s %s: %d cases, %d states, %d transitions, %d outcomes, %.1f s'
          % (pid, tier, n, len(states), transitions, len(outcomes),
             time.time() - t0))
    for j, (i, case, msgs) in enumerate(violations[:5]):
        path = os.path.join(rep, '%s-%d.json' % (pid, j))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'case': case, 'messages': msgs}, f,
                      indent=1, default=str)
        print('case %d: %s' % (i, msgs[0][:2000]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    if violations:
        return 1
    if n != total or not total:
        print('ERROR: %d of %d cases explored' % (n, total))
        return 2
    return 0
