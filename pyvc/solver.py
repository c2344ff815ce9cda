"""z3 front end: one incremental solver holding the background axioms."""
import time

import z3

from . import terms


#: z3 resource units per millisecond of nominal limit
RLIMIT_PER_MS = 2000


#: (seed, eagerness of instantiation, relevancy) of the fall-back solvers
VARIANTS = [(1, 30.0, 2), (2, 100.0, 2), (3, 100.0, 0), (4, 10.0, 2)]


class Solver:

    def __init__(self, timeout_ms=4000, feas_ms=400):
        self.timeout_ms = timeout_ms
        self.feas_ms = feas_ms
        self.queries = 0
        self.time = 0.0
        self.cache = {}
        self.keep = []
        self.variants = []
        self.reset()

    def reset(self):
        self.s = z3.SimpleSolver()
        self.s.set('mbqi', False)
        self.s.set('auto_config', False)
        self.s.set('qi.eager_threshold', 30.0)
        self.s.set('random_seed', 7)
        self.nax = 0

    def _sync(self):
        while self.nax < len(terms.AXIOMS):
            self.s.add(terms.AXIOMS[self.nax])
            self.nax += 1

    def check(self, hyps, timeout):
        key = (frozenset(h.get_id() for h in hyps), timeout,
               len(terms.AXIOMS))
        if key in self.cache:
            return self.cache[key]
        self._sync()
        t0 = time.time()
        self.s.push()
        # resource limits, not wall clock: the answers do not depend on the
        # load of the machine
        self.s.set('rlimit', int(timeout * RLIMIT_PER_MS))
        self.s.set('timeout', 20 * timeout + 2000)
        for h in hyps:
            self.s.add(h)
        r = self.s.check()
        self.s.pop()
        self.queries += 1
        self.time += time.time() - t0
        self.cache[key] = r
        self.keep.append(hyps)
        return r

    def feasible(self, hyps):
        """False only when the hypotheses are contradictory."""
        return self.check(hyps, self.feas_ms) != z3.unsat

    def proves(self, hyps, goal, timeout=None):
        if goal is True:
            return True
        if goal is False:
            return self.check(hyps, timeout or self.timeout_ms) == z3.unsat
        return self.check(list(hyps) + [z3.Not(goal)], timeout
                          or self.timeout_ms) == z3.unsat

    def proves_hard(self, hyps, goal, timeout):
        """Like proves, for the obligations: on an unknown answer, fresh
        solvers with other heuristics are tried before giving up."""
        if self.proves(hyps, goal, timeout):
            return True
        if (not isinstance(goal, bool) and z3.is_eq(goal)
                and z3.is_bool(goal.arg(0))):
            a, b = goal.children()
            if all(self.proves_parts(hyps + [x], y, timeout)
                   for x, y in ((a, b), (b, a))):
                return True
        neg = [] if isinstance(goal, bool) else [z3.Not(goal)]
        if goal is True:
            return True
        for seed, eager, rel in VARIANTS:
            t0 = time.time()
            s = z3.SimpleSolver()
            s.set('mbqi', False)
            s.set('auto_config', False)
            s.set('qi.eager_threshold', eager)
            s.set('random_seed', seed)
            s.set('relevancy', rel)
            s.set('rlimit', int(timeout * RLIMIT_PER_MS))
            s.set('timeout', timeout * 2)
            for a in terms.AXIOMS:
                s.add(a)
            for h in hyps + neg:
                s.add(h)
            r = s.check()
            self.queries += 1
            self.time += time.time() - t0
            self.variants.append((seed, eager, rel, str(r),
                                  round(time.time() - t0, 2)))
            if r == z3.unsat:
                return True
        return False

    def proves_parts(self, hyps, goal, timeout):
        parts = goal.children() if z3.is_and(goal) else [goal]
        return all(self.proves(hyps, g, timeout) for g in parts)
