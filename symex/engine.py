"""
Path-forking symbolic executor over z3.

The code under test runs natively on proxy values (sym.SymInt, sym.SymBool, ...).  Whenever
Python needs the truth value of a symbolic condition, `Engine.branch` is called: it asks z3
which outcomes are feasible under the current path condition, follows one and queues the
other.  A path is re-executed from the start along a recorded decision prefix (so nothing of
the code's heap has to be copied); the z3 assertion stack is shared between consecutive runs.
"""
import time
import z3


class PathEnd(BaseException):
    """Raised to leave the code under test (BaseException: `except Exception` must not eat it)."""


class Infeasible(PathEnd):
    pass


class Deadline(PathEnd):
    pass


class Inconclusive(PathEnd):
    """Path cannot be decided by this engine (recorded, never counted as verified)."""


ENG = None  # the engine of this process


class Stats(dict):
    KEYS = ('paths', 'infeasible', 'branches', 'forced', 'forks', 'queries', 'obligations', 'unknown',
            'inconclusive', 'concretised', 'trivial_obligations')

    def __init__(self):
        super().__init__({k: 0 for k in self.KEYS})
        self['solver_s'] = 0.0

    def merge(self, other):
        for k, v in other.items():
            self[k] = self.get(k, 0) + v


class Engine:
    def __init__(self, timeout_ms=20000, seed=1):
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.solver.set('random_seed', seed)
        self.stats = Stats()
        self.trace = []          # decisions of the current run: bools
        self.prefix = ()
        self.prev = None         # decisions of the previous run (None: nothing on the solver)
        self.common = -1
        self.level_pos = []      # trace position of each solver level
        self.pending = []        # prefixes left to explore
        self.deadline = None
        self.keep = []
        self.known = {}
        self.model = None
        self.fresh = 0

    # -- running ---------------------------------------------------------------------------
    def begin(self, prefix):
        self.prefix = tuple(prefix)
        if self.prev is None:
            self.common = -1
            self.solver.reset()
            self.level_pos = []
        else:
            k = 0
            for a, b in zip(self.prev, self.prefix):
                if a != b:
                    break
                k += 1
            self.common = k
            while self.level_pos and self.level_pos[-1] >= k:
                self.solver.pop()
                self.level_pos.pop()
        self.trace = []
        self.known = {}
        self.keep = []
        self.model = None
        self.fresh = 0

    def end(self):
        self.prev = tuple(self.trace)

    # -- solver ----------------------------------------------------------------------------
    def _check(self, *assumptions):
        t = time.perf_counter()
        r = self.solver.check(*assumptions)
        self.stats['solver_s'] += time.perf_counter() - t
        self.stats['queries'] += 1
        if r == z3.unknown:
            self.stats['unknown'] += 1
        return r

    def _need_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise Infeasible()
            if r == z3.unknown:
                self.stats['inconclusive'] += 1
                raise Inconclusive('unknown path condition')
            self.model = self.solver.model()
        return self.model

    def _skip(self):
        """True while re-running events that are still asserted on the solver."""
        return len(self.trace) <= self.common

    def _push(self, cond):
        self.solver.push()
        self.level_pos.append(len(self.trace))
        self.solver.add(cond)

    def assume(self, cond):
        """cond: z3 BoolRef or bool."""
        if cond is True or z3.is_true(cond):
            return
        if cond is False or z3.is_false(cond):
            raise Infeasible()
        if self._skip():
            return
        self.solver.add(cond)
        if self.model is not None:
            if not z3.is_true(self.model.eval(cond, model_completion=True)):
                self.model = None
        if len(self.trace) >= len(self.prefix):
            # beyond the replayed prefix: make sure the path is still alive
            self._need_model()

    def branch(self, cond):
        """cond: z3 BoolRef.  Returns a Python bool, forking when both values are feasible."""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        n = len(self.trace)
        if n < len(self.prefix):
            d = self.prefix[n]
            val, forced = d & 1, d & 2
            if not forced and n >= self.common:
                self._push(cond if val else z3.Not(cond))
            self.trace.append(d)
            return bool(val)
        if self.deadline is not None and time.time() > self.deadline:
            raise Deadline()
        self.stats['branches'] += 1
        m = self._need_model()
        v = m.eval(cond, model_completion=True)
        v = z3.is_true(v)
        other = z3.Not(cond) if v else cond
        r = self._check(other)
        if r == z3.unsat:
            self.stats['forced'] += 1
            self.trace.append((1 if v else 0) | 2)
            return v
        # both feasible (or unknown: explore it, the path check decides)
        self.stats['forks'] += 1
        self.pending.append(tuple(self.trace) + ((0 if v else 1),))
        self._push(cond if v else z3.Not(cond))
        self.trace.append(1 if v else 0)
        return v

    def choose_value(self, e):
        """Some feasible value of e; recorded in the trace so that a re-execution picks the same."""
        n = len(self.trace)
        if n < len(self.prefix):
            d = self.prefix[n]
        else:
            d = ('v', self._need_model().eval(e, model_completion=True).as_long())
        self.trace.append(d)
        return d[1]

    def check(self, cond):
        """Decide an obligation on the current path.  Returns None if it holds for every value,
        else a z3 model of the violation."""
        if len(self.trace) < len(self.prefix):
            # decided by the run that created this prefix, under the same path condition
            return None
        self.stats['obligations'] += 1
        if cond is True or (not isinstance(cond, bool) and z3.is_true(cond)):
            self.stats['trivial_obligations'] += 1
            return None
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        r = self._check(z3.Not(cond))
        if r == z3.unsat:
            return None
        if r == z3.unknown:
            self.stats['inconclusive'] += 1
            raise Inconclusive('unknown obligation')
        return self.solver.model()
