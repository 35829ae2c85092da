"""Path engine: symbolic execution of Python by re-execution, decided by z3.

One *run* of a harness is replayed once per execution path.  A path is the
sequence of outcomes of the symbolic branch conditions met so far (`prefix`);
whenever both outcomes of a new condition are satisfiable together with the
path condition, the other one is queued.  Assertions (`check`) are decided by
asking the solver for an assignment of the inputs that satisfies the path
condition and violates the assertion.
"""
import time

import z3


class Control(BaseException):
    """Base of the engine's own control flow; never to be caught by code."""


class Infeasible(Control):
    """The path condition became unsatisfiable (e.g. by an assumption)."""


class PathLimit(Control):
    """The path exceeded a stated bound; it is recorded as undecided."""


class Unsupported(Control):
    """The code needed something that is not modelled symbolically."""


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.forks = 0
        self.checks = 0
        self.checks_solver = 0

    def as_dict(self):
        return dict(self.__dict__)


# Values tried first where a value must be picked (never on supported code).
SPECIAL_INTS = (0, 1, -1, 2, 10, 127, 128, 255, -128, 2**31 - 1, 2**31,
                2**53 + 1, 2**63 - 1, -2**63, 2**64 - 1)
SPECIAL_CHARS = (0, 9, 10, 13, 32, 46, 47, 48, 65, 92, 95, 97, 127, 128, 160,
                 223, 233, 0x130, 0x301, 0x212b, 0x2028, 0xfeff, 0xffff,
                 0x10ffff)
SPECIAL_FIELDS = (0, 1, 2, 12, 23, 28, 29, 30, 31, 59, 999999, 1000, 1900,
                  1969, 1970, 9999)


class Path:
    """State of the path that is currently executed."""

    def __init__(self, engine, prefix):
        self.engine = engine
        self.prefix = prefix
        self.trail = []
        self.solver = z3.Solver()
        self.solver.set('timeout', engine.query_timeout_ms)
        self.model = None
        self.spread = False     # a special value was picked on this path
        self.nspread = 0
        self.picking = False    # concretize() picks instead of enumerating
        self.inputs = {}        # name -> decoder(model) -> JSON value
        self.input_terms = []   # for diversification
        self.cex = []
        self.labels = []
        self.observed = []
        self.sampled = None     # reason, if a value was picked
        self.counter = 0
        self.clock = []
        self.world = None
        self.pending = None

    # -- solver ---------------------------------------------------------
    def _sat(self, *extra):
        st = self.engine.stats
        t0 = time.perf_counter()
        r = self.solver.check(*extra)
        st.solver_s += time.perf_counter() - t0
        st.queries += 1
        if r == z3.sat:
            st.sat += 1
            return True
        if r == z3.unsat:
            st.unsat += 1
            return False
        st.unknown += 1
        return None

    def add(self, cond):
        """Add a constraint known to be consistent with the path."""
        self.solver.add(cond)
        if self.model is not None and not z3.is_true(
                self.model.eval(cond, model_completion=True)):
            self.model = None

    def get_model(self):
        if self.model is None:
            r = self._sat()
            if r is False:
                raise Infeasible()
            if r is None:
                raise PathLimit('solver gave no answer')
            self.model = self.solver.model()
        return self.model

    def assume(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise Infeasible()
        self.solver.add(cond)
        if self.model is not None and not z3.is_true(
                self.model.eval(cond, model_completion=True)):
            self.model = None
        if self.model is None and self._sat() is False:
            raise Infeasible()

    def fork(self, cond, tag=None):
        """Decide a branch condition; queue the other side if feasible.

        The trail records (tag, decision), where the tag holds a value that
        the condition was built from, so that a re-execution of the prefix
        meets the same conditions.
        """
        if self.pending is not None:
            raise self.pending
        cond = z3.simplify(cond)
        if tag is None:
            if z3.is_true(cond):
                return True
            if z3.is_false(cond):
                return False
        pos = self._pos()
        if pos < len(self.prefix):
            t, d = self.prefix[pos]
            if t != tag:
                raise RuntimeError('re-execution diverged')
            self.trail.append((t, d))
            self.add(cond if d else z3.Not(cond))
            return d
        model = self.get_model()
        first = z3.is_true(model.eval(cond, model_completion=True))
        other = z3.Not(cond) if first else cond
        r = self._sat(other)
        if r is None:
            self.sampled = self.sampled or 'branch not decided by the solver'
        self.engine.stats.forks += 1
        if r:
            self.engine.push(self.trail + [(tag, not first)])
        self.trail.append((tag, first))
        self.solver.add(cond if first else z3.Not(cond))
        return first

    def _pos(self):
        pos = len(self.trail)
        if pos >= self.engine.max_decisions:
            self.stop(PathLimit('more than %d branch decisions'
                                % self.engine.max_decisions))
        return pos

    def choose(self, n):
        """Decide an unconstrained choice between n alternatives."""
        if self.pending is not None:
            raise self.pending
        if n == 1:
            return 0
        pos = self._pos()
        if pos < len(self.prefix):
            t, d = self.prefix[pos]
            if t != ('choose', n):
                raise RuntimeError('re-execution diverged')
            self.trail.append((t, d))
            return d
        self.engine.stats.forks += n - 1
        for i in range(n - 1, 0, -1):
            self.engine.push(self.trail + [(('choose', n), i)])
        self.trail.append((('choose', n), 0))
        return 0

    def value_of(self, decode):
        """Pick decode(model); recorded in the trail, without alternatives."""
        if self.pending is not None:
            raise self.pending
        pos = self._pos()
        if pos < len(self.prefix):
            t, d = self.prefix[pos]
            if t != 'pick':
                raise RuntimeError('re-execution diverged')
        else:
            d = decode(self.get_model())
        self.trail.append(('pick', d))
        return d

    def stop(self, exc):
        """Abort the path, even if the code swallows the exception."""
        self.pending = exc
        raise exc

    def check(self, cond, label, info=''):
        """Decide an assertion over all values of this path."""
        st = self.engine.stats
        st.checks += 1
        self.labels.append(label)
        if isinstance(cond, bool):
            if not cond:
                self.fail(label, info, self.get_model())
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        st.checks_solver += 1
        neg = z3.Not(cond)
        r = self._sat(neg)
        if r is None:
            self.sampled = self.sampled or 'assertion not decided: ' + label
            return None
        if r:
            self.fail(label, info, self.solver.model())
            r2 = self._sat(cond)
            if r2 is False:
                raise Infeasible()
            self.model = None
            self.solver.add(cond)
            return False
        return True

    def fail(self, label, info, model):
        if isinstance(info, BaseException):
            info = type(info).__name__    # its message may be symbolic
        self.cex.append({'label': label, 'info': info,
                         'witness': self.witness(model)})

    # -- inputs ---------------------------------------------------------
    def witness(self, model):
        return {name: dec(model) for name, dec in self.inputs.items()}

    def fresh(self, stem):
        self.counter += 1
        return '%s!%d' % (stem, self.counter)

    def special(self, conds):
        """Branch on special values of a value that is about to be picked.

        Returns the index of the condition that holds, or None. At most one
        value per path is special, so that the number of paths stays linear.
        """
        if self.spread or self.nspread >= 6:
            return None
        self.nspread += 1
        for i, c in enumerate(conds):
            if self.fork(c):
                self.spread = True
                return i
        return None

    def pick(self, term, specials=SPECIAL_INTS, why='integer value picked'):
        """A single value for a term that cannot be handled symbolically."""
        term = z3.simplify(term)
        if z3.is_int_value(term):
            return term.as_long()
        self.sampled = self.sampled or why
        i = self.special([term == v for v in specials])
        if i is not None:
            return specials[i]
        v = self.value_of(
            lambda m: m.eval(term, model_completion=True).as_long())
        self.add(term == v)
        return v

    def concretize(self, term, limit=40):
        """Turn an integer term into a Python int by enumeration."""
        term = z3.simplify(term)
        if z3.is_int_value(term):
            return term.as_long()
        if self.picking:
            return self.pick(term)
        for _ in range(limit):
            pos = len(self.trail)
            if pos < len(self.prefix) and \
                    isinstance(self.prefix[pos][0], int):
                v = self.prefix[pos][0]
            elif pos < len(self.prefix):
                break
            else:
                m = self.get_model()
                v = m.eval(term, model_completion=True).as_long()
            if self.fork(term == v, v):
                return v
        self.sampled = self.sampled or 'integer value picked'
        v = self.value_of(
            lambda m: m.eval(term, model_completion=True).as_long())
        self.add(term == v)
        return v

    def witnesses(self, extra):
        """Witness of the path condition, plus up to `extra` diverse ones."""
        out = []
        m = self.get_model()
        out.append(self.witness(m))
        if extra:
            self.solver.push()
            try:
                for _ in range(extra):
                    changed = False
                    for t in self.input_terms:
                        c = t != m.eval(t, model_completion=True)
                        if self._sat(c):
                            self.solver.add(c)
                            changed = True
                    if not changed:
                        break
                    if not self._sat():
                        break
                    m = self.solver.model()
                    out.append(self.witness(m))
            finally:
                self.solver.pop()
        return out


class Engine:
    """Depth-first exploration of all paths of a harness."""

    def __init__(self, max_paths=4000, max_decisions=600, deadline=None,
                 query_timeout_ms=20000):
        self.max_paths = max_paths
        self.max_decisions = max_decisions
        self.deadline = deadline
        self.query_timeout_ms = query_timeout_ms
        self.stats = Stats()
        self.worklist = []
        self.path = None

    def push(self, prefix):
        self.worklist.append(prefix)

    def explore(self, run, start=((),)):
        """Yield a result dict for every path of `run(path)`."""
        global CURRENT
        self.worklist = [list(p) for p in start]
        n = 0
        self.truncated = None
        while self.worklist:
            if n >= self.max_paths:
                self.truncated = 'path limit (%d)' % self.max_paths
                break
            if self.deadline and time.time() > self.deadline:
                self.truncated = 'time limit'
                break
            prefix = self.worklist.pop()
            n += 1
            path = Path(self, prefix)
            self.path = CURRENT = path
            res = {'status': 'ok', 'reason': None}
            exc = None
            try:
                run(path)
            except Control as e:
                exc = e
            except RecursionError as e:
                exc = Unsupported('RecursionError')
            if path.pending is not None:
                exc = path.pending
                path.pending = None
            if exc is not None:
                if isinstance(exc, Infeasible):
                    res['status'] = 'infeasible'
                elif isinstance(exc, PathLimit):
                    res['status'] = 'limit'
                    res['reason'] = str(exc)
                else:
                    res['status'] = 'unsupported'
                    res['reason'] = str(exc)
            if res['status'] == 'ok' and path.sampled:
                res['status'] = 'sampled'
                res['reason'] = path.sampled
            res['path'] = path
            yield res
            CURRENT = None
            self.path = None


CURRENT = None


def cur():
    if CURRENT is None:
        raise RuntimeError('no symbolic path active')
    return CURRENT
