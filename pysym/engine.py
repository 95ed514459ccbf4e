"""Symbolic execution core: path exploration with z3 as the deciding solver.

A *harness* is an ordinary Python function ``harness(ctx)``.  It is executed
repeatedly; each execution follows one feasible path.  Branches on symbolic
values are decided by z3 (both sides are asked for feasibility; if both are
feasible the path forks).  ``ctx.check`` asks z3 for a counterexample to the
asserted condition under the current path condition.
"""

import time

import z3

from . import zcache

zcache.install()


class PathSteering(BaseException):
    """Base of exceptions which steer path exploration"""


REFUTED = object()


class PathAbort(PathSteering):
    """The rest of the path is infeasible (assumption excluded it)"""


class Violation(PathSteering):
    """A check failed on this path (a candidate counterexample)"""

    def __init__(self, msg, model):
        super().__init__(msg)
        self.msg = msg
        self.model = model


class Limitation(PathSteering):
    """The engine can not continue symbolically on this path"""


class Hang(PathSteering, KeyboardInterrupt):
    """No progress on this path (not handled by event loop's tasks)"""


class Unknown(PathSteering):
    """Query not decided by the solver: this path is cut"""


class Inconclusive(PathSteering):
    """Solver gave unknown, time budget exceeded or path limit reached"""


class EngineError(PathSteering):
    """Internal error (non-deterministic harness, ...)"""


current = None    # active Engine


class Stats:

    def __init__(self):
        self.paths = 0
        self.aborted = 0
        self.cut = 0
        self.decisions = 0
        self.forced = 0
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.checks = 0
        self.checks_proved = 0
        self.checks_trivial = 0
        self.solver_s = 0.0
        self.retries = 0


class Engine:

    def __init__(self, deadline=None, max_paths=None, query_timeout_ms=60000):
        self.solver = z3.Solver()
        self.query_timeout_ms = query_timeout_ms
        self.solver.set('timeout', 3000)
        self._last = self.solver
        self.solver.set('random_seed', 1)
        self.deadline = deadline
        self.max_paths = max_paths
        self.stats = Stats()
        self.trail = []      # [kind, value, cond_id, has_alternative]
        self.pos = 0
        self.float_ops = []
        self.inputs = {}     # name -> (kind, z3 expr)
        self.fresh = 0
        self.pending_error = None

    # --- solver -----------------------------------------------------------

    def _check(self, *assumptions):
        t0 = time.monotonic()
        res = self.solver.check(*assumptions)
        self._last = self.solver
        if res == z3.unknown:
            # incremental core gave up: one-shot solvers on the same query
            for make, seed, part in ((z3.Solver, 0, 3), (z3.SimpleSolver, 0, 6),
                                     (z3.Solver, 7, 6), (z3.Solver, 23, 6),
                                     (z3.Solver, 0, 1)):
                s = make()
                s.set('timeout', self.query_timeout_ms // part)
                s.set('random_seed', seed)
                s.add(*self.solver.assertions())
                s.add(*assumptions)
                res = s.check()
                self._last = s
                self.stats.retries += 1
                if res != z3.unknown:
                    break
        self.stats.solver_s += time.monotonic() - t0
        self.stats.queries += 1
        zcache.check_errors()
        if self.deadline is not None and time.monotonic() > self.deadline:
            raise self._err(Inconclusive('time budget exhausted'))
        if res == z3.sat:
            self.stats.sat += 1
            return True
        if res == z3.unsat:
            self.stats.unsat += 1
            return False
        raise self._err(Unknown(
            f'solver: unknown ({self._last.reason_unknown()})'))

    def _err(self, e):
        # steering exceptions raised inside asyncio tasks get swallowed by the
        # task; they are remembered and re-raised by the driver
        if self.pending_error is None:
            self.pending_error = e
        return e

    # --- path exploration ---------------------------------------------------

    def start_path(self):
        self.pos = 0
        self.inputs = {}
        self.float_ops = []
        self.fresh = 0
        self.pending_error = None
        self.decided = {}    # id of condition -> (condition, value)
        self.stats.paths += 1

    def backtrack(self):
        """Prepare next path; False if exploration is complete"""
        while self.trail:
            kind, value, cond, alt = self.trail[-1]
            if kind == 'b':
                self.solver.pop()
                if alt:
                    self.solver.push()
                    neg = z3.Not(cond) if value else cond
                    self.solver.add(neg)
                    self.trail[-1] = ('b', not value, cond, False)
                    return True
            elif kind == 'a':
                self.solver.pop()
            self.trail.pop()
        return False

    def splittable(self):
        """Index of decision with the greatest unexplored part or None"""
        for i, (kind, value, cond, alt) in enumerate(self.trail):
            if kind == 'b' and alt:
                return i
        return None

    def drop(self, i):
        """Alternative of decision i is explored by another process"""
        self.trail[i] = (*self.trail[i][:3], False)

    def keep(self, i):
        """Only the alternative of decision i is left to this process"""
        while len(self.trail) > i + 1:
            if self.trail.pop()[0] in 'ab':
                self.solver.pop()
        self.stats = Stats()

    def branch(self, cond):
        """Decide truth of z3 Bool `cond` on this path"""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pending_error is not None:
            raise self.pending_error
        known = self.decided.get(cond.get_id())
        if known is not None:
            return known[1]
        value = self._branch(cond)
        self.decided[cond.get_id()] = cond, value
        return value

    def _branch(self, cond):
        if self.pos < len(self.trail):
            kind, value, rcond, _ = self.trail[self.pos]
            if kind not in 'bf' or not rcond.eq(cond):
                raise self._err(EngineError(
                    f'non-deterministic harness: {rcond} vs {cond}'))
            self.pos += 1
            return value
        self.stats.decisions += 1
        can_true = self._check(cond)
        can_false = self._check(z3.Not(cond)) if can_true else True
        if can_true and can_false:
            self.solver.push()
            self.solver.add(cond)
            self.trail.append(('b', True, cond, True))
            value = True
        else:
            value = can_true
            self.stats.forced += 1
            self.trail.append(('f', value, cond, False))
        self.pos += 1
        return value

    def assume(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if self.pending_error is not None:
            raise self.pending_error
        if self.pos < len(self.trail):
            kind, value, rcond, _ = self.trail[self.pos]
            if kind != 'a' or not rcond.eq(cond):
                raise self._err(EngineError('non-deterministic harness'))
            self.pos += 1
            return
        if z3.is_false(cond) or not self._check(cond):
            raise self._err(PathAbort())
        self.solver.push()
        self.solver.add(cond)
        self.trail.append(('a', True, cond, False))
        self.pos += 1

    def declare(self, name, kind, expr, constraints=()):
        if name in self.inputs:
            raise self._err(EngineError(f'duplicate input {name}'))
        self.inputs[name] = (kind, expr)
        # range constraints of a fresh variable are satisfiable: no query
        if not constraints:
            return
        cond = z3.And(*constraints)
        if self.pos < len(self.trail):
            kind, value, rcond, _ = self.trail[self.pos]
            if kind != 'a' or not rcond.eq(cond):
                raise self._err(EngineError('non-deterministic harness'))
            self.pos += 1
            return
        self.solver.push()
        self.solver.add(cond)
        self.trail.append(('a', True, cond, False))
        self.pos += 1

    def check(self, cond, msg):
        """Assert z3 Bool; raises Violation with a model if refutable"""
        if self.pending_error is not None:
            raise self.pending_error
        self.stats.checks += 1
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            self.stats.checks_trivial += 1
            self.stats.checks_proved += 1
            return
        if self._check(z3.Not(cond)):
            m = self.refine(z3.Not(cond))
            if m is None:
                raise self._err(Inconclusive(
                    f'counterexample only with inexact floats: {msg}'))
            if m is not REFUTED:
                raise self._err(Violation(msg, m))
        self.stats.checks_proved += 1

    def fail(self, msg):
        """Unconditional failure on a feasible path"""
        if self.pending_error is not None:
            raise self.pending_error
        self.stats.checks += 1
        self.model()
        m = self.refine(z3.BoolVal(True))
        if m is None:
            raise self._err(Inconclusive(
                f'counterexample only with inexact floats: {msg}'))
        if m is REFUTED:
            raise self._err(PathAbort())
        raise self._err(Violation(msg, m))

    def model(self, *extra):
        if not self._check(*extra):
            raise self._err(EngineError('path condition unsatisfiable'))
        return self._last.model()

    def exact_model(self):
        """Model realizable by IEEE doubles or None"""
        self.model()
        m = self.refine(z3.BoolVal(True))
        return None if m is REFUTED else m

    def entails(self, cond):
        """True if path condition implies cond (recorded: deterministic)"""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.trail):
            kind, value, rcond, _ = self.trail[self.pos]
            if kind != 'q' or not rcond.eq(cond):
                raise self._err(EngineError('non-deterministic harness'))
            self.pos += 1
            return value
        value = not self._check(z3.Not(cond))
        self.trail.append(('q', value, cond, False))
        self.pos += 1
        return value

    def concretize(self, expr, limit=64):
        """Fork over all feasible values of Int expr; returns Python int"""
        expr = z3.simplify(expr)
        if z3.is_int_value(expr):
            return expr.as_long()
        for _ in range(limit):
            # deterministic on replay: values come from the trail
            if self.pos < len(self.trail):
                kind, value, rcond, _ = self.trail[self.pos]
                if kind == 'v':
                    self.pos += 1
                    v = value
                    if not rcond.eq(expr):
                        raise self._err(
                            EngineError('non-deterministic harness'))
                else:
                    raise self._err(EngineError('non-deterministic harness'))
            else:
                m = self.model()
                v = m.eval(expr, model_completion=True).as_long()
                self.trail.append(('v', v, expr, False))
                self.pos += 1
            if self.branch(expr == v):
                return v
        raise self._err(Limitation(f'concretization of {expr} exceeds limit'))

    def concretize_with(self, expr, key, cond, limit=200):
        """Fork over values key(v) of Real expr, constrained by cond(key)"""
        expr = z3.simplify(expr)
        for _ in range(limit):
            if self.pos < len(self.trail):
                kind, value, rcond, _ = self.trail[self.pos]
                if kind != 'v' or not rcond.eq(expr):
                    raise self._err(EngineError('non-deterministic harness'))
                v = value
            else:
                m = self.model()
                v = key(m.eval(expr, model_completion=True))
                self.trail.append(('v', v, expr, False))
            self.pos += 1
            if self.branch(cond(v)):
                return v
        raise self._err(Limitation('concretization exceeds limit'))

    def fresh_int(self, prefix):
        self.fresh += 1
        return z3.Int(f'{prefix}!{self.fresh}')

    def fresh_real(self, prefix):
        self.fresh += 1
        return z3.Real(f'{prefix}!{self.fresh}')

    def refine(self, goal, tries=200):
        """Model of `goal` with exact rounding of all float operations, None
        if not decided, REFUTED if there is none.

        Exponents of results are fixed to those of a candidate, which makes
        rounding exact (but for ties) in linear arithmetic. Combinations of
        exponents are tried until there are no others."""
        if not self.float_ops:
            return self._last.model()
        extra = []
        for _ in range(tries):
            model = self._last.model()
            while True:
                pins = [e == model.eval(e, model_completion=True)
                        for _, e in self.inputs.values()]
                m = self._pinned(goal, pins)
                if m is not None:
                    return m
                cell, exact = self._exact(model)
                if not self._check(goal, *extra, *cell, *exact,
                                   z3.Not(z3.And(*pins))):
                    break
                model = self._last.model()
                extra.append(z3.Not(z3.And(*pins)))
                m = self._pinned(goal, [
                    e == model.eval(e, model_completion=True)
                    for _, e in self.inputs.values()])
                if m is not None:
                    return m
                if len(extra) > tries:
                    return None
            extra.append(z3.Not(z3.And(*cell)))
            if not self._check(goal, *extra):
                return REFUTED
        return None

    def _pinned(self, goal, pins):
        """Model with given inputs and exact rounding or None"""
        from .floats import _frac, exact_round
        ops = []
        for x, r in self.float_ops:
            if not self._check(*pins, *ops):
                return None
            v = self._last.model().eval(x, model_completion=True)
            f = exact_round(_frac(z3.simplify(v)))
            ops.append(r == z3.Q(f.numerator, f.denominator))
        if self._check(goal, *pins, *ops):
            return self._last.model()
        return None

    def _exact(self, model):
        """Exponent ranges of float operations in model, and conditions for
        rounding to nearest (up to ties) in those ranges"""
        from .floats import _frac, floor_log2, pow2
        cell, exact = [], []
        for n, (x, r) in enumerate(self.float_ops):
            v = _frac(z3.simplify(model.eval(x, model_completion=True)))
            if v == 0:
                cell.append(x == 0)
                exact.append(r == 0)
                continue
            e = floor_log2(abs(v))
            a = x if v > 0 else -x
            cell.append(z3.And(pow2(e) <= a, a < pow2(e + 1)))
            k = z3.Int(f'_mant{n}')
            half = pow2(e - 53)
            exact.append(z3.And(r == z3.ToReal(k) * pow2(e - 52),
                                r - x <= half, x - r <= half))
        return cell, exact

    def assume_def(self, cond):
        """Total definition of fresh variables: no feasibility query"""
        if self.pos < len(self.trail):
            kind, value, rcond, _ = self.trail[self.pos]
            if kind != 'a' or not rcond.eq(cond):
                raise self._err(EngineError('non-deterministic harness'))
            self.pos += 1
            return
        self.solver.push()
        self.solver.add(cond)
        self.trail.append(('a', True, cond, False))
        self.pos += 1

    def input_values(self, model):
        out = {}
        for name, (kind, expr) in self.inputs.items():
            v = model.eval(expr, model_completion=True)
            if kind == 'bool':
                out[name] = z3.is_true(v)
            else:
                out[name] = v.as_long()
        return out
