"""Path exploration: depth-first over branch decisions, each decided by z3; re-execution from the start for every path."""
import random
from time import monotonic as _mono
import z3

from .lin import Lin


class Control(BaseException):
    """Steers the exploration; never visible to the code under test."""


class PathAbort(Control):
    """The path is infeasible (an assumption cannot hold)."""


class PathEnd(Control):
    """The harness is finished with this path."""


class Unsupported(Control):
    """The encoding does not cover an operation; the path is inconclusive."""


class Budget(Control):
    """Time budget of the case is used up."""


class StopCase(Control):
    """A violation has been confirmed; no need to explore further."""


class Entry:
    __slots__ = ("kind", "choice", "pushed", "alt", "expr", "tried", "facts")

    def __init__(self, kind, choice, pushed=False, alt=None, expr=None, tried=None):
        self.kind, self.choice, self.pushed, self.alt = kind, choice, pushed, alt
        self.expr, self.tried = expr, tried
        self.facts = None


import os
SLOW = float(os.environ.get("SYMEX_SLOW", "0"))
CUR = None  # the engine of this process


def cur():
    return CUR


def term_vars(z):
    out, stack, seen = [], [z], set()
    while stack and len(seen) < 1500:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        stack.extend(x.children())
    return out


class Engine:
    def __init__(self, deadline, query_timeout_ms=20000, conc_cap=400, seed=1, max_paths=10**9):
        global CUR
        CUR = self
        self.solver = z3.SolverFor("QF_BV")
        self.solver.set("timeout", query_timeout_ms)
        self.timeout = query_timeout_ms
        self.rng = random.Random(seed)
        try:
            self.solver.set("random_seed", seed)
        except z3.Z3Exception:
            pass
        self.deadline = deadline
        self.conc_cap = conc_cap
        self.max_paths = max_paths
        self.stats = dict(paths=0, aborted=0, inconclusive=0, branches=0, forced=0, queries=0, checks=0,
                          checks_trivial=0, checks_unsat=0, checks_unknown=0, solver_s=0.0, concretised=0)
        self.incomplete = set()
        self.unsupported = {}
        self.functions = set()
        self.trace = []
        self.facts = {}
        self.negs = {}
        self.smemo = {}
        self.on_violation = None
        self.on_path_end = None
        self.on_unsupported = None
        self.on_budget = None
        self.lin = Lin()

    # ------------------------------------------------------------- solver
    def _check(self):
        t = _mono()
        if t > self.deadline:
            raise Budget()
        r = self.solver.check()
        self.stats["queries"] += 1
        self.stats["solver_s"] += _mono() - t
        if SLOW and _mono() - t > SLOW:
            import sys
            print("SLOW %.1fs %s %s" % (_mono() - t, r, str(self.solver.assertions()[-1])[:1500].replace("\n", " ")), [l for l in self.log][-3:], file=sys.stderr)
        return r

    def _need_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self.solver.model()
            elif r == z3.unsat:
                raise PathAbort()
            else:
                self.incomplete.add("solver returned unknown")
                raise Unsupported("unknown")
        return self.model

    def _repair(self, old, cond):
        """look for a model near the previous one that also satisfies the new assumption (a quick way to a model, never a verdict)"""
        vs = term_vars(cond)
        if len(vs) < 6:
            return
        s = self.solver
        decls = [d for d in old.decls() if d.arity() == 0]
        s.set("timeout", 1000)
        try:
            for k in (1, 1, 2, 3, 5):
                free = {v.decl().get_id() for v in self.rng.sample(vs, min(k, len(vs)))}
                s.push()
                try:
                    s.add(*[d() == old[d] for d in decls if d.get_id() not in free])
                    self.stats["queries"] += 1
                    if s.check() == z3.sat:
                        self.model = s.model()
                        return
                finally:
                    s.pop()
        finally:
            s.set("timeout", self.timeout)

    def _push(self, c):
        self.solver.push()
        self.solver.add(c)

    # ------------------------------------------------------------- facts established on the current path, by term
    def _learn(self, entry, c):
        new = []
        stack = [c]
        while stack:
            x = stack.pop()
            v = True
            while z3.is_not(x):
                x = x.arg(0)
                v = not v
            if v and z3.is_and(x) or not v and z3.is_or(x):
                stack.extend(x.children() if v else [z3.Not(k) for k in x.children()])
            i = x.get_id()
            if i not in self.facts:
                self.facts[i] = (v, x)
                new.append(i)
                if not v and self.lin.has_xor(x) and (z3.is_and(x) or z3.is_eq(x)):
                    self.negs[i] = x
                if v and z3.is_eq(x) and z3.is_bv(x.arg(0)):
                    for h in self.lin.add(x):
                        new.append(~h)
                    h = self.lin.add_sum(x)
                    if h is not None:
                        new.append(h)
        entry.facts = new if entry.facts is None else entry.facts + new

    def _forget(self, entry):
        if entry.facts:
            for i in entry.facts:
                if type(i) is tuple:
                    self.lin.sums.pop(i, None)
                elif i < 0:
                    self.lin.sys.pop(~i, None)
                else:
                    self.facts.pop(i, None)
                    self.negs.pop(i, None)
        entry.facts = None

    def known(self, c):
        v = True
        while z3.is_not(c):
            c = c.arg(0)
            v = not v
        f = self.facts.get(c.get_id())
        if f is None:
            if z3.is_eq(c) and z3.is_bv(c.arg(0)):
                r = self.lin.implied(c)
                if r is not None:
                    return r == v
            elif z3.is_and(c):
                r = [self.known(x) for x in c.children()]
                if all(x is True for x in r):
                    return v
                if any(x is False for x in r):
                    return not v
            else:
                return None
            if self.negs and self.lin.has_xor(c) and self.lin.refuted(c, self.negs.values()):
                return not v
            return None
        return f[0] == v

    def residue(self, cond):
        """the conjuncts of cond that are not established facts of this path"""
        out, stack = [], [cond]
        while stack:
            x = stack.pop()
            if z3.is_and(x):
                stack.extend(x.children())
                continue
            x = self.simp(x)
            if z3.is_true(x):
                continue
            k = self.known(x)
            if k is None and z3.is_and(x):
                stack.extend(x.children())
                continue
            if k is not True:
                out.append(x)
        if not out:
            return True
        return out[0] if len(out) == 1 else z3.And(*out)

    # ------------------------------------------------------------- decisions
    def _guard(self):
        if self.dead is not None:
            raise self.dead
        if _mono() > self.deadline:
            self.die(Budget())

    def die(self, exc):
        self.dead = exc
        raise exc

    def simp(self, c):
        k = c.get_id()
        r = self.smemo.get(k)
        if r is not None:
            return r[1]
        o = c
        c = z3.simplify(c)
        if self.lin.has_xor(c):
            c = self.lin.norm(c)
            for x in c.children() if z3.is_and(c) else ():
                self.smemo[x.get_id()] = (x, x)
            self.smemo[c.get_id()] = (c, c)
        if len(self.smemo) > 100000:
            self.smemo.clear()
        self.smemo[k] = (o, c)
        return c

    def branch(self, cond):
        """cond: z3 Bool. Returns a python bool; both feasible sides are explored."""
        if self.dead is not None:
            raise self.dead
        if self.pos < len(self.trace):
            e = self.trace[self.pos]
            assert e.kind == "b", (e.kind, "b")
            self.pos += 1
            return e.choice
        self._guard()
        cond = self.simp(cond)
        if z3.is_true(cond) or z3.is_false(cond):
            b = z3.is_true(cond)
            self.trace.append(Entry("b", b))
            self.pos += 1
            return b
        b = self.known(cond)
        if b is not None:
            self.trace.append(Entry("b", b))
            self.pos += 1
            return b
        try:
            m = self._need_model()
        except Control as e:
            self.die(e)
        b = z3.is_true(m.eval(cond, model_completion=True))
        self.stats["branches"] += 1
        neg = z3.Not(cond)
        side, other = (cond, neg) if b else (neg, cond)
        self._push(other)
        try:
            r = self._check()
            om = self.solver.model() if r == z3.sat else None
        except Budget as e:
            self.solver.pop()
            self.die(e)
        self.solver.pop()
        if r == z3.unsat:
            self.stats["forced"] += 1
            e = Entry("b", b)
            self._learn(e, side)
            self.trace.append(e)
        else:
            if r == z3.unknown:
                self.incomplete.add("solver returned unknown")
            self._push(side)
            e = Entry("b", b, True, (not b, other, om))
            self._learn(e, side)
            self.trace.append(e)
        self.pos += 1
        return b

    def assume(self, cond, raw=False):
        """raw: a large constraint that only the solver needs to know"""
        if self.dead is not None:
            raise self.dead
        if cond is True:
            return
        if cond is False:
            self.die(PathAbort())
        if self.pos < len(self.trace):
            e = self.trace[self.pos]
            assert e.kind == "a", (e.kind, "a")
            self.pos += 1
            return
        if not raw:
            cond = self.simp(cond)
        if z3.is_true(cond):
            self.trace.append(Entry("a", None))
            self.pos += 1
            return
        self._push(cond)
        e = Entry("a", None, True)
        if not raw:
            self._learn(e, cond)
        self.trace.append(e)
        self.pos += 1
        if self.model is not None and not z3.is_true(self.model.eval(cond, model_completion=True)):
            old, self.model = self.model, None
            try:
                self._repair(old, cond)
                self._need_model()
            except Control as e:
                self.die(e)

    def concretise(self, z):
        """z: BitVec term -> python int (unsigned); all feasible values are explored (up to the cap)."""
        if self.dead is not None:
            raise self.dead
        if self.pos < len(self.trace):
            e = self.trace[self.pos]
            assert e.kind == "c", (e.kind, "c")
            self.pos += 1
            return e.choice
        self._guard()
        try:
            m = self._need_model()
        except Control as e:
            self.die(e)
        v = m.eval(z, model_completion=True).as_long()
        self._push(z == v)
        self.stats["concretised"] += 1
        self.trace.append(Entry("c", v, True, None, z, [v]))
        self.pos += 1
        return v

    def check(self, cond, label):
        """Assert cond on this path. cond: python bool or z3 Bool."""
        if self.dead is not None:
            raise self.dead
        if self.pos < len(self.trace):
            e = self.trace[self.pos]
            assert e.kind == "k", (e.kind, "k", label)
            self.pos += 1
            return
        self._guard()
        self.stats["checks"] += 1
        self.reached.add(label)
        if not isinstance(cond, bool):
            cond = self.simp(cond)
            if z3.is_true(cond):
                cond = True
            elif z3.is_false(cond):
                cond = False
            else:
                cond = self.residue(cond)
        if cond is True:
            self.stats["checks_trivial"] += 1
            self.trace.append(Entry("k", None))
            self.pos += 1
            return
        if cond is False:
            try:
                m = self._need_model()
            except Control as e:
                self.die(e)
            self.trace.append(Entry("k", None))
            self.pos += 1
            self._violation(m, label)
            self.die(PathEnd())
        self._push(z3.Not(cond))
        try:
            r = self._check()
            m = self.solver.model() if r == z3.sat else None
            if r == z3.sat:
                self._violation(m, label)
        except Control as e:
            self.solver.pop()
            self.die(e)
        self.solver.pop()
        if r == z3.unsat:
            self.stats["checks_unsat"] += 1
            e = Entry("k", None)
            self._learn(e, cond)
            self.trace.append(e)
            self.pos += 1
            return
        if r == z3.unknown:
            self.stats["checks_unknown"] += 1
            self.incomplete.add("unknown for check " + label)
            self.trace.append(Entry("k", None))
            self.pos += 1
            return
        self._push(cond)
        self.trace.append(Entry("k", None, True))
        self.pos += 1
        self.model = None
        try:
            self._need_model()
        except Control as e:
            self.die(PathEnd())

    def _violation(self, m, label):
        """called with the negated assertion on the solver's stack"""
        if self.on_violation is not None:
            self.on_violation(m, label)

    # ------------------------------------------------------------- loop
    def explore(self, fn):
        self.reached = set()
        self.trace = []
        self.model = None
        self.start = _mono()
        try:
            while True:
                self.pos = 0
                self.dead = None
                self.begin_path()
                try:
                    try:
                        fn()
                        st = "paths"
                    finally:
                        pass
                    if self.dead is not None:  # swallowed by the code under test
                        raise self.dead
                except PathEnd:
                    st = "paths"
                except PathAbort:
                    st = "aborted"
                except Unsupported as e:
                    st = "inconclusive"
                    k = str(e)[:200]
                    self.unsupported[k] = self.unsupported.get(k, 0) + 1
                self.stats[st] += 1
                if st == "paths" and self.on_path_end:
                    self.on_path_end()
                if st == "inconclusive" and self.on_unsupported:
                    self.on_unsupported()
                if self.stats["paths"] + self.stats["inconclusive"] >= self.max_paths:
                    self.incomplete.add("path cap")
                    break
                if not self._backtrack():
                    break
        except Budget:
            self.incomplete.add("time budget of the case used up")
            if self.on_budget:
                try:
                    self.on_budget()
                except StopCase:
                    pass
        except StopCase:
            pass

    def begin_path(self):
        random.seed(1)
        if len(self.lin.keep) > 300000:
            self.lin = Lin()
        self.inputs = []
        self.names = {}
        self.log = []
        self.patches = []
        self.fresh = 0
        self.markers = []
        self.tables = {}

    def _backtrack(self):
        tr = self.trace
        while tr:
            e = tr[-1]
            self._forget(e)
            if e.pushed:
                self.solver.pop()
            if e.kind == "b" and e.alt is not None:
                choice, cons, model = e.alt
                e.alt = None
                e.choice = choice
                self._push(cons)
                self._learn(e, cons)
                self.model = model
                return True
            if e.kind == "c":
                if len(e.tried) >= self.conc_cap:
                    self.incomplete.add("concretisation cap")
                else:
                    self._push(z3.And(*[e.expr != v for v in e.tried]))
                    r = self._check()
                    m = self.solver.model() if r == z3.sat else None
                    self.solver.pop()
                    if r == z3.sat:
                        v = m.eval(e.expr, model_completion=True).as_long()
                        e.tried.append(v)
                        e.choice = v
                        self._push(e.expr == v)
                        self.model = m
                        return True
                    if r == z3.unknown:
                        self.incomplete.add("solver returned unknown")
            tr.pop()
        return False

    # ------------------------------------------------------------- names
    def uniq(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else "%s#%d" % (name, n)
