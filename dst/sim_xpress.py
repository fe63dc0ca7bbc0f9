"""A simulated MIP solver with the slice of the FICO Xpress Python API that
terragraph_planner uses.

FICO Xpress is a licensed native library that is not available offline, so the
planner's ILP code (which is the real code under test) runs against this
stand-in.  Models are solved exactly with HiGHS (scipy.optimize.milp); a
FaultPlan, drawn by the simulator from the run's seed, decides what the planner
is told: an optimum, a feasible but poor incumbent, a timeout with or without an
incumbent, infeasible, a numerically sloppy point or an exception from the
library.

Only observable semantics are modelled (an incumbent is always a feasible point
of the model that was built; a "no solution" answer is something a real solver
with a wall-clock limit can always give).
"""
from __future__ import annotations

import sys
import types
from typing import Any, Callable, Dict, List, Optional

import numpy as np

binary = 1
integer = 2
continuous = 3
maximize = -1
minimize = 1
infinity = 1e20


class SolverError(Exception):
    pass


_var_counter = [0]


class _Base:
    __slots__ = ()
    __array_priority__ = 1000

    def _terms(self):
        raise NotImplementedError

    def __add__(self, o):
        return _add(self, o, 1.0)

    def __radd__(self, o):
        return _add(self, o, 1.0)

    def __sub__(self, o):
        return _add(self, o, -1.0)

    def __rsub__(self, o):
        return _add(self * -1.0, o, 1.0)

    def __neg__(self):
        return self * -1.0

    def __pos__(self):
        return self * 1.0

    def __mul__(self, k):
        if isinstance(k, _Base):
            t1, c1 = self._terms()
            t2, c2 = k._terms()
            if not t2:
                k = c2
            elif not t1:
                return k * c1
            else:
                raise SolverError("non-linear expression")
        k = float(k)
        t, c = self._terms()
        return expression({v: a * k for v, a in t.items()}, c * k)

    __rmul__ = __mul__

    def __truediv__(self, k):
        return self * (1.0 / float(k))

    def __le__(self, o):
        return constraint(self - o, -infinity, 0.0)

    def __ge__(self, o):
        return constraint(self - o, 0.0, infinity)

    def __eq__(self, o):
        return constraint(self - o, 0.0, 0.0)

    def __ne__(self, o):
        return not (self is o)

    def __bool__(self):
        return True

    __hash__ = object.__hash__


class expression(_Base):
    __slots__ = ("t", "c")
    __hash__ = object.__hash__

    def __init__(self, t=None, c=0.0):
        self.t: Dict["var", float] = t if t is not None else {}
        self.c = c

    def _terms(self):
        return self.t, self.c

    def __repr__(self):
        return " + ".join(f"{a:g}*{v.name}" for v, a in self.t.items()) + f" + {self.c:g}"


class var(_Base):
    __slots__ = ("name", "vartype", "lb", "ub", "uid", "__weakref__")

    def __init__(self, name=None, lb=0.0, ub=infinity, threshold=None, vartype=continuous):
        _var_counter[0] += 1
        self.uid = _var_counter[0]
        self.name = name or f"x{self.uid}"
        self.vartype = vartype
        if vartype == binary:
            lb = max(lb, 0.0)
            ub = min(ub, 1.0)
        self.lb = float(lb)
        self.ub = float(ub)

    def __hash__(self):
        return self.uid

    def _terms(self):
        return {self: 1.0}, 0.0

    def __repr__(self):
        return self.name


def _add(a, b, k):
    t, c = a._terms()
    t = dict(t)
    if isinstance(b, _Base):
        t2, c2 = b._terms()
        for v, x in t2.items():
            t[v] = t.get(v, 0.0) + k * x
        return expression(t, c + k * c2)
    return expression(t, c + k * float(b))


def Sum(*args):
    if len(args) == 1 and not isinstance(args[0], (_Base, int, float, np.number)):
        items = args[0]
    else:
        items = args
    if isinstance(items, dict):
        items = items.values()
    t: Dict[var, float] = {}
    c = 0.0

    def rec(it):
        nonlocal c
        for x in it:
            if isinstance(x, var):
                t[x] = t.get(x, 0.0) + 1.0
            elif isinstance(x, _Base):
                t2, c2 = x._terms()
                for v, a in t2.items():
                    t[v] = t.get(v, 0.0) + a
                c += c2
            elif isinstance(x, (list, tuple, set)):
                rec(x)
            elif isinstance(x, dict):
                rec(x.values())
            else:
                c += float(x)

    rec(items)
    return expression(t, c)


_con_counter = [0]


class constraint:
    def __init__(self, body, lo, hi):
        if not isinstance(body, expression):
            t, c = body._terms()
            body = expression(dict(t), c)
        self.body = body
        self.lo = lo
        self.hi = hi
        _con_counter[0] += 1
        self.uid = _con_counter[0]
        self.name = f"C{self.uid}"

    def __bool__(self):
        return True


class _Attr:
    def __init__(self):
        self.mipsols = 0
        self.lpstatus = 0
        self.mipstatus = 0


class _Controls:
    pass


# ---------------------------------------------------------------------------
# What the simulator installs

class SolveRecord:
    __slots__ = ("index", "name", "ncols", "nrows", "is_mip", "answer", "objective")

    def as_dict(self):
        return {k: getattr(self, k) for k in self.__slots__}


class SolverWorld:
    """The simulator's end of the solver seam."""

    def __init__(self, plan: Optional[Callable[[int, "problem"], str]] = None, rng=None,
                 clock=None):
        self.plan = plan or (lambda i, p: "optimal")
        self.twice = False  # confirm optimal answers by a second solve without presolve
        self.rng = rng
        self.clock = clock
        self.solves: List[SolveRecord] = []
        self.fault_counts: Dict[str, int] = {}

    def fired(self, kind):
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + 1


WORLD = SolverWorld()


def install_world(w: SolverWorld) -> None:
    global WORLD
    WORLD = w


class problem:
    def __init__(self, *a, **k):
        self.name = "p"
        self.controls = _Controls()
        self.attributes = _Attr()
        self._ctl: Dict[str, Any] = {}
        self.reset()

    # -- building
    def reset(self):
        self._vars: Dict[var, int] = {}
        self._cons: Dict[constraint, None] = {}
        self._const_infeasible = 0
        self._obj = expression()
        self._sense = minimize
        self._sol: Optional[List[float]] = None
        self._index: Optional[Dict[var, int]] = None
        self._objval = 0.0
        self.attributes = _Attr()

    def setprobname(self, n):
        self.name = n

    def setControl(self, *a):
        if len(a) == 1:
            self._ctl.update(a[0])
        else:
            self._ctl[a[0]] = a[1]

    def getControl(self, n):
        return self._ctl.get(n)

    def _flat(self, a):
        for x in a:
            if isinstance(x, (var, constraint, bool, np.bool_)):
                yield x
            elif isinstance(x, dict):
                yield from self._flat(x.values())
            elif x is None:
                continue
            else:
                yield from self._flat(x)

    def addVariable(self, *a):
        for v in self._flat(a):
            if not isinstance(v, var):
                raise SolverError("not a variable")
            if v in self._vars:
                raise SolverError(f"variable {v.name} already added")
            self._vars[v] = 1
            self._index = None

    def addConstraint(self, *a):
        for c in self._flat(a):
            if isinstance(c, (bool, np.bool_)):
                if not c:
                    self._const_infeasible += 1
                continue
            for v in c.body.t:
                if v not in self._vars:
                    raise SolverError(f"constraint uses unknown variable {v.name}")
            self._cons[c] = None

    def delConstraint(self, *a):
        for c in self._flat(a):
            if c not in self._cons:
                raise SolverError("constraint not in the problem")
            del self._cons[c]

    def delVariable(self, *a):
        for v in self._flat(a):
            if v not in self._vars:
                raise SolverError("variable not in the problem")
            for c in self._cons:
                c.body.t.pop(v, None)
            if isinstance(self._obj, expression):
                self._obj.t.pop(v, None)
            del self._vars[v]
            self._index = None

    def setObjective(self, e, sense=minimize):
        if isinstance(e, _Base):
            t, c = e._terms()
            self._obj = expression(dict(t), c)
        else:
            self._obj = expression({}, float(e))
        for v in self._obj.t:
            if v not in self._vars:
                raise SolverError(f"objective uses unknown variable {v.name}")
        self._sense = sense

    def write(self, path, flags=""):
        import builtins

        with builtins.open(path + ".lp", "w") as f:
            f.write(f"\\ {self.name}: {len(self._vars)} cols {len(self._cons)} rows\n")

    # -- solving
    def _solve_exact(self, obj_override=None, time_limit=60.0):
        from scipy.optimize import Bounds, LinearConstraint, milp
        from scipy.sparse import csr_matrix

        vs = list(self._vars)
        pos = {v: i for i, v in enumerate(vs)}
        n = len(vs)
        if self._const_infeasible:
            return None, "infeasible"
        if n == 0:
            return [], "optimal"
        sgn = 1.0 if self._sense == minimize else -1.0
        c = np.zeros(n)
        if obj_override is None:
            for v, a in self._obj.t.items():
                c[pos[v]] += sgn * a
        else:
            c = obj_override(n)
        rows, cols, data, lo, hi = [], [], [], [], []
        for r, con in enumerate(self._cons):
            for v, a in con.body.t.items():
                if a != 0.0:
                    rows.append(r)
                    cols.append(pos[v])
                    data.append(a)
            lo.append(con.lo - con.body.c if con.lo > -infinity else -np.inf)
            hi.append(con.hi - con.body.c if con.hi < infinity else np.inf)
        lb = np.array([v.lb if v.lb > -infinity else -np.inf for v in vs])
        ub = np.array([v.ub if v.ub < infinity else np.inf for v in vs])
        integ = np.array([0 if v.vartype == continuous else 1 for v in vs])
        cons = None
        if self._cons:
            A = csr_matrix((data, (rows, cols)), shape=(len(self._cons), n))
            cons = LinearConstraint(A, np.array(lo), np.array(hi))
        opts = {"time_limit": time_limit, "presolve": True}
        if integ.any():
            # the same contract the planner asks Xpress for
            rel = self._ctl.get("miprelstop")
            if rel is not None and rel > 0:
                opts["mip_rel_gap"] = min(float(rel), 0.05)
        res = milp(c, integrality=integ, bounds=Bounds(lb, ub), constraints=cons, options=opts)
        if (res.x is None and res.status in (2, 4)) or (res.x is not None and not self._obeys(res.x, cons)):
            # HiGHS' presolve can call a degenerate (exactly redundant
            # equalities) but feasible model infeasible, or return a point
            # that breaks a constraint: ask again without it
            opts["presolve"] = False
            res = milp(c, integrality=integ, bounds=Bounds(lb, ub), constraints=cons, options=opts)
        elif WORLD.twice and res.status == 0 and integ.any() and opts["presolve"]:
            # HiGHS' presolve can also cut off the optimum
            again = milp(c, integrality=integ, bounds=Bounds(lb, ub), constraints=cons,
                         options=dict(opts, presolve=False, time_limit=min(time_limit, 10.0)))
            if again.x is not None and again.fun < res.fun - 1e-7 and self._obeys(again.x, cons):
                res = again
        if res.x is None:
            if res.status == 3:
                return None, "unbounded"
            if res.status == 1:
                return None, "timelimit"
            return None, "infeasible"
        x = [float(t) for t in res.x]
        for i, v in enumerate(vs):
            if v.vartype != continuous:
                x[i] = float(round(x[i]))
        return x, "optimal"

    @staticmethod
    def _obeys(x, cons):
        if cons is None:
            return True
        v = cons.A @ x
        scale = 1e-5 * np.maximum(1.0, abs(cons.A) @ np.abs(x))
        return bool(np.all(v >= cons.lb - scale) and np.all(v <= cons.ub + scale))

    def solve(self, flags=""):
        w = WORLD
        idx = len(w.solves)
        rec = SolveRecord()
        rec.index = idx
        rec.name = self.name
        rec.ncols = len(self._vars)
        rec.nrows = len(self._cons)
        rec.is_mip = any(v.vartype != continuous for v in self._vars)
        rec.objective = None
        answer = w.plan(idx, self)
        rec.answer = answer
        w.solves.append(rec)
        self._sol = None
        self.attributes = _Attr()
        if w.clock is not None:
            w.clock.advance(1.0)
        if answer == "raise":
            w.fired("solver_exception")
            raise SolverError("?901 Error: simulated solver failure")
        if answer in ("timeout_nosol", "infeasible", "numerical"):
            w.fired("solver_" + answer)
            if w.clock is not None and answer == "timeout_nosol":
                w.clock.advance(abs(float(self._ctl.get("maxtime") or 60)))
            self.attributes.lpstatus = {"timeout_nosol": 0, "infeasible": 2, "numerical": 7}[answer]
            self.attributes.mipstatus = {"timeout_nosol": 3, "infeasible": 5, "numerical": 0}[answer]
            return
        override = None
        if answer in ("incumbent", "timeout_incumbent"):
            rng = w.rng
            k = rng.random() if rng is not None else 0.5

            def override(n, k=k, rng=rng):
                return np.array([(rng.random() - 0.5 if rng is not None else 0.0) for _ in range(n)])

        x, st = self._solve_exact(override)
        if st == "unbounded" and override is not None:
            # a random direction may be unbounded although the model is not
            x, st = self._solve_exact(lambda n: np.zeros(n))
        if x is None:
            self.attributes.lpstatus = {"infeasible": 2, "unbounded": 5, "timelimit": 0}[st]
            self.attributes.mipstatus = {"infeasible": 5, "unbounded": 7, "timelimit": 3}[st]
            rec.answer = f"{answer}/{st}"
            return
        if answer == "slop":
            w.fired("solver_slop")
            rng = w.rng
            for i, v in enumerate(self._vars):
                if v.vartype != continuous:
                    e = rng.random() * 9e-7
                    x[i] = x[i] - e if x[i] > 0.5 else x[i] + e
        elif answer in ("incumbent", "timeout_incumbent"):
            w.fired("solver_" + answer)
            if w.clock is not None and answer == "timeout_incumbent":
                w.clock.advance(abs(float(self._ctl.get("maxtime") or 60)))
        self._sol = x
        pos = {v: i for i, v in enumerate(self._vars)}
        self._objval = self._obj.c + sum(a * x[pos[v]] for v, a in self._obj.t.items())
        rec.objective = round(self._objval, 6)
        self.attributes.lpstatus = 1
        self.attributes.mipsols = 1
        self.attributes.mipstatus = 4 if answer == "timeout_incumbent" else 6

    # -- reading
    def getSolution(self, *a):
        if self._sol is None:
            raise SolverError("no solution available")
        if a:
            out = [self._sol[self.getIndex(v)] for v in self._flat(a)]
            return out[0] if len(a) == 1 and isinstance(a[0], var) else out
        return list(self._sol)

    def getIndex(self, v):
        if self._index is None:
            self._index = {u: i for i, u in enumerate(self._vars)}
        if not isinstance(v, var) or v not in self._index:
            raise SolverError("unknown variable")
        return self._index[v]

    def getObjVal(self):
        return self._objval

    def getAttrib(self, name):
        return getattr(self.attributes, name)


def evaluate(e, problem=None):
    """xp.evaluate(expr, problem=p) -> list of values"""
    vals = {v: x for v, x in zip(problem._vars, problem._sol)}
    if isinstance(e, (list, tuple)):
        return [evaluate(x, problem)[0] for x in e]
    if not isinstance(e, _Base):
        return [float(e)]
    t, c = e._terms()
    return [c + sum(a * vals[v] for v, a in t.items())]


def install() -> None:
    """Put this module in sys.modules as ``xpress``."""
    m = types.ModuleType("xpress")
    for k, v in globals().items():
        if not k.startswith("_"):
            setattr(m, k, v)
    m.__file__ = __file__
    sys.modules["xpress"] = m
