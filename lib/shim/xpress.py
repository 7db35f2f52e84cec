"""
A stand-in for the part of the FICO Xpress Python API that the planner uses,
backed by scipy's HiGHS MILP solver. The commercial `xpress` package is not
installed in this sandbox, so without a stand-in none of the planner's ILP code
can execute at all. Only checks put this folder on sys.path.

Modelling semantics follow Xpress: variables default to [0, inf), comparison
operators build constraints, xp.Sum accepts any nesting of iterables and
dictionaries, setObjective minimises unless told otherwise.
"""
import math
import numbers

import numpy as np
from scipy.optimize import LinearConstraint, Bounds, milp
from scipy.sparse import csr_matrix

continuous = 0
binary = 1
integer = 2
minimize = "minimize"
maximize = "maximize"
infinity = math.inf

__version__ = "shim"

# Every solve is recorded here so that monitors can look at what was solved.
SOLVE_LOG = []


class _Ops:
    __array_priority__ = 1000
    __array_ufunc__ = None

    def _lin(self):
        raise NotImplementedError

    def __add__(self, o):
        return _combine(self, o, 1.0)

    __radd__ = __add__

    def __sub__(self, o):
        return _combine(self, o, -1.0)

    def __rsub__(self, o):
        return _combine(-self, o, 1.0)

    def __neg__(self):
        t, c = self._lin()
        return linterm({v: -a for v, a in t.items()}, -c)

    def __mul__(self, k):
        if isinstance(k, _Ops):
            kt, kc = k._lin()
            if not kt:
                k = kc
            else:
                t, c = self._lin()
                if not t:
                    return k * c
                raise TypeError("non-linear expression")
        k = float(k)
        t, c = self._lin()
        return linterm({v: a * k for v, a in t.items()}, c * k)

    __rmul__ = __mul__

    def __truediv__(self, k):
        return self * (1.0 / float(k))

    def __le__(self, o):
        return constraint(self - o, -math.inf, 0.0)

    def __ge__(self, o):
        return constraint(self - o, 0.0, math.inf)

    def __eq__(self, o):
        return constraint(self - o, 0.0, 0.0)

    def __ne__(self, o):
        return self is not o

    def __hash__(self):
        return id(self)


def _lin_of(o):
    if isinstance(o, _Ops):
        return o._lin()
    if isinstance(o, numbers.Number):
        return {}, float(o)
    raise TypeError(f"cannot use {type(o)} in an expression")


def _combine(a, b, sign):
    t, c = a._lin()
    bt, bc = _lin_of(b)
    t = dict(t)
    for v, k in bt.items():
        t[v] = t.get(v, 0.0) + sign * k
    return linterm(t, c + sign * bc)


class var(_Ops):
    def __init__(
        self,
        name=None,
        lb=0,
        ub=math.inf,
        threshold=None,
        vartype=continuous,
    ):
        if vartype == binary:
            lb, ub = max(lb, 0), min(ub, 1)
        self.name = name
        self.lb = lb
        self.ub = ub
        self.vartype = vartype

    def _lin(self):
        return {self: 1.0}, 0.0

    def __repr__(self):
        return f"var({self.name})"


class linterm(_Ops):
    def __init__(self, terms, const):
        self.terms = terms
        self.const = const

    def _lin(self):
        return self.terms, self.const


class constraint:
    def __init__(self, body, lb, ub):
        self.body = body
        self.lb = lb
        self.ub = ub


def _flatten(args):
    for a in args:
        if isinstance(a, (_Ops, constraint, numbers.Number)):
            yield a
        elif isinstance(a, dict):
            yield from _flatten(a.values())
        elif isinstance(a, np.ndarray):
            yield from _flatten(a.ravel().tolist())
        else:
            yield from _flatten(a)


def Sum(*args):
    terms = {}
    const = 0.0
    for a in _flatten(args):
        t, c = _lin_of(a)
        const += c
        for v, k in t.items():
            terms[v] = terms.get(v, 0.0) + k
    return linterm(terms, const)


class SolverError(Exception):
    pass


def evaluate(*args, problem=None, Solution=None):
    out = []
    for e in _flatten(args):
        t, c = _lin_of(e)
        out.append(c + sum(a * problem._x[problem._index[v]] for v, a in t.items()))
    return out


class _Attributes:
    def __init__(self, problem):
        self._p = problem

    @property
    def mipsols(self):
        return self._p._mipsols

    @property
    def lpstatus(self):
        return self._p._lpstatus

    @property
    def mipstatus(self):
        return self._p._mipstatus

    @property
    def objval(self):
        return self._p.getObjVal()

    @property
    def cols(self):
        return len(self._p._vars)

    @property
    def rows(self):
        return len(self._p._cons)


class problem:
    def __init__(self, *args, **kwargs):
        self._controls = {}
        self._name = None
        self._clear()

    def _clear(self):
        self._vars = []
        self._index = {}
        self._cons = []
        self._obj = linterm({}, 0.0)
        self._sense = minimize
        self._unstart()
        self.attributes = _Attributes(self)

    def _unstart(self):
        self._x = None
        self._objval = None
        self._mipsols = 0
        self._lpstatus = 0
        self._mipstatus = 0

    # model building -----------------------------------------------------
    def setprobname(self, name):
        self._name = name

    def setControl(self, key, value=None):
        if isinstance(key, dict):
            self._controls.update(key)
        else:
            self._controls[key] = value

    def getControl(self, key):
        return self._controls[key]

    def addVariable(self, *args):
        for v in _flatten(args):
            if not isinstance(v, var):
                raise TypeError("not a variable")
            if v in self._index:
                raise ValueError(f"variable {v.name} added twice")
            self._index[v] = len(self._vars)
            self._vars.append(v)

    def delVariable(self, *args):
        for v in _flatten(args):
            i = self._index.pop(v)
            self._vars.pop(i)
            self._index = {w: k for k, w in enumerate(self._vars)}
            for c in self._cons:
                c.body._lin()[0].pop(v, None)
        self._unstart()

    def addConstraint(self, *args):
        for c in _flatten_cons(args):
            self._cons.append(c)

    def delConstraint(self, *args):
        for c in _flatten_cons(args):
            for k, d in enumerate(self._cons):
                if d is c:
                    self._cons.pop(k)
                    break
            else:
                raise ValueError("constraint is not part of the problem")

    def setObjective(self, expr, sense=minimize):
        t, c = _lin_of(expr)
        self._obj = linterm(dict(t), c)
        self._sense = sense

    def reset(self):
        self._clear()

    # solving ------------------------------------------------------------
    def _assemble(self):
        n = len(self._vars)
        rows, cols, vals, lo, hi = [], [], [], [], []
        r = 0
        infeasible = False
        for c in self._cons:
            t, k = c.body._lin()
            t = {v: a for v, a in t.items() if a != 0.0}
            if not t:
                if k < c.lb - 1e-9 or k > c.ub + 1e-9:
                    infeasible = True
                continue
            for v, a in t.items():
                if v not in self._index:
                    raise SolverError(f"{v!r} is not part of the problem")
                rows.append(r)
                cols.append(self._index[v])
                vals.append(a)
            lo.append(c.lb - k)
            hi.append(c.ub - k)
            r += 1
        A = csr_matrix((vals, (rows, cols)), shape=(r, n))
        return A, np.array(lo), np.array(hi), infeasible

    def solve(self, *args, **kwargs):
        self._unstart()
        n = len(self._vars)
        A, lo, hi, infeasible = self._assemble()
        sign = -1.0 if self._sense == maximize else 1.0
        cvec = np.zeros(n)
        for v, a in self._obj.terms.items():
            if v not in self._index:
                raise SolverError(f"{v!r} is not part of the problem")
            cvec[self._index[v]] += sign * a
        integrality = np.array(
            [0 if v.vartype == continuous else 1 for v in self._vars]
        )
        is_mip = bool(integrality.any())
        lb = np.array([v.lb for v in self._vars], dtype=float)
        ub = np.array([v.ub for v in self._vars], dtype=float)
        status, x, fun = 2, None, None
        if not infeasible:
            if n == 0:
                status, x, fun = 0, np.zeros(0), 0.0
            else:
                options = {"presolve": True}
                maxtime = self._controls.get("maxtime")
                if maxtime:
                    options["time_limit"] = abs(float(maxtime))
                gap = self._controls.get("miprelstop")
                options["mip_rel_gap"] = float(gap) if gap else 1e-9
                scale = max(1.0, np.abs(cvec).max()) if n else 1.0
                # HiGHS' presolve now and then calls a feasible model
                # infeasible or stops at a poor solution: small models are
                # solved both ways and the better verified answer counts, and
                # an "infeasible" verdict needs a second opinion.
                best = None
                for attempt in range(3):
                    if best is not None and (
                        attempt == 2 or not is_mip or n > 2000
                    ):
                        break
                    opts = dict(options)
                    c_try = cvec / scale
                    if attempt == 1:
                        opts["presolve"] = False
                    elif attempt == 2:
                        c_try = cvec
                    res = milp(
                        c_try,
                        constraints=(
                            [LinearConstraint(A, lo, hi)] if A.shape[0] else []
                        ),
                        integrality=integrality,
                        bounds=Bounds(lb, ub),
                        options=opts,
                    )
                    status = res.status
                    if res.x is None or not np.isfinite(res.x).all():
                        continue
                    x = np.array(res.x, dtype=float)
                    x = np.where(
                        (integrality == 1) & (np.abs(x - np.round(x)) < 1e-5),
                        np.round(x),
                        x,
                    )
                    x = np.minimum(np.maximum(x, lb), ub)
                    off = 0.0
                    if A.shape[0]:
                        ax = A @ x
                        off = max(0.0, (lo - ax).max(), (ax - hi).max())
                    key = (off > 1e-5, float(cvec @ x))
                    if best is None or key < best[0]:
                        best = (key, x, status)
                x = None
                if best is not None:
                    (_, fun), x, status = best
        # scipy status: 0 optimal, 1 limit reached, 2 infeasible, 3 unbounded
        if x is not None:
            self._x = x.tolist()
            self._objval = sign * fun + self._obj.const
            self._mipsols = 1 if is_mip else 0
            self._lpstatus = 1
            self._mipstatus = (6 if status == 0 else 4) if is_mip else 0
        else:
            self._lpstatus = {1: 4, 2: 2, 3: 5}.get(status, 7)
            self._mipstatus = {1: 3, 2: 5, 3: 7}.get(status, 3)
        SOLVE_LOG.append(
            {
                "name": self._name,
                "cols": n,
                "rows": int(A.shape[0]),
                "status": int(status),
                "objective": self._objval,
            }
        )

    # results ------------------------------------------------------------
    def getSolution(self, *args):
        if self._x is None:
            raise SolverError("no solution is available")
        if not args:
            return list(self._x)
        out = [self._x[self._index[v]] for v in _flatten(args)]
        return out[0] if len(out) == 1 else out

    def getIndex(self, v):
        return self._index[v]

    def getObjVal(self):
        if self._objval is None:
            raise SolverError("no solution is available")
        return self._objval

    def getAttrib(self, name):
        return getattr(self.attributes, name)

    def getProbStatus(self):
        return self._mipstatus

    def write(self, path, flags=""):
        with open(path + ".lp", "w") as f:
            f.write(f"\\ {self._name}: {len(self._vars)} columns\n")


def _flatten_cons(args):
    for a in args:
        if isinstance(a, constraint):
            yield a
        elif isinstance(a, (bool, np.bool_)):
            raise TypeError("a plain truth value is not a constraint")
        elif isinstance(a, dict):
            yield from _flatten_cons(a.values())
        else:
            yield from _flatten_cons(a)
