"""Scenarios: one description of (inputs, preconditions, specification), interpreted symbolically and concretely."""
import hashlib
import json
import math
import random
import time
import traceback
from fractions import Fraction

import z3

from . import engine as E
from .engine import SymInt, V, zint, zreal
from .model import MissingVariable, View, pyomo_view, sym_row, sym_view
from .prover import Result, Theory, check_unsat, push_ite

EPS = Fraction('0.00001')


class P:
    """A numeric input parameter: `.user` goes to the code under verification, `.at(i)` is its mathematical value."""

    def __init__(self, user, at, name, vec):
        self.user, self._at, self.name, self.vec = user, at, name, vec

    def at(self, i=0):
        return self._at(zint(i))

    __call__ = at

    @property
    def s(self):
        return self.at(0)


class Clause:
    def __init__(self, name, body, lo=None, hi=None, neigh=(0, -1, 1), tag=None):
        """body: z3 formula (lo is None) or function t -> formula, for t in [lo,hi). `rel`: relaxed version for goals."""
        self.name, self.body, self.lo, self.hi, self.tag = name, body, lo, hi, tag


# relational atoms that can be relaxed by a tolerance when they are goals over floating point coefficients
class Atoms:
    tol = None

    @classmethod
    def eq(cls, a, b):
        if cls.tol is None:
            return a == b
        return z3.And(a <= b + cls.tol, a >= b - cls.tol)

    @classmethod
    def le(cls, a, b):
        return a <= b if cls.tol is None else a <= b + cls.tol

    @classmethod
    def ge(cls, a, b):
        return cls.le(b, a)


EQ, LE, GE = Atoms.eq, Atoms.le, Atoms.ge


def BIN(x):
    """x is a binary variable that is 1 (robust against the tolerance)."""
    return x >= z3.RealVal('1/2')


class Spec(list):
    def forall(self, name, lo, hi, body, tag=None):
        self.append(Clause(name, body, zint(lo), zint(hi), tag=tag))

    def lemma(self, name, lo, hi, body):
        """A consequence of the specification that needs induction over the steps (proved, then used for completeness)."""
        self.append(Clause(name, body, zint(lo), zint(hi), tag='lemma'))

    def fact(self, name, thunk, tag=None):
        """thunk: () -> formula (evaluated lazily so that tolerances apply)."""
        self.append(Clause(name, thunk, tag=tag))


# --------------------------------------------------------------------------------------------------------------------
class BaseEnv:
    symbolic = False

    def SUM(self, lo, hi, fn):
        raise NotImplementedError


class SymEnv(BaseEnv):
    symbolic = True

    def __init__(self, c, nmin=2, fixed_n=None):
        self.c = c
        if fixed_n is None:
            self.n = z3.Int('N')
            c.assumptions.append(self.n >= nmin)
        else:
            self.n = z3.IntVal(fixed_n)
        self.N = SymInt.mk(self.n)
        f = z3.Function('dt', z3.IntSort(), z3.RealSort())
        self.dt = P(V(self.n, lambda i: f(i)), lambda i: f(i), 'dt', True)
        c.universals.append(E.Universal(z3.IntVal(0), self.n, lambda t: f(t) > 0, 'dt>0'))
        for t in (z3.IntVal(0), z3.simplify(self.n - 1), z3.IntVal(1)):
            c.add_index(t)
        self._total = None
        self.params = {}
        self.shares = []
        pd = z3.Real('previous_dt')
        c.assumptions.append(pd > 0)
        self.prev_dt = P(V(None, lambda i: pd), lambda i: pd, 'previous_dt', False)

    @property
    def total(self):
        if self._total is None:
            self._total = self.c.SUM(z3.IntVal(0), self.n, self.dt.at)
            self.c.assumptions.append(self._total > 0)
        return self._total

    def SUM(self, lo, hi, fn):
        return self.c.SUM(lo, hi, fn)

    def elapsed(self, t):
        """Ghost: hours from the start of the horizon to the end of step t."""
        if not hasattr(self, '_elapsed'):
            f = self._elapsed = z3.Function('elapsed', z3.IntSort(), z3.RealSort())
            u, one = self.c.universals, z3.IntVal(1)
            u.append(E.Universal(z3.IntVal(0), one, lambda t: f(t) == self.dt.at(t), 'elapsed'))
            u.append(E.Universal(one, self.n, lambda t: f(t) == f(t - 1) + self.dt.at(t), 'elapsed'))
            total = self.total
            u.append(E.Universal(z3.IntVal(0), self.n, lambda t: f(t) + z3.If(t + 1 < self.n, self.dt.at(t + 1), 0) <= total, 'elapsed'))
        return self._elapsed(zint(t))

    def _pre(self, at, vecp, lo, hi, strict, ge, le, length=None):
        n = self.n if length is None else length

        def body(i):
            x = at(i)
            fs = []
            if lo is not None:
                fs.append(x > zreal(lo) if strict else x >= zreal(lo))
            if hi is not None:
                fs.append(x <= zreal(hi))
            for o in (ge or []):
                fs.append(x >= o.at(i))
            for o in (le or []):
                fs.append(x <= o.at(i))
            return z3.And(fs) if fs else None

        if body(z3.IntVal(0)) is None:
            return
        if vecp:
            self.c.universals.append(E.Universal(z3.IntVal(0), n, body, 'pre'))
        self.c.assumptions.append(body(z3.IntVal(0)))

    def num(self, name, lo=None, hi=None, strict=False, ge=(), le=(), step=None):
        r = z3.Real(name)
        p = P(V(None, lambda i: r), lambda i: r, name, False)
        self.params[name] = p
        self._pre(p.at, any(o.vec for o in list(ge) + list(le)), lo, hi, strict, ge, le)
        return p

    def ts(self, name, lo=None, hi=None, strict=False, ge=(), le=(), step=None, length=None, shape=None):
        """A parameter that may be a scalar or an array over the horizon (both at once: shape-polymorphic)."""
        flag = z3.Bool(name + '?vec')
        f = z3.Function(name, z3.IntSort(), z3.RealSort())
        s = z3.Real(name + '_scalar')
        n = self.n if length is None else length
        if shape == 'vec':
            fn, flag = (lambda i: f(i)), None
        else:
            fn = lambda i: z3.If(flag, f(i), s)
        v = V(n, fn, flag)
        p = P(v, fn, name, True)
        self.params[name] = p
        self._pre(fn, True, lo, hi, strict, ge, le, n)
        return p

    def vec(self, name, length, lo=None, hi=None):
        """Array of a fixed, concrete length (history values)."""
        rs = [z3.Real(f'{name}_{k}') for k in range(length)]
        for r in rs:
            if lo is not None:
                self.c.assumptions.append(r >= zreal(lo))
            if hi is not None:
                self.c.assumptions.append(r <= zreal(hi))
        fn = lambda i: E.ite_chain(z3.simplify(i), rs)
        p = P(V(length, fn), fn, name, True)
        self.params[name] = p
        return p

    def flow_system(self, **kw):
        import numpy as np

        from flixOpt.flow_system import FlowSystem

        fs = FlowSystem(np.array(['2020-01-01T00', '2020-01-01T01', '2020-01-01T02'], dtype='datetime64[h]'), **kw)
        fs.previous_dt_in_hours = self.prev_dt.user
        return fs

    def model(self, fs):
        from flixOpt.calculation import FullCalculation

        calc = FullCalculation('calc', fs)
        sm = calc.do_modeling()
        w = sym_view(sm.variables, list(sm.equations) + list(sm.inequations))
        w.sm, w.fs, w.env = sm, fs, self
        if sm.objective is not None:
            w.objective = sym_row(sm.objective).lhs(z3.IntVal(0))
            w.objective_minimise = True
        w.shares = self.shares
        return w


class ConcEnv(BaseEnv):
    """Concrete instance of the same scenario: real numpy, real pyomo."""

    def __init__(self, seed, n=None, values=None):
        self.rng = random.Random(seed)
        self.n_int = n if n is not None else self.rng.choice([2, 3, 3, 4])
        self.N = self.n_int
        self.n = z3.IntVal(self.n_int)
        self.values = {}
        self.given = values or {}
        dts = self._get('dt', lambda: [self.rng.choice([0.5, 1.0, 1.0, 2.0]) for _ in range(self.n_int)])
        dts = [max(1, round(float(d) * 64)) / 64 for d in dts]  # exactly representable step widths
        self.dts = self.values['dt'] = dts
        self.dt = P(None, lambda i: self._lookup(dts, i), 'dt', True)
        self.total = z3.RealVal(str(sum(Fraction(x) for x in dts)))
        pd = self._get('previous_dt', lambda: self.rng.choice([0.5, 1.0, 2.0]))
        self.prev_dt = P(pd, lambda i: zreal(pd), 'previous_dt', False)
        self.params = {}

    def _get(self, name, mk):
        if name in self.given:
            v = self.given[name]
        else:
            v = mk()
        self.values[name] = v
        return v

    @staticmethod
    def _lookup(seq, i):
        s = z3.simplify(i)
        if not z3.is_int_value(s):
            raise E.Unsupported('symbolic index in concrete mode')
        k = s.as_long()
        if k < 0 or k >= len(seq):
            return z3.RealVal(0)
        return zreal(Fraction(seq[k]))

    def SUM(self, lo, hi, fn):
        l, h = z3.simplify(zint(lo)).as_long(), z3.simplify(zint(hi)).as_long()
        r = z3.RealVal(0)
        for j in range(l, h):
            r = r + fn(z3.IntVal(j))
        return r

    def elapsed(self, t):
        k = z3.simplify(zint(t)).as_long()
        return zreal(sum(Fraction(x) for x in self.dts[:k + 1]))

    def _draw(self, lo, hi, strict, step):
        step = step or 0.25
        lo_f = 0.0 if lo is None else float(lo)
        hi_f = (lo_f + 40 * step) if hi is None else float(hi)
        if lo is None and hi is None:
            lo_f = -4 * step
        k0 = math.ceil(lo_f / step - 1e-9)
        k1 = math.floor(hi_f / step + 1e-9)
        if strict and k0 * step <= lo_f:
            k0 += 1
        if k1 < k0:
            return lo_f if not strict else hi_f
        k1 = min(k1, k0 + 60)
        if self.rng.random() < 0.25:
            k = self.rng.choice([k0, k1])
        else:
            k = self.rng.randint(k0, k1)
        return k * step

    def _bounds(self, i, lo, hi, ge, le):
        for o in ge or ():
            x = float(z3.simplify(o.at(i)).as_fraction())
            lo = x if lo is None else max(lo, x)
        for o in le or ():
            x = float(z3.simplify(o.at(i)).as_fraction())
            hi = x if hi is None else min(hi, x)
        return lo, hi

    def num(self, name, lo=None, hi=None, strict=False, ge=(), le=(), step=None):
        def mk():
            l, h = lo, hi
            for i in range(self.n_int):
                l, h = self._bounds(i, l, h, ge, le)
            return self._draw(l, h, strict, step)

        v = self._get(name, mk)
        p = P(v, lambda i: zreal(Fraction(v)), name, False)
        self.params[name] = p
        return p

    def ts(self, name, lo=None, hi=None, strict=False, ge=(), le=(), step=None, length=None, shape=None):
        import numpy as np

        n = self.n_int if length is None else z3.simplify(zint(length)).as_long()

        def mk():
            vec = self.rng.random() < 0.6 or shape == 'vec'
            if vec:
                return [self._draw(*self._bounds(i, lo, hi, ge, le), strict, step) for i in range(n)]
            l, h = lo, hi
            for i in range(n):
                l, h = self._bounds(i, l, h, ge, le)
            return self._draw(l, h, strict, step)

        v = self._get(name, mk)
        if isinstance(v, list):
            p = P(np.array(v, dtype=float), lambda i: self._lookup(v, i), name, True)
        else:
            p = P(float(v), lambda i: zreal(Fraction(v)), name, False)
        self.params[name] = p
        return p

    def vec(self, name, length, lo=None, hi=None):
        import numpy as np

        v = self._get(name, lambda: [self._draw(lo, hi, False, None) if self.rng.random() < 0.6 else max(0, lo or 0) for _ in range(length)])
        p = P(np.array(v, dtype=float), lambda i: self._lookup(v, i), name, True)
        self.params[name] = p
        return p

    def flow_system(self, **kw):
        import numpy as np

        from flixOpt.flow_system import FlowSystem

        t = [np.datetime64('2020-01-01T00:00', 'ms')]
        for d in self.dts:
            t.append(t[-1] + np.timedelta64(int(d * 3600000), 'ms'))
        last = t[-1] - t[-2]
        return FlowSystem(np.array(t[:-1]), last_time_step_hours=last, previous_dt_in_hours=self.prev_dt.user, **kw)

    def model(self, fs):
        from flixOpt.calculation import FullCalculation

        calc = FullCalculation('calc', fs)
        sm = calc.do_modeling()
        w = pyomo_view(sm)
        w.sm, w.fs, w.env = sm, fs, self
        return w


# --------------------------------------------------------------------------------------------------------------------
class Scenario:
    name = '?'
    prop = '?'
    nmin = 2
    complete = True
    focus = None  # label prefixes of the elements this scenario specifies completely (None: the whole model)

    def in_scope(self, label, uses):
        if self.focus is None:
            return True
        f = tuple(self.focus)
        return label.startswith(f) or all(u.startswith(f) for u in uses)

    def configs(self, tier):
        return [{}]

    def build(self, env, cfg):
        """Construct the system, run the real modelling, return a View."""
        raise NotImplementedError

    def spec(self, env, cfg, view):
        raise NotImplementedError

    def expects_error(self, cfg):
        return False


def atoms_goal(clause, t=None, tol=None):
    Atoms.tol = tol
    try:
        b = clause.body
        if clause.lo is None:
            return b() if callable(b) else b
        return b(t)
    finally:
        Atoms.tol = None


def closed_rows(view, relaxed=None):
    """Concrete mode: all rows and bounds as closed formulas (label, formula)."""
    out = []
    for r in view.rows:
        out.append(('row ' + r.label, r.body(z3.IntVal(0)) if relaxed is None else r.relaxed(z3.IntVal(0), relaxed), r))
    for v in view.vars.values():
        n = z3.simplify(v.n).as_long()
        for i in range(n):
            b = v.bound(z3.IntVal(i)) if relaxed is None else v.bound(z3.IntVal(i), relaxed)
            if not z3.is_true(b):
                out.append((f'bounds of {v.label}[{i}]', b, v))
    return out


def binaries(view):
    fs = []
    for v in view.vars.values():
        if v.binary:
            n = z3.simplify(v.n).as_long()
            for i in range(n):
                x = v(i)
                fs.append(z3.Or(x == 0, x == 1))
    return fs


def instances(clause):
    if clause.lo is None:
        return [None]
    return [z3.IntVal(i) for i in range(z3.simplify(clause.lo).as_long(), z3.simplify(clause.hi).as_long())]


def z3vars(e, acc, seen):
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc.add(x.decl().name())
        st.extend(x.children())
    return acc


def definitional(rows, known):
    """Equality rows that define variables the specification does not mention (each solvable for one of them)."""
    defs, todo = [], []
    names = {}
    for lab, f, r in rows:
        if getattr(r, 'kind', None) == 'eq':
            todo.append((lab, f, r, z3vars(f, set(), set())))
    known = set(known)
    changed = True
    used = set()
    while changed:
        changed = False
        for k, (lab, f, r, vs) in enumerate(todo):
            if k in used:
                continue
            unk = vs - known
            if len(unk) == 1:
                used.add(k)
                known |= unk
                defs.append((lab, f))
                changed = True
    return defs, known


TOL = z3.RealVal('1/1000000')


def check_concrete(scn, cfg, env, timeout=20000):
    """Returns dict(status='ok'|'violation'|'error'|'unknown', ...) for one concrete instance."""
    info = {'scenario': scn.name, 'config': cfg_json(cfg)}
    try:
        view = scn.build(env, cfg)
    except E.Unsupported as e:
        return dict(info, status='unknown', reason=str(e), values=env.values)
    except Exception as e:
        return dict(info, status='violation', kind='exception', clause='valid input is modelled without an error',
                    detail=f'{type(e).__name__}: {e}', trace=traceback.format_exc(), values=env.values, n=env.n_int)
    info.update(values=env.values, n=env.n_int)
    try:
        spec = scn.spec(env, cfg, view)
    except MissingVariable as e:
        return dict(info, status='violation', kind='missing', clause=f'quantity {e} is part of the model',
                    detail=f'no variable {e} in the generated model; variables: {sorted(view.vars)[:60]}')
    rows = closed_rows(view)
    bins = binaries(view)
    cache = {}
    hyps = [f for _, f, _ in rows] + bins
    goals = []
    spec = [cl for cl in spec if cl.tag != 'lemma']
    for cl in spec:
        for t in instances(cl):
            goals.append((cl.name, t, atoms_goal(cl, t, TOL), cl))
    neg = z3.Or([z3.Not(g[2]) for g in goals if g[3].tag != 'assume'] + [z3.BoolVal(False)])
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(hyps)
    nonvac = s.check()
    r = s.check(neg)
    if r == z3.sat:
        m = s.model()
        bad = [(n, str(t)) for n, t, g, cl in goals if cl.tag != 'assume' and z3.is_false(m.eval(g, model_completion=True))]
        return dict(info, status='violation', kind='soundness', clause=bad[0][0], at=bad[0][1], violated=bad[:10],
                    assignment=assignment(view, m),
                    detail='an assignment that satisfies every generated row and bound violates the clause')
    status = 'ok' if r == z3.unsat else 'unknown'
    ncomp = 0
    if scn.complete:
        specf = [atoms_goal(cl, t) for cl in spec for t in instances(cl)]
        known = set()
        seen = set()
        for f in specf:
            z3vars(f, known, seen)
        for v in view.vars.values():  # fixed variables
            pass
        defs, known2 = definitional(rows, known)
        deflabels = {d[0] for d in defs}
        tgt = []
        skipped = 0
        for (lab, f, r0), (_, fr, _) in zip(rows, closed_rows(view, TOL)):
            if lab in deflabels or not scn.in_scope(lab.replace('row ', '').replace('bounds of ', ''), [x.split('[')[0] for x in z3vars(f, set(), set())]):
                continue
            if z3vars(f, set(), set()) - known2:
                skipped += 1
                continue
            tgt.append((lab, fr))
        ncomp = len(tgt)
        s2 = z3.Solver()
        s2.set('timeout', timeout)
        s2.add(specf + bins + [d[1] for d in defs])
        sat2 = s2.check()
        r2 = s2.check(z3.Or([z3.Not(f) for _, f in tgt] + [z3.BoolVal(False)]))
        if r2 == z3.sat:
            m = s2.model()
            bad = [lab for lab, f in tgt if z3.is_false(m.eval(f, model_completion=True))]
            return dict(info, status='violation', kind='completeness', clause=bad[0], violated=bad[:10],
                        assignment=assignment(view, m),
                        detail='an assignment that satisfies the whole specification is excluded by a generated row or bound')
        if r2 == z3.unknown:
            status = 'unknown'
        info['skipped_rows'] = skipped
        info['spec_satisfiable'] = str(sat2)
    info['reachable'] = str(nonvac)
    return dict(info, status=status, goals=len(goals), rows=ncomp)


def assignment(view, m):
    out = {}
    for v in view.vars.values():
        n = z3.simplify(v.n).as_long()
        vals = []
        for i in range(n):
            x = m.eval(v(i), model_completion=True)
            try:
                vals.append(float(x.as_fraction()))
            except Exception:
                vals.append(str(x))
        out[v.label] = vals
    return out


def cfg_json(cfg):
    return {k: (v if isinstance(v, (int, float, str, bool, type(None))) else str(v)) for k, v in cfg.items()}


# --------------------------------------------------------------------------------------------------------------------
def verify_symbolic(scn, cfg, deadline, opts=None):
    """Deductive check of one configuration: list of obligation records."""
    out = []

    def go(c):
        env = SymEnv(c, nmin=scn.nmin)
        c.env = env
        view = scn.build(env, cfg)
        spec = scn.spec(env, cfg, view)
        return env, view, spec

    npaths = 0
    groups = {}
    for path in E.explore(go, deadline=deadline, max_paths=600):
        npaths += 1
        base = dict(scenario=scn.name, config=cfg_json(cfg), path=npaths)
        if path.kind == 'limit':
            out.append(dict(base, name='path exploration', status='undecided', reason='path or time limit'))
            break
        if path.kind == 'unsupported':
            out.append(dict(base, name='symbolic execution', status='undecided', reason=path.value[0], trace=path.value[1]))
            continue
        if path.kind == 'raise':
            e, tr = path.value
            if isinstance(e, MissingVariable):
                out.append(dict(base, name=f'quantity {e} is part of the model', status='refuted', reason='missing variable'))
                continue
            out.append(dict(base, name='no exception on valid input', status='refuted' if path.ctx.feasible(z3.BoolVal(True)) else 'proved',
                            reason=f'{type(e).__name__}: {e}', trace=tr))
            continue
        E.set_ctx(path.ctx)
        try:
            sig = signature(path)
        finally:
            E.set_ctx(None)
        groups.setdefault(sig, []).append((base, path))
    reachable = False
    for paths in groups.values():
        base, path = paths[0]
        if len(paths) > 1:  # paths that differ only in their conditions (log messages) generate the same obligations
            c = path.ctx
            conds = [z3.And(p.ctx.path) if p.ctx.path else z3.BoolVal(True) for _, p in paths]
            c.path = [z3.simplify(z3.Or(conds))]
        E.set_ctx(path.ctx)
        try:
            out += prove_path(scn, cfg, path, base, deadline)
        except E.Unsupported as e:
            out.append(dict(base, name='specification', status='undecided', reason=str(e), trace=traceback.format_exc()))
        finally:
            E.set_ctx(None)
        if out and out[-1].get('kind') == 'vacuity':
            if out[-1]['status'] == 'vacuous':
                out.pop()
            else:
                reachable = True
    if not reachable and not any(o['status'] == 'refuted' for o in out):
        out.append(dict(scenario=scn.name, config=cfg_json(cfg), path=0, name='reachability', status='undecided', reason='no path with satisfiable hypotheses'))
    return out


def signature(path):
    """Text of everything an obligation of this path depends on, except the path condition."""
    env, view, spec = path.value
    c = path.ctx
    t = z3.Int('t!sig')
    parts = [f'{r.label}|{r.kind}|{r.hi}|{r.body(t).sexpr()}|{r.uses}' for r in view.rows]
    parts += [f'{v.label}|{v.n}|{v.binary}|{v.bound(t).sexpr()}' for v in view.vars.values()]
    for cl in spec:
        parts.append(f'{cl.name}|{cl.lo}|{cl.hi}|{atoms_goal(cl, t).sexpr()}')
    parts += [a.sexpr() for a in c.assumptions] + [f'{u.lo}|{u.hi}|{u.body(t).sexpr()}' for u in c.universals]
    parts += [x.sexpr() for x in c.index_terms] + [f'{x.const}|{x.lo}|{x.hi}|{x.fn(t).sexpr()}' for x in c.sums]
    return hashlib.sha1('\n'.join(parts).encode()).hexdigest()


def prove_path(scn, cfg, path, base, deadline):
    c = path.ctx
    env, view, spec = path.value
    out = []
    n = env.n
    std = [z3.IntVal(0), z3.simplify(n - 1), z3.IntVal(1), z3.simplify(n), z3.simplify(n - 2)] + c.index_terms
    rows = view.row_universals() + view.bound_universals()

    def rec(name, r, kind):
        out.append(dict(base, name=name, kind=kind, status={'proved': 'proved', 'refuted': 'refuted', 'unknown': 'undecided'}[r.status],
                        backend=r.backend, reason=r.reason or ''))

    # force evaluation of row sums before the theory snapshots the registry
    for u in rows:
        u.body(z3.IntVal(0))
    skel = [z3.Int('t!sk')]
    for cl in spec:
        if cl.lo is not None:
            cl.body(skel[0])
        elif callable(cl.body):
            cl.body()
    th = Theory(c.assumptions + c.path, c.universals + rows, c.sums, std)
    for cl in spec:
        if cl.tag in ('assume', 'witness', 'lemma'):
            continue
        if time.time() > deadline:
            out.append(dict(base, name=cl.name, status='undecided', reason='time budget'))
            continue
        if cl.lo is None:
            rec(cl.name, th.prove(atoms_goal(cl)), 'soundness')
        else:
            rec(cl.name, th.prove_forall(cl.lo, cl.hi, cl.body), 'soundness')
    if scn.complete:
        su, facts = [], list(c.assumptions + c.path)
        for cl in spec:
            if cl.tag == 'lemma':
                continue
            if cl.lo is None:
                facts.append(atoms_goal(cl))
            else:
                su.append(E.Universal(cl.lo, cl.hi, cl.body, cl.name))
        for cl in [x for x in spec if x.tag == 'lemma']:
            thl = Theory(facts, c.universals + su, c.sums, std)
            r = thl.prove(cl.body(cl.lo))
            if r.status == 'proved':
                t = z3.Int('t!ind')
                r = thl.prove(cl.body(t), skolems=[t], extra=[t > cl.lo, t < cl.hi, cl.body(t - 1)])
            rec('lemma (induction): ' + cl.name, r if r.status == 'proved' else Result('unknown'), 'lemma')
            if r.status == 'proved':
                su.append(E.Universal(cl.lo, cl.hi, cl.body, cl.name))
        known = set()
        seen = set()
        for f in facts + [u.body(skel[0]) for u in su]:
            z3funs(f, known, seen)
        defs, known2 = sym_definitional(view, known)
        th2 = Theory(facts, c.universals + su + [E.Universal(z3.IntVal(0), r.hi, r.body, r.label) for r in defs], c.sums, std)
        deflab = {id(r) for r in defs}
        for r in view.rows:
            if id(r) in deflab or not scn.in_scope(r.label, r.uses):
                continue
            if set(r.uses) - known2:
                out.append(dict(base, name='row ' + r.label, kind='completeness', status='undecided',
                                reason=f'uses unspecified variables {sorted(set(r.uses) - known2)}'))
                continue
            if time.time() > deadline:
                out.append(dict(base, name=r.label, status='undecided', reason='time budget'))
                continue
            rec('row ' + r.label, th2.prove_forall(z3.IntVal(0), r.hi, r.body), 'completeness')
        for v in view.vars.values():
            if v.lb is None and v.ub is None and v.fixed is None or not scn.in_scope(v.label, [v.label]):
                continue
            if v.label not in known2:
                out.append(dict(base, name='bounds of ' + v.label, kind='completeness', status='undecided', reason='unspecified variable'))
                continue
            rec('bounds of ' + v.label, th2.prove_forall(z3.IntVal(0), v.n, v.bound), 'completeness')
    # vacuity guard: the hypotheses of the soundness obligations are satisfiable as far as the prover can tell
    r = th.consistent(3000)
    if r == z3.unsat:
        out.append(dict(base, name='reachability of the specification', kind='vacuity', status='vacuous'))
    else:
        out.append(dict(base, name='reachability of the specification', kind='vacuity', status='proved', backend=f'z3:{r}'))
    return out


def z3funs(e, acc, seen):
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc.add(x.decl().name())
            if x.decl().name().startswith('S!') and E.CTX is not None:
                for s in E.CTX.sums:
                    if s.const.eq(x):
                        st.append(s.fn(z3.Int('t!sk')))
        st.extend(x.children())
    return acc


def sym_definitional(view, known):
    known = set(known) & set(view.vars)
    defs = []
    changed = True
    while changed:
        changed = False
        for r in view.rows:
            if r.kind != 'eq' or any(r is d for d in defs):
                continue
            unk = set(r.uses) - known
            if len(unk) == 1 and r.uses.count(next(iter(unk))) == 1:
                defs.append(r)
                known |= unk
                changed = True
    return defs, known


def fixed_horizon(scn, cfg, deadline, horizons=(2, 3)):
    """All parameters symbolic, horizon fixed: everything is expanded, so a counterexample is a real one."""
    out = []
    for n in horizons:
        def go(c, n=n):
            env = SymEnv(c, nmin=scn.nmin, fixed_n=n)
            c.env = env
            view = scn.build(env, cfg)
            return env, view, scn.spec(env, cfg, view)

        for path in E.explore(go, deadline=deadline, max_paths=200):
            if path.kind == 'raise':
                c = path.ctx
                E.set_ctx(c)
                try:
                    e = path.value[0]
                    r = check_unsat(c.assumptions + c.path + c.inst([z3.IntVal(i) for i in range(n + 1)]), 5000)
                    if r.status == 'refuted':
                        out.append(dict(status='refuted', kind='exception', n=n, clause='no exception on valid input', reason=f'{type(e).__name__}: {e}',
                                        values=model_values(c.env, r.model, n)))
                finally:
                    E.set_ctx(None)
                continue
            if path.kind != 'ok':
                out.append(dict(status='undecided', n=n, reason=str(path.value)[:300]))
                continue
            c = path.ctx
            E.set_ctx(c)
            try:
                out += _fixed_path(scn, cfg, path, n, deadline)
            finally:
                E.set_ctx(None)
            if any(o['status'] == 'refuted' for o in out) or time.time() > deadline:
                return out
    return out


def _fixed_path(scn, cfg, path, n, deadline):
    c = path.ctx
    env, view, spec = path.value
    idx = [z3.IntVal(i) for i in range(n + 2)]
    rows = view.row_universals() + view.bound_universals()

    def expand(u):
        lo, hi = z3.simplify(u.lo), z3.simplify(u.hi)
        if z3.is_int_value(lo) and z3.is_int_value(hi):
            return [u.body(z3.IntVal(i)) for i in range(lo.as_long(), hi.as_long())]
        return [z3.Implies(z3.And(t >= u.lo, t < u.hi), u.body(t)) for t in idx]

    base = [f for u in c.universals for f in expand(u)]
    # counterexamples with ordinary step widths are preferred (they can be replayed exactly)
    nice = [z3.Or([x == z3.RealVal(q) for q in ('1/2', '1', '2')]) for x in [env.dt.at(z3.IntVal(i)) for i in range(n)] + [env.prev_dt.at(z3.IntVal(0))]]

    def refute(hyps, fs):
        neg = z3.Or([z3.Not(f) for f in fs] + [z3.BoolVal(False)])
        r = check_unsat(hyps + nice + [neg], 5000)
        return r if r.status == 'refuted' else check_unsat(hyps + [neg], 5000)

    rowf = [(u.name, expand(u)) for u in rows]
    specf = []
    spec = [cl for cl in spec if cl.tag != 'lemma']
    for cl in spec:
        if cl.lo is None:
            specf.append((cl, [atoms_goal(cl)]))
        else:
            specf.append((cl, expand(E.Universal(cl.lo, cl.hi, cl.body))))
    facts = c.assumptions + c.path + base
    out = []
    hyps = facts + [f for _, fs in rowf for f in fs]
    for cl, fs in specf:
        if cl.tag in ('assume', 'witness') or time.time() > deadline:
            continue
        r = refute(hyps, fs)
        if r.status == 'refuted':
            out.append(dict(status='refuted', n=n, clause=cl.name, values=model_values(env, r.model, n)))
            return out
    if scn.complete:
        hyp2 = facts + [f for _, fs in specf for f in fs]
        known, seen = set(), set()
        for f in hyp2:
            z3funs(f, known, seen)
        defs, known2 = sym_definitional(view, known)
        dl = {'row:' + r.label for r in defs}
        hyp2 += [f for nm, fs in rowf if nm in dl for f in fs]
        for r0 in view.rows:
            if 'row:' + r0.label in dl or set(r0.uses) - known2 or not scn.in_scope(r0.label, r0.uses) or time.time() > deadline:
                continue
            fs = dict(rowf)['row:' + r0.label]
            r = refute(hyp2, fs)
            if r.status == 'refuted':
                out.append(dict(status='refuted', n=n, clause='row ' + r0.label, values=model_values(env, r.model, n)))
                return out
        for v in view.vars.values():
            if v.label not in known2 or not scn.in_scope(v.label, [v.label]) or time.time() > deadline:
                continue
            fs = dict(rowf)['var:' + v.label]
            r = refute(hyp2, fs)
            if r.status == 'refuted':
                out.append(dict(status='refuted', n=n, clause='bounds of ' + v.label, values=model_values(env, r.model, n)))
                return out
    return out


def model_values(env, m, n):
    """Parameter values of a counterexample, in the format ConcEnv(values=...) takes."""
    out = {}
    try:
        def val(x):
            q = m.eval(x, model_completion=True)
            return float(q.as_fraction()) if z3.is_rational_value(q) else float(q.approx(12).as_fraction())

        out['dt'] = [val(env.dt.at(i)) for i in range(n)]
        out['previous_dt'] = val(env.prev_dt.at(0))
        for name, p in env.params.items():
            v = p.user
            if p.vec and isinstance(v, V) and v.n is not None:
                isvec = True if v.flag is None else z3.is_true(m.eval(v.flag, model_completion=True))
                ln = m.eval(v.n, model_completion=True).as_long()
                out[name] = [val(p.at(i)) for i in range(ln)] if isvec else val(p.at(0))
            else:
                out[name] = val(p.at(0))
    except Exception as e:
        return None
    return out
