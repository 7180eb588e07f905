"""Relational contracts: two models built by the real code are the same, row by row, bound by bound (symbolic lengths and numbers)."""
import z3

from . import contracts, scenario
from . import engine as E
from .engine import IV, V
from .model import pyomo_view, sym_row, sym_view
from .scenario import P


def make_active_ts():
    """TimeSeries under its contract (proved in C17, unit `time series`): the data at the active indices, all of it if none are active."""
    from flixOpt.core import TimeSeries

    base = contracts.make_ts_class()

    class ATimeSeries(base):
        @property
        def active_data(self):
            if self.aggregated_data is not None:
                return self.aggregated_data
            d, idx = self.data, self.active_indices
            if d.n is None or idx is None:
                return d
            pick = picker(idx)
            if self.with_end:
                f = lambda i: z3.If(i < pick.n, pick.fn(i), pick.fn(pick.n - 1) + 1)
                return V(z3.simplify(pick.n + 1), lambda i: d.fn(f(i)), d.flag)
            return V(pick.n, lambda i: d.fn(pick.fn(i)), d.flag)

        def clear_indices_and_aggregated_data(self):
            return TimeSeries.clear_indices_and_aggregated_data(self)

    return ATimeSeries


def picker(idx):
    if isinstance(idx, IV):
        return idx
    if isinstance(idx, E.SymRange):
        lo = idx.lo
        return IV(idx.length(), lambda i: i + lo)
    raise E.Unsupported('selection')


def install():
    from flixOpt.flow_system import FlowSystem

    p = contracts.install()
    contracts._CTS['c'] = make_active_ts()

    def get_time_data_from_indices(self, time_indices=None):
        return time_data(E.ctx(), time_indices)

    p.set(FlowSystem, 'get_time_data_from_indices', get_time_data_from_indices)
    return p


def time_data(c, idx):
    """Contract of FlowSystem.get_time_data_from_indices (proved in C17, unit `time axis`): widths that depend on the selection only."""
    known = c.__dict__.setdefault('selections', [])
    for sel, data in known:
        if sel is idx:
            return data
    n = c.env_full.n if idx is None else picker(idx).n
    f = c.fresh_fn('width', z3.IntSort(), z3.RealSort())
    c.universals.append(E.Universal(z3.IntVal(0), n, lambda t: f(t) > 0, 'dt>0'))
    c.add_index(z3.simplify(n - 1))
    tot = c.SUM(z3.IntVal(0), n, lambda t: f(t))
    c.assumptions.append(tot > 0)
    data = (contracts.TimeAxis(n), contracts.TimeAxis(z3.simplify(n + 1)), V(n, lambda i: f(i)), V(None, lambda i: tot))
    known.append((idx, data))
    return data


class SymFull(scenario.SymEnv):
    """The system over its whole time axis, modelled for the selections in `plan` one after the other (views of all of them)."""

    def __init__(self, c, plan, nmin=2):
        super().__init__(c, nmin)
        self.plan = plan
        c.env_full = self
        self.views = []

    def model(self, fs):
        from flixOpt.calculation import FullCalculation

        for k, idx in enumerate(self.plan):
            self.before(k, fs)
            calc = FullCalculation('calc', fs, time_indices=idx)
            sm = calc.do_modeling()
            self.views.append(self.view(sm, fs))
            self.after(k, fs, calc)
        return self.views[-1]

    def before(self, k, fs):
        pass

    def after(self, k, fs, calc):
        pass

    def view(self, sm, fs):
        w = sym_view(sm.variables, list(sm.equations) + list(sm.inequations))
        w.sm, w.fs, w.env = sm, fs, self
        if sm.objective is not None:
            w.objective = sym_row(sm.objective).lhs(z3.IntVal(0))
        return w


class SymSelected(scenario.SymEnv):
    """A system that is given the selected data only."""

    def __init__(self, c, full, idx):
        self.c, self.full = c, full
        pick = self.pick = picker(idx)
        self.n = pick.n
        self.N = E.SymInt.mk(self.n)
        dt = time_data(c, idx)[2]
        self.idx = idx
        self.dt = P(dt, dt.fn, 'dt', True)
        self._total = None
        self.params = {}
        self.shares = []
        self.prev_dt = full.prev_dt

    def num(self, name, *a, **k):
        return self.full.params[name]

    def vec(self, name, *a, **k):
        return self.full.params[name]

    def ts(self, name, lo=None, hi=None, strict=False, ge=(), le=(), step=None, length=None, shape=None):
        p = self.full.params[name]
        pick, u = self.pick, p.user
        if u.n is None:
            return p
        if length is None:
            n, f = pick.n, pick.fn
        else:
            extra = z3.simplify(E.zint(length) - self.n)
            if not (z3.is_int_value(extra) and extra.as_long() == 1):
                raise E.Unsupported('length of a series')
            n, f = z3.simplify(pick.n + 1), lambda i: z3.If(i < pick.n, pick.fn(i), pick.fn(pick.n - 1) + 1)
        v = V(n, lambda i: u.fn(f(i)), u.flag)
        q = P(v, v.fn, name, True)
        self.params[name] = q
        self._pre(v.fn, True, lo, hi, strict, ge, le, n)  # holds for all of the data, so for the selected
        return q

    def model(self, fs):
        from flixOpt.calculation import FullCalculation

        c = self.c
        old, c.env_full = c.env_full, self
        known = c.selections
        c.selections = [(None, time_data(c, self.idx))]
        try:
            sm = FullCalculation('calc', fs).do_modeling()
        finally:
            c.env_full, c.selections = old, known
        return SymFull.view(self, sm, fs)


class ConcFull(scenario.ConcEnv):
    def __init__(self, seed, plan_of, n=None):
        super().__init__(seed, n=n)
        self.plan = plan_of(self.n_int)
        self.views = []
        self.series = {}

    def ts(self, name, *a, length=None, **k):
        self.series[name] = length
        return super().ts(name, *a, length=length, **k)

    before = SymFull.before
    after = SymFull.after

    def model(self, fs):
        from flixOpt.calculation import FullCalculation

        for k, idx in enumerate(self.plan):
            self.before(k, fs)
            calc = FullCalculation('calc', fs, time_indices=idx)
            sm = calc.do_modeling()
            w = pyomo_view(sm)
            w.sm, w.fs, w.env = sm, fs, self
            self.views.append(w)
            self.after(k, fs, calc)
        return self.views[-1]


def conc_selected(full, idx):
    idx = list(idx)
    t = [0]
    for d in full.dts:
        t.append(t[-1] + d)
    stamps = [t[i] for i in idx] + [t[idx[-1] + 1]]
    vals = {}
    for k, v in full.values.items():
        if k == 'dt':
            vals[k] = [b - a for a, b in zip(stamps, stamps[1:])]
        elif k in full.series and isinstance(v, list):
            vals[k] = [v[i] for i in idx] + ([v[idx[-1] + 1]] if full.series[k] is not None else [])
        else:
            vals[k] = v
    return scenario.ConcEnv(0, n=len(idx), values=vals)


def compare(x, a, b, what):
    """Obligations: the two views are the same model."""
    if set(a.vars) != set(b.vars) or sorted(r.label for r in a.rows) != sorted(r.label for r in b.rows):
        d = set(a.vars) ^ set(b.vars) or {r.label for r in a.rows} ^ {r.label for r in b.rows}
        x.fail(f'{what}: the same variables and rows', str(sorted(d))[:200])
        return
    same = (lambda p, q: p == q) if x.sym else same_number
    for l, v in a.vars.items():
        w = b.vars[l]
        if bool(v.binary) != bool(w.binary):
            x.fail(f'{what}: type of variable {l}')
        hi = v.n if x.sym else z3.simplify(v.n).as_long()
        x.check(f'{what}: length of variable {l}', (v.n == w.n) if x.sym else hi == z3.simplify(w.n).as_long())
        for nm in ('lb', 'ub', 'fixed'):
            p, q = getattr(v, nm), getattr(w, nm)
            if x.sym:
                if (p is None) != (q is None):
                    x.fail(f'{what}: {nm} of variable {l}')
                elif p is not None:
                    x.forall(f'{what}: {nm} of variable {l}', 0, hi, lambda i, p=p, q=q: same(p(i), q(i)))
            else:
                def eq(i, p=p, q=q):
                    e, f = p and p(z3.IntVal(i)), q and q(z3.IntVal(i))
                    return e is f is None or (e is not None and f is not None and same(e, f))
                x.forall(f'{what}: {nm} of variable {l}', 0, hi, eq)
    rb = {}
    for r in b.rows:
        rb.setdefault(r.label, []).append(r)
    for r in a.rows:
        q = rb[r.label].pop(0)
        if r.kind != q.kind:
            x.fail(f'{what}: kind of row {r.label}')
        if x.sym:
            x.check(f'{what}: number of rows {r.label}', r.hi == q.hi)
            x.forall(f'{what}: row {r.label}', 0, r.hi, lambda i, r=r, q=q: r.lhs(i) - r.rhs(i) == q.lhs(i) - q.rhs(i))
        else:
            z = z3.IntVal(0)
            x.check(f'{what}: row {r.label}', same(r.lhs(z) - r.rhs(z), q.lhs(z) - q.rhs(z)))
    if a.objective is not None:
        x.check(f'{what}: objective', same(a.objective, b.objective))


def coefs(e):
    """Linear z3 term -> {name: float}."""
    e = z3.simplify(e, som=True)
    out = {}

    def add(t, f):
        if z3.is_add(t):
            for q in t.children():
                add(q, f)
        elif z3.is_mul(t) and z3.is_rational_value(t.arg(0)):
            g = f * t.arg(0).as_fraction()
            r = t.arg(1)
            for q in range(2, t.num_args()):
                r = r * t.arg(q)
            add(r, g)
        elif z3.is_rational_value(t):
            out[''] = out.get('', 0) + f * t.as_fraction()
        else:
            out[str(t)] = out.get(str(t), 0) + f
    add(e, 1)
    return {k: float(v) for k, v in out.items()}


def same_number(a, b):
    p, q = coefs(a), coefs(b)
    for k in set(p) | set(q):
        u, v = p.get(k, 0.0), q.get(k, 0.0)
        if abs(u - v) > 1e-6 * max(1.0, abs(u), abs(v)):
            return False
    return True
