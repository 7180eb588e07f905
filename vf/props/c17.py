"""C17: data is applied to the time steps it belongs to."""
import z3

from .. import contracts, pair, shims, timeaxis
from .. import engine as E
from ..engine import IV, V
from ..unit import Unit, run_units
from .c01 import REAL_ERRORS

LEVEL = 'proof'
TRUSTED = ['numpy datetime64/timedelta64 arithmetic (stand-in: vf/timeaxis.py; cross-checked with the real numpy in the concrete runs)']
EXPLANATION = (
    'FlowSystem.__init__ and get_time_data_from_indices run on a time axis of symbolic length with arbitrary ascending instants and an arbitrary ascending selection; TimeSeries and '
    '_create_time_series run on data of symbolic length; FullCalculation.do_modeling is verified relationally for every system of the other properties: the model of a selection '
    '(also after an earlier calculation on another selection) equals the model of a system that was given the selected data, row by row and bound by bound.'
)
ASSUMPTIONS = ['selected indices are ascending and not negative', 'instants ascend strictly; a time series has at least two steps']


def ascending(x, name, m, n):
    """Ascending indices below n (IV or numpy int array)."""
    if x.sym:
        f = z3.Function(name, z3.IntSort(), z3.IntSort())
        x.c.universals.append(E.Universal(z3.IntVal(0), E.zint(m), lambda i: z3.And(f(i) >= 0, f(i) < E.zint(n)), name))
        x.c.universals.append(E.Universal(z3.IntVal(0), E.zint(m) - 1, lambda i: f(i) < f(i + 1), name))
        x.vals[name] = ('iarr', f, E.zint(m))
        x.c.add_index(z3.simplify(E.zint(m) - 1))
        return IV(m, f)
    v = sorted(x._v(name, lambda: x.r_.sample(range(n), m)))
    x.assume(len(v) == m and len(set(v)) == m and all(0 <= q < n for q in v))
    return v


def known(x, t):
    """A position of the data (universal facts about the data are instantiated there)."""
    if x.sym:
        x.c.add_index(z3.simplify(t))
    return t


def picked(x, idx):
    return lambda j: known(x, idx.fn(x.i(j)) if x.sym else idx[int(j)])


class Axis(Unit):
    name = 'time axis'
    seeds = (20, 100)

    def configs(self, tier):
        units = ['h', 'm', 'ns'] if tier == 'quick' else ['D', 'h', 'm', 's', 'ms', 'us', 'ns']
        return [dict(select=s, last=l, unit=u, previous=p) for s in ('all', 'range', 'list') for l in ('none', 'float', 'int', 'delta') for u in units for p in ((False, True) if (u, l) == ('h', 'none') else (False,))]

    def install(self):
        p = shims.install(contracts.modules())
        timeaxis.install(p)

    def body(self, x, cfg):
        from flixOpt.flow_system import FlowSystem

        import numpy as np

        n = x.int('n', 2, None if x.sym else 6)
        unit = cfg['unit']
        if x.sym:
            T = z3.Function('instant', z3.IntSort(), z3.RealSort())
            x.c.universals.append(E.Universal(z3.IntVal(0), n.e - 1, lambda i: T(i) < T(i + 1), 'instants ascend'))
            for t in (n.e - 1, n.e - 2, z3.IntVal(1)):
                x.c.add_index(z3.simplify(t))
            u = E.zreal(timeaxis.unit_hours(unit))
            axis = timeaxis.TimeV(n.e, lambda i: T(i), 'time', u, unit)
            at = lambda i: T(x.i(i))
        else:
            fine = 'us' if unit == 'ns' else unit
            per = int(1 / timeaxis.HOURS[fine]) if timeaxis.HOURS[fine] <= 1 else 1
            steps = [1 + x.r_.randrange(40) if per == 1 else max(1, per * x.r_.randint(1, 200) // 60) for _ in range(n - 1)]
            base = np.datetime64('2020-03-01', fine)
            pos = np.cumsum([0] + steps)
            axis = (base + pos.astype(f'timedelta64[{fine}]')).astype(f'datetime64[{unit}]')
            at = lambda i: x.r(0) + int(pos[int(i)]) * timeaxis.HOURS[fine]
        kind = cfg['last']
        last = None
        if kind in ('float', 'int'):
            k = x.int('last', 1, None if x.sym else 30)
            if kind == 'int':
                last, width = k, k
            else:
                last = V(None, lambda i: z3.ToReal(k.e) / 64) if x.sym else k / 64
                width = None
            hours = (z3.ToReal(k.e) if x.sym else x.r(k)) / (1 if kind == 'int' else 64)
        elif kind == 'delta':
            if x.sym:
                w = z3.Real('last')
                x.c.assumptions.append(w > 0)
                last, hours = timeaxis.TimeV(None, lambda i: w, 'delta', E.zreal(1)), w
            else:
                k = x.int('last', 1, 300)
                last, hours = np.timedelta64(k, 'm'), timeaxis.HOURS['m'] * k
        else:
            hours = at(x.i(n) - 1) - at(x.i(n) - 2)
        prev = x.num('previous', 0, None, strict=True) if cfg['previous'] else None
        fs = FlowSystem(axis, last_time_step_hours=last, previous_dt_in_hours=prev)
        x.check('previous step width', x.eq(x.r(fs.previous_dt_in_hours), x.r(prev) if prev is not None else at(1) - at(0)))
        if cfg['select'] == 'all':
            idx, m, pick = None, n, lambda j: j
        elif cfg['select'] == 'range':
            a = x.int('first', 0, n - 1)
            b = x.int('stop', a + 1, n)
            idx, m, pick = x.rng(a, b), b - a, lambda j: x.i(a) + j
        else:
            m = x.int('m', 1, n)
            idx = ascending(x, 'idx', m, n)
            pick = picked(x, idx)
        for again in range(2):  # the second call: nothing is kept
            ts, ts_end, dt, total = fs.get_time_data_from_indices(idx)
        end = lambda j: x.If(x.eq(x.i(j), x.i(n)), at(x.i(n) - 1) + hours, at(x.If(x.eq(x.i(j), x.i(n)), x.i(n) - 1, x.i(j))))
        tol = x.r(1) / 10**9
        near = lambda a, b: x.And(a - b <= tol, b - a <= tol)
        stop = end(pick(x.i(m) - 1) + 1)
        after = lambda j: x.If(x.i(j) < x.i(m) - 1, at(pick(x.If(x.i(j) < x.i(m) - 1, x.i(j) + 1, x.i(j)))), stop)
        width = lambda j: after(j) - at(pick(j))
        if x.sym:
            inst = lambda v, j: v.fn(x.i(j))
            ln = lambda v: v.n
            if not (isinstance(ts, timeaxis.TimeV) and isinstance(ts_end, timeaxis.TimeV) and ts.dim == ts_end.dim == 'time'):
                x.fail('instants are reported')
            if isinstance(dt, timeaxis.TimeV) or isinstance(total, timeaxis.TimeV):
                x.fail('widths are numbers of hours')
        else:
            inst = lambda v, j: timeaxis.delta_hours(v[int(j)] - axis[0])
            ln = len
        x.check('as many steps as selected', x.And(x.eq(ln(ts), x.i(m)), x.eq(ln(ts_end), x.i(m) + 1), x.eq(x.length(dt)[1], x.i(m))))
        x.forall('instants', 0, m, lambda j: x.eq(inst(ts, j), at(pick(j))))
        x.forall('instants with end', 0, m, lambda j: x.eq(inst(ts_end, j), at(pick(j))))
        x.check('end of the last step', near(inst(ts_end, m), stop))
        x.forall('step widths', 0, m, lambda j: near(x.at(dt, j), width(j)))
        if x.sym:
            x.check('total is the sum of the widths', x.eq(x.r(total), x.SUM(0, m, lambda j: x.at(dt, j))))
        else:
            x.check('total is the sum of the widths', abs(float(total) - float(sum(width(j) for j in range(m)))) < 1e-6)


class Series(Unit):
    """TimeSeries and _create_time_series."""

    name = 'time series'
    seeds = (20, 100)

    def configs(self, tier):
        return [dict(data=d, wrapped=w, select=s, end=e) for d in ('none', 'scalar', 'array', 'constant') for w in (False, True) for s in ('all', 'range', 'list') for e in (False, True)
                if not (w and d == 'none') and not (e and (w or d in ('none', 'scalar')))]

    def install(self):
        p = shims.install(contracts.modules())
        timeaxis.install(p)

    def selection(self, x, kind, n, tag):
        if kind == 'all':
            return None, n, lambda j: known(x, j)
        if kind == 'range':
            a = x.int('first' + tag, 0, n - 1)
            b = x.int('stop' + tag, a + 1, n)
            return x.rng(a, b), b - a, lambda j: known(x, x.i(a) + j)
        m = x.int('m' + tag, 1, n)
        idx = ascending(x, 'idx' + tag, m, n)
        return idx, m, picked(x, idx)

    def body(self, x, cfg):
        from flixOpt.core import TimeSeriesData
        from flixOpt.structure import Element, _create_time_series

        n = x.int('n', 2, None if x.sym else 6)
        extra = 1 if cfg['end'] else 0
        kind = cfg['data']
        val = None
        if kind == 'scalar':
            data = x.num('value')
            val = lambda i: x.r(data)
        elif kind == 'array':
            data = x.arr('data', n + extra)
            val = lambda i: x.at(data, i)
        elif kind == 'constant':
            c = x.num('value')
            if x.sym:
                e = x.r(c)
                data = V(E.zint(n + extra), lambda i: e)
            else:
                import numpy as np

                data = np.full(n + extra, c)
            val = lambda i: x.r(c)
        else:
            data = None
        el = Element('el')
        user = TimeSeriesData(data) if cfg['wrapped'] else data
        kw = dict(with_end=True) if extra else {}
        ts = _create_time_series('name', user, el, **kw)
        if kind == 'none':
            x.check('no data stays no data', ts is None and not el.used_time_series)
            return
        if el.used_time_series != [ts]:
            x.fail('the element knows its series')
        x.check('label', ts.label == 'el__name')
        if kind == 'constant':
            x.check('constant series are numbers', x.Not(x.length(ts.active_data)[0]))
        m1, m2 = self.selection(x, cfg['select'], n, '1'), self.selection(x, 'list', n, '2')

        def verify(sel, what):
            idx, m, pick = sel
            a = ts.active_data
            isvec, ln = x.length(a)
            x.check(f'{what}: one value per selected step or a number', x.Implies(isvec, x.eq(ln, x.i(m) + extra)))
            if kind == 'scalar':
                x.check(f'{what}: a number stays a number', x.Not(isvec))
            at = (lambda j: x.at(a, j)) if x.sym or isvec else (lambda j: x.at(a))
            x.forall(f'{what}: the value of the step', 0, m, lambda j: x.eq(at(j), val(pick(j))))
            if extra:
                x.check(f'{what}: the value at the end', x.eq(at(m), val(known(x, pick(x.i(m) - 1) + 1))))
            v = ts.active_data_vector if idx is not None else None
            if v is not None:
                isv, ln = x.length(v)
                x.check(f'{what}: as vector', x.And(isv, x.eq(ln, x.i(m) + extra)))
                x.forall(f'{what}: vector of the values', 0, m, lambda j: x.eq(x.at(v, j), val(pick(j))))

        ts.activate_indices(m1[0])
        verify(m1, 'first')
        ts.activate_indices(m2[0])
        verify(m2, 'another selection')
        agg = x.arr('aggregated', m2[1])
        if not extra:
            ts.activate_indices(m2[0], aggregated_data=agg)
            a = ts.active_data
            isvec, ln = x.length(a)
            at = (lambda j: x.at(a, j)) if x.sym or isvec else (lambda j: x.at(a))
            x.forall('aggregated data', 0, m2[1], lambda j: x.eq(at(j), x.at(agg, j)))
        again = _create_time_series('name', ts, el)
        if again is not ts or el.used_time_series != [ts]:
            x.fail('modelled again: the same series')
        ts.activate_indices(m1[0])
        verify(m1, 'modelled again')
        other = Element('other')
        for _ in range(2):
            if _create_time_series('name', ts, other) is not ts or len(other.used_time_series) != 1 or other.used_time_series[0] is not ts:
                x.fail('shared by several elements: all of them know the series')
        x.check('shared by several elements: the data', ts.active_indices is None and ts.aggregated_data is None)


class Applied(Unit):
    """FullCalculation with selected steps: the model equals the one of a system that was given the selected data."""

    seeds = (3, 12)

    def __init__(self, scn):
        self.scn = scn
        self.name = f'selection: {scn.prop} {scn.name}'

    def configs(self, tier):
        cfgs = [c for c in self.scn.configs('quick') if not self.scn.expects_error(c) and not (c.get('past', 0) > 1 and len(str(c.get('prev'))) > 10)]
        if tier == 'quick':
            cfgs = cfgs[:: max(1, len(cfgs) // 3)]
        return [dict(c, earlier=k % 2 == 0, range=k % 3 == 1) for k, c in enumerate(cfgs)]

    def install(self):
        pair.install()

    def body(self, x, cfg):
        nmin = max(2, self.scn.nmin)
        if x.sym:
            full = pair.SymFull(x.c, [], nmin=nmin)
            n = full.N

            def sel(tag):
                m = x.int('m' + tag, nmin, n)
                if cfg['range'] and not tag:
                    a = x.int('first', 0, n - m)
                    return E.SymRange(a, a + m)
                return ascending(x, 'idx' + tag, m, n)
            idx = sel('')
            full.plan = ([sel('other')] if cfg['earlier'] else []) + [idx]
        else:
            def plan(n):
                def sel():
                    m = x.r_.randint(nmin, n)
                    if cfg['range']:
                        a = x.r_.randint(0, n - m)
                        return range(a, a + m)
                    return sorted(x.r_.sample(range(n), m))
                return ([sel()] if cfg['earlier'] else []) + [sel()]
            full = pair.ConcFull(x.r_.randint(0, 10**6), plan, n=x.r_.randint(nmin + 1, 5))
            idx = full.plan[-1]
        a = self.attempt(x, full, cfg)
        b = self.attempt(x, pair.SymSelected(x.c, full, idx) if x.sym else pair.conc_selected(full, idx), cfg)
        if a is None or b is None:
            if (a is None) != (b is None):
                x.fail('a selection can be modelled like its data', f'{self.error}')
            return
        pair.compare(x, a, b, 'selection')

    def attempt(self, x, env, cfg):
        if x.sym:
            x.c.env = env
        try:
            return self.scn.build(env, cfg)
        except REAL_ERRORS:
            raise
        except Exception as e:
            self.error = f'{type(e).__name__}: {e}'
            return None


class Modelled(Exception):
    pass


class Unfit(Unit):
    """Series of unfit length are rejected, with and without a selection."""

    name = 'unfit data'
    symbolic = True
    seeds = (8, 40)

    def configs(self, tier):
        return [dict(where=w, select=s, longer=l) for w in ('flow', 'effect', 'storage', 'converter', 'limit') for s in (False, True) for l in (False, True)]

    def install(self):
        p = shims.install(contracts.modules())
        timeaxis.install(p)

        def modelled(self):  # the series have to be rejected before any model is built
            raise Modelled()

        from flixOpt.structure import SystemModel

        p.set(SystemModel, 'do_modeling', modelled)

    def body(self, x, cfg):
        import numpy as np

        import flixOpt as fx

        n = x.int('n', 3, None if x.sym else 6)
        extra = 1 if cfg['where'] == 'storage' else 0
        k = x.int('k', n + 1 + extra, None if x.sym else n + 4) if cfg['longer'] else x.int('k', 2, n - 1 + extra)
        data = x.arr('data', k, 0, 1)
        known(x, x.i(1))
        x.assume(x.Not(x.eq(x.at(data, 0), x.at(data, 1))))  # constant series are numbers
        if x.sym:
            T = z3.Function('instant', z3.IntSort(), z3.RealSort())
            x.c.universals.append(E.Universal(z3.IntVal(0), n.e - 1, lambda i: T(i) < T(i + 1), 'instants ascend'))
            x.c.add_index(z3.simplify(n.e - 2))
            axis = timeaxis.TimeV(n.e, lambda i: T(i), 'time', E.zreal(1))
        else:
            axis = np.datetime64('2020-01-01T00') + np.arange(n) * np.timedelta64(1, 'h')
        fs = fx.FlowSystem(axis)
        w = cfg['where']
        costs = fx.Effect('costs', 'EUR', 'costs', is_standard=True, is_objective=True, maximum_operation_per_hour=data if w == 'effect' else None)
        bus = fx.Bus('bus')
        fs.add_elements(costs)
        flow = fx.Flow('q', bus, size=10, relative_maximum=data if w == 'limit' else 1, effects_per_flow_hour={costs: data} if w == 'flow' else None)
        fs.add_elements(fx.Source('src', flow))
        if w == 'storage':
            fs.add_elements(fx.Storage('sto', fx.Flow('in', bus, size=5), fx.Flow('out', bus, size=5), 10, relative_maximum_charge_state=data))
        if w == 'converter':
            p, q = fx.Flow('p', bus, size=10), fx.Flow('r', bus, size=10)
            fs.add_elements(fx.LinearConverter('conv', inputs=[p], outputs=[q], conversion_factors=[{p: data, q: 1}]))
        idx = None
        if cfg['select']:
            m = x.int('m', 2, k - extra if not cfg['longer'] else n)  # only positions that the data and the axis have
            x.assume(x.i(m) <= x.i(n))
            idx = ascending(x, 'idx', m, x.c and n if x.sym else n) if cfg['longer'] else x.rng(0, m)
        calc = fx.FullCalculation('c', fs, time_indices=idx)
        try:
            calc.do_modeling()
        except REAL_ERRORS:
            raise
        except Modelled:
            pass
        except Exception:
            x.check('rejected', True)
            return
        if x.sym and not cfg['select']:
            return  # without a selection the model building may reject it as well (concrete runs)
        x.fail('rejected')


def run(out, tier, t_end):
    import importlib

    units = [Axis(), Series(), Unfit()]
    for k in range(3, 17):
        m = importlib.import_module(f'vf.props.c{k:02d}')
        units += [Applied(s) for s in getattr(m, 'SCENARIOS', []) if not getattr(s, 'bounded_only', False)]
    run_units(out, units, tier, t_end)
