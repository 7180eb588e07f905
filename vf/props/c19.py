"""C19: an aggregated calculation ties together exactly the steps of equal periods."""
import itertools

import z3

from .. import contracts, pair
from .. import engine as E
from ..engine import IV, V
from ..model import pyomo_view, sym_of, sym_row, sym_view
from ..unit import Unit, run_units

LEVEL = 'proof'
TRUSTED = [
    'tsam.TimeSeriesAggregation: assigns every period to a typical period (clusterOrder) and returns data in which the periods assigned to one typical period are equal '
    '(the bounded unit with the real tsam checks this on the systems it draws)',
    'pandas.DataFrame holds the columns it is given (a stand-in with columns of symbolic length in the proof, the real one in the bounded runs)',
    'FlowSystem.get_time_data_from_indices and TimeSeries.active_data: C17; Summand / Equation: C01; the model of the system itself: C03-C16 (here it is compared row by row with the one of a plain calculation)',
    'rounding of the share of free steps: nearest integer (built-in round)',
]
ASSUMPTIONS = ['the first step of a period is not tied (as documented in get_equation_indices); the number of periods and their assignment are enumerated (all assignments of up to 4 periods), steps per period and horizon are symbolic']
EXPLANATION = (
    'AggregatedCalculation.do_modeling runs on a symbolic number of steps and of steps per period, for every assignment of up to 4 periods (the last one possibly shortened) to typical periods. '
    'Its rows are compared with those of a FullCalculation of an identical system that is given the aggregated data: all further rows together state exactly the ties.'
)


def partitions(p):
    def go(i, cur, k):
        if i == p:
            yield tuple(cur)
            return
        for j in range(k + 1):
            yield from go(i + 1, cur + [j], max(k, j + 1))
    yield from go(0, [], 0)


class _o:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Frame:
    """Stand-in of a pandas.DataFrame with columns of symbolic length."""

    def __init__(self, data=None, index=None):
        self.data, self.index = dict(data), index

    def __deepcopy__(self, memo):
        return Frame(self.data, self.index)

    def copy(self, deep=True):
        return Frame(self.data, self.index)

    @property
    def columns(self):
        return list(self.data)

    def __getitem__(self, k):
        return self.data[k]

    def __symlen__(self):
        return E.SymInt.mk(self.index.n)

    def to_dict(self, orient='dict'):
        if orient != 'list':
            raise E.Unsupported(f'to_dict(orient={orient!r})')
        return dict(self.data)


class Tsam:
    """Stand-in of the module tsam.timeseriesaggregation: a fixed assignment of periods, arbitrary typical profiles."""

    def __init__(self, x, order, L, tkey):
        world = self
        self.x, self.made = x, []

        class TimeSeriesAggregation:
            def __init__(self, timeSeries, **kw):
                self.timeSeries, self.kw = timeSeries, kw
                self.stepIdx = contracts.TimeAxis(x.i(L)) if x.sym else list(range(L))
                self.clusterOrder = [tkey(k) for k in order]
                self.clusterPeriodNoOccur = {}
                for k in sorted(set(self.clusterOrder)):
                    self.clusterPeriodNoOccur[k] = self.clusterOrder.count(k)
                self.extremePeriods = {'peak': {'profile': None, 'period': 0}}
                world.made.append(self)
                self.typical = False

            def createTypicalPeriods(self):
                self.typical = True

            def predictOriginalData(self):
                assert self.typical
                cols = {}
                for label in reversed(list(self.timeSeries.columns)):
                    cols[label] = world.column(label, self.timeSeries)
                if x.sym:
                    return Frame(cols, self.timeSeries.index)
                import pandas as pd
                return pd.DataFrame(cols, index=self.timeSeries.index)

        self.TimeSeriesAggregation = TimeSeriesAggregation
        self.order, self.L = order, L
        self.cols = {}

    def column(self, label, df):
        x, order, L = self.x, self.order, self.L
        if x.sym:
            n = E.zint(df.index.n)
            f = z3.Function(f'typical {label}', z3.IntSort(), z3.IntSort(), z3.RealSort())
            lo, hi = E.zreal(0.5), E.zreal(0.9375)
            L = x.i(L)

            def fn(t):
                r = f(z3.IntVal(order[-1]), t - (len(order) - 1) * L)
                for q in range(len(order) - 2, -1, -1):
                    r = z3.If(t < (q + 1) * L, f(z3.IntVal(order[q]), t - q * L), r)
                return r
            x.c.universals.append(E.Universal(z3.IntVal(0), n, lambda t: z3.And(fn(t) >= lo, fn(t) <= hi), label))
            col = V(n, fn)
        else:
            import numpy as np
            n = len(df.index)
            prof = {k: x.arr(f'typical {label} {k}', L, 0.5, 0.9375) for k in sorted(set(order))}
            col = np.array([prof[order[t // L]][t % L] for t in range(n)])
        self.cols[label] = col
        return col


OPTS = dict(fix=True, agg=True, comps=None, pct=0, pen=0, idx=None, peaks=False, swap=False, h=1.0)


class Ties(Unit):
    """The aggregated model is the plain model of the aggregated data plus exactly the ties."""

    name = 'ties'
    seeds = (4, 40)
    real = False

    def configs(self, tier):
        out = []
        for p in range(1, 5):
            for o in partitions(p):
                out.append(dict(OPTS, order=o, swap=len(out) % 2 == 1))
        for o in ((0, 0), (0, 1, 0), (0, 1, 0, 1), (0, 0, 1, 0)):
            for ch in (dict(fix=False), dict(agg=False), dict(comps=('Src', 'Sto')), dict(comps=()), dict(comps=('Sto',), fix=False), dict(pct=25), dict(pct=40, pen=3.0), dict(agg=False, pct=10, pen=0.5),
                       dict(idx='list'), dict(idx='range'), dict(peaks=True), dict(h=0.25)):
                if tier == 'quick' and len(o) in (2, 4) and not set(ch) & {'pct', 'agg', 'fix'}:
                    continue
                if tier == 'quick' and o in ((0, 1, 0, 1), (0, 0)) and 'pct' not in ch:
                    continue
                out.append(dict(OPTS, order=o, **ch))
        out.append(dict(OPTS, order=(0, 1), pct=30, pen=2.0))
        if tier != 'quick':
            for o in partitions(5):
                out.append(dict(OPTS, order=o))
        return out

    def install(self):
        import pandas

        import flixOpt.aggregation as ag
        from flixOpt.flow_system import FlowSystem

        p = contracts.install()
        base = pair.make_active_ts()

        class TS(base):
            @property
            def is_array(self):
                return self.data.n is not None

            @property
            def is_scalar(self):
                return self.data.n is None

        contracts._CTS['c'] = TS
        unit = self

        def get_time_data_from_indices(self, time_indices=None):
            n = E.zint(self.time_series.n) if time_indices is None else pair.picker(time_indices).n
            h = E.zreal(unit.h)
            return contracts.TimeAxis(n), contracts.TimeAxis(z3.simplify(n + 1)), V(n, lambda i: h), V(None, lambda i: z3.ToReal(n) * h)

        p.set(FlowSystem, 'get_time_data_from_indices', get_time_data_from_indices)
        p.set(pandas.__dict__, 'DataFrame', Frame)

    # -- the system
    def system(self, x, n, data):
        import numpy as np

        import flixOpt as f

        if x.sym:
            fs = f.FlowSystem(np.array(['2020-01-01T00', '2020-01-01T01', '2020-01-01T02'], dtype='datetime64[h]'))
            fs.time_series = contracts.TimeAxis(x.i(n))
        else:
            fs = f.FlowSystem(np.datetime64('2020-01-01T00:00') + np.arange(n) * np.timedelta64(int(60 * self.h), 'm'))
        costs = f.Effect('costs', 'EUR', 'c', is_standard=True, is_objective=True)
        fs.add_effects(costs)
        bus, heat = f.Bus('bus', 1000), f.Bus('heat', 500)
        tsd = {}

        def ts(key, **kw):
            v = data(key)
            if kw:
                v = tsd[key] = f.TimeSeriesData(v, **kw)
            return v
        w = data.weight
        src = f.Source('Src', source=f.Flow('s', bus=bus, size=8, effects_per_flow_hour=ts('price', agg_weight=w), relative_minimum=0.125,
                                            relative_maximum=ts('max', agg_group='g'), on_off_parameters=f.OnOffParameters(switch_on_total_max=50)))
        snk = f.Sink('Snk', sink=f.Flow('d', bus=heat, size=4, fixed_relative_profile=ts('load', agg_group='g')))
        boi = f.linear_converters.Boiler('Boi', eta=ts('eta'), Q_fu=f.Flow('fuel', bus=bus, size=f.InvestParameters(minimum_size=1, maximum_size=20)),
                                         Q_th=f.Flow('th', bus=heat), on_off_parameters=f.OnOffParameters(effects_per_running_hour=1.5))
        sto = f.Storage('Sto', f.Flow('in', bus=heat, size=4), f.Flow('out', bus=heat, size=4), 8, initial_charge_state=2, relative_maximum_charge_state=ts('cs'))
        fs.add_elements(src, snk, boi, sto)
        labels = dict(zip(['price', 'max', 'load', 'eta', 'cs'], [None] * 5))
        return fs, tsd, labels

    def body(self, x, cfg):
        import flixOpt.aggregation as ag
        import flixOpt.calculation as fc

        order = cfg['order']
        P = len(order)
        self.h = h = cfg['h']
        # N steps in P periods of L steps, the last one possibly shorter
        if x.sym:
            L, n = x.int('L', 1), x.int('n', 2)
        else:
            L = x.int('L', 2 if P == 1 else 1, 4)
            n = x.int('n', max(2, (P - 1) * L + 1), P * L)
        LL, N = x.i(L), x.i(n)
        x.assume(x.And((P - 1) * LL < N, N <= P * LL))
        full, idx, pick = n, None, lambda t: t
        if cfg['idx'] is not None:
            full = x.int('full', n, None if x.sym else n + 3)
            if cfg['idx'] == 'range':
                a = x.int('a', 0, full - n)
                idx, pick = x.rng(a, a + n), lambda t: x.i(a) + t
            elif x.sym:
                # selected steps are consecutive in time: constant width (C17)
                idx = x.iarr('idx', n, 0, full - 1)
                pick = idx.fn
            else:
                a = x.int('a', 0, full - n)
                idx = list(range(a, a + n))
                pick = lambda t: idx[t]
        series = {}

        def data(key):
            if key not in series:
                series[key] = x.arr(key, full + 1 if key == 'cs' else full, 0.5, 0.9375)
            return series[key]
        data.weight = 0.25 if not cfg['peaks'] else 0.0
        fs, tsd, _ = self.system(x, full, data)
        par = ag.AggregationParameters(
            hours_per_period=(V(None, lambda i: E.zreal(h) * z3.ToReal(LL)) if x.sym else h * L), nr_of_periods=len(set(order)), fix_storage_flows=cfg['fix'],
            aggregate_data_and_fix_non_binary_vars=cfg['agg'], percentage_of_period_freedom=cfg['pct'], penalty_of_period_freedom=cfg['pen'],
            time_series_for_high_peaks=[tsd['price']] if cfg['peaks'] else None, time_series_for_low_peaks=[tsd['load']] if cfg['peaks'] else None,
        )
        comps = None if cfg['comps'] is None else [fs.components[k] for k in cfg['comps']]
        swap = (lambda k: max(order) - k) if cfg['swap'] else (lambda k: k)
        fake = Tsam(x, order, L, swap)
        real_tsam, real_plot = ag.tsam, ag.Aggregation.plot
        if not self.real:
            ag.tsam = fake
        ag.Aggregation.plot = lambda self, *a, **k: None
        calc = fc.AggregatedCalculation('calc', fs, par, comps, time_indices=idx)
        try:
            sm = calc.do_modeling()
        finally:
            ag.tsam, ag.Aggregation.plot = real_tsam, real_plot
        if self.real:
            order = [int(k) for k in calc.aggregation.tsam.clusterOrder]
            P = len(order)
            df = calc.aggregation.aggregated_data
            cols = {k: df[k].to_numpy() for k in df.columns}
            for k, v in cols.items():
                for q1, q2 in itertools.combinations(range(P), 2):
                    if order[q1] == order[q2]:
                        for r in range(min(L, n - q2 * L)):
                            if abs(v[q1 * L + r] - v[q2 * L + r]) > 1e-6:
                                x.fail('the aggregated data repeat the typical period')
        else:
            cols = fake.cols
            self.handed_over(x, cfg, fake, fs, series, tsd, idx, pick, N)

        # --- data the model sees
        def seen(key):
            """What the model has to see: the typical data in every period if requested, else the own data."""
            label = label_of.get(key)
            own = series[key]
            if cfg['agg'] and label is not None and label in cols:
                col = cols[label]
                if key != 'cs':
                    return col
                last = x.at(own, x.i(pick(N - 1)) + 1)
                if x.sym:
                    return V(z3.simplify(N + 1), lambda i: z3.If(i < N, col.fn(i), last))
                import numpy as np
                return np.append(col, float(last))
            if idx is None:
                return own
            if x.sym:
                if key == 'cs':
                    return V(z3.simplify(N + 1), lambda i: own.fn(z3.If(i < N, pick(i), pick(N - 1) + 1)))
                return V(N, lambda i: own.fn(pick(i)))
            t = list(idx)
            return own[t + ([t[-1] + 1] if key == 'cs' else [])]
        label_of = labels(x, fs, series)
        def data2(key):
            return seen(key)
        data2.weight = data.weight
        fs2, _, _ = self.system(x, n, data2)
        sm2 = fc.FullCalculation('calc', fs2).do_modeling()
        a, b = view(x, sm), view(x, sm2)
        self.compare(x, cfg, sm, sm2, a, b, fs, order, LL, N)

    def handed_over(self, x, cfg, fake, fs, series, tsd, idx, pick, N):
        """What the clustering is given."""
        if len(fake.made) != 1:
            x.fail('one clustering')
            return
        t = fake.made[0]
        kw = t.kw
        lab = labels(x, fs, series)
        for nm, want in (('noTypicalPeriods', len(set(cfg['order']))),):
            if kw.get(nm) != want:
                x.fail(f'{nm} handed to the clustering', str(kw.get(nm)))
        x.check('length of a period handed to the clustering', x.eq(x.at(kw['hoursPerPeriod']), x.at(kw['resolution']) * x.i(fake.L)) if not x.sym else x.at(kw['hoursPerPeriod']) == x.at(kw['resolution']) * z3.ToReal(x.i(fake.L)))
        x.check('step width handed to the clustering', x.eq(x.at(kw['resolution']), x.r(cfg['h'])))
        peaks = (sorted(kw.get('addPeakMax') or []), sorted(kw.get('addPeakMin') or []), kw.get('extremePeriodMethod'))
        want = ([lab['price']], [lab['load']], 'new_cluster_center') if cfg['peaks'] else ([], [], 'None')
        if peaks != want and not (not x.sym and any(v not in t.timeSeries.columns for v in want[0] + want[1])):
            x.fail('peaks handed to the clustering', str(peaks))
        cols = {k: t.timeSeries[k] for k in t.timeSeries.columns}
        arrays = {lab[k]: k for k in series if x.sym or not all(v == series[k][0] for v in series[k])}
        if set(cols) != set(arrays):
            x.fail('data handed to the clustering: all series that vary', str(set(cols) ^ set(arrays)))
            return
        group = [l for l, k in arrays.items() if k in ('max', 'load')]
        for l, k in arrays.items():
            w = (kw.get('weightDict') or {}).get(l)
            want = 1 / len(group) if l in group else tsd[k].agg_weight if k in tsd else 1
            if w is None or abs(w - want) > 1e-12:
                x.fail(f'weight of series {k}', f'{w} instead of {want}')
            v = cols[l] if x.sym else t.timeSeries[l].to_numpy()
            x.check(f'data handed to the clustering: one value of {k} per step', x.And(x.length(v)[0], x.eq(x.length(v)[1], N)))
            x.forall(f'data handed to the clustering: {k}', 0, N, lambda j, v=v, k=k: x.eq(x.at(v, j), x.at(series[k], pick(j))))

    def chosen(self, cfg, fs):
        """Labels of the variables that must be tied (of the plain system fs)."""
        from flixOpt.components import Storage
        from flixOpt.math_modeling import VariableTS

        out = {}
        for c in fs.components.values():
            if cfg['comps'] is not None and c.label not in cfg['comps']:
                continue
            if isinstance(c, Storage) and not cfg['fix']:
                continue
            for v in c.model.all_variables.values():
                if isinstance(v, VariableTS) and (cfg['agg'] or v.is_binary):
                    out[v.label] = v
        return out

    def compare(self, x, cfg, sm, sm2, a, b, fs, order, L, N):
        chosen = self.chosen(cfg, sm2.flow_system)
        free = cfg['pct'] > 0
        pen = cfg['pen'] if free else 0
        total = sm2.effect_collection_model.penalty.sum.label
        extra_vars = [v for l, v in a.vars.items() if l not in b.vars]
        missing = [l for l in b.vars if l not in a.vars]
        if missing:
            x.fail('variables of the plain model', str(missing))
            return
        key = lambda r: r.label
        plain = {}
        for r in b.rows:
            plain.setdefault(key(r), []).append(r)
        base, extra, sums = _o(vars={l: v for l, v in a.vars.items() if l in b.vars}, rows=[], objective=a.objective), [], []
        for r in a.rows:
            if not plain.get(key(r)):
                extra.append(r)
            elif pen and total in names(r) and is_total(r, total):
                sums.append((r, plain[key(r)].pop(0)))
            else:
                base.rows.append(r)
                plain[key(r)].pop(0)
        dropped = {id(p) for _, p in sums}
        rest = _o(vars=b.vars, rows=[r for r in b.rows if id(r) not in dropped], objective=b.objective)
        if any(plain.values()):
            x.fail('rows of the plain model', str([k for k, v in plain.items() if v]))
            return
        pair.compare(x, base, rest, 'model of the aggregated data')
        if not x.sym:
            self.semantics(x, cfg, a, extra, extra_vars, sums, chosen, order, int(L), int(N), total, pen)
            return
        P = len(order)
        pairs = star(order)  # equality of two further periods follows
        tie_rows, other = {}, []
        for r in extra:
            us = {u for u in r.uses if u in b.vars}
            if len(us) == 1 and r.kind == 'eq' and us <= set(chosen):
                tie_rows.setdefault(us.pop(), []).append(r)
            else:
                other.append(r)
        obj = {e.label: e for e in list(sm.equations) + list(sm.inequations)}
        allK = []
        for l, var in chosen.items():
            xv = a.vars[l]
            rows = tie_rows.pop(l, [])
            relaxed = free and var.is_binary
            if not pairs:
                if rows:
                    x.fail(f'no ties without equal periods: {l}')
                continue
            if not rows:  # only right if no step is at a later position of two equal periods
                x.check(f'{l}: ties', z3.And([z3.Not(z3.And(L > 1, q * L + 1 < N)) for p, q in pairs]))
                continue
            if len(rows) != 1:
                raise E.Unsupported('several equations with ties')
            row = rows[0]
            blocks = index_blocks(obj[row.label], l)
            K = [a.vars[u] for u in row.uses if u != l]
            if relaxed and len(K) != 2 or (not relaxed and K):
                raise E.Unsupported('form of a tie')
            if not relaxed:
                # soundness
                for p, q in pairs:
                    r = x.c.fresh('r', 'Int')
                    x.c.add_index(r)
                    i1, i2 = p * L + r, q * L + r
                    hyp = [z3.Implies(z3.And(j >= 0, j < row.hi), row.body(j)) for j in positions(blocks, (i1, i2))]
                    rng = z3.And(r >= 1, r < L, i2 < N)
                    x.out.append((f'{l}: steps at the same position of equal periods are tied', [r], z3.Implies(z3.And([rng] + hyp), xv(i1) == xv(i2)), list(x.c.hyps()), []))
                # completeness
                t = x.c.fresh('t', 'Int')
                x.out.append((f'{l}: nothing else is tied', [t], z3.Implies(z3.And([t >= 0, t < row.hi] + ties_at(blocks, t, pairs, xv, L, N)), row.body(t)), list(x.c.hyps()), []))
            else:
                k1, k0 = K
                allK += K
                t = x.c.fresh('t', 'Int')
                lim, locks = [], []
                for r in list(other):
                    us = set(r.uses)
                    if us and us <= {k1.label, k0.label}:
                        (locks if not z3.simplify(r.hi).eq(z3.IntVal(1)) else lim).append(r)
                        other.remove(r)
                if len(locks) != 1 or len(lim) != 1 or not (k1.binary and k0.binary):
                    raise E.Unsupported('form of the free steps')
                lock, mx = locks[0], lim[0]
                # one correction per pair of periods and position
                x.check(f'{l}: number of corrections', z3.And(k1.n == row.hi, k0.n == row.hi, lock.hi == row.hi))
                tot = z3.IntVal(0)
                for p, q in star(order):
                    m = z3.If(N - q * L < L, N - q * L, L) - 1
                    tot = tot + z3.If(m > 0, m, z3.IntVal(0))
                x.check(f'{l}: one correction per pair of tied steps', row.hi == tot)
                rng = [t >= 0, t < row.hi]
                # a pair may deviate only with its correction; every deviation is possible with one
                x.out.append((f'{l}: a deviation needs a correction', [t], z3.Implies(z3.And(rng + [row.body(t), lock.body(t)]), z3.And([z3.Or(ab(xv(i1) - xv(i2)) <= k1(t) + k0(t), z3.Not(at)) for i1, i2, at in spots(blocks, t)] + [k1(t) + k0(t) <= 1])), list(x.c.hyps()), []))
                one = lambda c: z3.If(c, z3.RealVal(1), z3.RealVal(0))
                for i1, i2, at in spots(blocks, t):
                    x.out.append((f'{l}: every deviation is possible with one correction', [t], z3.Implies(z3.And(rng + [at, k1(t) == one(xv(i1) < xv(i2)), k0(t) == one(xv(i1) > xv(i2))]), z3.And(row.body(t), lock.body(t))), list(x.c.hyps()), []))
                for p, q in pairs:
                    # which pairs the corrections belong to: every tied pair (up to transitivity) is one of the spots
                    if True:
                        r = x.c.fresh('r', 'Int')
                        hit = [z3.And(j >= 0, j < row.hi, z3.Or([z3.And(at, z3.Or(z3.And(i1 == p * L + r, i2 == q * L + r), z3.And(i2 == p * L + r, i1 == q * L + r))) for i1, i2, at in spots(blocks, j)])) for j in positions(blocks, (p * L + r, q * L + r))]
                        x.out.append((f'{l}: every pair of equal steps has a correction', [r], z3.Implies(z3.And(r >= 1, r < L, q * L + r < N), z3.Or(hit)), list(x.c.hyps()), []))
                z = z3.IntVal(0)
                S = x.c.SUM(z, k1.n, lambda j: k1(j) * 1) + x.c.SUM(z, k0.n, lambda j: k0(j) * 1)
                if mx.kind != 'ineq':
                    x.fail(f'{l}: limit of deviations')
                x.check(f'{l}: the corrections are limited all together', mx.lhs(z) == S)
                share = z3.ToReal(row.hi) * E.zreal(cfg['pct']) / 100
                x.check(f'{l}: the limit is the share of the tied steps', z3.And(mx.rhs(z) >= share - E.zreal(0.5), mx.rhs(z) <= share + E.zreal(0.5)))
        # penalty for the corrections
        if pen:
            if allK and len(sums) != 1:
                x.fail('penalty of the deviations', f'{len(sums)} rows')
            z = z3.IntVal(0)
            for r, p in sums:
                cost = sum([x.c.SUM(z, k.n, lambda j, k=k: k(j) * E.zreal(pen)) for k in allK], z3.RealVal(0))
                sv = a.vars[total](0)
                # definitions of the further shares
                defs, used = [], set()
                for o in list(other):
                    if z3.simplify(o.hi).eq(z3.IntVal(1)) and o.kind == 'eq':
                        defs.append(o.lhs(z) == o.rhs(z))
                        other.remove(o)
                want = z3.substitute(z3.simplify(p.lhs(z) - p.rhs(z)), (sv, sv - cost))
                x.check('every deviation costs its penalty', z3.Implies(z3.And(defs), z3.And(z3.Implies(r.lhs(z) == r.rhs(z), want == 0), z3.Implies(want == 0, r.lhs(z) == r.rhs(z)))))
                shares = [v for v in extra_vars if v not in allK]
                if len(defs) != len(shares) or any(v.lb is not None or v.ub is not None or v.fixed is not None or v.binary for v in shares):
                    x.fail('the shares in the penalty are defined by the deviations')
        ok = {id(k) for k in allK}
        left = [v.label for v in extra_vars if id(v) not in ok and not (pen and z3.simplify(v.n).eq(z3.IntVal(1)))]
        if left:
            x.fail('no further variables', str(left))
        if other or any(tie_rows.values()):
            x.fail('nothing but the chosen variables is tied', str([r.label for r in other] + list(tie_rows)))

    # -- concrete: the rows handed to the solver
    def semantics(self, x, cfg, a, extra, extra_vars, sums, chosen, order, L, N, total, pen):
        z = z3.IntVal(0)
        P = len(order)
        classes = {}
        for t in range(N):
            q, r = divmod(t, L)
            if r:
                classes.setdefault((order[q], r), []).append(t)
        free = cfg['pct'] > 0
        s = z3.Solver()
        decl = []
        for l, v in a.vars.items():
            if v.binary:
                for i in range(z3.simplify(v.n).as_long()):
                    decl.append(z3.Or(v(i) == 0, v(i) == 1))
        for v in extra_vars:
            decl += [v.bound(z3.IntVal(i)) for i in range(z3.simplify(v.n).as_long())]
        s.add([r.relaxed(z, z3.RealVal(0)) for r in extra] + decl)
        ties, npairs = [], {}
        strict = []
        for l, var in chosen.items():
            v = a.vars[l]
            rel = free and var.is_binary
            for (k, r), ts in classes.items():
                for t in ts[1:]:
                    npairs[l] = npairs.get(l, 0) + 1
                    (ties if rel else strict).append((l, v(ts[0]), v(t)))
        for l, p, q in strict:
            x.n_checks += 1
            s.push()
            s.add(p != q)
            if s.check() == z3.sat:
                x.fail(f'{l}: steps at the same position of equal periods are tied', f'{p} {q}')
                s.pop()
                return
            s.pop()
        if not free:
            o = z3.Solver()
            o.add([p == q for l, p, q in strict] + decl)
            o.add(z3.Not(z3.And([r.body(z) for r in extra])))
            x.n_checks += 1
            if o.check() == z3.sat:
                x.fail('nothing else is tied')
            if extra_vars:
                x.fail('no further variables')
            return
        # with free steps: draw deviations and ask whether they are allowed
        for _ in range(6):
            fix, cost, ok = [], 0, True
            for l, var in chosen.items():
                v = a.vars[l]
                if not var.is_binary:
                    continue
                vals = {}
                flip = x.r_.choice([0.1, 0.3, 0.6])
                for (k, r), ts in classes.items():
                    first = x.r_.randint(0, 1)
                    for t in ts:
                        vals[t] = first if t == ts[0] or x.r_.random() > flip else 1 - first
                dev = sum(vals[t] != vals[ts[0]] for ts in classes.values() for t in ts[1:])
                ok = ok and dev <= round(cfg['pct'] / 100 * npairs.get(l, 0))
                cost += dev
                fix += [v(t) == b for t, b in vals.items()]
            x.n_checks += 1
            s.push()
            s.add(fix + [p == q for l, p, q in strict])
            r = s.check()
            if (r == z3.sat) != ok:
                x.fail('deviations of binaries up to the given share', f'{"rejected" if ok else "allowed"}')
            elif ok and pen and sums:
                for row, p in sums:
                    sv = a.vars[total](0)
                    s.add(row.body(z), z3.substitute(p.lhs(z) - p.rhs(z), (sv, sv - zr(pen) * cost)) != 0)
                    # more corrections than needed are not excluded by the rows, but never cheaper
                    low = z3.Solver()
                    low.add(s.assertions())
                    low.add(z3.substitute(p.lhs(z) - p.rhs(z), (sv, sv - zr(pen) * cost)) * sgn(p, sv) > zr(1e-9))
                    x.n_checks += 1
                    if low.check() == z3.sat:
                        x.fail('a deviation is cheaper than its penalty')
                s.pop()
                s.push()
                s.add(fix + [p_ == q_ for l_, p_, q_ in strict])
                for row, p in sums:
                    sv = a.vars[total](0)
                    e = z3.substitute(p.lhs(z) - p.rhs(z), (sv, sv - zr(pen) * cost))
                    s.add(row.body(z), e <= zr(1e-9), e >= zr(-1e-9))
                if s.check() != z3.sat:
                    x.fail('a deviation costs more than its penalty')
            s.pop()


def zr(v):
    return E.zreal(v)


def sgn(p, sv):
    """-1 if the total has coefficient -1 in lhs - rhs: value too small -> positive."""
    return 1 if pair.coefs(p.lhs(z3.IntVal(0)) - p.rhs(z3.IntVal(0))).get(str(sv), 0) < 0 else -1


def names(r):
    return {u.split('[')[0] for u in r.uses}


def is_total(r, total):
    """The row that defines the total of the penalties (not the objective)."""
    return r.kind == 'eq' and 'penalty' in r.label.lower()


def ab(e):
    return z3.If(e >= 0, e, -e)


def star(order):
    """First period of every group with each further one."""
    first, out = {}, []
    for q, k in enumerate(order):
        if k in first:
            out.append((first[k], q))
        else:
            first[k] = q
    return out


def index_blocks(eq, label):
    """[(blocks of a summand)] of the summands with the variable."""
    out = []
    for s in eq.summands:
        if s.variable.label == label:
            if not hasattr(s.index, 'blocks'):
                raise E.Unsupported('indices of a tie')
            off, bl = z3.IntVal(0), []
            for lo, n in s.index.blocks:
                bl.append((lo, n, off))
                off = z3.simplify(off + n)
            out.append(bl)
    return out


def positions(blocks, idxs):
    out, seen = [], set()
    for bl in blocks:
        for lo, n, off in bl:
            for i in idxs:
                j = z3.simplify(off + i - lo)
                if j.get_id() not in seen:
                    seen.add(j.get_id())
                    out.append(j)
    return out


def spots(blocks, t):
    """[(index of the first step, index of the second step, position t belongs to this pair of runs)]"""
    if len(blocks) != 2 or len(blocks[0]) != len(blocks[1]):
        raise E.Unsupported('form of a tie')
    out = []
    for (lo1, n1, off1), (lo2, n2, off2) in zip(*blocks):
        out.append((lo1 + t - off1, lo2 + t - off2, z3.And(t >= off1, t < off1 + n1, t >= off2, t < off2 + n2)))
    return out


def ties_at(blocks, t, pairs, xv, L, N):
    """Instances of the ties that concern position t."""
    out = []
    for bl in blocks:
        for lo, n, off in bl:
            for p, q in pairs:
                for base in (p, q):
                    r = lo + t - off - base * L
                    out.append(z3.Implies(z3.And(r >= 1, r < L, q * L + r < N), xv(p * L + r) == xv(q * L + r)))
    return out


def labels(x, fs, series):
    """key -> label of the time series with the data."""
    import numpy as np

    out = {}
    for ts in fs.all_time_series:
        for key, v in series.items():
            if ts.data is v or (not x.sym and (np.array_equal(ts.data, v) or (np.isscalar(ts.data) and key in ts.label and np.all(v == ts.data)))):
                out[key] = ts.label
    return out


def view(x, sm):
    if not x.sym:
        w = pyomo_view(sm)
        return w
    w = sym_view(sm.variables, list(sm.equations) + list(sm.inequations))
    if sm.objective is not None:
        w.objective = sym_row(sm.objective).lhs(z3.IntVal(0))
    return w


class RealTsam(Ties):
    """The same with the real clustering (bounded)."""

    name = 'ties with the real clustering'
    symbolic = False
    real = True
    seeds = (3, 25)

    def configs(self, tier):
        return [dict(OPTS, order=(0, 1, 0, 1), **ch) for ch in (dict(), dict(agg=False), dict(pct=30, pen=2.0), dict(peaks=True), dict(fix=False, idx='range'))]


def run(out, tier, t_end):
    run_units(out, [Ties(), RealTsam()], tier, t_end)
