"""C21: calculations leave the system and the inputs of the user reusable."""
import z3

from .. import engine as E
from .. import pair, scenario
from ..engine import IV, V
from ..unit import Unit, run_units
from .c01 import REAL_ERRORS

LEVEL = 'proof'
TRUSTED = []
EXPLANATION = (
    'Relational: the systems of the other properties are modelled by the real FullCalculation.do_modeling several times on one system (a first calculation on all steps or on an arbitrary selection, then '
    'arbitrary leftovers of any other calculation in the mutable state of the elements and series), on a horizon of symbolic length with symbolic data. The last model equals, row by row and bound by bound, '
    'the model of a system that was never modelled before; the models and results of earlier calculations stay as they were; every input (numbers, arrays, containers, parameter objects) keeps its data.'
)
ASSUMPTIONS = ['an element belongs to one FlowSystem (parameters may be shared by elements and systems)', 'selected indices are ascending and not negative']


# ---------------------------------------------------------------------------------------------------------------- inputs of the user
SKIP = {'model', 'used_time_series', 'active_indices', 'aggregated_data', 'label'}


def reachable(fs):
    """The objects of flixOpt that belong to a system: elements, flows, parameters, series."""
    seen, out, todo = set(), [], [fs]
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, (list, tuple, set)):
            todo.extend(o)
        elif isinstance(o, dict):
            todo.extend(o.keys())
            todo.extend(o.values())
        elif type(o).__module__.startswith('flixOpt') and hasattr(o, '__dict__') and not isinstance(o, type):
            from flixOpt.math_modeling import MathModel

            if isinstance(o, MathModel) or type(o).__name__.endswith('Model'):
                continue
            out.append(o)
            todo.extend(v for k, v in vars(o).items() if k not in ('model',))
    return out


def frozen(v):
    """The data of an attribute (series are their data)."""
    import numpy as np

    if isinstance(v, V):
        return ('V', v.n, v.flag, v.fn)
    if isinstance(v, np.ndarray):
        return ('array', v.copy())
    if type(v).__name__ == 'TimeSeriesData':
        return frozen(v.data)
    if hasattr(v, 'active_data'):
        return frozen(v.data)
    if isinstance(v, (list, tuple)):
        return ('list', [frozen(q) for q in v])
    if isinstance(v, dict):
        return ('dict', [(k, frozen(q)) for k, q in v.items()])
    return ('is', v)


def unchanged(x, name, a, b, standard):
    """b holds the data a."""
    import numpy as np

    if a[0] != 'dict' and b[0] == 'dict':  # the value for the standard effect
        a = ('dict', [] if a[0] == 'is' and a[1] is None else [(None, a)])
    if a[0] == 'dict' and b[0] == 'is' and b[1] is None and not a[1]:
        return
    if a[0] == 'dict':
        if b[0] != 'dict':
            return x.fail(f'{name}: the entries')
        key = lambda k: id(standard) if k is None or k is standard else k if isinstance(k, (str, int)) else id(k)
        p, q = {key(k): v for k, v in a[1]}, {key(k): v for k, v in b[1]}
        if set(p) != set(q):
            return x.fail(f'{name}: the entries')
        for k in p:
            unchanged(x, name, p[k], q[k], standard)
        return
    if a[0] == 'list':
        if b[0] != 'list' or len(a[1]) != len(b[1]):
            return x.fail(f'{name}: the entries')
        for p, q in zip(a[1], b[1]):
            unchanged(x, name, p, q, standard)
        return
    if a[0] == 'V' and b[0] == 'V':
        if a[3] is b[3] and a[2] is b[2]:
            return
        p, q = V(a[1], a[3], a[2]), V(b[1], b[3], b[2])
        (va, na), (vb, nb) = x.length(p), x.length(q)
        x.check(f'{name}: shape', x.And(x.eq(va, vb), x.eq(na, nb)))
        x.forall(f'{name}: data', 0, na, lambda i: x.eq(p.fn(i), q.fn(i)))
        return
    if a[0] in ('array', 'is') and b[0] in ('array', 'is'):
        p, q = a[1], b[1]
        if p is q:
            return
        if isinstance(p, (np.ndarray, int, float, np.number)) and isinstance(q, (np.ndarray, int, float, np.number)):
            if np.ndim(q) == 0 and np.ndim(p) == 1 and np.all(p == p[0]):
                p = p[0]  # constant series are numbers
            if np.shape(p) == np.shape(q) and np.all(p == q):
                return
        elif p == q and not isinstance(p, (V, scenario.P)):
            return
    if a[0] == 'is' and b[0] == 'V' and isinstance(a[1], (int, float)):
        return x.check(f'{name}: number', x.And(x.Not(x.length(V(b[1], b[3], b[2]))[0]), x.eq(b[3](z3.IntVal(0)), E.zreal(a[1]))))
    x.fail(f'{name}: changed', f'{str(a)[:80]} -> {str(b)[:80]}')


class Inputs:
    """What the user gave to a system, before any calculation."""

    def __init__(self, fs):
        self.fs = fs
        self.attrs = [(o, {k: frozen(v) for k, v in vars(o).items() if k not in SKIP and self.of_user(k, v)}) for o in reachable(fs)]
        self.boxes = []
        for o, _ in self.attrs:
            for k, v in vars(o).items():
                if k not in SKIP and self.of_user(k, v):
                    self.box(f'{type(o).__name__}.{k}', v)

    @staticmethod
    def of_user(k, v):
        return not k.startswith('_') or isinstance(v, (int, float, V))  # (not a cache)

    def box(self, name, v):
        """Containers and arrays of the user."""
        import numpy as np

        if isinstance(v, dict):
            self.boxes.append((name, v, list(v.items())))
            for q in v.values():
                self.box(name, q)
        elif isinstance(v, (list, tuple)):
            self.boxes.append((name, v, list(v)))
            for q in v:
                self.box(name, q)
        elif isinstance(v, (V, np.ndarray)):
            self.boxes.append((name, v, frozen(v)))
        elif type(v).__name__ == 'TimeSeriesData':
            self.box(name, v.data)

    def verify(self, x, what):
        standard = self.fs.effect_collection.standard_effect
        for o, old in self.attrs:
            for k, v in old.items():
                name = f'{what}: {type(o).__name__}.{k}'
                if k not in vars(o):
                    x.fail(name + ' is gone')
                else:
                    unchanged(x, name, v, frozen(vars(o)[k]), standard)
        for name, v, old in self.boxes:
            name = f'{what}: the object given as {name}'
            if isinstance(v, dict):
                new = list(v.items())
                if len(new) != len(old) or any(a is not c or b is not d for (a, b), (c, d) in zip(old, new)):
                    x.fail(name)
            elif isinstance(v, (list, tuple)):
                if len(v) != len(old) or any(a is not b for a, b in zip(old, v)):
                    x.fail(name)
            else:
                unchanged(x, name, old, frozen(v), standard)


class Junk:
    """A model of an earlier calculation: not to be used."""


def leftovers(x, fs, k):
    """Arbitrary mutable state, as any earlier calculation may have left it."""
    for o in reachable(fs):
        if 'model' in vars(o):
            o.model = Junk()
        if hasattr(o, 'active_data') and 'active_indices' in vars(o):
            if x.sym:
                c = x.c
                m = c.fresh('left', 'Int')
                f, g = c.fresh_fn('left_idx', z3.IntSort(), z3.IntSort()), c.fresh_fn('left_data', z3.IntSort(), z3.RealSort())
                o.active_indices = IV(m, f)
                if E.lift(o.data).n is not None:
                    o.aggregated_data = V(m, g)
            else:
                import numpy as np

                n = len(fs.time_series)
                o.active_indices = sorted(x.r_.sample(range(n), x.r_.randint(1, n)))
                if np.ndim(o.data):
                    o.aggregated_data = np.array([x.r_.random() * 9 for _ in o.active_indices])


# ---------------------------------------------------------------------------------------------------------------- modelled again
class Again:
    """Hooks around the calculations on one system."""

    def before(self, k, fs):
        if k == 0:
            self.inputs = Inputs(fs)
            self.calcs = []
        else:
            leftovers(self.x, fs, k)

    def after(self, k, fs, calc):
        self.inputs.verify(self.x, f'inputs after calculation {k + 1}')
        self.calcs.append(calc)


class SymAgain(Again, pair.SymFull):
    pass


class ConcAgain(Again, pair.ConcFull):
    pass


class SymFresh(scenario.SymEnv):
    """A second system of the same (original) data, never modelled before."""

    def __init__(self, c, full):
        self.c, self.full = c, full
        for k in ('n', 'N', 'dt', '_total', 'prev_dt', 'shares'):
            if hasattr(full, k):
                setattr(self, k, getattr(full, k))
        self.params = {}

    def num(self, name, *a, **k):
        return self._copy(name)

    ts = vec = num

    def _copy(self, name):
        p = self.full.params[name]
        n, flag, fn = self.full.data[name]
        q = self.params[name] = scenario.P(V(n, fn, flag), p.at, name, p.vec)
        return q

    def model(self, fs):
        from flixOpt.calculation import FullCalculation

        sm = FullCalculation('calc', fs).do_modeling()
        return pair.SymFull.view(self, sm, fs)


class Recorded:
    """Remember the data of the parameters before the system is built."""

    def __init__(self, *a, **k):
        self.data = {}
        super().__init__(*a, **k)

    def num(self, name, *a, **k):
        return self._rec(name, super().num(name, *a, **k))

    def ts(self, name, *a, **k):
        return self._rec(name, super().ts(name, *a, **k))

    def vec(self, name, *a, **k):
        return self._rec(name, super().vec(name, *a, **k))

    def _rec(self, name, p):
        u = p.user
        self.data[name] = (u.n, u.flag, u.fn)
        return p


class SymRec(Recorded, SymAgain):
    pass


class Repeated(Unit):
    """The systems of the other properties: the model does not depend on what was calculated before."""

    seeds = (3, 12)

    def __init__(self, scn):
        self.scn = scn
        self.name = f'modelled again: {scn.prop} {scn.name}'

    def configs(self, tier):
        cfgs = [c for c in self.scn.configs('quick') if not self.scn.expects_error(c) and not (c.get('past', 0) > 1 and len(str(c.get('prev'))) > 10)]
        if tier == 'quick':
            cfgs = cfgs[:: max(1, len(cfgs) // 4)]
        return [dict(c, _first=['all', 'selection'][k % 2]) for k, c in enumerate(cfgs)]

    def install(self):
        pair.install()

    def body(self, x, cfg):
        cfg = dict(cfg)
        first = cfg.pop('_first')
        nmin = max(2, self.scn.nmin)
        if x.sym:
            full = SymRec(x.c, [None, None], nmin=nmin)
            if first == 'selection':
                m = x.int('m', nmin, full.N)
                full.plan = [ascending(x, 'idx', m, full.N), None]
        else:
            def plan(n):
                if first == 'all':
                    return [None, None]
                return [sorted(x.r_.sample(range(n), x.r_.randint(nmin, n))), None]
            full = ConcAgain(x.r_.randint(0, 10**6), plan, n=x.r_.randint(nmin + 1, 5))
        full.x = x
        a = self.attempt(x, full, cfg)
        if a is None and not full.views:  # the first calculation is rejected: nothing to compare
            full.inputs and full.inputs.verify(x, 'inputs after a rejected calculation')
            return
        if a is None:
            return x.fail('modelled again', f'{self.error}')
        again = full.view(full.calcs[0].system_model, a.fs) if x.sym else None
        if again is not None:
            pair.compare(x, full.views[0], again, 'the model of the first calculation')
        if first == 'all':
            pair.compare(x, full.views[0], a, 'modelled again')
        else:
            b = self.attempt(x, SymFresh(x.c, full) if x.sym else scenario.ConcEnv(0, n=full.n_int, values=full.values), cfg)
            if b is None:
                return x.fail('a new system can be modelled', f'{self.error}')
            pair.compare(x, a, b, 'modelled after a selection')

    def attempt(self, x, env, cfg):
        if x.sym:
            x.c.env = env
        try:
            return self.scn.build(env, cfg)
        except REAL_ERRORS:
            raise
        except Exception as e:
            import traceback

            self.error = f'{type(e).__name__}: {e} {traceback.format_exc()[-600:]}'
            return None


# ---------------------------------------------------------------------------------------------------------------- shared parameters
class Shared(Unit):
    """Parameter objects, containers and data used several times: the model of separate, equal objects."""

    name = 'shared parameters'
    seeds = (4, 20)

    def configs(self, tier):
        return [dict(use=u, par=p) for u in ('elements', 'system', 'system after a selection') for p in ('status', 'times', 'invest', 'segments', 'data')
                if not (p == 'segments' and u != 'elements')]  # (their effects belong to one system)

    def install(self):
        pair.install()

    def body(self, x, cfg):
        use = cfg['use']
        if x.sym:
            env = SymRec(x.c, [None])
            x.c.env = env
        else:
            env = ConcAgain(x.r_.randint(0, 10**6), lambda n: [None], n=x.r_.randint(3, 5))
        env.x = x
        one = {}

        def shared(key, mk):
            if key not in one:
                one[key] = mk()
            return one[key]
        d = self.draw(env, cfg)
        if use != 'elements':  # another system has used the objects before
            fs = self.system(env, cfg, d, shared)
            if use == 'system':
                plan = [None]
            elif x.sym:
                plan = [ascending(x, 'idx', x.int('m', 2, env.N), env.N)]
            else:
                plan = [sorted(x.r_.sample(range(env.n_int), x.r_.randint(2, env.n_int)))]
            env.plan = plan
            env.model(fs)
            env.plan, env.views = [None], []
        a = env.model(self.system(env, cfg, d, shared))
        fresh = SymFresh(x.c, env) if x.sym else scenario.ConcEnv(0, n=env.n_int, values=env.values)
        if x.sym:
            x.c.env = fresh
        d2 = self.draw(fresh, cfg)
        b = fresh.model(self.system(fresh, cfg, d2, lambda key, mk: mk()))
        pair.compare(x, a, b, 'shared')

    def draw(self, env, cfg):
        par, d = cfg['par'], {}
        if par == 'status':
            d['sw'], d['rh'] = env.ts('sw', lo=-5, hi=5), env.ts('rh', lo=-5, hi=5)
            d['max'], d['hmax'], d['hmin'] = env.num('swmax', lo=0, hi=9), env.num('hmax', lo=0, hi=9), env.num('hmin', lo=0, hi=3)
        elif par == 'times':
            for k in ('on_min', 'on_max', 'off_min', 'off_max'):
                d[k] = env.ts(k, lo=1, hi=5, shape='vec')
        elif par == 'invest':
            d['lo'] = env.num('lo', lo=0, hi=5)
            d['hi'] = env.num('hi', lo=5, hi=50)
            for k in ('fix', 'div', 'spec'):
                d[k] = env.num(k, lo=-5, hi=5)
        elif par == 'segments':
            for k in range(4):
                d['pt', k], d['sh', k] = env.num(f'pt{k}', lo=0, hi=50), env.num(f'sh{k}', lo=-5, hi=5)
        else:
            d['price'], d['rmax'], d['cost2'] = env.ts('price', lo=-5, hi=5), env.ts('rmax', lo=0, hi=1), env.ts('cost2', lo=-5, hi=5, shape='vec')
        return d

    def system(self, env, cfg, d, shared):
        import flixOpt as f

        fs = env.flow_system()
        costs = f.Effect('costs', 'EUR', 'costs', is_standard=True, is_objective=True)
        fs.add_effects(costs)
        bus = f.Bus('bus', None)
        par, u = cfg['par'], {k: p.user for k, p in d.items()}
        elements = []
        for k in range(2):
            kw = dict(size=100)
            if par == 'status':
                kw['on_off_parameters'] = shared('on', lambda: f.OnOffParameters(effects_per_switch_on=u['sw'], effects_per_running_hour=u['rh'], switch_on_total_max=u['max'],
                                                                                  on_hours_total_max=u['hmax'], on_hours_total_min=u['hmin']))
            elif par == 'times':
                kw['on_off_parameters'] = shared('on', lambda: f.OnOffParameters(consecutive_on_hours_min=u['on_min'], consecutive_on_hours_max=u['on_max'],
                                                                                  consecutive_off_hours_min=u['off_min'], consecutive_off_hours_max=u['off_max']))
            elif par == 'invest':
                kw['size'] = shared('size', lambda: f.InvestParameters(minimum_size=u['lo'], maximum_size=u['hi'], optional=True, fix_effects=u['fix'], divest_effects=u['div'],
                                                                       specific_effects=u['spec']))
            elif par == 'segments':
                seg = lambda q: [(u[q, 0], u[q, 1]), (u[q, 2], u[q, 3])]
                kw['size'] = shared('size', lambda: f.InvestParameters(minimum_size=0, maximum_size=50, effects_in_segments=(seg('pt'), {costs: seg('sh')})))
            else:
                kw['relative_maximum'] = shared('rmax', lambda: f.TimeSeriesData(u['rmax']))
                data = shared('cost2', lambda: f.TimeSeriesData(u['cost2'], agg_weight=1))
                kw['effects_per_flow_hour'] = shared('eff', lambda: {costs if cfg['use'] == 'elements' else None: u['price']}) if k < 1 else data
            elements.append(f.Source(f'S{k}', source=f.Flow('q', bus=bus, **kw)))
            if par == 'data':  # the same container once more
                kw['effects_per_flow_hour'] = shared('eff', lambda: {costs if cfg['use'] == 'elements' else None: u['price']}) if k else data
                elements.append(f.Source(f'T{k}', source=f.Flow('q', bus=bus, **kw)))
        fs.add_elements(*elements)
        fs.add_elements(f.Sink('D', sink=f.Flow('d', bus=bus, size=1000)))
        return fs


# ---------------------------------------------------------------------------------------------------------------- results
class FakeModel:
    """Contract of PyomoModel.solve (C02): every variable gets some value, the objective is some number."""

    def __init__(self, x, known, main, big):
        self.x, self.known, self.main, self.big = x, known, main, big

    def solve(self, sm, solver):
        x = self.x
        truth = {}
        # one calculation has excess in every bus and invests, the other has and does neither (what the main results sort out: C02)
        ex = {id(v) for p in self.main['excess'].values() for v in p}
        sizes = {id(v) for v in self.main['sizes'].values()}
        for k, v in enumerate(sm.variables):
            if x.sym:
                scalar = isinstance(v.length, int) and v.length == 1
                if scalar:
                    e = x.c.fresh('value', 'Real')
                    v.result = V(None, lambda i, e=e: e)
                else:
                    v.result = V(v.length, x.c.fresh_fn('values', z3.IntSort(), z3.RealSort()))
            else:
                import numpy as np

                r = lambda: (x.r_.randint(8, 400) / 8 if self.big else 0.0) if id(v) in ex | sizes else x.r_.randint(-400, 400) / 8
                v.result = r() if v.length == 1 else np.array([r() for _ in range(v.length)])
            truth[id(v)] = v.result
            if x.sym and id(v) in ex:
                tot = x.SUM(0, v.length, lambda i, q=v.result: x.at(q, i))
                x.c.assumptions.append(tot > 1 if self.big else tot <= 0)
            if x.sym and id(v) in sizes:
                x.c.assumptions.append(x.r(v.result) > 1 if self.big else x.r(v.result) <= 0)
        e = x.c.fresh('objective', 'Real') if x.sym else None
        sm.result_of_objective = V(None, lambda i: e) if x.sym else x.r_.randint(-400, 400) / 8
        solver.objective = sm.result_of_objective
        solver.best_bound = sm.result_of_objective
        self.known[id(sm)] = dict(values=truth, objective=sm.result_of_objective, sm=sm, big=self.big)


class AnySolver:
    termination_message = 'optimal'
    logfile_name = 'log'
    log = None
    best_bound = objective = None

    def __repr__(self):
        return f'solver({id(self.objective)})'


def tree(sm):
    """The variables of a model by the names they are reported under, and the parts of the main results."""
    fs = sm.flow_system
    from flixOpt.features import InvestmentModel, ShareAllocationModel

    def of(model):
        d = {v.label_short: v for v in model.variables.values()}
        if isinstance(model, ShareAllocationModel):
            d['Shares'] = {v.label_short: v for v in model.shares.values()}
        else:
            d.update({m.label: of(m) for m in model.sub_models})
        return d
    main = dict(
        effects={f'{e.label} [{e.unit}]': dict(operation=e.model.operation.sum, invest=e.model.invest.sum, sum=e.model.all.sum) for e in fs.effect_collection.effects.values()},
        penalty=fs.effect_collection.model.penalty.sum,
        excess={b.label: (b.model.excess_input, b.model.excess_output) for b in fs.buses.values() if b.with_excess},
        sizes={m.element.label_full: m.size for m in sm.sub_models if isinstance(m, InvestmentModel)},
    )
    return dict(Components={k: of(c.model) for k, c in fs.components.items()}, Buses={k: of(b.model) for k, b in fs.buses.items()}, Effects=of(fs.effect_collection.model),
                Others={m.element.label: of(m) for m in sm.other_models}), main, (sm.time_series_with_end, sm.dt_in_hours)


class Results(Unit):
    """The results of a calculation are the values found for it, whatever else is calculated before or after."""

    seeds = (3, 12)
    ORDERS = ['m0 s0 m1 s1', 'm0 m1 s0 s1', 'm0 m1 s1 s0', 'm0 s0 s0', 'm0 s0 m0 s0']

    def __init__(self, scn):
        self.scn = scn
        self.name = f'results: {scn.prop} {scn.name}'

    def configs(self, tier):
        cfgs = [c for c in self.scn.configs('quick') if not self.scn.expects_error(c) and not (c.get('past', 0) > 1 and len(str(c.get('prev'))) > 10)]
        if tier == 'quick':
            cfgs = cfgs[:: max(1, len(cfgs) // 3)]
        off = sum(map(ord, self.name))
        return [dict(c, _order=self.ORDERS[(k + off) % len(self.ORDERS)]) for k, c in enumerate(cfgs)]

    def install(self):
        from flixOpt.structure import SystemModel

        p = pair.install()
        p.set(SystemModel, 'describe_size', lambda self: '')

    def body(self, x, cfg):
        from flixOpt.calculation import FullCalculation

        cfg = dict(cfg)
        order = cfg.pop('_order').split()
        nmin = max(2, self.scn.nmin)
        if x.sym:
            env = x.c.env = pair.SymFull(x.c, [None], nmin=nmin)
        else:
            env = pair.ConcFull(x.r_.randint(0, 10**6), lambda n: [None], n=x.r_.randint(nmin + 1, 5))
        holder = []
        env.model = holder.append  # only the system is built here
        try:
            try:
                self.scn.build(env, cfg)
            except REAL_ERRORS:
                raise
            except Exception:
                if not holder:
                    raise
            fs = holder[0]
            if x.sym:
                idx = ascending(x, 'idx', x.int('m', nmin, env.N), env.N)
            else:
                idx = sorted(x.r_.sample(range(env.n_int), x.r_.randint(nmin, env.n_int)))
            calcs = [FullCalculation('first', fs), FullCalculation('second', fs, time_indices=idx)]
            solver = AnySolver()
            known, trees = {}, {}
            for step in order:
                k = int(step[1])
                calc = calcs[k]
                if step[0] == 'm':
                    sm = calc.do_modeling()
                    trees[k] = tree(sm)
                else:
                    sm = calc.system_model
                    sm.model = FakeModel(x, known, trees[k][1], k == 0)
                    calc.solve(solver)
                for q in range(2):
                    m = calcs[q].system_model
                    if m is not None and id(m) in known:
                        self.verify(x, f'{step}: {["first", "second"][q]}', calcs[q], m, known[id(m)], *trees[q])
        finally:
            del env.model

    def verify(self, x, name, calc, sm, truth, names, main, axis):
        res = calc.results()
        value = lambda v: truth['values'][id(v)]

        def walk(path, t, r):
            if isinstance(t, dict):
                if not isinstance(r, dict) or set(r) != set(t):
                    return x.fail(f'{name}: the names of the results', str(path))
                for k in t:
                    walk(path + (k,), t[k], r[k])
            else:
                self.equal(x, f'{name}: results {"/".join(path)}', value(t), r)
        for k, t in names.items():
            walk((k,), t, res[k])
        self.equal(x, f'{name}: objective', truth['objective'], res['Objective'])
        if res['Time'] is not axis[0] or res['Time intervals in hours'] is not axis[1]:
            x.fail(f'{name}: time axis')
        mr = sm.main_results
        if set(mr['Effects']) != set(main['effects']):
            x.fail(f'{name}: effects of the main results')
        for k, d in main['effects'].items():
            for q, v in d.items():
                self.equal(x, f'{name}: main results {k} {q}', value(v), mr['Effects'][k][q])
        self.equal(x, f'{name}: main results penalty', value(main['penalty']), mr['penalty'])
        self.equal(x, f'{name}: main results objective', truth['objective'], mr['Objective'])
        self.equal(x, f'{name}: main results bound', truth['objective'], mr['lower bound'])
        self.equal(x, f'{name}: solver', truth['objective'], sm.solver.objective)
        inv = mr['Invest-Decisions']
        sizes, none = (inv['invested'], inv['not invested']) if truth['big'] else (inv['not invested'], inv['invested'])
        if set(sizes) != set(main['sizes']) or none:
            x.fail(f'{name}: sizes of the main results')
        else:
            for k, v in main['sizes'].items():
                self.equal(x, f'{name}: main results size of {k}', value(v), sizes[k])
        if set(mr['buses with excess']) != (set(main['excess']) if truth['big'] else set()):
            x.fail(f'{name}: buses with excess')

    def equal(self, x, name, a, b):
        if a is b:
            return x.check(name, True)
        if x.sym:
            if not isinstance(b, (V, int, float)):
                return x.fail(name, str(type(b)))
            (va, na), (vb, nb) = x.length(a), x.length(b)
            x.check(name + ' (shape)', x.And(x.eq(va, vb), x.eq(na, nb)))
            return x.forall(name, 0, na, lambda i: x.eq(x.at(a, i), x.at(b, i)))
        import numpy as np

        x.check(name, np.shape(a) == np.shape(b) and bool(np.all(np.asarray(a) == np.asarray(b))))


# ---------------------------------------------------------------------------------------------------------------- histories
class Histories(Unit):
    """Random sequences of calculations of all kinds on one system with the real solver and the real clustering (bounded)."""

    name = 'histories'
    symbolic = False
    seeds = (3, 25)

    def configs(self, tier):
        return [dict(kinds=k) for k in ('full', 'segmented', 'aggregated', 'failing', 'mixed')]

    def system(self, d):
        import numpy as np

        import flixOpt as f

        n = len(d['price'])
        fs = f.FlowSystem(np.datetime64('2020-01-01T00:00') + np.arange(n) * np.timedelta64(1, 'h'))
        costs = f.Effect('costs', 'EUR', 'c', is_standard=True, is_objective=True)
        co2 = f.Effect('CO2', 'kg', 'c', specific_share_to_other_effects_operation={costs: np.array(d['tax'])})
        fs.add_effects(costs, co2)
        bus, heat = f.Bus('bus', 1000), f.Bus('heat', 500)
        on = f.OnOffParameters(effects_per_switch_on=np.array(d['sw']), consecutive_on_hours_min=2, switch_on_total_max=50)
        src = f.Source('Src', source=f.Flow('s', bus=bus, size=12, effects_per_flow_hour={costs: np.array(d['price']), co2: 0.5}, relative_minimum=0.1,
                                            relative_maximum=f.TimeSeriesData(np.array(d['max']), agg_group='g'), on_off_parameters=on, previous_flow_rate=d['prev']))
        snk = f.Sink('Snk', sink=f.Flow('d', bus=heat, size=4, fixed_relative_profile=f.TimeSeriesData(np.array(d['load']), agg_group='g')))
        boi = f.linear_converters.Boiler('Boi', eta=np.array(d['eta']), Q_fu=f.Flow('fuel', bus=bus, size=f.InvestParameters(minimum_size=1, maximum_size=20, specific_effects=2)),
                                         Q_th=f.Flow('th', bus=heat), on_off_parameters=on)
        sto = f.Storage('Sto', f.Flow('in', bus=heat, size=4), f.Flow('out', bus=heat, size=4), 8, initial_charge_state=d['c0'], relative_maximum_charge_state=np.array(d['cs']))
        trans = f.Transmission('Tr', in1=f.Flow('i1', bus=heat, size=5), out1=f.Flow('o1', bus=bus, size=5), in2=f.Flow('i2', bus=bus, size=5), out2=f.Flow('o2', bus=heat, size=5),
                               absolute_losses=np.array(d['loss']), relative_losses=0.2)
        fs.add_elements(src, snk, boi, sto, trans)
        return fs

    def body(self, x, cfg):
        import logging

        import flixOpt as f

        n = 8
        d = dict(price=x.arr('price', n, 0.5, 5), tax=x.arr('tax', n, 0, 1), sw=x.arr('sw', n, 0, 3), max=x.arr('max', n, 0.5, 1), load=x.arr('load', n, 0, 1), eta=x.arr('eta', n, 0.5, 1),
                 cs=x.arr('cs', n + 1, 0.5, 1), loss=x.arr('loss', n, 0, 0.5), prev=x.num('prev', 0, 4), c0=x.num('c0', 0, 4))
        fs = self.system(d)
        inputs = Inputs(fs)
        solver = f.solvers.HighsSolver(0.0, 20, solver_output_to_console=False, threads=1)
        done = []
        kinds = [cfg['kinds']] if cfg['kinds'] != 'mixed' else [x.r_.choice(['full', 'segmented', 'aggregated', 'failing']) for _ in range(3)]
        for kind in kinds:
            calc = None
            if kind == 'full':
                calc = f.FullCalculation('full', fs, time_indices=sorted(x.r_.sample(range(n), 5)) if x.r_.random() < 0.6 else None)
                calc.do_modeling()
            elif kind == 'aggregated':
                par = f.AggregationParameters(hours_per_period=2, nr_of_periods=2, fix_storage_flows=True, aggregate_data_and_fix_non_binary_vars=x.r_.random() < 0.7,
                                              percentage_of_period_freedom=0, penalty_of_period_freedom=0)
                calc = f.AggregatedCalculation('agg', fs, par, time_indices=range(2, 8) if x.r_.random() < 0.4 else None)
                import flixOpt.aggregation as ag

                plot, ag.Aggregation.plot = ag.Aggregation.plot, lambda self, *a, **k: None
                try:
                    calc.do_modeling()
                finally:
                    ag.Aggregation.plot = plot
            else:
                seg = f.SegmentedCalculation('seg', fs, 3, 1)
                if kind == 'failing':
                    import flixOpt.calculation as fc

                    real, at = fc.FullCalculation, [x.r_.randint(1, 2)]

                    class Failing(real):
                        def solve(self, *a, **k):
                            at[0] -= 1
                            if at[0] < 0:
                                raise RuntimeError('boom')
                            return super().solve(*a, **k)
                    fc.FullCalculation = Failing
                    try:
                        seg.do_modeling_and_solve(solver, save_results=False)
                    except RuntimeError:
                        pass
                    finally:
                        fc.FullCalculation = real
                else:
                    seg.do_modeling_and_solve(solver, save_results=False)
            if calc is not None:
                try:
                    calc.solve(solver)
                except RuntimeError:  # infeasible: no results
                    continue
                done.append((calc, calc.results()['Objective'], str(calc.system_model.main_results), [str(v.result) for v in calc.system_model.variables]))
            inputs.verify(x, f'inputs after {kind}')
        a = f.FullCalculation('last', fs)
        sm = a.do_modeling()
        fs2 = self.system(d)
        sm2 = f.FullCalculation('last', fs2).do_modeling()
        from ..model import pyomo_view

        va, vb = pyomo_view(sm), pyomo_view(sm2)
        pair.compare(x, va, vb, f'after {kinds}')
        try:
            a.solve(solver)
        except RuntimeError:
            pass
        for calc, obj, mr, vals in done:
            m = calc.system_model
            if m.result_of_objective != obj or calc.results()['Objective'] != obj or str(m.main_results) != mr or [str(v.result) for v in m.variables] != vals:
                x.fail('the results of an earlier calculation stay')
            if calc.system_model.model is a.system_model.model:
                x.fail('every calculation has its own model')
        inputs.verify(x, 'inputs at the end')


def ascending(x, name, m, n):
    from .c17 import ascending

    return ascending(x, name, m, n)


def run(out, tier, t_end):
    import importlib

    units = [Shared(), Histories()]
    for k in range(3, 17):
        m = importlib.import_module(f'vf.props.c{k:02d}')
        units += [U(s) for U in (Repeated, Results) for s in getattr(m, 'SCENARIOS', []) if not getattr(s, 'bounded_only', False)]
    run_units(out, units, tier, t_end)
