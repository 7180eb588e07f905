"""C02: reported results are the values the solver found."""
import z3

from .. import engine as E
from ..pyo import observer
from ..unit import Unit, run_units
from . import c01
from .c01 import REAL_ERRORS, Term, translated

LEVEL = 'proof'
TRUSTED = ['pyomo get_values()/expr() return what the solver stored (stand-in: vf/pyo.py; cross-checked with the real pyomo)', 'the numeric solvers and the pyomo solver interfaces']
EXPLANATION = (
    'PyomoModel.solve and MathModel.solve/results run on a solution that assigns an arbitrary real number to every index of variables of symbolic length; '
    'the reported arrays are proved equal to it index by index (binaries: rounded, for every value within the integrality tolerance). '
    'ElementModel.results / SystemModel.results / main_results run on arbitrary result values for every configuration of the other properties.'
)


def fake_solver(mm, assign):
    class S(mm.Solver):
        def __init__(self):
            super().__init__(0.01, False, 'none.log')
            self.best_bound = 0.0

        def solve(self, modeling_language):
            assign(modeling_language)

    return S()


class Values(Unit):
    name = 'values'

    def configs(self, tier):
        return [dict(length=l, binary=b, ts=t) for l in ('1', 'N') for b in (False, True) for t in (False, True) if not (t and l == '1')]

    def body(self, x, cfg):
        with translated(x) as mm:
            model = mm.MathModel('m')
            n = 1 if cfg['length'] == '1' else x.int('n', 2 if cfg['ts'] else 1, None if x.sym else 4)
            m = x.int('m', 1, None if x.sym else 4)
            v = (mm.VariableTS if cfg['ts'] else mm.Variable)('v', n, is_binary=cfg['binary'])
            w = mm.Variable('w', m)
            v.result = 17.5  # of an earlier solve
            obj = mm.Equation('objective', is_objective=True)
            f = x.num('f')
            obj.add_summand(v, f, as_sum=True)
            obj.add_summand(w, 2, 0)
            model.add(v, w, obj)
            model.translate_to_modeling_language()
            pm = model.model
            obs = observer(x, pm)
            obs.begin(model)
            tol = x.r(1) / 1000
            if not x.sym:
                if cfg['binary']:
                    comp = pm.mapping[v]
                    for i in range(n):
                        q = x.r_.choice([0, 1]) + x.r_.choice([0, 2**-11, -2**-11, 2**-20, -2**-20])
                        obs.vals[(id(comp), i)] = q
                assign = lambda ml: [ml.mapping[q][i].set_value(obs.vals[(id(ml.mapping[q]), i)], skip_validation=True) for q in (v, w) for i in ml.mapping[q]]
            else:
                assign = lambda ml: None
            model.solve(fake_solver(mm, assign))
            for nm, q, ln in (('v', v, n), ('w', w, m)):
                r = q.result
                isvec, length = x.length(r)
                one = x.eq(x.i(ln), x.i(1))
                x.check(f'{nm}: a number for one element, else an array', x.And(x.Implies(one, x.Not(isvec)), x.Implies(x.Not(one), x.And(isvec, x.eq(length, x.i(ln))))))
                at = (lambda i: x.at(r, i)) if (not x.sym and isvec) or x.sym else (lambda i: x.at(r, 0))
                if nm == 'v' and cfg['binary']:
                    near = lambda i, b: x.And(obs.value(q, i) <= b + tol, obs.value(q, i) >= b - tol)
                    x.forall('v: 0 within the tolerance is reported as 0', 0, ln, lambda i: x.Implies(near(i, x.r(0)), x.eq(at(i), x.r(0))))
                    x.forall('v: 1 within the tolerance is reported as 1', 0, ln, lambda i: x.Implies(near(i, x.r(1)), x.eq(at(i), x.r(1))))
                else:
                    x.forall(f'{nm}: the value of the solver', 0, ln, lambda i: x.eq(at(i), obs.value(q, i)))
            e = x.SUM(0, n, lambda j: obs.value(v, j)) * x.r(f) + 2 * obs.value(w, x.i(0))
            x.check('objective', x.eq(x.r(model.result_of_objective), e))
            res = model.results()
            if set(res) != {'v', 'w'} or res['v'] is not v.result or res['w'] is not w.result:
                x.fail('results by label')


class Nested(c01.Whole):
    """results() and main_results of every configuration of the other properties."""

    def __init__(self, scn):
        super().__init__(scn)
        self.name = f'nested results: {scn.prop} {scn.name}'

    def configs(self, tier):
        cfgs = self.scn.configs('quick')
        if tier == 'quick':
            cfgs = cfgs[:: max(1, len(cfgs) // 3)]
        return cfgs

    def body(self, x, cfg):
        from flixOpt.structure import ElementModel

        from .. import scenario

        if x.sym:
            env = scenario.SymEnv(x.c, nmin=self.scn.nmin)
            x.c.env = env
        else:
            env = scenario.ConcEnv(x.r_.randint(0, 10**6))
        try:
            view = self.scn.build(env, cfg)
        except REAL_ERRORS:
            raise
        except Exception:
            if x.sym:
                raise E.Abort()
            return
        sm = view.sm
        marks = {}
        for k, v in enumerate(sm.variables):
            if x.sym:
                f = z3.Function(f'result{k}', z3.IntSort(), z3.RealSort())
                v.result = E.V(None if (isinstance(v.length, int) and v.length == 1) else v.length, f)
            else:
                import numpy as np

                v.result = x.r_.randint(-400, 400) / 8 if v.length == 1 else np.array([x.r_.randint(-400, 400) / 8 for _ in range(v.length)])
                if v.is_binary:
                    v.result = v.result if False else (float(x.r_.randint(0, 1)) if v.length == 1 else np.array([x.r_.randint(0, 1) for _ in range(v.length)]))
            marks[id(v.result)] = v
        sm.result_of_objective = x.num('objective')
        sm.solver = type('S', (), dict(best_bound=0.0))()
        res = sm.results()
        found = {}

        def walk(d, path):
            for k, val in d.items():
                if isinstance(val, dict):
                    walk(val, path + (k,))
                elif id(val) in marks:
                    found.setdefault(id(val), []).append(path + (k,))

        walk(res, ())
        owners = {}
        for em in sm.sub_models:
            for v in em.variables.values():
                owners[id(v.result)] = em
        groups = [('Components', sm.component_models), ('Buses', sm.bus_models), ('Others', sm.other_models)]
        for key, v in marks.items():
            paths = found.get(key, [])
            if len(paths) != 1:
                x.fail('every variable is reported exactly once', f'{v.label}: {paths}')
                continue
            p = paths[0]
            em = owners[key]
            if p[-1] != v.label_short:
                x.fail('under its own name', f'{v.label}: {p}')
            if em.element.label not in p and em.label not in p:
                x.fail('under its own element', f'{v.label}: {p}')
            for g, models in groups:
                for m in models:
                    if any(v is q for sub in [m] + m.all_sub_models for q in sub.variables.values()) and p[:2] != (g, m.element.label):
                        x.fail('under its own component or bus', f'{v.label}: {p}')
            if any(v is q for sub in [sm.effect_collection_model] + sm.effect_collection_model.all_sub_models for q in sub.variables.values()) and p[0] != 'Effects':
                x.fail('effects under Effects', f'{v.label}: {p}')
        if res['Objective'] is not sm.result_of_objective:
            x.fail('the objective is reported')
        if res['Time'] is not sm.time_series_with_end or res['Time intervals in hours'] is not sm.dt_in_hours:
            x.fail('the time axis is reported')
        x.check('nested results', True)
        # main results
        mr = sm.main_results
        fs = sm.flow_system
        for e in fs.effect_collection.effects.values():
            r = mr['Effects'][f'{e.label} [{e.unit}]']
            for nm, share in (('operation', e.model.operation), ('invest', e.model.invest), ('sum', e.model.all)):
                x.check(f'main results: effect {nm}', x.eq(x.r(r[nm]), x.r(share.sum.result)))
        x.check('main results: penalty', x.eq(x.r(mr['penalty']), x.r(sm.effect_collection_model.penalty.sum.result)))
        x.check('main results: objective', x.eq(x.r(mr['Objective']), x.r(sm.result_of_objective)))
        for b in fs.buses.values():
            if not b.with_excess:
                if b.label in mr['buses with excess']:
                    x.fail('main results: excess of a bus without excess')
                continue
            n = sm.nr_of_time_steps
            n = E.zint(n) if x.sym else n
            tot = [x.SUM(0, n, lambda i, q=q: x.at(q.result, i)) for q in (b.model.excess_input, b.model.excess_output)]
            lim = x.r(1) / 1000
            if x.sym:
                import fractions

                lim = E.zreal(1e-3)
            big = x.Or(tot[0] > lim, tot[1] > lim)
            x.check('main results: buses with excess', big if b.label in mr['buses with excess'] else x.Not(big))


class EndToEnd(Unit):
    """A real solve with HiGHS: reported values fulfil all rows, the objective is the stated expression (bounded)."""

    name = 'end to end'
    symbolic = False
    seeds = (2, 12)

    def body(self, x, cfg):
        import numpy as np
        import pyomo.environ as pyo

        import flixOpt as fx
        from flixOpt.math_modeling import HighsSolver

        n = x.int('n', 3, 6)
        t = np.datetime64('2020-01-01') + np.arange(n) * np.timedelta64(1, 'h')
        fs = fx.FlowSystem(t)
        heat, gas = fx.Bus('heat'), fx.Bus('gas')
        costs = fx.Effect('costs', 'EUR', 'costs', is_standard=True, is_objective=True)
        demand = x.arr('demand', n, 1, 9)
        price = x.arr('price', n, 1, 5)
        boiler = fx.linear_converters.Boiler(
            'boiler', eta=0.5, Q_th=fx.Flow('q', heat, size=20, relative_minimum=0.1, on_off_parameters=fx.OnOffParameters(effects_per_switch_on=1)), Q_fu=fx.Flow('f', gas))
        sto = fx.Storage('sto', fx.Flow('in', heat, size=5), fx.Flow('out', heat, size=5), capacity_in_flow_hours=fx.InvestParameters(maximum_size=10, specific_effects=0.5), initial_charge_state=0)
        fs.add_elements(costs, boiler, sto, fx.Sink('load', fx.Flow('l', heat, size=1, fixed_relative_profile=demand)), fx.Source('grid', fx.Flow('g', gas, size=1000, effects_per_flow_hour=price)))
        calc = fx.FullCalculation('c', fs)
        sm = calc.do_modeling()
        sm.solver = HighsSolver(mip_gap=0, solver_output_to_console=False, threads=1)
        import contextlib
        import io

        with contextlib.redirect_stdout(io.StringIO()):
            sm.solve(sm.solver)
        pm = sm.model
        for v in sm.variables:
            vals = [pm.mapping[v][i].value for i in range(v.length)]
            r = [v.result] if v.length == 1 else list(v.result)
            x.check('reported value', all(abs(a - b) < (1e-4 if v.is_binary else 1e-12) for a, b in zip(vals, r)) and len(vals) == len(r))
            if v.is_binary:
                x.check('exact 0 or 1', all(q in (0, 1) for q in r))
        x.check('objective', abs(sm.result_of_objective - pyo.value(pm.model.objective)) < 1e-9)


def run(out, tier, t_end):
    import importlib

    units = [Values(), EndToEnd()]
    for k in range(3, 17):
        m = importlib.import_module(f'vf.props.c{k:02d}')
        units += [Nested(s) for s in getattr(m, 'SCENARIOS', []) if not getattr(s, 'bounded_only', False)]
    run_units(out, units, tier, t_end)
