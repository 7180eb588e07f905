"""C16: effects add up all contributions, respect limits and form the objective."""
from .common import *

LIM = ('operation', 'invest', 'total')


class Effects(Scenario):
    prop, name = 'C16', 'effects of a system'
    focus = None

    def in_scope(self, label, uses):
        return label.startswith(('A__', 'B__', 'C__', 'Effects__')) or '__effects' in label or '_effects' in label

    def configs(self, tier):
        out = []
        # shares: list of (from, to); contributions: which elements charge which effects
        op_shares = [[], ['BA'], ['BA', 'CB'], ['CA', 'CB', 'BA']]
        for op in op_shares:
            for inv in [[], ['BA'], ['CB', 'BA']]:
                for limits in ('', 'A', 'ABC'):
                    for charge in ('number', 'dict', 'sparse', 'TimeSeriesData'):
                        if tier == 'quick':
                            if (len(op) > 1) != (len(inv) > 1) and charge != 'dict':
                                continue
                            if charge != 'dict' and limits == 'ABC' or charge == 'dict' and limits == 'A':
                                continue
                        out.append(dict(op=list(op), inv=list(inv), limits=limits, charge=charge, objective='A'))
        for c in ('B', 'C'):
            out.append(dict(op=['BA', 'CB'], inv=['BA'], limits='', charge='dict', objective=c))
        return out

    def build(self, env, cfg):
        f = fx()
        p = self.p = {}
        fs = env.flow_system()
        eff = {}
        for e in 'ABC':
            kw = {}
            for kind, shares in (('operation', cfg['op']), ('invest', cfg['inv'])):
                d = {}
                for a, b in shares:
                    if a == e:
                        p['share', kind, a + b] = (env.ts if kind == 'operation' else env.num)(f'{kind}_share_{a}{b}', lo=-10, hi=10)
                        d[eff[b]] = p['share', kind, a + b].user
                if d:
                    kw[f'specific_share_to_other_effects_{kind}'] = d
            if e in cfg['limits']:
                for k in LIM:
                    p['max', k, e] = env.num(f'max_{k}_{e}', lo=-100, hi=1000)
                    p['min', k, e] = env.num(f'min_{k}_{e}', lo=-100, le=[p['max', k, e]])
                    kw[f'minimum_{k}'], kw[f'maximum_{k}'] = p['min', k, e].user, p['max', k, e].user
                p['max', 'h', e] = env.ts(f'max_hour_{e}', lo=-100, hi=1000)
                p['min', 'h', e] = env.ts(f'min_hour_{e}', lo=-100, le=[p['max', 'h', e]])
                kw['minimum_operation_per_hour'], kw['maximum_operation_per_hour'] = p['min', 'h', e].user, p['max', 'h', e].user
            eff[e] = f.Effect(e, 'u', e, is_standard=e == 'A', is_objective=e == cfg['objective'], **kw)
        fs.add_effects(*[eff[e] for e in 'CBA'])

        def charges(name, series, which='ABC'):
            """What an element is charged with; stored as p[name, effect]."""
            mk = (lambda n: env.ts(n, lo=-10, hi=10)) if series else (lambda n: env.num(n, lo=-10, hi=10))
            wrap = f.TimeSeriesData if cfg['charge'] == 'TimeSeriesData' and series else (lambda x: x)
            if cfg['charge'] in ('number', 'TimeSeriesData'):
                p[name, 'A'] = mk(f'{name}_A')
                return wrap(p[name, 'A'].user)
            d = {}
            for e in which if cfg['charge'] == 'dict' else which[-1]:
                p[name, e] = mk(f'{name}_{e}')
                d[eff[e]] = p[name, e].user
            return d

        p['pen'] = env.ts('penalty', lo=0, hi=100)
        bus = f.Bus('bus', excess_penalty_per_flow_hour=p['pen'].user)
        fs.add_elements(f.Source('S', source=f.Flow('s', bus=bus, size=1000, effects_per_flow_hour=charges('flow1', True))))
        fs.add_elements(f.Sink('D', sink=f.Flow('d', bus=bus, size=1000, effects_per_flow_hour=charges('flow2', True, 'BC'),
                                                on_off_parameters=f.OnOffParameters(effects_per_running_hour=charges('run', True), effects_per_switch_on=charges('start', True)))))
        fs.add_elements(f.Source('I', source=f.Flow('i', bus=bus, size=f.InvestParameters(minimum_size=1, maximum_size=1000, optional=True, fix_effects=charges('fix', False), specific_effects=charges('spec', False, 'AC')))))
        return env.model(fs)

    def spec(self, env, cfg, w):
        s, p = Spec(), self.p
        n, dt = env.n, env.dt
        x1, x2 = w.var('S__s_flow_rate'), w.var('D__d_flow_rate')
        on, start = w.var('D__d__OnOff_on'), w.var('D__d__OnOff_switchOn')
        size, isinv = w.var('I__i__Investment_size'), w.var('I__i__Investment_isInvested')
        ei, eo = w.var('bus_excess_input'), w.var('bus_excess_output')
        ts = {e: w.var(f'{e}__operation_operation_sum_TS') for e in 'ABC'}
        op = {e: w.var(f'{e}__operation_operation_sum') for e in 'ABC'}
        inv = {e: w.var(f'{e}__invest_invest_sum') for e in 'ABC'}
        tot = {e: w.var(f'{e}__all_all_sum') for e in 'ABC'}

        def val(name, e, t=None):
            q = p.get((name, e))
            return z3.RealVal(0) if q is None else (q.s if t is None else q(t))

        for e in 'ABC':
            def operation(t, e=e):
                r = (x1(t) * val('flow1', e, t) + x2(t) * val('flow2', e, t) + on(t) * val('run', e, t)) * dt(t) + start(t) * val('start', e, t)
                for a, b in cfg['op']:
                    if b == e:
                        r = r + ts[a](t) * p['share', 'operation', a + b](t)
                return r

            def invest(e=e):
                r = isinv(0) * val('fix', e) + size(0) * val('spec', e)
                for a, b in cfg['inv']:
                    if b == e:
                        r = r + inv[a](0) * p['share', 'invest', a + b].s
                return r

            contributions(s, env, w, e, op=operation, inv=invest)
            if e in cfg['limits']:
                s.forall(f'{e}: limits per hour', 0, n, lambda t, e=e: z3.And(GE(ts[e](t), p['min', 'h', e](t) * dt(t)), LE(ts[e](t), p['max', 'h', e](t) * dt(t))))
                for k, v in (('operation', op[e]), ('invest', inv[e]), ('total', tot[e])):
                    s.fact(f'{e}: limits of {k}', lambda v=v, k=k, e=e: z3.And(GE(v(0), p['min', k, e].s), LE(v(0), p['max', k, e].s)))
        pen = w.var('Effects__penalty_penalty_sum')
        s.fact('penalty = sum of excess * dt * rate', lambda: EQ(pen(0), env.SUM(0, n, lambda t: (ei(t) + eo(t)) * dt(t) * p['pen'](t))))
        o = cfg['objective']
        s.fact('objective = total of the objective effect + penalty', lambda: EQ(w.objective, tot[o](0) + pen(0)))
        s.fact('the objective is minimised', lambda: z3.BoolVal(bool(w.objective_minimise)))
        return s


SCENARIOS = [Effects()]
