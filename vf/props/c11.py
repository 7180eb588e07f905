"""C11: ready-made converters implement their physical relations."""
from .c10 import flow_limits
from .common import *

# name -> (class, flows {argument: direction}, parameters {argument: (lo, hi, strict)})
KINDS = {
    'boiler': ('Boiler', dict(Q_fu='in', Q_th='out'), dict(eta=(0, 1))),
    'electric heater': ('Power2Heat', dict(P_el='in', Q_th='out'), dict(eta=(0, 1))),
    'heat pump': ('HeatPump', dict(P_el='in', Q_th='out'), dict(COP=(1, 20))),
    'cooling tower': ('CoolingTower', dict(P_el='in', Q_th='in'), dict(specific_electricity_demand=(0, 1))),
    'chp': ('CHP', dict(Q_fu='in', P_el='out', Q_th='out'), dict(eta_th=(0, 1), eta_el=(0, 1))),
    'heat pump with source': ('HeatPumpWithSource', dict(P_el='in', Q_ab='in', Q_th='out'), dict(COP=(1, 20))),
}


def relations(kind, x, p):
    """Physical relations between the flow rates x[argument] (z3 terms) with parameters p."""
    if kind in ('boiler', 'electric heater'):
        return [('heat = efficiency * input', x['Q_th'], p['eta'] * x['Q_fu' if kind == 'boiler' else 'P_el'])]
    if kind == 'heat pump':
        return [('heat = COP * electricity', x['Q_th'], p['COP'] * x['P_el'])]
    if kind == 'cooling tower':
        return [('electricity = specific demand * heat', x['P_el'], p['specific_electricity_demand'] * x['Q_th'])]
    if kind == 'chp':
        return [('heat = thermal efficiency * fuel', x['Q_th'], p['eta_th'] * x['Q_fu']), ('electricity = electrical efficiency * fuel', x['P_el'], p['eta_el'] * x['Q_fu'])]
    return [('heat = COP * electricity', x['Q_th'], p['COP'] * x['P_el']), ('source heat = heat - electricity', x['Q_ab'], x['Q_th'] - x['P_el'])]


class Ready(Scenario):
    prop, name = 'C11', 'ready-made converters'
    focus = ['C_']

    def configs(self, tier):
        return [c for c in product(kind=list(KINDS), data=['plain', 'TimeSeriesData'], on=[False, True])
                if not (tier == 'quick' and c['on'] and (c['data'] != 'plain' or len(KINDS[c['kind']][1]) > 2))]

    def build(self, env, cfg):
        f = fx()
        from flixOpt import linear_converters as lc

        fs, costs, _ = base(env)
        cls, flows, par = KINDS[cfg['kind']]
        p = self.p = {}
        buses = {k: f.Bus('bus_' + k, excess_penalty_per_flow_hour=None) for k in flows}
        fl = {k: f.Flow(k, bus=buses[k], size=1000) for k in flows}
        kw = {}
        for k, (lo, hi) in par.items():
            p[k] = env.ts(k, lo=lo, hi=hi, strict=lo == 1)
            kw[k] = p[k].user if cfg['data'] == 'plain' else f.TimeSeriesData(p[k].user)
        if cfg['on']:
            kw['on_off_parameters'] = f.OnOffParameters()
        fs.add_elements(getattr(lc, cls)('C', **kw, **fl))
        for k in flows:
            close_bus(env, fs, buses[k], label='Env' + k)
        return env.model(fs)

    def spec(self, env, cfg, w):
        s, p = Spec(), self.p
        flows = KINDS[cfg['kind']][1]
        x = {k: w.var(f'C__{k}_flow_rate') for k in flows}
        for j, (what, _, _) in enumerate(relations(cfg['kind'], {k: z3.RealVal(0) for k in flows}, {k: z3.RealVal(1) for k in p})):
            def rel(t, j=j):
                _, a, b = relations(cfg['kind'], {k: x[k](t) for k in flows}, {k: v(t) for k, v in p.items()})[j]
                return EQ(a, b)

            s.forall(what, 0, env.n, rel)
        for k, d in flows.items():
            src, snk = w.var(f'Env{k}Src__src_flow_rate'), w.var(f'Env{k}Snk__snk_flow_rate')
            s.forall(f'{k} is taken from / delivered to its bus', 0, env.n,
                     lambda t, src=src, snk=snk, k=k, d=d: EQ(x[k](t), (src(t) - snk(t)) if d == 'in' else (snk(t) - src(t))))
        flow_limits(s, env, w, 'C', flows, on=cfg['on'])
        if cfg['on']:
            one = z3.RealVal(1000)
            on = component_status(s, env, w, 'C', list(flows), [(lambda t: z3.RealVal(0), lambda t: one)] * len(flows), tag='assume')
            on_hours(s, env, w, 'C__OnOff')
            switch_existence(s, env, w, 'C__OnOff', on)
            for k in flows:
                on_hours(s, env, w, f'C__{k}__OnOff')
                switch_existence(s, env, w, f'C__{k}__OnOff', w.var(f'C__{k}__OnOff_on'))
        return s


SCENARIOS = [Ready()]
