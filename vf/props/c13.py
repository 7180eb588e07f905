"""C13: storages conserve energy and respect their charge limits."""
from .c08 import invest, size_clauses
from .common import *


class StorageBalance(Scenario):
    prop, name = 'C13', 'storage'
    focus = ['St']

    def configs(self, tier):
        out = []
        for c in product(cap=['number', 'fixed', 'range', 'optional'], initial=['none', 'number', 'last'], final=['none', 'min', 'max', 'both'], bounds=['number', 'vector'], prevent=[False, True], data=['plain', 'TimeSeriesData']):
            if tier == 'quick':
                if c['final'] in ('min', 'max') and (c['cap'] != 'number' or c['bounds'] != 'number' or c['prevent'] or c['initial'] != 'none'):
                    continue
                if c['prevent'] and (c['cap'] not in ('number',) or c['final'] != 'both' or c['bounds'] != 'number'):
                    continue
                if c['data'] != 'plain' and (c['cap'] != 'number' or c['final'] != 'both' or c['prevent'] or c['initial'] != 'number'):
                    continue
                if c['cap'] != 'number' and (c['final'] == 'none') != (c['bounds'] == 'vector'):
                    continue
            elif c['data'] != 'plain' and (c['prevent'] or c['final'] != 'both'):
                continue
            out.append(c)
        return out

    def build(self, env, cfg):
        f = fx()
        fs, costs, bus = base(env)
        p = self.p = {}
        wrap = (lambda x: x) if cfg['data'] == 'plain' else f.TimeSeriesData
        if cfg['cap'] == 'number':
            p['cap'] = env.num('cap', lo=0, hi=1000)
            cap = p['cap'].user
        else:
            cap = invest(env, p, self.inv(cfg))
        if cfg['bounds'] == 'vector':
            p['cmax'] = env.ts('cmax', lo=0, hi=1, length=env.n + 1, shape='vec')
            p['cmin'] = env.ts('cmin', lo=0, le=[p['cmax']], length=env.n + 1, shape='vec')
        else:
            p['cmax'] = env.num('cmax', lo=0, hi=1)
            p['cmin'] = env.num('cmin', lo=0, le=[p['cmax']])
        kw = {}
        if cfg['initial'] == 'number':
            p['c0'] = env.num('c0', lo=0, hi=1000)
        kw['initial_charge_state'] = {'none': lambda: None, 'number': lambda: p['c0'].user, 'last': lambda: 'lastValueOfSim'}[cfg['initial']]()
        if cfg['final'] in ('min', 'both'):
            p['fmin'] = env.num('fmin', lo=0, hi=1000)
            kw['minimal_final_charge_state'] = p['fmin'].user
        if cfg['final'] in ('max', 'both'):
            p['fmax'] = env.num('fmax', lo=0, hi=1000)
            kw['maximal_final_charge_state'] = p['fmax'].user
        p['eta_c'] = env.ts('eta_charge', lo=0, hi=1)
        p['eta_d'] = env.ts('eta_discharge', lo=0, hi=1, strict=True)
        p['loss'] = env.ts('loss', lo=0, hi=1)
        fs.add_elements(f.Storage('St', f.Flow('in', bus=bus, size=1000), f.Flow('out', bus=bus, size=1000), capacity_in_flow_hours=cap,
                                  relative_minimum_charge_state=p['cmin'].user, relative_maximum_charge_state=p['cmax'].user,
                                  eta_charge=wrap(p['eta_c'].user), eta_discharge=wrap(p['eta_d'].user), relative_loss_per_hour=wrap(p['loss'].user),
                                  prevent_simultaneous_charge_and_discharge=cfg['prevent'], **kw))
        close_bus(env, fs, bus)
        return env.model(fs)

    @staticmethod
    def inv(cfg):
        return dict(kind='fixed' if cfg['cap'] == 'fixed' else 'range', optional=cfg['cap'] == 'optional')

    def spec(self, env, cfg, w):
        s, p = Spec(), self.p
        c, net = w.var('St_charge_state'), w.var('St_netto_discharge')
        i, o = w.var('St__in_flow_rate'), w.var('St__out_flow_rate')
        n, dt = env.n, env.dt
        if cfg['cap'] == 'number':
            size = p['cap'].s
        else:
            sz, _ = size_clauses(s, env, w, p, self.inv(cfg), 'St__Investment', tag='assume')
            size = sz(0)
        s.forall('energy balance', 0, n, lambda t: EQ(c(t + 1), c(t) * (1 - p['loss'](t) * dt(t)) + i(t) * p['eta_c'](t) * dt(t) - o(t) / p['eta_d'](t) * dt(t)))
        s.forall('charge state within its relative limits times the capacity', 0, n + 1, lambda t: z3.And(GE(c(t), p['cmin'](t) * size), LE(c(t), p['cmax'](t) * size)))
        s.forall('net discharge', 0, n, lambda t: EQ(net(t), o(t) - i(t)))
        if cfg['initial'] == 'number':
            s.fact('starts at the given charge state', lambda: EQ(c(0), p['c0'].s))
        if cfg['initial'] == 'last':
            s.fact('starts as it ends', lambda: EQ(c(0), c(n)))
        if cfg['final'] in ('min', 'both'):
            s.fact('final charge state is at least its minimum', lambda: GE(c(n), p['fmin'].s))
        if cfg['final'] in ('max', 'both'):
            s.fact('final charge state is at most its maximum', lambda: LE(c(n), p['fmax'].s))
        for k, x in (('in', i), ('out', o)):
            flow_hours(s, env, w, f'St__{k}')
            if cfg['prevent']:
                on = w.var(f'St__{k}__OnOff_on')
                on_off(s, env, w, on, x, lambda t: z3.RealVal(0), lambda t: z3.RealVal(1000), k, tag='assume')
                on_hours(s, env, w, f'St__{k}__OnOff')
                switch_existence(s, env, w, f'St__{k}__OnOff', on)
            else:
                s.forall(f'limits of {k}', 0, n, lambda t, x=x: z3.And(GE(x(t), 0), LE(x(t), 1000)), tag='assume')
        if cfg['prevent']:
            s.forall('not charged and discharged at once', 0, n, lambda t: z3.Or(EQ(i(t), 0), EQ(o(t), 0)))
            s.forall('ghost: statuses', 0, n, lambda t: z3.Not(z3.And(BIN(w.var('St__in__OnOff_on')(t)), BIN(w.var('St__out__OnOff_on')(t)))), tag='assume')
        return s


SCENARIOS = [StorageBalance()]
