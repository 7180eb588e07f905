"""C05: on/off status and hours of operation."""
from .c08 import FlowInvest
from .common import *


class FlowStatus(Scenario):
    prop, name = 'C05', 'status of a flow'
    focus = ['S__', 'costs__', 'CO2__']

    def configs(self, tier):
        return product(limits=[False, True], effects=['none', 'number', 'dict'])

    def build(self, env, cfg):
        f = fx()
        fs, costs, bus = base(env)
        co2 = f.Effect('CO2', 'kg', 'CO2')
        fs.add_effects(co2)
        p = self.p = {}
        kw = {}
        p['size'] = env.num('size', lo=0)
        p['rmax'] = env.ts('rmax', lo=0)
        p['rmin'] = env.ts('rmin', lo=0, le=[p['rmax']])
        if cfg['limits']:
            p['hmin'] = env.num('hmin', lo=0)
            p['hmax'] = env.num('hmax', lo=0, ge=[p['hmin']])
            kw.update(on_hours_total_min=p['hmin'].user, on_hours_total_max=p['hmax'].user)
        if cfg['effects'] == 'number':
            p['e'] = env.ts('e', lo=-10, hi=10)
            kw['effects_per_running_hour'] = p['e'].user
        elif cfg['effects'] == 'dict':
            p['e'], p['g'] = env.ts('e', lo=-10, hi=10), env.ts('g', lo=0)
            kw['effects_per_running_hour'] = {costs: p['e'].user, co2: p['g'].user}
        fs.add_elements(f.Source('S', source=f.Flow('out', bus=bus, size=p['size'].user, relative_minimum=p['rmin'].user,
                                                    relative_maximum=p['rmax'].user, on_off_parameters=f.OnOffParameters(**kw))))
        close_bus(env, fs, bus, source=False)
        return env.model(fs)

    def spec(self, env, cfg, w):
        s, p = Spec(), self.p
        x, on, h = w.var('S__out_flow_rate'), w.var('S__out__OnOff_on'), w.var('S__out__OnOff_totalOnHours')
        fh = w.var('S__out_sumFlowHours')
        on_off(s, env, w, on, x, lambda t: p['rmin'](t) * p['size'].s, lambda t: p['rmax'](t) * p['size'].s)
        hours = lambda: env.SUM(0, env.n, lambda t: on(t) * env.dt(t))
        s.fact('hours of operation = sum of step widths while on', lambda: EQ(h(0), hours()))
        if cfg['limits']:
            s.fact('limits of the hours of operation', lambda: z3.And(GE(hours(), p['hmin'].s), LE(hours(), p['hmax'].s)))
        contributions(s, env, w, 'costs', op=(lambda t: p['e'](t) * on(t) * env.dt(t)) if 'e' in p else None)
        contributions(s, env, w, 'CO2', op=(lambda t: p['g'](t) * on(t) * env.dt(t)) if 'g' in p else None)
        switch_existence(s, env, w, 'S__out__OnOff', on)
        return s


class ComponentStatus(Scenario):
    prop, name = 'C05', 'status of a component'
    focus = ['C']

    def configs(self, tier):
        ks = [(1, 0), (0, 1), (1, 1), (2, 1)] if tier == 'quick' else [(1, 0), (0, 1), (1, 1), (2, 1), (1, 2), (2, 2), (3, 2)]
        return [dict(ins=i, outs=o, own=own) for i, o in ks for own in (False, True)]

    def build(self, env, cfg):
        f = fx()
        fs, costs, bus = base(env)
        p = self.p = {}
        flows = []
        n = cfg['ins'] + cfg['outs']
        for k in range(n):
            # several flows: ordinary magnitudes and arrays only (no branches into warnings, scalar limits are covered above)
            shape, big = (None, None) if n == 1 else ('vec', 1000)
            p[f'size{k}'] = env.num(f'size{k}', lo=0, hi=big)
            p[f'rmax{k}'] = env.ts(f'rmax{k}', lo=0, hi=None if n == 1 else 1, shape=shape)
            p[f'rmin{k}'] = env.ts(f'rmin{k}', lo=0, le=[p[f'rmax{k}']], shape=shape)
            kw = dict(on_off_parameters=f.OnOffParameters(effects_per_running_hour=1)) if cfg['own'] and k == 0 else {}
            flows.append(f.Flow(f'f{k}', bus=bus, size=p[f'size{k}'].user, relative_minimum=p[f'rmin{k}'].user, relative_maximum=p[f'rmax{k}'].user, **kw))
        from flixOpt.elements import Component

        fs.add_elements(Component('C', inputs=flows[:cfg['ins']], outputs=flows[cfg['ins']:], on_off_parameters=f.OnOffParameters()))
        close_bus(env, fs, bus)
        return env.model(fs)

    def spec(self, env, cfg, w):
        s, p = Spec(), self.p
        n = cfg['ins'] + cfg['outs']
        on = component_status(s, env, w, 'C', [f'f{k}' for k in range(n)], [
            ((lambda t, k=k: p[f'rmin{k}'](t) * p[f'size{k}'].s), (lambda t, k=k: p[f'rmax{k}'](t) * p[f'size{k}'].s)) for k in range(n)])
        h = w.var('C__OnOff_totalOnHours')
        s.fact('hours of operation of the component', lambda: EQ(h(0), env.SUM(0, env.n, lambda t: on(t) * env.dt(t))))
        for v in [f'C__f{k}' for k in range(n)]:
            pre = v + '__OnOff'
            if w.has(pre + '_switchOn'):
                switch_existence(s, env, w, pre, w.var(pre + '_on'))
        if w.has('C__OnOff_switchOn'):
            switch_existence(s, env, w, 'C__OnOff', on)
        return s


class InvestedFlowStatus(FlowInvest):
    prop, name = 'C05', 'status of a flow with an invested size'

    def configs(self, tier):
        return [c for c in super().configs(tier) if c['on'] and (tier == 'thorough' or c['kind'] != 'default max')]


SCENARIOS = [FlowStatus(), ComponentStatus(), InvestedFlowStatus()]
