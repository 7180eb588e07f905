"""C04: flow rates respect size, profile and total limits."""
from .c08 import FlowInvest
from .common import *


class FlowLimits(Scenario):
    prop, name = 'C04', 'flow limits'
    focus = ['S__']

    def configs(self, tier):
        base = [dict(size='num', profile=False, on=False, fh=False, lf=False)]
        out = []
        for c in product(size=['num', 'default'], profile=[False, True], on=[False, True], fh=[False, True], lf=[False, True], out=[True, False]):
            if c['size'] == 'default' and (c['lf'] or c['profile']):
                continue
            if tier == 'quick' and (c['fh'] != c['lf']) and c['size'] == 'num':
                continue
            if tier == 'quick' and not c['out'] and not c['fh']:
                continue
            out.append(c)
        return out

    def build(self, env, cfg):
        f = fx()
        fs, costs, bus = base(env)
        kw = {}
        p = self.p = {}
        if cfg['size'] == 'num':
            p['size'] = env.num('size', lo=0)
            kw['size'] = p['size'].user
        if cfg['profile']:
            p['profile'] = env.ts('profile', lo=0)
            kw['fixed_relative_profile'] = p['profile'].user
        else:
            p['rmax'] = env.ts('rmax', lo=0)
            p['rmin'] = env.ts('rmin', lo=0, le=[p['rmax']])
            kw.update(relative_minimum=p['rmin'].user, relative_maximum=p['rmax'].user)
        if cfg['on']:
            kw['on_off_parameters'] = f.OnOffParameters()
        if cfg['fh']:
            p['fhmin'] = env.num('fhmin', lo=0)
            p['fhmax'] = env.num('fhmax', lo=0, ge=[p['fhmin']])
            kw.update(flow_hours_total_min=p['fhmin'].user, flow_hours_total_max=p['fhmax'].user)
        if cfg['lf']:
            p['lfmin'] = env.num('lfmin', lo=0)
            p['lfmax'] = env.num('lfmax', lo=0, ge=[p['lfmin']])
            kw.update(load_factor_min=p['lfmin'].user, load_factor_max=p['lfmax'].user)
        flow = f.Flow('out', bus=bus, **kw)
        if cfg['out']:
            fs.add_elements(f.Source('S', source=flow))
            close_bus(env, fs, bus, source=False)
        else:
            fs.add_elements(f.Sink('S', sink=flow))
            close_bus(env, fs, bus, sink=False)
        return env.model(fs)

    def spec(self, env, cfg, w):
        s, p = Spec(), self.p
        x, fh = w.var('S__out_flow_rate'), w.var('S__out_sumFlowHours')
        size = p['size'].s if 'size' in p else z3.RealVal(10_000_000)
        lo = (lambda t: p['profile'](t) * size) if cfg['profile'] else (lambda t: p['rmin'](t) * size)
        hi = (lambda t: p['profile'](t) * size) if cfg['profile'] else (lambda t: p['rmax'](t) * size)
        if cfg['on']:
            on = w.var('S__out__OnOff_on')
            on_off(s, env, w, on, x, lo, hi)
            switch_existence(s, env, w, 'S__out__OnOff', on)
            h = w.var('S__out__OnOff_totalOnHours')
            s.fact('hours of operation', lambda: EQ(h(0), env.SUM(0, env.n, lambda t: on(t) * env.dt(t))), tag='assume')
        elif cfg['profile']:
            s.forall('rate = profile * size', 0, env.n, lambda t: EQ(x(t), hi(t)))
        else:
            s.forall('relative minimum * size <= rate <= relative maximum * size', 0, env.n, lambda t: z3.And(GE(x(t), lo(t)), LE(x(t), hi(t))))
        tot = lambda: env.SUM(0, env.n, lambda t: x(t) * env.dt(t))
        s.fact('flow hours = sum of rate * step width', lambda: EQ(fh(0), tot()))
        if cfg['fh']:
            s.fact('limits of the flow hours', lambda: z3.And(GE(tot(), p['fhmin'].s), LE(tot(), p['fhmax'].s)))
        if cfg['lf']:
            s.fact('limits of the load factor', lambda: z3.And(GE(tot(), p['lfmin'].s * size * env.total), LE(tot(), p['lfmax'].s * size * env.total)))
        return s


class InvestedFlowLimits(FlowInvest):
    prop, name = 'C04', 'flow limits with an invested size'

    def configs(self, tier):
        return [c for c in super().configs(tier) if tier == 'thorough' or c['kind'] != 'default max']


SCENARIOS = [FlowLimits(), InvestedFlowLimits()]
