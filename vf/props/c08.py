"""C08: investment decisions size the equipment consistently."""
from .common import *


def invest(env, p, cfg, **kw):
    """InvestParameters of the configuration; numeric parameters are stored in p."""
    f = fx()
    if cfg['kind'] == 'fixed':
        p['fixed'] = env.num('fixed', lo=0, hi=1000)
        kw['fixed_size'] = p['fixed'].user
    else:
        if cfg['kind'] == 'default max':
            p['min'] = env.num('min', lo=0, hi=1000)
        else:
            p['min'] = env.num('min', lo=0, hi=1000)
            p['max'] = env.num('max', lo=0, hi=1000, ge=[p['min']])
            kw['maximum_size'] = p['max'].user
        kw['minimum_size'] = p['min'].user
    return f.InvestParameters(optional=cfg['optional'], **kw)


def size_clauses(s, env, w, p, cfg, pre, tag=None):
    """Returns (size, is it invested?)"""
    size = w.var(pre + '_size')
    if cfg['optional']:
        b = w.var(pre + '_isInvested')
        inv = lambda: BIN(b(0))
    else:
        inv = lambda: z3.BoolVal(True)
    if cfg['kind'] == 'fixed':
        s.fact('size = fixed size if invested, else 0', lambda: EQ(size(0), z3.If(inv(), p['fixed'].s, 0)), tag=tag)
    else:
        mx = p['max'].s if 'max' in p else z3.RealVal(10_000_000)
        lo = zmax(EPSR, p['min'].s) if cfg['optional'] else p['min'].s
        s.fact('invested -> minimum <= size <= maximum', lambda: z3.Implies(inv(), z3.And(GE(size(0), lo), LE(size(0), mx))), tag=tag)
        if cfg['optional']:
            s.fact('not invested -> size is zero', lambda: z3.Implies(z3.Not(inv()), EQ(size(0), 0)), tag=tag)
    return size, inv


class FlowInvest(Scenario):
    prop, name = 'C08', 'investment in the size of a flow'
    focus = ['S__']

    def configs(self, tier):
        out = []
        for c in product(kind=['fixed', 'range', 'default max'], optional=[True, False], profile=[False, True], on=[False, True], lf=[False, True], out=[True, False]):
            if c['kind'] == 'default max' and (c['lf'] or not c['optional'] and tier == 'quick'):
                continue
            if tier == 'quick' and (c['lf'] and (c['on'] or c['profile']) or not c['out'] and (c['lf'] or c['kind'] != 'range')):
                continue
            out.append(c)
        return out

    def build(self, env, cfg):
        f = fx()
        fs, costs, bus = base(env)
        kw, p = {}, {}
        self.p = p
        if cfg['profile']:
            p['profile'] = env.ts('profile', lo=0, hi=1)
            kw['fixed_relative_profile'] = p['profile'].user
        else:
            p['rmax'] = env.ts('rmax', lo=0, hi=1)
            p['rmin'] = env.ts('rmin', lo=0, le=[p['rmax']])
            kw.update(relative_minimum=p['rmin'].user, relative_maximum=p['rmax'].user)
        if cfg['on']:
            kw['on_off_parameters'] = f.OnOffParameters()
        if cfg['lf']:
            p['lfmin'] = env.num('lfmin', lo=0)
            p['lfmax'] = env.num('lfmax', lo=0, ge=[p['lfmin']])
            kw.update(load_factor_min=p['lfmin'].user, load_factor_max=p['lfmax'].user)
        flow = f.Flow('out', bus=bus, size=invest(env, p, cfg), **kw)
        if cfg['out']:
            fs.add_elements(f.Source('S', source=flow))
        else:
            fs.add_elements(f.Sink('S', sink=flow))
        close_bus(env, fs, bus, source=not cfg['out'], sink=cfg['out'])
        return env.model(fs)

    def spec(self, env, cfg, w):
        s, p = Spec(), self.p
        x = w.var('S__out_flow_rate')
        size, inv = size_clauses(s, env, w, p, cfg, 'S__out__Investment')
        if cfg['profile']:
            s.forall('rate = profile * invested size', 0, env.n, lambda t: EQ(x(t), p['profile'](t) * size(0)))
        else:
            s.forall('rate <= relative maximum * invested size', 0, env.n, lambda t: z3.And(GE(x(t), 0), LE(x(t), p['rmax'](t) * size(0))))
            if not cfg['on']:
                s.forall('rate >= relative minimum * invested size', 0, env.n, lambda t: GE(x(t), p['rmin'](t) * size(0)))
        if cfg['on']:
            on = w.var('S__out__OnOff_on')
            if not cfg['profile']:
                s.forall('on -> rate >= relative minimum * invested size', 0, env.n, lambda t: z3.Implies(BIN(on(t)), GE(x(t), p['rmin'](t) * size(0))))
            s.forall('on -> rate is at least the threshold', 0, env.n, lambda t: z3.Implies(BIN(on(t)), GE(x(t), EPSR)))
            s.forall('off -> rate is zero', 0, env.n, lambda t: z3.Implies(z3.Not(BIN(on(t))), EQ(x(t), 0)))
            switch_existence(s, env, w, 'S__out__OnOff', on)
            on_hours(s, env, w, 'S__out__OnOff')
        flow_hours(s, env, w, 'S__out')
        if cfg['lf']:
            tot = lambda: env.SUM(0, env.n, lambda t: x(t) * env.dt(t))
            s.fact('load factor refers to the invested size', lambda: z3.And(GE(tot(), p['lfmin'].s * size(0) * env.total), LE(tot(), p['lfmax'].s * size(0) * env.total)))
        return s


class StorageInvest(Scenario):
    prop, name = 'C08', 'investment in the capacity of a storage'
    focus = ['St__Investment', 'St_charge_state', 'St__ub', 'St__lb', 'St__is_invested']

    def in_scope(self, label, uses):  # the energy balance belongs to C13
        return super().in_scope(label, uses) and 'St__in_flow_rate' not in uses

    def configs(self, tier):
        return product(kind=['fixed', 'range'], optional=[True, False])

    def build(self, env, cfg):
        f = fx()
        fs, costs, bus = base(env)
        p = self.p = {}
        p['cmax'] = env.num('cmax', lo=0, hi=1)
        p['cmin'] = env.num('cmin', lo=0, le=[p['cmax']])
        fs.add_elements(f.Storage('St', f.Flow('in', bus=bus, size=1000), f.Flow('out', bus=bus, size=1000), capacity_in_flow_hours=invest(env, p, cfg),
                                  relative_minimum_charge_state=p['cmin'].user, relative_maximum_charge_state=p['cmax'].user, initial_charge_state=None,
                                  prevent_simultaneous_charge_and_discharge=False))
        close_bus(env, fs, bus)
        return env.model(fs)

    def spec(self, env, cfg, w):
        s, p = Spec(), self.p
        c = w.var('St_charge_state')
        size, inv = size_clauses(s, env, w, p, cfg, 'St__Investment')
        s.forall('charge state within its relative limits times the invested capacity', 0, env.n + 1,
                 lambda t: z3.And(GE(c(t), p['cmin'].s * size(0)), LE(c(t), p['cmax'].s * size(0))))
        return s


SCENARIOS = [FlowInvest(), StorageInvest()]
