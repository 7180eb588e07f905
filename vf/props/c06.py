"""C06: start-ups and shut-downs are exactly the changes of the status."""
from .common import *


def history(env, p, kind, flow='', hi=100, n=3):
    """User given history of a flow: (argument for previous_flow_rate, was it on at the end?)."""
    if kind == 'none':
        return None, z3.BoolVal(False)
    if kind == 'number':
        q = p[f'prev{flow}'] = env.num(f'prev{flow}', lo=0, hi=hi)
        return q.user, q.s > EPSR
    q = p[f'prev{flow}'] = env.vec(f'prev{flow}', n, lo=0, hi=hi)
    return q.user, q(n - 1) > EPSR


def switch_clauses(s, env, w, pre, on, was_on):
    a, b, k = w.var(pre + '_switchOn'), w.var(pre + '_switchOff'), w.var(pre + '_nrSwitchOn')
    B = BIN
    s.forall('start-up in a step iff on now and off before', 1, env.n, lambda t: B(a(t)) == z3.And(B(on(t)), z3.Not(B(on(t - 1)))))
    s.forall('shut-down in a step iff off now and on before', 1, env.n, lambda t: B(b(t)) == z3.And(z3.Not(B(on(t))), B(on(t - 1))))
    s.fact('start-up in the first step iff on now and off at the end of the history', lambda: B(a(0)) == z3.And(B(on(0)), z3.Not(was_on)))
    s.fact('shut-down in the first step iff off now and on at the end of the history', lambda: B(b(0)) == z3.And(z3.Not(B(on(0))), was_on))
    s.fact('number of start-ups', lambda: EQ(k(0), env.SUM(0, env.n, lambda t: a(t))))


class FlowStarts(Scenario):
    prop, name = 'C06', 'start-ups of a flow'
    focus = ['S__', 'costs__', 'CO2__']

    def configs(self, tier):
        if tier == 'quick':
            return [dict(prev=h, effects=e, limit=l, force=f) for h, e, l, f in [
                ('none', 'none', True, False), ('number', 'number', True, False), ('array', 'dict', True, False),
                ('none', 'number', False, True), ('number', 'none', False, True), ('array', 'none', False, True)]]
        return product(prev=['none', 'number', 'array'], effects=['none', 'number', 'dict'], limit=[False, True], force=[True, False])

    def build(self, env, cfg):
        f = fx()
        fs, costs, bus = base(env)
        co2 = f.Effect('CO2', 'kg', 'CO2')
        fs.add_effects(co2)
        p, kw = {}, {}
        self.p = p
        p['size'] = env.num('size', lo=0, hi=1000)
        p['rmax'] = env.ts('rmax', lo=0, hi=1)
        p['rmin'] = env.ts('rmin', lo=0, le=[p['rmax']])
        if cfg['limit']:
            p['max'] = env.num('max', lo=0, hi=20)
            kw['switch_on_total_max'] = p['max'].user
        if cfg['effects'] == 'number':
            p['e'] = env.ts('e', lo=-10, hi=10)
            kw['effects_per_switch_on'] = p['e'].user
        elif cfg['effects'] == 'dict':
            p['e'], p['g'] = env.ts('e', lo=-10, hi=10), env.ts('g', lo=0, hi=10)
            kw['effects_per_switch_on'] = {costs: p['e'].user, co2: p['g'].user}
        prev, self.was_on = history(env, p, cfg['prev'])
        fs.add_elements(f.Source('S', source=f.Flow(
            'out', bus=bus, size=p['size'].user, relative_minimum=p['rmin'].user, relative_maximum=p['rmax'].user,
            previous_flow_rate=prev, on_off_parameters=f.OnOffParameters(force_switch_on=cfg['force'], **kw))))
        close_bus(env, fs, bus, source=False)
        return env.model(fs)

    def spec(self, env, cfg, w):
        s, p = Spec(), self.p
        x, on, h, fh = w.var('S__out_flow_rate'), w.var('S__out__OnOff_on'), w.var('S__out__OnOff_totalOnHours'), w.var('S__out_sumFlowHours')
        on_off(s, env, w, on, x, lambda t: p['rmin'](t) * p['size'].s, lambda t: p['rmax'](t) * p['size'].s)
        s.fact('hours of operation', lambda: EQ(h(0), env.SUM(0, env.n, lambda t: on(t) * env.dt(t))), tag='assume')
        switch_clauses(s, env, w, 'S__out__OnOff', on, self.was_on)
        a = w.var('S__out__OnOff_switchOn')
        if cfg['limit']:
            s.fact('limit of the number of start-ups', lambda: LE(env.SUM(0, env.n, lambda t: a(t)), p['max'].s))
        contributions(s, env, w, 'costs', op=(lambda t: p['e'](t) * a(t)) if 'e' in p else None)
        contributions(s, env, w, 'CO2', op=(lambda t: p['g'](t) * a(t)) if 'g' in p else None)
        return s


class ComponentStarts(Scenario):
    prop, name = 'C06', 'start-ups of a component'
    focus = ['C', 'costs__']

    def configs(self, tier):
        if tier == 'quick':
            return [dict(prev=h) for h in [('number', 'number'), ('array', 'array'), ('none', 'number')]]
        return [dict(prev=h) for h in [('none', 'none'), ('number', 'number'), ('array', 'array'), ('none', 'number'), ('none', 'array'), ('number', 'none')]]

    def build(self, env, cfg):
        f = fx()
        from flixOpt.elements import Component

        fs, costs, bus = base(env)
        p = self.p = {}
        flows, was = [], []
        for k, h in enumerate(cfg['prev']):
            p[f'size{k}'] = env.num(f'size{k}', lo=0, hi=1000)
            prev, on = history(env, p, h, str(k))
            was.append(on)
            flows.append(f.Flow(f'f{k}', bus=bus, size=p[f'size{k}'].user, previous_flow_rate=prev))
        self.was_on = z3.Or(was)
        p['e'] = env.ts('e', lo=0, hi=10)
        fs.add_elements(Component('C', inputs=flows[:1], outputs=flows[1:], on_off_parameters=f.OnOffParameters(effects_per_switch_on=p['e'].user)))
        close_bus(env, fs, bus)
        return env.model(fs)

    def spec(self, env, cfg, w):
        s, p = Spec(), self.p
        n = len(cfg['prev'])
        zero = lambda t: z3.RealVal(0)
        on = component_status(s, env, w, 'C', [f'f{k}' for k in range(n)], [(zero, lambda t, k=k: p[f'size{k}'].s) for k in range(n)], tag='assume')
        switch_clauses(s, env, w, 'C__OnOff', on, self.was_on)
        a = w.var('C__OnOff_switchOn')
        contributions(s, env, w, 'costs', op=lambda t: p['e'](t) * a(t))
        for k in range(len(cfg['prev'])):
            pre = f'C__f{k}__OnOff'
            if w.has(pre + '_switchOn'):
                pv = p.get(f'prev{k}')
                was = z3.BoolVal(False) if pv is None else (pv(2) if pv.vec else pv.s) > EPSR
                switch_existence(s, env, w, pre, w.var(pre + '_on'), was)
        return s




SCENARIOS = [FlowStarts(), ComponentStarts()]
