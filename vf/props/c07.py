"""C07: minimum and maximum up and down times, with the history of the user."""
from .c06 import history, switch_clauses
from .common import *


def run_length(p, kind, flow, dt, want_on=True, n=3):
    """Hours the unit has been on (off) at the end of the history."""
    name = f'prev{flow}'
    if kind == 'none':
        return z3.RealVal(0) if want_on else dt
    if kind == 'number':
        on = p[name].s > EPSR
        return z3.If(on if want_on else z3.Not(on), dt, z3.RealVal(0))
    hours = z3.RealVal(0)
    for k in range(n):
        hours = z3.If((p[name](k) > EPSR) if want_on else z3.Not(p[name](k) > EPSR), hours + dt, z3.RealVal(0))
    return hours


def duration_clauses(s, env, w, var, b, prev, mn, mx, what):
    d = w.var(var)
    s.fact(f'{what}: hours in the first step', lambda: EQ(d(0), z3.If(BIN(b(0)), env.dt(0) + prev, 0)))
    s.forall(f'{what}: hours add up while running and are zero otherwise', 1, env.n, lambda t: EQ(d(t), z3.If(BIN(b(t)), d(t - 1) + env.dt(t), 0)))
    if mx is not None:
        s.forall(f'{what}: never longer than the maximum', 0, env.n, lambda t: LE(d(t), mx(t)))
    if mn is not None:
        s.forall(f'{what}: not ended before the minimum', 0, env.n - 1, lambda t: z3.Implies(z3.And(BIN(b(t)), z3.Not(BIN(b(t + 1)))), GE(d(t), mn(t))))
        s.fact(f'{what}: continued if the minimum is not reached in the history', lambda: z3.Implies(z3.And(prev > 0, prev < mn(0)), BIN(b(0))))
    s.lemma(f'{what}: hours are not negative', 0, env.n, lambda t: d(t) >= 0)
    s.lemma(f'{what}: never longer than history plus elapsed time', 0, env.n, lambda t: d(t) <= prev + env.elapsed(t))


class FlowTimes(Scenario):
    prop, name = 'C07', 'up and down times of a flow'
    focus = ['S__']

    def configs(self, tier):
        out = []
        for prev in ('none', 'number', 'array'):
            for side in ('on', 'off', 'both'):
                for lim in ('min', 'max', 'both'):
                    if tier == 'quick' and side == 'both' and lim != 'both':
                        continue
                    if tier == 'quick' and prev == 'none' and lim != 'both':
                        continue
                    out.append(dict(prev=prev, side=side, lim=lim, past=2 if tier == 'quick' and side == 'both' else 3))
        return out

    def build(self, env, cfg):
        f = fx()
        fs, costs, bus = base(env)
        p, kw = {}, {}
        self.p = p
        p['size'] = env.num('size', lo=0, hi=1000)
        for side in ('on', 'off'):
            if cfg['side'] in (side, 'both'):
                if cfg['lim'] in ('min', 'both'):
                    p['min_' + side] = env.ts('min_' + side, lo=0, hi=10, shape='vec' if cfg['side'] == 'both' else None)
                    kw[f'consecutive_{side}_hours_min'] = p['min_' + side].user
                if cfg['lim'] in ('max', 'both'):
                    p['max_' + side] = env.ts('max_' + side, lo=0, hi=10)
                    kw[f'consecutive_{side}_hours_max'] = p['max_' + side].user
        prev, self.was_on = history(env, p, cfg['prev'], n=cfg['past'])
        fs.add_elements(f.Source('S', source=f.Flow('out', bus=bus, size=p['size'].user, previous_flow_rate=prev,
                                                    on_off_parameters=f.OnOffParameters(**kw))))
        close_bus(env, fs, bus, source=False)
        return env.model(fs)

    def spec(self, env, cfg, w):
        s, p = Spec(), self.p
        pre = 'S__out__OnOff'
        x, on = w.var('S__out_flow_rate'), w.var(pre + '_on')
        dt = env.prev_dt.s
        on_off(s, env, w, on, x, lambda t: z3.RealVal(0), lambda t: p['size'].s, tag='assume')
        flow_hours(s, env, w, 'S__out')
        on_hours(s, env, w, pre)
        switch_existence(s, env, w, pre, on, self.was_on)
        if cfg['side'] in ('on', 'both'):
            duration_clauses(s, env, w, pre + '_consecutiveOnHours', on, run_length(p, cfg['prev'], '', dt, n=cfg['past']), p.get('min_on'), p.get('max_on'), 'operation')
        if cfg['side'] in ('off', 'both'):
            off = w.var(pre + '_off')
            s.forall('off iff not on', 0, env.n, lambda t: BIN(off(t)) == z3.Not(BIN(on(t))))
            duration_clauses(s, env, w, pre + '_consecutiveOffHours', off, run_length(p, cfg['prev'], '', dt, False, n=cfg['past']), p.get('min_off'), p.get('max_off'), 'standstill')
        return s


class ComponentTimes(Scenario):
    prop, name = 'C07', 'up and down times of a component'
    focus = ['C']

    def configs(self, tier):
        if tier == 'quick':
            return [dict(prev=h, side=s, past=2) for h, s in [(('number', 'number'), 'on'), (('array', 'array'), 'on'), (('array', 'array'), 'off'), (('none', 'number'), 'off')]]
        return [dict(prev=h, side=s, past=3) for h in [('none', 'none'), ('number', 'number'), ('array', 'array'), ('none', 'number'), ('none', 'array')] for s in ('on', 'off')]

    def build(self, env, cfg):
        f = fx()
        from flixOpt.elements import Component

        fs, costs, bus = base(env)
        p, kw = {}, {}
        self.p = p
        flows, self.hist = [], []
        for k, h in enumerate(cfg['prev']):
            p[f'size{k}'] = env.num(f'size{k}', lo=0, hi=1000)
            prev, _ = history(env, p, h, str(k), n=cfg['past'])
            flows.append(f.Flow(f'f{k}', bus=bus, size=p[f'size{k}'].user, previous_flow_rate=prev))
        for lim in ('min', 'max'):
            p[lim] = env.ts(lim, lo=0, hi=10)
            kw[f'consecutive_{cfg["side"]}_hours_{lim}'] = p[lim].user
        fs.add_elements(Component('C', inputs=flows[:1], outputs=flows[1:], on_off_parameters=f.OnOffParameters(**kw)))
        close_bus(env, fs, bus)
        return env.model(fs)

    def spec(self, env, cfg, w):
        s, p = Spec(), self.p
        n = len(cfg['prev'])
        zero = lambda t: z3.RealVal(0)
        on = component_status(s, env, w, 'C', [f'f{k}' for k in range(n)], [(zero, lambda t, k=k: p[f'size{k}'].s) for k in range(n)], tag='assume')
        on_hours(s, env, w, 'C__OnOff')
        dt = env.prev_dt.s

        def was(k, j):
            h = cfg['prev'][k]
            if h == 'none':
                return z3.BoolVal(False)
            return (p[f'prev{k}'].s if h == 'number' else p[f'prev{k}'](j)) > EPSR

        for k in range(n):
            flow_hours(s, env, w, f'C__f{k}')
            on_hours(s, env, w, f'C__f{k}__OnOff')
            switch_existence(s, env, w, f'C__f{k}__OnOff', w.var(f'C__f{k}__OnOff_on'), was(k, cfg['past'] - 1))
        switch_existence(s, env, w, 'C__OnOff', on, z3.Or([was(k, cfg['past'] - 1) for k in range(n)]))
        past = cfg['past']
        depth = past if 'array' in cfg['prev'] else 1
        b, prev = on, z3.RealVal(0)
        want = cfg['side'] == 'on'
        for j in range(past - depth, past):
            st = z3.Or([was(k, j) for k in range(n)])
            prev = z3.If(st if want else z3.Not(st), prev + dt, z3.RealVal(0))
        if not want:
            b = w.var('C__OnOff_off')
            s.forall('off iff not on', 0, env.n, lambda t: BIN(b(t)) == z3.Not(BIN(on(t))))
        duration_clauses(s, env, w, f'C__OnOff_consecutive{cfg["side"].capitalize()}Hours', b, prev, p['min'], p['max'], 'operation' if want else 'standstill')
        return s


SCENARIOS = [FlowTimes(), ComponentTimes()]
