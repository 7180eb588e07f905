"""C15: mutually exclusive flows are never used together."""
from .common import *


class Exclusive(Scenario):
    prop, name = 'C15', 'exclusive flows of a component'
    focus = ['C_']

    def configs(self, tier):
        out = []
        for n, g in [(2, [0, 1]), (3, [0, 1]), (3, [0, 2]), (3, [0, 1, 2]), (4, [0, 1, 2, 3]), (4, [1, 3])]:
            for own in ('none', 'some', 'component'):
                for out_ in (0, 1, n):
                    if tier == 'quick' and (own == 'component' and n > 2 or n == 4 and (own != 'none' or out_ != 1)):
                        continue
                    if tier == 'quick' and n == 3 and out_ != 1 and own != 'none':
                        continue
                    out.append(dict(n=n, group=list(g), own=own, outputs=out_))
        return out

    def build(self, env, cfg):
        f = fx()
        from flixOpt.elements import Component

        fs, costs, bus = base(env)
        p = self.p = {}
        fl = []
        for k in range(cfg['n']):
            kw = {}
            p['max', k] = env.ts(f'rmax{k}', lo=0, hi=1, shape='vec')
            p['min', k] = env.ts(f'rmin{k}', lo=0, le=[p['max', k]], shape='vec')
            if cfg['own'] == 'some' and k == 0:
                kw['on_off_parameters'] = f.OnOffParameters()
            fl.append(f.Flow(f'f{k}', bus=bus, size=1000, relative_minimum=p['min', k].user, relative_maximum=p['max', k].user, **kw))
        m = cfg['n'] - cfg['outputs']
        fs.add_elements(Component('C', inputs=fl[:m], outputs=fl[m:], on_off_parameters=f.OnOffParameters() if cfg['own'] == 'component' else None,
                                  prevent_simultaneous_flows=[fl[k] for k in cfg['group']]))
        close_bus(env, fs, bus)
        return env.model(fs)

    def spec(self, env, cfg, w):
        s, p = Spec(), self.p
        x = [w.var(f'C__f{k}_flow_rate') for k in range(cfg['n'])]
        g = cfg['group']
        for a in range(len(g)):
            for b in range(a):
                s.forall(f'f{g[b]} and f{g[a]} are not used at once', 0, env.n, lambda t, a=a, b=b: z3.Or(EQ(x[g[a]](t), 0), EQ(x[g[b]](t), 0)))
        for k in range(cfg['n']):
            flow_hours(s, env, w, f'C__f{k}')
            lo, hi = (lambda t, k=k: p['min', k](t) * 1000), (lambda t, k=k: p['max', k](t) * 1000)
            switchable = k in g or cfg['own'] == 'component' or (cfg['own'] == 'some' and k == 0)
            if switchable:
                on = w.var(f'C__f{k}__OnOff_on')
                on_off(s, env, w, on, x[k], lo, hi, f'f{k}')
                on_hours(s, env, w, f'C__f{k}__OnOff')
                switch_existence(s, env, w, f'C__f{k}__OnOff', on)
            else:
                s.forall(f'limits of f{k}', 0, env.n, lambda t, k=k, lo=lo, hi=hi: z3.And(GE(x[k](t), lo(t)), LE(x[k](t), hi(t))))
        if cfg['own'] == 'component':
            on = w.var('C__OnOff_on')
            s.forall('component on -> at least one flow is in use', 0, env.n, lambda t: z3.Implies(BIN(on(t)), GE(sum(v(t) for v in x), EPSR)), tag='assume')
            s.forall('component off -> all flows are zero', 0, env.n, lambda t: z3.Implies(z3.Not(BIN(on(t))), z3.And([EQ(v(t), 0) for v in x])), tag='assume')
            on_hours(s, env, w, 'C__OnOff')
            switch_existence(s, env, w, 'C__OnOff', on)
        return s


class Declared(Scenario):
    prop, name = 'C15', 'exclusive flows of the predefined components'
    focus = ['C_']

    def configs(self, tier):
        return product(kind=['SourceAndSink', 'Storage', 'Transmission'], prevent=[True, False])

    def build(self, env, cfg):
        f = fx()
        fs, costs, bus = base(env)
        p = self.p = {}
        for k in 'ab':
            p['max', k] = env.ts(f'rmax{k}', lo=0, hi=1, shape='vec')
            p['min', k] = env.ts(f'rmin{k}', lo=0, le=[p['max', k]], shape='vec') if cfg['kind'] == 'SourceAndSink' else None
        fl = {k: f.Flow(k, bus=bus, size=1000, relative_maximum=p['max', k].user, **({'relative_minimum': p['min', k].user} if p['min', k] else {})) for k in 'ab'}
        if cfg['kind'] == 'SourceAndSink':
            fs.add_elements(f.SourceAndSink('C', source=fl['a'], sink=fl['b'], prevent_simultaneous_flows=cfg['prevent']))
        elif cfg['kind'] == 'Storage':
            fs.add_elements(f.Storage('C', charging=fl['a'], discharging=fl['b'], capacity_in_flow_hours=1000, initial_charge_state=None,
                                      prevent_simultaneous_charge_and_discharge=cfg['prevent']))
        else:
            b2 = f.Bus('other', excess_penalty_per_flow_hour=None)
            fl['b'] = f.Flow('b', bus=b2, size=1000, relative_maximum=p['max', 'b'].user)
            fs.add_elements(f.Transmission('C', in1=fl['a'], out1=f.Flow('oa', bus=b2, size=1000), in2=fl['b'], out2=f.Flow('ob', bus=bus, size=1000),
                                           prevent_simultaneous_flows_in_both_directions=cfg['prevent']))
            close_bus(env, fs, b2, 'Other')
        close_bus(env, fs, bus)
        return env.model(fs)

    def in_scope(self, label, uses):  # energy balances and losses belong to C13 and C14
        return super().in_scope(label, uses) and all(u.startswith(('C__a', 'C__b')) for u in uses)

    def spec(self, env, cfg, w):
        s, p = Spec(), self.p
        x = {k: w.var(f'C__{k}_flow_rate') for k in 'ab'}
        if cfg['prevent']:
            s.forall('not used at once', 0, env.n, lambda t: z3.Or(EQ(x['a'](t), 0), EQ(x['b'](t), 0)))
        for k in 'ab':
            flow_hours(s, env, w, f'C__{k}')
            lo, hi = (lambda t, k=k: p['min', k](t) * 1000 if p['min', k] else z3.RealVal(0)), (lambda t, k=k: p['max', k](t) * 1000)
            if cfg['prevent']:
                on = w.var(f'C__{k}__OnOff_on')
                on_off(s, env, w, on, x[k], lo, hi, k)
                on_hours(s, env, w, f'C__{k}__OnOff')
                switch_existence(s, env, w, f'C__{k}__OnOff', on)
            else:
                s.forall(f'limits of {k}', 0, env.n, lambda t, k=k, lo=lo, hi=hi: z3.And(GE(x[k](t), lo(t)), LE(x[k](t), hi(t))))
        return s


SCENARIOS = [Exclusive(), Declared()]
