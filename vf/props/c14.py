"""C14: transmissions lose exactly the stated amounts."""
from .c08 import invest, size_clauses
from .common import *


class Losses(Scenario):
    prop, name = 'C14', 'transmission'
    focus = ['T_']

    def configs(self, tier):
        out = []
        for c in product(dirs=[1, 2], rel=[False, True], loss=['none', 'any', 'array', 'series'], inv=['none', 'fixed', 'range', 'optional'], prevent=[True, False], on=[False, True]):
            if c['dirs'] == 1 and not c['prevent'] or c['loss'] == 'series' and not c['rel']:
                continue
            if tier == 'quick':
                if c['inv'] != 'none' and (c['on'] or not c['rel'] or c['loss'] not in ('none', 'array')):
                    continue
                if c['on'] and (not c['rel'] or c['loss'] not in ('none', 'array') or c['dirs'] == 2 and not c['prevent']):
                    continue
                if not c['rel'] and (c['loss'] == 'any' or not c['prevent']):
                    continue
            out.append(c)
        return out

    def build(self, env, cfg):
        f = fx()
        fs, costs, a = base(env)
        b = f.Bus('busB', excess_penalty_per_flow_hour=None)
        p = self.p = {}
        kw = {}
        ts = f.TimeSeriesData if cfg['loss'] == 'series' else (lambda x: x)
        if cfg['rel']:
            p['rel'] = env.ts('rel', lo=0, hi=1)
            kw['relative_losses'] = ts(p['rel'].user)
        if cfg['loss'] != 'none':
            p['abs'] = env.ts('abs', lo=0, hi=10, shape='vec' if cfg['loss'] == 'array' else None)
            kw['absolute_losses'] = ts(p['abs'].user)
        if cfg['on']:
            kw['on_off_parameters'] = f.OnOffParameters()
        size = 1000
        if cfg['inv'] != 'none':
            size = invest(env, p, self.inv(cfg))
        fl = dict(in1=f.Flow('in1', bus=a, size=size), out1=f.Flow('out1', bus=b, size=1000))
        if cfg['dirs'] == 2:
            fl.update(in2=f.Flow('in2', bus=b, size=1000), out2=f.Flow('out2', bus=a, size=1000))
        fs.add_elements(f.Transmission('T', prevent_simultaneous_flows_in_both_directions=cfg['prevent'], **fl, **kw))
        close_bus(env, fs, a, 'EnvA')
        close_bus(env, fs, b, 'EnvB')
        return env.model(fs)

    @staticmethod
    def inv(cfg):
        return dict(kind='fixed' if cfg['inv'] == 'fixed' else 'range', optional=cfg['inv'] == 'optional')

    def spec(self, env, cfg, w):
        s, p = Spec(), self.p
        n = env.n
        dirs = range(1, cfg['dirs'] + 1)
        sizes = {}
        if cfg['inv'] != 'none':
            sizes[1], inv1 = size_clauses(s, env, w, p, self.inv(cfg), 'T__in1__Investment', tag='assume')
            if cfg['dirs'] == 2:
                sizes[2] = w.var('T__in2__Investment_size')
                s.fact('both directions have the same size', lambda: EQ(sizes[1](0), sizes[2](0)))
                # the second direction counts as invested if its size is not zero; sizes below the threshold are not distinguished from zero
                b2 = w.var('T__in2__Investment_isInvested')
                s.fact('ghost: status of the second direction', lambda: BIN(b2(0)) == (sizes[2](0) > 0), tag='assume')
                s.fact('numerical threshold of the size', lambda: z3.Or(EQ(sizes[2](0), 0), GE(sizes[2](0), EPSR)), tag='assume')
        for d in dirs:
            for k in (f'in{d}', f'out{d}'):
                x = w.var(f'T__{k}_flow_rate')
                flow_hours(s, env, w, f'T__{k}')
                cap = (lambda t, d=d: sizes[d](0)) if d in sizes and k[0] == 'i' else (lambda t: z3.RealVal(1000))
                if w.has(f'T__{k}__OnOff_on'):
                    on = w.var(f'T__{k}__OnOff_on')
                    on_off(s, env, w, on, x, lambda t: z3.RealVal(0), cap, k, tag='assume')
                    on_hours(s, env, w, f'T__{k}__OnOff')
                    switch_existence(s, env, w, f'T__{k}__OnOff', on)
                else:
                    s.forall(f'limits of {k}', 0, n, lambda t, x=x, cap=cap: z3.And(GE(x(t), 0), LE(x(t), cap(t))), tag='assume')
            i, o = w.var(f'T__in{d}_flow_rate'), w.var(f'T__out{d}_flow_rate')

            def out(t, i=i):
                r = i(t)
                if 'rel' in p:
                    r = i(t) * (1 - p['rel'](t))
                if 'abs' in p:
                    r = r - z3.If(i(t) > 0, p['abs'](t), 0)
                return r

            s.forall(f'direction {d}: out = in reduced by the losses', 0, n, lambda t, o=o, out=out: EQ(o(t), out(t)))
        if cfg['dirs'] == 2 and cfg['prevent']:
            i1, i2 = w.var('T__in1_flow_rate'), w.var('T__in2_flow_rate')
            s.forall('not both directions at once', 0, n, lambda t: z3.Or(EQ(i1(t), 0), EQ(i2(t), 0)))
        if cfg['on']:
            on = w.var('T__OnOff_on')
            xs = [w.var(f'T__{k}{d}_flow_rate') for d in dirs for k in ('in', 'out')]
            s.forall('component on -> at least one flow is in use', 0, n, lambda t: z3.Implies(BIN(on(t)), GE(sum(x(t) for x in xs), EPSR)), tag='assume')
            s.forall('component off -> all flows are zero', 0, n, lambda t: z3.Implies(z3.Not(BIN(on(t))), z3.And([EQ(x(t), 0) for x in xs])), tag='assume')
            on_hours(s, env, w, 'T__OnOff')
            switch_existence(s, env, w, 'T__OnOff', on)
        return s


SCENARIOS = [Losses()]


def run(out, tier, t_end):
    """Investments the equations cannot treat are rejected (enumerated: which flow carries InvestParameters)."""
    import flixOpt as f

    for dirs in (1, 2):
        names = ['in1', 'out1'] + (['in2', 'out2'] if dirs == 2 else [])
        for k in [None] + names:
            a, b = (f.Bus(x, excess_penalty_per_flow_hour=None) for x in 'ab')
            fl = {n: f.Flow(n, bus=a if n in ('in1', 'out2') else b, size=f.InvestParameters(maximum_size=10) if n == k else 10) for n in names}
            rec = dict(scenario='rejection of investments', config=dict(dirs=dirs, invest=k), seed=0, status='ok')
            valid = k in (None, 'in1')
            try:
                f.Transmission('T', **fl)
                accepted, err = True, ''
            except Exception as e:
                accepted, err = False, f'{type(e).__name__}: {e}'
            if accepted != valid:
                rec.update(status='violation', clause='an investment whose size would not be shared by both directions is rejected', detail=f'accepted={accepted}: {err}')
                out.violations.append((rec, True))
            out.bounded.append(rec)
