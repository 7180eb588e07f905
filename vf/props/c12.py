"""C12: piecewise conversion keeps all flows on the same piece."""
from .c10 import flow_limits, names
from .common import *


class Piecewise(Scenario):
    prop, name = 'C12', 'piecewise conversion'
    focus = ['C_']

    def configs(self, tier):
        out = []
        for c in product(shape=[(1, 1), (1, 2), (2, 1)], pieces=[1, 2, 3], on=[False, True], data=['plain', 'TimeSeriesData']):
            if tier == 'quick' and (c['data'] != 'plain' and c['pieces'] != 2 or c['shape'] == (2, 1) or c['pieces'] == 3 and (c['on'] or c['shape'] != (1, 1))):
                continue
            out.append(c)
        return out

    def build(self, env, cfg):
        f = fx()
        fs, costs, bus = base(env)
        p = self.p = {}
        fl = {k: f.Flow(k, bus=bus, size=1000) for k in names(*cfg['shape'])}
        seg = {}
        wrap = (lambda x: x) if cfg['data'] == 'plain' else f.TimeSeriesData
        for k in fl:
            pts = []
            for j in range(cfg['pieces']):
                for e in (0, 1):
                    p[k, j, e] = env.ts(f'pt_{k}_{j}{e}', lo=0, hi=100)
                pts.append((wrap(p[k, j, 0].user), wrap(p[k, j, 1].user)))
            seg[fl[k]] = pts
        fs.add_elements(f.LinearConverter('C', inputs=[fl[k] for k in fl if k[0] == 'i'], outputs=[fl[k] for k in fl if k[0] == 'o'], segmented_conversion_factors=seg,
                                          on_off_parameters=f.OnOffParameters() if cfg['on'] else None))
        close_bus(env, fs, bus)
        return env.model(fs)

    def spec(self, env, cfg, w):
        s, p = Spec(), self.p
        fl = names(*cfg['shape'])
        K = range(cfg['pieces'])
        x = {k: w.var(f'C__{k}_flow_rate') for k in fl}
        ins = [w.var(f'C__Segment_{k}_inSegment') for k in K]
        l0 = [w.var(f'C__Segment_{k}_lambda0') for k in K]
        l1 = [w.var(f'C__Segment_{k}_lambda1') for k in K]

        def on_piece(j, t):
            a, b = l0[j](t), l1[j](t)
            return z3.And([BIN(ins[j](t)), GE(a, 0), GE(b, 0), EQ(a + b, 1)] + [EQ(x[k](t), p[k, j, 0](t) * a + p[k, j, 1](t) * b) for k in fl])

        on = None
        flow_limits(s, env, w, 'C', fl, on=cfg['on'])
        if cfg['on']:
            one = z3.RealVal(1000)
            on = component_status(s, env, w, 'C', fl, [(lambda t: z3.RealVal(0), lambda t: one)] * len(fl), tag='assume')
            on_hours(s, env, w, 'C__OnOff')
            switch_existence(s, env, w, 'C__OnOff', on)
            for k in fl:
                on_hours(s, env, w, f'C__{k}__OnOff')
                switch_existence(s, env, w, f'C__{k}__OnOff', w.var(f'C__{k}__OnOff_on'))
        running = (lambda t: BIN(on(t))) if on is not None else (lambda t: z3.BoolVal(True))
        s.forall('all flows lie on the same piece at the same position', 0, env.n, lambda t: z3.Implies(running(t), z3.Or([on_piece(j, t) for j in K])))
        if on is not None:
            s.forall('off -> all flows are zero', 0, env.n, lambda t: z3.Implies(z3.Not(running(t)), z3.And([EQ(x[k](t), 0) for k in fl])))
        # ghosts: piece and position are those of the model
        s.forall('at most one piece', 0, env.n, lambda t: z3.And([z3.Implies(BIN(ins[k](t)), z3.And([running(t)] + [z3.Not(BIN(ins[j](t))) for j in K if j != k])) for k in K]), tag='assume')
        s.forall('positions on other pieces are zero', 0, env.n, lambda t: z3.And([z3.Implies(z3.Not(BIN(ins[k](t))), z3.And(EQ(l0[k](t), 0), EQ(l1[k](t), 0))) for k in K]), tag='assume')
        return s


SCENARIOS = [Piecewise()]
