"""C03: every bus balances in every time step; imbalance only through penalised excess."""
import itertools

from .common import *


class BusBalance(Scenario):
    prop, name = 'C03', 'bus balance'
    focus = ['bus']

    def configs(self, tier):
        out = []
        sizes = [(1, 1), (2, 1), (1, 2), (3, 2), (0, 1), (2, 0)] if tier == 'quick' else list(itertools.product(range(4), range(4)))
        for i, o in sizes:
            if i + o == 0:
                continue
            for ex in (False, True):
                if i * o == 0 and not ex:
                    continue
                out.append(dict(inputs=i, outputs=o, excess=ex))
        return out

    def build(self, env, cfg):
        f = fx()
        fs = env.flow_system()
        costs = f.Effect('costs', 'EUR', 'costs', is_standard=True, is_objective=True)
        fs.add_effects(costs)
        self.pen = env.ts('penalty', lo=0) if cfg['excess'] else None
        bus = f.Bus('bus', excess_penalty_per_flow_hour=self.pen.user if cfg['excess'] else None)
        other = f.Bus('other', excess_penalty_per_flow_hour=None)
        size = env.num('size', lo=1)
        for k in range(cfg['inputs']):
            fs.add_elements(f.Source(f'S{k}', source=f.Flow('out', bus=bus, size=size.user)))
        for k in range(cfg['outputs']):
            fs.add_elements(f.Sink(f'D{k}', sink=f.Flow('in', bus=bus, size=size.user)))
        # another bus and a component touching both buses must not leak into the balance
        fs.add_elements(f.Source('X', source=f.Flow('out', bus=other, size=size.user)),
                        f.Sink('Y', sink=f.Flow('in', bus=other, size=size.user)))
        return env.model(fs)

    def spec(self, env, cfg, w):
        s = Spec()
        ins = [w.var(f'S{k}__out_flow_rate') for k in range(cfg['inputs'])]
        outs = [w.var(f'D{k}__in_flow_rate') for k in range(cfg['outputs'])]
        if cfg['excess']:
            ei, eo = w.var('bus_excess_input'), w.var('bus_excess_output')
            s.forall('excess supply is not negative', 0, env.n, lambda t: GE(ei(t), 0))
            s.forall('excess demand is not negative', 0, env.n, lambda t: GE(eo(t), 0))
            s.forall('supply + excess supply = demand + excess demand', 0, env.n,
                     lambda t: EQ(sum((v(t) for v in ins), z3.RealVal(0)) + ei(t), sum((v(t) for v in outs), z3.RealVal(0)) + eo(t)))
            pen = w.var('Effects__penalty_penalty_sum')
            s.fact('penalty = sum of excess * dt * penalty rate', lambda: EQ(pen(0), env.SUM(0, env.n, lambda t: (ei(t) + eo(t)) * env.dt(t) * self.pen(t))))
        else:
            s.forall('supply = demand', 0, env.n,
                     lambda t: EQ(sum((v(t) for v in ins), z3.RealVal(0)), sum((v(t) for v in outs), z3.RealVal(0))))
            pen = w.var('Effects__penalty_penalty_sum')
            s.fact('no penalty', lambda: EQ(pen(0), 0))
        return s


SCENARIOS = [BusBalance()]
