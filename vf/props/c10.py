"""C10: linear converters couple their flows by the given factors."""
from .common import *


def names(n, k):
    return [f'i{j}' for j in range(n)] + [f'o{j}' for j in range(k)]


def flow_limits(s, env, w, comp, fl, on=False, tag='assume'):
    """Flows of size 1000 without further limits."""
    for k in fl:
        x = w.var(f'{comp}__{k}_flow_rate')
        if not on:
            s.forall(f'limits of {k}', 0, env.n, lambda t, x=x: z3.And(GE(x(t), 0), LE(x(t), 1000)), tag=tag)
        flow_hours(s, env, w, f'{comp}__{k}')


class Conversion(Scenario):
    prop, name = 'C10', 'conversion relations'
    focus = ['C_']

    def configs(self, tier):
        out = []
        shapes = [(1, 1), (2, 1), (1, 2)] + ([(2, 2), (1, 3), (3, 1), (0, 2), (2, 0)] if tier == 'thorough' else [(2, 2)])
        for ni, no in shapes:
            fl = names(ni, no)
            rels = [[fl]]
            if len(fl) > 2:
                rels += [[fl[:2]], [fl[-2:], fl[:2]], [[fl[0], fl[-1]], fl[1:]], [fl, fl]]
            if len(fl) > 3:
                rels += [[fl[:2], fl[1:3], fl[2:]]]
            for r in rels:
                for on in (False, True):
                    if on and (tier == 'quick' and len(fl) > 2 or r is not rels[0]):
                        continue
                    out.append(dict(ni=ni, no=no, rel=[list(x) for x in r], on=on))
        return out

    def build(self, env, cfg):
        f = fx()
        fs, costs, bus = base(env)
        p = self.p = {}
        fl = {k: f.Flow(k, bus=bus, size=1000) for k in names(cfg['ni'], cfg['no'])}
        cf = []
        for j, r in enumerate(cfg['rel']):
            d = {}
            for k in r:
                p[j, k] = env.ts(f'factor{j}_{k}', lo=-100, hi=100)
                d[fl[k]] = p[j, k].user
            cf.append(d)
        fs.add_elements(f.LinearConverter('C', inputs=[fl[k] for k in fl if k[0] == 'i'], outputs=[fl[k] for k in fl if k[0] == 'o'], conversion_factors=cf,
                                          on_off_parameters=f.OnOffParameters() if cfg['on'] else None))
        close_bus(env, fs, bus)
        return env.model(fs)

    def spec(self, env, cfg, w):
        s, p = Spec(), self.p
        fl = names(cfg['ni'], cfg['no'])
        x = {k: w.var(f'C__{k}_flow_rate') for k in fl}
        for j, r in enumerate(cfg['rel']):
            s.forall(f'relation {j}: inputs times factors = outputs times factors', 0, env.n,
                     lambda t, j=j, r=r: EQ(sum([x[k](t) * p[j, k](t) for k in r if k[0] == 'i'], z3.RealVal(0)), sum([x[k](t) * p[j, k](t) for k in r if k[0] == 'o'], z3.RealVal(0))))
        flow_limits(s, env, w, 'C', fl, on=cfg['on'])
        if cfg['on']:
            one = z3.RealVal(1000)
            on = component_status(s, env, w, 'C', fl, [(lambda t: z3.RealVal(0), lambda t: one)] * len(fl), tag='assume')
            on_hours(s, env, w, 'C__OnOff')
            switch_existence(s, env, w, 'C__OnOff', on)
            for k in fl:
                on_hours(s, env, w, f'C__{k}__OnOff')
                switch_existence(s, env, w, f'C__{k}__OnOff', w.var(f'C__{k}__OnOff_on'))
        return s


SCENARIOS = [Conversion()]


def run(out, tier, t_end):
    """Rejection of invalid relations: enumerated (bounded) over the number of flows and relations."""
    import flixOpt as f

    bus = f.Bus('bus', excess_penalty_per_flow_hour=None)
    for ni in range(0, 4):
        for no in range(0, 4):
            n = ni + no
            if n == 0:
                continue
            for nr in range(1, n + 2):
                for foreign in (None, 0, nr - 1):
                    fl = [f.Flow(f'i{k}', bus=bus, size=1) for k in range(ni)] + [f.Flow(f'o{k}', bus=bus, size=1) for k in range(no)]
                    strange = f.Flow('i0', bus=bus, size=1)
                    rel = [{fl[(j + k) % n]: 1.0 for k in range(min(2, n))} for j in range(nr)]
                    if foreign is not None:
                        rel[foreign][strange] = 1.0
                    valid = nr < n and foreign is None
                    rec = dict(scenario='rejection of relations', config=dict(inputs=ni, outputs=no, relations=nr, foreign=foreign), seed=0)
                    try:
                        f.LinearConverter('C', inputs=fl[:ni], outputs=fl[ni:], conversion_factors=rel)
                        accepted, err = True, ''
                    except Exception as e:
                        accepted, err = False, f'{type(e).__name__}: {e}'
                    rec['status'] = 'ok' if accepted == valid else 'violation'
                    if accepted != valid:
                        rec['clause'] = 'too many relations and foreign flows are rejected, everything else is accepted'
                        rec['detail'] = f'accepted={accepted} although valid={valid}: {err}'
                        out.violations.append((rec, True))
                    out.bounded.append(rec)
