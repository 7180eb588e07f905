"""C09: investment effects are charged exactly for what is built."""
from .c08 import invest, size_clauses
from .common import *

EFF = ('costs', 'CO2')


class InvestEffects(Scenario):
    prop, name = 'C09', 'effects of an investment'
    focus = ['costs__invest', 'CO2__invest', 'costs__fix', 'costs__all', 'CO2__all']
    storage = False

    def in_scope(self, label, uses):
        if any(u.endswith(('flow_rate', 'charge_state')) for u in uses):  # limits of the flow: C08
            return False
        return label.startswith(('costs__', 'CO2__', 'S__out__Investment', 'St__Investment', 'S__out__S', 'St__S', 'S__out__M', 'St__M'))

    def configs(self, tier):
        out = []
        for c in product(kind=['fixed', 'range'], optional=[True, False], fix=['none', 'number', 'dict'], div=['none', 'number', 'dict'], spec=['none', 'number', 'dict'], seg=[0, 1, 2, 3], el=['flow', 'storage']):
            k = (c['fix'], c['div'], c['spec'])
            if tier == 'quick':
                if c['seg'] == 0 and len(set(k)) > 1 and not (c['kind'] == 'range' and k.count('none') == 2):
                    continue
                if c['seg'] and (k not in (('none', 'none', 'none'), ('dict', 'none', 'number')) or c['kind'] == 'fixed' or c['seg'] == 3):
                    continue
                if c['el'] == 'storage' and len(set(k)) > 1:
                    continue
            elif c['seg'] in (1, 3) and len(set(k)) > 1:
                continue
            if c['seg'] == 0 and k == ('none', 'none', 'none') and c['kind'] == 'fixed':
                continue
            out.append(c)
        return out

    def build(self, env, cfg):
        f = fx()
        fs, costs, bus = base(env)
        co2 = f.Effect('CO2', 'kg', 'CO2')
        fs.add_effects(co2)
        p = self.p = {}
        kw = {}
        for what, arg in (('fix', 'fix_effects'), ('div', 'divest_effects'), ('spec', 'specific_effects')):
            for e in EFF[:{'none': 0, 'number': 1, 'dict': 2}[cfg[what]]]:
                p[what, e] = env.num(f'{what}_{e}', lo=-100, hi=100)
            if cfg[what] == 'number':
                kw[arg] = p[what, 'costs'].user
            elif cfg[what] == 'dict':
                kw[arg] = {costs: p[what, 'costs'].user, co2: p[what, 'CO2'].user}
        if cfg['seg']:
            pts, sh = [], {costs: [], co2: []}
            for k in range(cfg['seg']):
                for j in (0, 1):
                    p['pt', k, j] = env.num(f'pt{k}{j}', lo=0, hi=100)
                    for e in EFF:
                        p['sh', e, k, j] = env.num(f'sh{e}{k}{j}', lo=-100, hi=100)
                pts.append((p['pt', k, 0].user, p['pt', k, 1].user))
                for eff, e in ((costs, 'costs'), (co2, 'CO2')):
                    sh[eff].append((p['sh', e, k, 0].user, p['sh', e, k, 1].user))
            kw['effects_in_segments'] = (pts, sh)
        inv = invest(env, p, cfg, **kw)
        if cfg['el'] == 'flow':
            fs.add_elements(f.Source('S', source=f.Flow('out', bus=bus, size=inv)))
            close_bus(env, fs, bus, source=False)
        else:
            fs.add_elements(f.Storage('St', f.Flow('in', bus=bus, size=1000), f.Flow('out', bus=bus, size=1000), capacity_in_flow_hours=inv, initial_charge_state=None))
            close_bus(env, fs, bus)
        return env.model(fs)

    def spec(self, env, cfg, w):
        s, p = Spec(), self.p
        el = 'S__out' if cfg['el'] == 'flow' else 'St'
        size, inv = size_clauses(s, env, w, p, cfg, el + '__Investment', tag='assume')
        seg_share = {}
        if cfg['seg']:
            shares = seg_share = {e: w.var(f'{el}__SegmentedShares_{e}_segmented') for e in EFF}
            K = range(cfg['seg'])
            ins = [w.var(f'{el}__Segment_{k}_inSegment') for k in K]
            l0 = [w.var(f'{el}__Segment_{k}_lambda0') for k in K]
            l1 = [w.var(f'{el}__Segment_{k}_lambda1') for k in K]

            def on_piece(k):
                a, b = l0[k](0), l1[k](0)
                q = lambda x: x[0].s * a + x[1].s * b
                return z3.And([BIN(ins[k](0)), GE(a, 0), GE(b, 0), EQ(a + b, 1), EQ(size(0), q((p['pt', k, 0], p['pt', k, 1])))]
                              + [EQ(shares[e](0), q((p['sh', e, k, 0], p['sh', e, k, 1]))) for e in EFF])

            s.fact('invested -> size and all effects lie at the same position of one piece', lambda: z3.Implies(inv(), z3.Or([on_piece(k) for k in K])))
            s.fact('not invested -> size and piecewise effects are zero',
                   lambda: z3.Implies(z3.Not(inv()), z3.And([EQ(size(0), 0)] + [EQ(shares[e](0), 0) for e in EFF])))
            # ghosts: the piece and position are the ones of the model
            s.fact('at most one piece', lambda: z3.And([z3.Implies(BIN(ins[k](0)), z3.And([inv()] + [z3.Not(BIN(ins[j](0))) for j in K if j != k])) for k in K]), tag='assume')
            s.fact('positions on other pieces are zero', lambda: z3.And([z3.Implies(z3.Not(BIN(ins[k](0))), z3.And(EQ(l0[k](0), 0), EQ(l1[k](0), 0))) for k in K]), tag='assume')
        for e in EFF:
            def total(e=e):
                r = z3.RealVal(0)
                if ('fix', e) in p:
                    r = r + z3.If(inv(), p['fix', e].s, 0)
                if ('div', e) in p and cfg['optional']:
                    r = r + z3.If(inv(), 0, p['div', e].s)
                if ('spec', e) in p:
                    r = r + p['spec', e].s * size(0)
                if e in seg_share:
                    r = r + seg_share[e](0)
                return r

            contributions(s, env, w, e, inv=total)
        return s


SCENARIOS = [InvestEffects()]
