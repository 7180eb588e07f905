"""C01: the solver receives exactly the stated equations, limits and objective."""
import contextlib

import z3

from .. import engine as E
from ..pyo import FakePyo, observer
from ..unit import Unit, run_units

LEVEL = 'proof'
TRUSTED = ['pyomo: Var/Constraint/Objective hold exactly the rows, domains and limits they are constructed with (stand-in: vf/pyo.py; cross-checked with the real pyomo)']
EXPLANATION = (
    'The real Variable, Equation, Inequation, Summand, SumOfSummand, MathModel and PyomoModel code is executed on variables, index sets, factors and constants '
    'of symbolic length; the recorded row of an arbitrary index is proved to be the stated one. Per configuration: the combination of shapes of up to two terms and two constants. '
    'Second part: for every configuration of the other properties, everything the model building creates reaches the solver interface exactly once.'
)


@contextlib.contextmanager
def translated(x):
    """In symbolic mode the module works on the recording stand-in for pyomo."""
    import flixOpt.math_modeling as mm

    real = mm.pyo
    if x.sym:
        mm.pyo = FakePyo()
    try:
        yield mm
    finally:
        mm.pyo = real


REAL_ERRORS = (E.Unsupported, z3.Z3Exception)


class Term:
    """A stated term: shapes and the value it contributes to row i."""

    def __init__(self, x, k, ind, fac, as_sum, nv, mm, shared=None):
        self.x, self.as_sum = x, as_sum
        self.nv = x.int(f'n{k}', 1, None if x.sym else 4) if nv == 'N' else 1
        if shared is not None:
            self.nv = shared.nv
        self.var = mm.Variable(f'v{k}', self.nv)
        if ind == 'all':
            self.ind, self.m, self.idx = None, x.i(self.nv), lambda j: j
        elif ind == 'int':
            i0 = x.int(f'i{k}', 0, self.nv - 1)
            self.ind, self.m, self.idx = i0, x.i(1), lambda j: x.i(i0)
        elif ind == 'range':
            lo = x.int(f'lo{k}', 0, self.nv - 1)
            hi = x.int(f'hi{k}', lo + 1, self.nv)
            self.ind, self.m, self.idx = x.rng(lo, hi), x.i(hi) - x.i(lo), lambda j: x.i(lo) + j
        elif ind == 'list':
            a, b = x.int(f'i{k}a', 0, self.nv - 1), x.int(f'i{k}b', 0, self.nv - 1)
            self.ind, self.m, self.idx = [a, b], x.i(2), lambda j, a=a, b=b: x.If(x.eq(j, x.i(0)), x.i(a), x.i(b))
        elif ind == 'arr':
            m = x.int(f'm{k}', 1, None if x.sym else 4)
            arr = x.iarr(f'ind{k}', m, 0, self.nv - 1)
            self.ind, self.m, self.idx = arr, x.i(m), lambda j: x.at(arr, j)
        if fac == 'one':
            self.fac, self.f, self.fv = 1, x.i(1), lambda j: x.r(1)
        elif fac == 'num':
            a = x.num(f'f{k}')
            self.fac, self.f, self.fv = a, x.i(1), lambda j: x.r(a)
        elif fac == 'vec':
            n = x.int(f'l{k}', 1, None if x.sym else 4)
            a = x.arr(f'f{k}', n)
            self.fac, self.f, self.fv = a, x.i(n), lambda j: x.at(a, j)
        elif fac == 'list':
            a, b = x.num(f'f{k}a'), x.num(f'f{k}b')
            self.fac, self.f, self.fv = [a, b], x.i(2), lambda j: x.If(x.eq(j, x.i(0)), x.r(a), x.r(b))
        one = x.i(1)
        # an array of length 1 is no number: it fits only one index
        self.fits = x.Or(x.eq(self.m, self.f), x.eq(self.m, one), fac in ('one', 'num'))
        self.m1 = True if ind == 'int' else False if ind == 'list' else x.decide(x.eq(self.m, one))
        self.f1 = True if fac in ('one', 'num') else False if fac == 'list' else x.decide(x.eq(self.f, one))
        self.L = self.f if self.m1 else self.m
        self.L1 = self.m1 and self.f1
        self.length = one if as_sum else self.L

    def at(self, obs, j):
        x = self.x
        return obs.value(self.var, self.idx(x.i(0) if self.m1 else j)) * self.fv(x.i(0) if self.f1 else j)

    def value(self, obs, i):
        x = self.x
        if self.as_sum and not self.L1:
            return x.SUM(0, self.L, lambda j: self.at(obs, j))
        return self.at(obs, x.i(0) if self.L1 else i)


def fits(x, n, new):
    return x.Or(x.eq(n, x.i(1)), x.eq(new, x.i(1)), x.eq(n, new))


class Rows(Unit):
    name = 'rows'

    def configs(self, tier):
        out = []
        for ind in ('all', 'int', 'range', 'list', 'arr'):
            for fac in ('one', 'num', 'vec', 'list'):
                for s in (False, True):
                    if tier == 'quick' and fac == 'one' and ind not in ('all',):
                        continue
                    out.append(dict(kind='ineq' if (s != (ind in ('list', 'int'))) else 'eq', terms=[(ind, fac, s, 'N')], consts=['num']))
        for kind in ('eq', 'ineq'):
            for consts in ([], ['num'], ['vec'], ['num', 'vec'], ['vec', 'num'], ['vec', 'vec']):
                out.append(dict(kind=kind, terms=[('all', 'num', False, 'N')], consts=consts))
            out.append(dict(kind=kind, terms=[('all', 'num', False, '1')], consts=['vec']))
            out.append(dict(kind=kind, terms=[('all', 'num', True, 'N')], consts=['vec']))
        pairs = [('all', 'num', False, 'N'), ('all', 'vec', False, 'N'), ('int', 'num', False, 'N'), ('range', 'num', False, 'N'), ('all', 'vec', True, 'N'), ('int', 'vec', False, 'N'), ('arr', 'vec', False, 'N')]
        if tier == 'quick':
            pairs = pairs[:5]
        for i, a in enumerate(pairs):
            for j, b in enumerate(pairs):
                out.append(dict(kind='eq' if (i + j) % 2 else 'ineq', terms=[a, b], consts=['num'] if i <= j else []))
        out.append(dict(kind='eq', terms=[('all', 'num', False, 'N'), ('all', 'num', False, 'N')], consts=[], same=True))
        out.append(dict(kind='ineq', terms=[('all', 'vec', True, 'N'), ('all', 'vec', True, 'N')], consts=[], same=True))
        out.append(dict(kind='ineq', terms=[('all', 'num', False, 'N'), ('int', 'num', False, 'N'), ('all', 'vec', True, 'N')], consts=['vec']))
        return out

    def body(self, x, cfg):
        with translated(x) as mm:
            model = mm.MathModel('m')
            terms = []
            for k, (ind, fac, s, nv) in enumerate(cfg['terms']):
                terms.append(Term(x, k, ind, fac, s, nv, mm))
            if cfg.get('same'):
                terms[1] = Term(x, 1, *cfg['terms'][1][:3], cfg['terms'][1][3], mm, shared=terms[0])
                terms[1].var = terms[0].var
            eq = (mm.Equation if cfg['kind'] == 'eq' else mm.Inequation)('row')
            n = x.i(1)
            for t in terms:
                ok = x.And(t.fits, fits(x, n, t.length))
                try:
                    eq.add_summand(t.var, t.fac, t.ind, as_sum=t.as_sum)
                except REAL_ERRORS:
                    raise
                except Exception:
                    x.check('a term is only rejected if its lengths do not fit', x.Not(ok))
                    return
                x.check('a term of unfit length is rejected', ok)
                n = x.If(x.eq(n, x.i(1)), t.length, n)
            consts = []
            for k, c in enumerate(cfg['consts']):
                if c == 'num':
                    v, ln = x.num(f'c{k}'), x.i(1)
                    at = lambda i, v=v: x.r(v)
                else:
                    m = x.int(f'k{k}', 2, None if x.sym else 4)
                    if not x.decide(fits(x, n, x.i(m))):
                        m = None
                    if m is None or (k and consts[-1][1] is not None and not x.decide(x.Or(x.eq(x.i(m), consts[-1][1]), x.eq(consts[-1][1], x.i(1))))):
                        return  # rejected (next unit)
                    v, ln = x.arr(f'c{k}', m), x.i(m)
                    at = lambda i, v=v: x.at(v, i)
                eq.add_constant(v)
                consts.append((at, ln))
                n = x.If(x.eq(n, x.i(1)), ln, n)
            obj = mm.Equation('objective', is_objective=True)
            obj.add_summand(terms[0].var, 1, as_sum=True)
            vs = [terms[0].var] if cfg.get('same') else [t.var for t in terms]
            model.add(*vs, eq, obj)
            model.translate_to_modeling_language()
            pm = model.model
            obs = observer(x, pm)
            obs.begin(model)
            cons = obs.comps('con')
            if len(cons) != 1 or pm.mapping.get(eq) is not cons[0]:
                x.fail('the constraint is handed over exactly once')
                return
            con = cons[0]
            x.check('one row per index', x.eq(obs.n_rows(con), n))
            for i, res, rel in obs.rows(con):
                want = 'eq' if cfg['kind'] == 'eq' else 'le'
                if rel != want:
                    x.fail('direction of the row', rel)
                    continue
                rhs = x.r(0)
                for at, _ in consts:
                    rhs = rhs + at(i)
                lhs = x.r(0)
                for t in terms:
                    lhs = lhs + t.value(obs, i)
                x.check('row i is the stated one', x.eq(res, lhs - rhs))


class Rejected(Unit):
    """Constants of unfit length and wrong types are rejected."""

    name = 'rejected'

    def configs(self, tier):
        return [dict(first=f) for f in ('term', 'const')] + [dict(first='type')]

    def body(self, x, cfg):
        with translated(x) as mm:
            eq = mm.Equation('row')
            if cfg['first'] == 'type':
                try:
                    eq.add_summand(x.num('a'), 1)
                except TypeError:
                    return
                x.fail('something else than a variable is rejected')
                return
            n = x.int('n', 2, None if x.sym else 4)
            m = x.int('m', 2, None if x.sym else 4)
            if cfg['first'] == 'term':
                eq.add_summand(mm.Variable('v', n), 1)
            else:
                eq.add_constant(x.arr('a', n))
            try:
                eq.add_constant(x.arr('b', m))
            except REAL_ERRORS:
                raise
            except Exception:
                x.check('a constant is only rejected if its length does not fit', x.Not(x.eq(x.i(n), x.i(m))))
                return
            x.check('a constant of unfit length is rejected', x.eq(x.i(n), x.i(m)))


class ObjectiveUnit(Unit):
    name = 'objective'

    def configs(self, tier):
        ts = [('all', 'vec', True, 'N'), ('int', 'num', False, 'N'), ('all', 'num', False, '1'), ('arr', 'vec', True, 'N'), ('range', 'num', True, 'N'), ('int', 'vec', True, 'N')]
        out = [dict(terms=[t]) for t in ts]
        out += [dict(terms=[a, b]) for i, a in enumerate(ts) for b in ts[i:i + 2]]
        out.append(dict(terms=[('all', 'num', False, 'N')], vector=True))
        return out

    def body(self, x, cfg):
        with translated(x) as mm:
            model = mm.MathModel('m')
            terms = [Term(x, k, *t, mm) for k, t in enumerate(cfg['terms'])]
            obj = mm.Equation('objective', is_objective=True)
            for t in terms:
                x.assume(t.fits)
                if not cfg.get('vector'):
                    x.assume(x.eq(t.length, x.i(1)))
                obj.add_summand(t.var, t.fac, t.ind, as_sum=t.as_sum)
            model.add(*[t.var for t in terms], obj)
            try:
                model.translate_to_modeling_language()
            except REAL_ERRORS:
                raise
            except Exception:
                if not cfg.get('vector'):
                    raise
                x.check('an objective is only rejected if it has several rows', x.Not(x.eq(terms[0].length, x.i(1))))
                return
            if cfg.get('vector'):
                x.check('an objective with several rows is rejected', x.eq(terms[0].length, x.i(1)))
            obs = observer(x, model.model)
            obs.begin(model)
            if len(obs.comps('obj')) != 1 or obs.comps('con'):
                x.fail('exactly one objective and nothing else')
                return
            e, minimise = obs.objective(obs.comps('obj')[0])
            x.check('the objective is minimised', minimise)
            want = x.r(0)
            for t in terms:
                want = want + t.value(obs, x.i(0))
            x.check('the objective is the stated one', x.eq(e, want))


class Variables(Unit):
    name = 'variables'

    def configs(self, tier):
        out = []
        for ts in (False, True):
            for b in (False, True):
                out.append(dict(ts=ts, binary=b, lb=None, ub=None, fixed=None))
        for lb in (None, 'num', 'vec'):
            for ub in (None, 'num', 'vec'):
                out.append(dict(ts=True, binary=False, lb=lb, ub=ub, fixed=None))
        for f in ('num', 'vec'):
            for lb, ub in ((None, None), ('num', None), (None, 'num'), ('vec', 'num'), ('num', 'vec')):
                out.append(dict(ts=f == 'vec', binary=False, lb=lb, ub=ub, fixed=f))
        out.append(dict(ts=True, binary=True, lb=None, ub=None, fixed='vec'))
        return out

    def shape(self, x, name, kind, n):
        if kind is None:
            return None, None
        if kind == 'num':
            v = x.num(name)
            return v, lambda i: x.r(v)
        v = x.arr(name, n)
        return v, lambda i: x.at(v, i)

    def body(self, x, cfg):
        with translated(x) as mm:
            model = mm.MathModel('m')
            n = x.int('n', 2 if cfg['ts'] else 1, None if x.sym else 4)
            lb, lb_at = self.shape(x, 'lb', cfg['lb'], n)
            ub, ub_at = self.shape(x, 'ub', cfg['ub'], n)
            fx, fx_at = self.shape(x, 'fix', cfg['fixed'], n)
            cls = mm.VariableTS if cfg['ts'] else mm.Variable
            def inside(i):
                return x.And(lb_at is None or fx_at(i) >= lb_at(i), ub_at is None or fx_at(i) <= ub_at(i))
            try:
                v = cls('v', n, is_binary=cfg['binary'], lower_bound=lb, upper_bound=ub, fixed_value=fx)
            except REAL_ERRORS:
                raise
            except Exception:
                if fx is None or (lb is None and ub is None):
                    x.fail('the variable is accepted')
                    return
                if x.sym:  # rejected only if some index is outside
                    f = x.c.fresh_fn('w', z3.IntSort(), z3.BoolSort())
                    w = [t for t in x.c.index_terms]
                    x.check('a fixed value inside the limits is accepted', z3.Or([x.And(t >= 0, t < x.i(n), x.Not(inside(t))) for t in w]))
                else:
                    x.check('a fixed value inside the limits is accepted', not all(inside(i) for i in range(n)))
                return
            if fx is not None and (lb is not None or ub is not None):
                x.forall('a fixed value outside the limits is rejected', 0, n, inside)
            other = mm.Variable('v', 1)  # same label: the names must not collide
            obj = mm.Equation('objective', is_objective=True)
            obj.add_summand(other, 1)
            model.add(v, other, obj)
            model.translate_to_modeling_language()
            pm = model.model
            obs = observer(x, pm)
            obs.begin(model)
            comps = obs.comps('var')
            if len(comps) != 2 or pm.mapping[v] is pm.mapping[other] or any(pm.mapping[q] not in comps for q in (v, other)) or obs.comps('con'):
                x.fail('every variable is handed over exactly once')
                return
            comp = pm.mapping[v]
            x.check('one element per index', x.eq(obs.var_len(comp), x.i(n)))
            x.check('domain', obs.is_binary(comp) if cfg['binary'] else obs.is_real(comp))
            x.check('every element gets its limits', obs.covers(comp))
            for i, l, u, f in obs.declared(comp):
                if fx is not None:
                    if f is None:
                        x.fail('fixed value is applied')
                    else:
                        x.check('fixed value is applied', x.eq(x.r(f), fx_at(i)))
                    continue
                if f is not None:
                    x.fail('nothing else is fixed')
                for nm, got, at in (('lower', l, lb_at), ('upper', u, ub_at)):
                    if at is None:
                        if not (got is None or (cfg['binary'] and not x.sym and got in (0, 1))):
                            x.fail(f'no {nm} limit is invented', str(got))
                    elif got is None:
                        x.fail(f'{nm} limit is applied')
                    else:
                        x.check(f'{nm} limit is applied', x.eq(x.r(got), at(i)))


class Infinite(Unit):
    """Infinite limits (the solvers treat an infinite limit as none)."""

    name = 'infinite limits'
    symbolic = False
    seeds = (3, 20)

    def body(self, x, cfg):
        import numpy as np

        with translated(x) as mm:
            model = mm.MathModel('m')
            n = x.int('n', 1, 4)
            a = np.full(n, 3.0)
            k = x.int('k', 0, n - 1)
            a[k] = np.inf
            v = mm.Variable('v', n, lower_bound=-np.inf, upper_bound=a)
            obj = mm.Equation('objective', is_objective=True)
            obj.add_summand(v, 1, as_sum=True)
            model.add(v, obj)
            model.translate_to_modeling_language()
            comp = model.model.mapping[v]
            for i in range(n):
                x.check('no lower limit', comp[i].lb is None or comp[i].lb == -np.inf)
                x.check('upper limit', comp[i].ub == 3.0 if i != k else (comp[i].ub is None or comp[i].ub == np.inf))


class Whole(Unit):
    """Everything that the model building creates is handed to the solver interface exactly once (all systems of the other properties)."""

    seeds = (2, 6)

    def __init__(self, scn):
        self.scn = scn
        self.name = f'whole model: {scn.prop} {scn.name}'

    def configs(self, tier):
        cfgs = self.scn.configs('quick')
        if tier == 'quick':
            cfgs = cfgs[:: max(1, len(cfgs) // 4)]
        return cfgs

    def install(self):
        from .. import contracts

        contracts.install()

    def body(self, x, cfg):
        import flixOpt.math_modeling as mm
        from flixOpt.structure import ElementModel, SystemModel

        from .. import scenario

        made_v, made_c = [], []
        rv, rc = mm.Variable.__init__, mm._Constraint.__init__

        def iv(self, *a, **k):
            made_v.append(self)
            rv(self, *a, **k)

        def ic(self, *a, **k):
            made_c.append(self)
            rc(self, *a, **k)

        if x.sym:
            env = scenario.SymEnv(x.c, nmin=self.scn.nmin)
            x.c.env = env
        else:
            env = scenario.ConcEnv(x.r_.randint(0, 10**6))
        mm.Variable.__init__, mm._Constraint.__init__ = iv, ic
        try:
            try:
                view = self.scn.build(env, cfg)
            except REAL_ERRORS:
                raise
            except Exception:
                if x.sym:
                    raise E.Abort()
                return
        finally:
            mm.Variable.__init__, mm._Constraint.__init__ = rv, rc
        sm = view.sm
        used = [s.variable for c in made_c for s in c.summands]
        vs = sm.variables
        ids = [id(v) for v in vs]
        if len(set(ids)) != len(ids):
            x.fail('no variable is handed over twice')
        for v in made_v:
            if id(v) not in ids:
                x.fail('every variable is handed over', v.label)
        cs = list(sm.equations) + list(sm.inequations)
        cid = [id(c) for c in cs]
        if len(set(cid)) != len(cid):
            x.fail('no row is handed over twice')
        for c in made_c:
            if id(c) not in cid and c is not sm.objective:
                x.fail('every row is handed over', c.label)
        if sm.objective is None or id(sm.objective) in cid or not any(sm.objective is c for c in made_c):
            x.fail('the objective is handed over')
        if any(id(v) not in ids for v in used):
            x.fail('rows only use variables of the model')
        x.check('handed over exactly once', True)
        if not x.sym:
            pm = sm.model
            x.check('one component per part', len(list(pm.model.component_objects())) == len(vs) + len(cs) + 1)
            x.check('each part has its own component', len({id(pm.mapping[p]) for p in list(vs) + cs + [sm.objective]}) == len(vs) + len(cs) + 1)


def whole_units():
    import importlib

    out = []
    for k in range(3, 17):
        m = importlib.import_module(f'vf.props.c{k:02d}')
        for s in getattr(m, 'SCENARIOS', []):
            if not getattr(s, 'bounded_only', False):
                out.append(Whole(s))
    return out


def run(out, tier, t_end):
    run_units(out, [Variables(), Infinite(), Rejected(), ObjectiveUnit(), Rows()] + whole_units(), tier, t_end)
