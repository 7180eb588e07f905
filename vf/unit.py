"""Unit contracts: a body that calls real functions and states conditions on what they did, for all values of its symbols.

The same body runs symbolically (values are engine values, conditions are z3 formulas discharged by the prover, for every path) and
concretely (random values, the conditions are evaluated) as a cross-check and to replay counterexamples.
"""
import random
import time
import traceback
from fractions import Fraction

import z3

from . import engine as E
from .engine import IV, BV, SymBool, SymInt, V, lift


class Skip(Exception):
    """The drawn concrete values do not meet the preconditions."""


def _z(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    return x


class SymX:
    sym = True

    def __init__(self, c, out):
        self.c, self.out = c, out
        self.vals = {}
        c.add_index(z3.IntVal(0))

    # --- values
    def int(self, name, lo=None, hi=None):
        e = z3.Int(name)
        self.vals[name] = ('int', e)
        for b, op in ((lo, '>='), (hi, '<=')):
            if b is not None:
                b = E.zint(b)
                self.c.assume(e >= b if op == '>=' else e <= b)
        self.c.add_index(e)
        return SymInt(e)

    def num(self, name, lo=None, hi=None, strict=False):
        e = z3.Real(name)
        self.vals[name] = ('num', e)
        if lo is not None:
            self.c.assume(e > E.zreal(lo) if strict else e >= E.zreal(lo))
        if hi is not None:
            self.c.assume(e <= E.zreal(hi))
        return V(None, lambda i: e)

    def arr(self, name, n, lo=None, hi=None, strict=False, binary=False):
        f = z3.Function(name, z3.IntSort(), z3.RealSort())
        n = E.zint(n)
        self.vals[name] = ('arr', f, n)
        fn = f
        if binary:
            b = z3.Function(name, z3.IntSort(), z3.BoolSort())
            self.vals[name] = ('barr', b, n)
            fn = lambda i: z3.If(b(i), z3.RealVal(1), z3.RealVal(0))
        elif lo is not None or hi is not None:
            def body(i):
                fs = []
                if lo is not None:
                    fs.append(f(i) > E.zreal(lo) if strict else f(i) >= E.zreal(lo))
                if hi is not None:
                    fs.append(f(i) <= E.zreal(hi))
                return z3.And(fs)
            self.c.universals.append(E.Universal(z3.IntVal(0), n, body, name))
        return V(n, fn)

    def iarr(self, name, n, lo=None, hi=None):
        f = z3.Function(name, z3.IntSort(), z3.IntSort())
        n = E.zint(n)
        self.vals[name] = ('iarr', f, n)

        def body(i):
            fs = []
            if lo is not None:
                fs.append(f(i) >= E.zint(lo))
            if hi is not None:
                fs.append(f(i) <= E.zint(hi))
            return z3.And(fs) if fs else z3.BoolVal(True)
        self.c.universals.append(E.Universal(z3.IntVal(0), n, body, name))
        return IV(n, f)

    def rng(self, lo, hi):
        return E.SymRange(lo, hi)

    # --- reading
    def at(self, a, i=0):
        if isinstance(a, IV):
            return a.fn(self.i(i))
        v = lift(a)
        if v is NotImplemented:
            raise E.Unsupported(f'not numeric: {type(a)}')
        return v.fn(self.i(i))

    def i(self, x):
        return E.zint(x)

    def r(self, x):
        return x if isinstance(x, z3.ExprRef) and x.is_real() else E.zreal(x)

    def length(self, a):
        """(is a vector, length)"""
        if isinstance(a, (V, BV)):
            if a.n is None:
                return z3.BoolVal(False), z3.IntVal(1)
            return (z3.BoolVal(True) if a.flag is None else a.flag), a.n
        if isinstance(a, IV):
            return z3.BoolVal(True), a.n
        if isinstance(a, E.SymRange):
            return z3.BoolVal(True), z3.If(a.hi > a.lo, a.hi - a.lo, z3.IntVal(0))
        import numpy as np
        if isinstance(a, (list, tuple, range)) or (isinstance(a, np.ndarray) and a.ndim == 1):
            return z3.BoolVal(True), z3.IntVal(len(a))
        return z3.BoolVal(False), z3.IntVal(1)

    # --- logic
    def And(self, *a):
        return z3.And([_z(x) for x in a])

    def Or(self, *a):
        return z3.Or([_z(x) for x in a])

    def Not(self, a):
        return z3.Not(_z(a))

    def Implies(self, a, b):
        return z3.Implies(_z(a), _z(b))

    def If(self, a, b, c):
        return z3.If(_z(a), b, c)

    def eq(self, a, b):
        return a == b

    def SUM(self, lo, hi, fn):
        return self.c.SUM(self.i(lo), self.i(hi), fn)

    def assume(self, cond):
        cond = _z(cond)
        self.c.assume(cond)
        if not self.c.feasible(z3.BoolVal(True)):
            raise E.Abort()

    def decide(self, cond):
        return self.c.decide(_z(cond))

    # --- obligations
    def check(self, name, cond, terms=()):
        self.out.append((name, [], _z(cond), list(self.c.hyps()), list(terms)))

    def forall(self, name, lo, hi, body, terms=()):
        t = self.c.fresh('t', 'Int')
        lo, hi = self.i(lo), self.i(hi)
        self.out.append((name, [t], z3.Implies(z3.And(t >= lo, t < hi), _z(body(t))), list(self.c.hyps()), list(terms)))

    def fail(self, name, detail=''):
        self.check(name + (': ' + detail if detail else ''), z3.BoolVal(False))


class ConcX:
    sym = False

    def __init__(self, seed, values=None):
        self.r_ = random.Random(seed)
        self.values = values or {}
        self.drawn = {}
        self.failed = []
        self.n_checks = 0

    def _v(self, name, mk):
        if name not in self.drawn:
            self.drawn[name] = self.values[name] if name in self.values else mk()
        return self.drawn[name]

    def int(self, name, lo=None, hi=None):
        lo_ = -3 if lo is None else int(lo)
        hi_ = lo_ + 5 if hi is None else int(hi)
        if hi_ < lo_:
            raise Skip()
        v = int(self._v(name, lambda: self.r_.randint(lo_, min(hi_, lo_ + 8))))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip()
        return v

    def _num(self, lo, hi, strict):
        lo_ = -4 if lo is None else float(lo)
        hi_ = lo_ + 9 if hi is None else float(hi)
        if hi_ < lo_:
            raise Skip()
        k = self.r_.randint(0 if not strict else 1, 32)
        if self.r_.random() < 0.15:
            k = 1 if strict else 0
        if self.r_.random() < 0.1:
            k = 32
        return lo_ + (hi_ - lo_) * k / 32

    def num(self, name, lo=None, hi=None, strict=False):
        return float(self._v(name, lambda: self._num(lo, hi, strict)))

    def arr(self, name, n, lo=None, hi=None, strict=False, binary=False):
        import numpy as np

        def mk():
            if binary:
                return [self.r_.randint(0, 1) for _ in range(n)]
            return [self._num(lo, hi, strict) for _ in range(n)]
        v = list(self._v(name, mk))
        if len(v) < n:
            v = v + [v[-1] if v else 0] * (n - len(v))
        return np.array([float(x) for x in v[:n]], dtype=float)

    def iarr(self, name, n, lo=None, hi=None):
        import numpy as np
        lo_ = 0 if lo is None else int(lo)
        hi_ = lo_ + 4 if hi is None else int(hi)
        if hi_ < lo_:
            raise Skip()
        v = list(self._v(name, lambda: [self.r_.randint(lo_, hi_) for _ in range(n)]))
        if len(v) < n:
            v = v + [v[-1] if v else lo_] * (n - len(v))
        return np.array([int(x) for x in v[:n]], dtype=int)

    def rng(self, lo, hi):
        return range(lo, hi)

    def at(self, a, i=0):
        import numpy as np

        if isinstance(a, (list, tuple, range)) or (isinstance(a, np.ndarray) and a.ndim == 1):
            a = a[int(i)]
        if isinstance(a, (int, np.integer)) and not isinstance(a, (bool, np.bool_)):
            return int(a)
        return Fraction(float(a))

    def i(self, x):
        return int(x)

    def r(self, x):
        return Fraction(float(x)) if not isinstance(x, Fraction) else x

    def length(self, a):
        import numpy as np

        if isinstance(a, (list, tuple, range)) or (isinstance(a, np.ndarray) and a.ndim >= 1):
            return True, len(a)
        return False, 1

    def And(self, *a):
        return all(bool(x) for x in a)

    def Or(self, *a):
        return any(bool(x) for x in a)

    def Not(self, a):
        return not a

    def Implies(self, a, b):
        return (not a) or bool(b)

    def If(self, a, b, c):
        return b if a else c

    def eq(self, a, b):
        if isinstance(a, bool) or isinstance(b, bool):
            return bool(a) == bool(b)
        return abs(float(a) - float(b)) <= 1e-7 * max(1.0, abs(float(a)), abs(float(b)))

    def SUM(self, lo, hi, fn):
        return sum((fn(j) for j in range(int(lo), int(hi))), Fraction(0))

    def assume(self, cond):
        if not cond:
            raise Skip()

    def decide(self, cond):
        return bool(cond)

    def check(self, name, cond, terms=()):
        self.n_checks += 1
        if not bool(cond):
            self.failed.append((name, ''))

    def forall(self, name, lo, hi, body, terms=()):
        for t in range(int(lo), int(hi)):
            self.n_checks += 1
            if not bool(body(t)):
                self.failed.append((name, f'at {t}'))
                return

    def fail(self, name, detail=''):
        self.failed.append((name, detail))


class Unit:
    """name, configs(tier) -> [dict], body(x, cfg)."""

    name = 'unit'
    symbolic = True
    concrete = True
    seeds = (6, 60)  # quick, thorough

    def configs(self, tier):
        return [{}]

    def install(self):
        """Symbolic mode: bind shims (own process)."""
        from . import contracts, shims

        shims.install(contracts.modules())

    def body(self, x, cfg):
        raise NotImplementedError


def verify(unit, cfg, deadline):
    """Symbolic mode: list of obligation records."""
    from . import prover
    from .scenario import cfg_json

    recs = []
    base = dict(scenario=unit.name, config=cfg_json(cfg))
    npaths = 0
    ces = []

    def go(c):
        out = []
        x = SymX(c, out)
        c.generic_loops = True
        try:
            unit.body(x, cfg)
        except (E.Unsupported, E.Abort, z3.Z3Exception):
            raise
        except Skip:
            return x, []
        return x, out

    for p in E.explore(go, deadline=deadline):
        npaths += 1
        tag = f'path {npaths}'
        if p.kind == 'limit':
            recs.append(dict(base, name='exploration', status='undecided', reason='limit of paths or time'))
            break
        if p.kind == 'unsupported':
            recs.append(dict(base, name=f'{tag}: execution', status='undecided', reason=p.value[0] + ' ' + p.value[1][-900:]))
            continue
        c = p.ctx
        E.set_ctx(c)
        try:
            if p.kind == 'raise':
                e, tb = p.value
                th = prover.Theory(c.hyps(), c.universals, c.sums, c.index_terms)
                if th.consistent() is False:
                    continue
                recs.append(dict(base, name=f'{tag}: no exception', kind='exception', status='refuted', reason=f'{type(e).__name__}: {e} ' + tb[-900:]))
                continue
            x, obls = p.value
            for name, sk, goal, hyps, terms in obls:
                if time.time() > deadline:
                    recs.append(dict(base, name=f'{tag}: {name}', status='undecided', reason='time'))
                    continue
                if z3.is_true(z3.simplify(goal, som=True)):
                    recs.append(dict(base, name=f'{tag}: {name}', kind='clause', clause=name, status='proved', backend='z3 simplifier'))
                    continue
                lean = prover.check_unsat(hyps + [z3.Not(goal)], 1500, False, prover.PUSHED)  # without the quantified facts
                if lean.status == 'proved':
                    r = lean
                else:
                    th = prover.Theory(hyps + [a for a in c.assumptions if not any(a is h for h in hyps)], c.universals, c.sums, c.index_terms)
                    r = th.prove(goal, skolems=sk, terms=terms)
                rec = dict(base, name=f'{tag}: {name}', kind='clause', clause=name, status={'proved': 'proved', 'refuted': 'refuted'}.get(r.status, 'undecided'), backend=r.backend, reason=r.reason)
                rec['quantified'] = bool(c.universals or c.sums)
                if r.status == 'refuted' and r.model is not None:
                    rec['values'] = model_values(x, r.model)
                recs.append(rec)
        finally:
            E.set_ctx(None)
    return recs


def model_values(x, m):
    out = {}

    def num(e):
        v = m.eval(e, model_completion=True)
        try:
            if z3.is_int_value(v):
                return v.as_long()
            if z3.is_rational_value(v):
                return float(v.as_fraction())
            if z3.is_true(v) or z3.is_false(v):
                return int(z3.is_true(v))
            return float(v.approx(12).as_fraction())
        except Exception:
            return 0
    for k, t in x.vals.items():
        if t[0] in ('int', 'num'):
            out[k] = num(t[1])
        else:
            n = num(t[2])
            if not 0 <= n <= 40:
                continue
            out[k] = [num(t[1](z3.IntVal(j))) for j in range(n)]
    return out


def check(unit, cfg, seed, values=None):
    from .scenario import cfg_json

    x = ConcX(seed, values)
    base = dict(scenario=unit.name, config=cfg_json(cfg), seed=seed)
    try:
        unit.body(x, cfg)
    except Skip:
        return dict(base, status='unknown', reason='preconditions not met')
    except Exception as e:
        return dict(base, status='violation', clause='no exception', detail=f'{type(e).__name__}: {e}', values=_js(x.drawn), trace=traceback.format_exc()[-1500:])
    if x.failed:
        return dict(base, status='violation', clause=x.failed[0][0], detail=str(x.failed[:4]), values=_js(x.drawn))
    return dict(base, status='ok', checks=x.n_checks)


def _js(d):
    return {k: (v if isinstance(v, (int, float, str, list)) else str(v)) for k, v in d.items()}


def run_units(out, units, tier, t_end):
    from .runner import Task, run_tasks, seed_base
    from . import prover
    from .scenario import cfg_json

    tasks, index = [], {}
    secs = 120 if tier == 'quick' else 400
    sb = seed_base() * 1000

    def symt(u, cfg):
        def go():
            from .runner import FunctionTrace

            u.install()
            with FunctionTrace() as ft:
                recs = verify(u, cfg, time.time() + secs)
            return recs, dict(prover.STATS), sorted(ft.names)
        return go

    def conct(u, cfg, seeds, values=None):
        def go():
            res = []
            end = time.time() + (30 if tier == 'quick' else 200)
            for s in seeds:
                res.append(check(u, cfg, s, values))
                if res[-1]['status'] == 'violation' or time.time() > end:
                    break
            return res
        return go

    for u in units:
        for i, cfg in enumerate(u.configs(tier)):
            index[(u.name, i)] = (u, cfg)
    for k, (u, cfg) in index.items():
        if u.symbolic:
            tasks.append(Task(('sym',) + k, symt(u, cfg), secs + 30))
    for k, (u, cfg) in index.items():
        if u.concrete:
            ns = u.seeds[0 if tier == 'quick' else 1]
            tasks.append(Task(('conc',) + k, conct(u, cfg, range(sb, sb + ns)), 60 if tier == 'quick' else 300))
    res = run_tasks(tasks, t_end)
    violated = set()
    refuted = {}
    for key, r in res.items():
        u, cfg = index[key[1:]]
        base = dict(scenario=u.name, config=cfg_json(cfg))
        if key[0] == 'conc':
            if r[0] != 'ok':
                out.bounded.append(dict(base, status='unknown', reason=r[0] + str(r[1])[-300:]))
                continue
            for rec in r[1]:
                out.bounded.append(rec)
                if rec['status'] == 'violation':
                    violated.add(key[1:])
                    out.violations.append((rec, True))
        else:
            if r[0] != 'ok':
                out.obligations.append(dict(base, name='symbolic execution', status='undecided', reason=r[0] + ' ' + str(r[1])[-600:]))
                continue
            recs, stats, names = r[1]
            out.functions |= set(names)
            for a, b in stats.items():
                out.stats[a] = out.stats.get(a, 0) + b
            out.obligations += recs
            bad = [x for x in recs if x['status'] == 'refuted']
            if bad:
                refuted[key[1:]] = bad
    todo = {k: b for k, b in refuted.items() if k not in violated}
    if todo:
        t2 = []
        for k, bad in todo.items():
            u, cfg = index[k]
            if not u.concrete:
                continue
            t2.append(Task(('more',) + k, conct(u, cfg, range(sb + 5000, sb + 5100)), 60))
            for q, b in enumerate(bad[:12]):
                if b.get('values'):
                    t2.append(Task(('rp',) + k + (q,), conct(u, cfg, [sb], b['values']), 60))
        r2 = run_tasks(t2, min(t_end + 120, time.time() + 240))
        for k, bad in todo.items():
            u, cfg = index[k]
            hit = None
            replayed_ok = set()
            for key, r in r2.items():
                if key[1:3] != k or r[0] != 'ok':
                    continue
                for rec in r[1]:
                    if rec['status'] == 'violation':
                        hit = hit or rec
                    elif key[0] == 'rp' and rec['status'] == 'ok':
                        replayed_ok.add(key[3])
            if hit:
                out.violations.append((hit, True))
                continue
            rest = []
            for q, b in enumerate(bad):
                if b.get('kind') == 'exception' or q in replayed_ok or b.get('quantified'):
                    b['status'] = 'undecided'
                    b['reason'] = ('the real code, run on the values of the counterexample, satisfies the contract; ' if q in replayed_ok else 'no confirmed counterexample; ') + str(b.get('reason'))[:200]
                else:
                    rest.append(b)
            if rest:
                out.violations.append((dict(rest[0], clause=rest[0].get('clause', rest[0]['name']), failed=[x['name'] for x in rest]), False))
