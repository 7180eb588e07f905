"""Discharging obligations with z3 (and cvc5 as second back end)."""
import time

import z3

from .engine import SumTerm, Universal

PUSHED = {}  # term id -> (term kept alive, rewritten term)
STATS = {'queries': 0, 'time': 0.0, 'z3': 0, 'cvc5': 0, 'unknown': 0}


# --- rewriting: products with an if-then-else of numerals are distributed (keeps big-M terms linear) ------------------
def push_ite(e, cache):
    k = e.get_id()
    if k in cache:
        return cache[k][1]
    if not z3.is_app(e) or e.num_args() == 0:
        r = e
    else:
        ch = [push_ite(c, cache) for c in e.children()]
        if z3.is_mul(e):
            r = _mul(ch)
        else:
            r = _rebuild(e, ch)
    cache[k] = (e, r)
    return r


def _rebuild(e, ch):
    if all(a.eq(b) for a, b in zip(e.children(), ch)):
        return e
    if z3.is_and(e):
        return z3.And(ch)
    if z3.is_or(e):
        return z3.Or(ch)
    if z3.is_add(e):
        r = ch[0]
        for c in ch[1:]:
            r = r + c
        return r
    return e.decl()(*ch)


def _is_num(x):
    return z3.is_rational_value(x) or z3.is_int_value(x)


def _mul(ch):
    ites = [c for c in ch if z3.is_app_of(c, z3.Z3_OP_ITE) and (_is_num(c.arg(1)) or _is_num(c.arg(2)))]
    if not ites:
        r = ch[0]
        for c in ch[1:]:
            r = r * c
        return r
    t = ites[0]
    rest = []
    used = False
    for c in ch:
        if not used and c.eq(t):
            used = True
            continue
        rest.append(c)
    def times(x):
        if _is_num(x) and x.as_fraction() == 0:
            return z3.RealVal(0)
        if not rest:
            return x
        if _is_num(x) and x.as_fraction() == 1:
            return _mul(rest) if len(rest) > 1 else rest[0]
        return _mul([x] + rest)
    return z3.If(t.arg(0), times(t.arg(1)), times(t.arg(2)))


class Result:
    def __init__(self, status, model=None, reason='', backend='z3'):
        self.status, self.model, self.reason, self.backend = status, model, reason, backend

    def __repr__(self):
        return f'Result({self.status})'


def check_unsat(fs, timeout=10000, cvc5_fallback=True, cache=None):
    """unsat -> 'proved'; sat -> 'refuted' (with model); else 'unknown'."""
    t0 = time.time()
    cache = {} if cache is None else cache
    fs = [push_ite(f, cache) for f in fs]
    STATS['queries'] += 1
    res = None
    for tac, frac in ((None, 0.4), ('split', 0.6)):
        s = z3.Solver() if tac is None else z3.Then('simplify', 'purify-arith', 'solve-eqs', 'smt').solver()
        s.set('timeout', max(200, int(timeout * frac)))
        s.add(*fs)
        r = s.check()
        if r == z3.unsat:
            STATS['z3'] += 1
            STATS['time'] += time.time() - t0
            return Result('proved')
        if r == z3.sat:
            STATS['time'] += time.time() - t0
            return Result('refuted', s.model())
        res = s.reason_unknown()
    if cvc5_fallback:
        r = _cvc5(fs, timeout)
        if r == 'unsat':
            STATS['cvc5'] += 1
            STATS['time'] += time.time() - t0
            return Result('proved', backend='cvc5')
    STATS['unknown'] += 1
    STATS['time'] += time.time() - t0
    return Result('unknown', reason=str(res))


def _cvc5(fs, timeout):
    try:
        import cvc5

        s = z3.Solver()
        s.add(*fs)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption('tlimit-per', str(int(timeout)))
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
        sm = p.getSymbolManager()
        out = ''
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            out += c.invoke(slv, sm)
        return 'unsat' if 'unsat' in out else ('sat' if 'sat' in out else 'unknown')
    except Exception:
        return 'unknown'


class Theory:
    """Hypotheses shared by a group of obligations: closed facts, quantified facts, sums."""

    def __init__(self, facts=(), universals=(), sums=(), terms=(), neigh=(0, -1, 1), timeout=8000):
        self.facts, self.universals, self.sums = list(facts), list(universals), sums
        self.terms = list(terms)
        self.neigh = neigh
        self.timeout = timeout
        self._sum_lemmas = {}
        self.cache = PUSHED

    def inst(self, terms):
        out = []
        for u in self.universals:
            memo = u.__dict__.setdefault('_inst', {})
            for t in terms:
                k = t.get_id()
                if k not in memo:
                    memo[k] = (t, z3.Implies(z3.And(t >= u.lo, t < u.hi), u.body(t)))
                out.append(memo[k][1])
        return out

    def _terms(self, extra):
        seen, out = set(), []
        for t in list(self.terms) + [z3.simplify(x + d) for x in extra for d in self.neigh]:
            t = z3.simplify(t)
            if t.get_id() not in seen:
                seen.add(t.get_id())
                out.append(t)
        return out

    def sum_facts(self, rels=('eq', 'le')):
        """Pointwise comparison of all pairs of registered sums over the same range."""
        facts = []
        sums = list(self.sums)
        for a in range(len(sums)):
            for b in range(a):
                s1, s2 = sums[a], sums[b]
                key = (a, b)
                if key not in self._sum_lemmas:
                    self._sum_lemmas[key] = self._compare(s1, s2)
                facts += self._sum_lemmas[key]
        for a in range(len(sums)):
            key = ('nn', a)
            if key not in self._sum_lemmas:
                self._sum_lemmas[key] = self._nonneg(sums[a])
            facts += self._sum_lemmas[key]
        return facts

    def _nonneg(self, s):
        j = z3.Int('jn!')
        base = self.facts + self.inst(self._terms([j])) + [j >= s.lo, j < s.hi]
        r = check_unsat(base + [z3.Not(s.fn(j) >= 0)], 1500, False, self.cache)
        return [s.const >= 0] if r.status == 'proved' else []

    def _compare(self, s1, s2):
        if not (z3.simplify(s1.lo - s2.lo).eq(z3.IntVal(0)) and z3.simplify(s1.hi - s2.hi).eq(z3.IntVal(0))):
            return []
        j = z3.Int('js!')
        base = self.facts + self.inst(self._terms([j])) + [j >= s1.lo, j < s1.hi]
        a, b = s1.fn(j), s2.fn(j)
        if check_unsat(base + [a != b], 2000, False, self.cache).status == 'proved':
            return [s1.const == s2.const]
        if check_unsat(base + [z3.Not(a <= b)], 1500, False, self.cache).status == 'proved':
            return [s1.const <= s2.const]
        if check_unsat(base + [z3.Not(a >= b)], 1500, False, self.cache).status == 'proved':
            return [s1.const >= s2.const]
        return []

    def prove(self, goal, skolems=(), extra=(), terms=(), timeout=None):
        """goal: closed formula (skolem constants allowed, their ranges in `extra`)."""
        timeout = timeout or self.timeout
        tt = self._terms(list(skolems)) + list(terms)
        base = self.facts + list(extra) + self.inst(tt)
        r = check_unsat(base + [z3.Not(goal)], timeout if not self.sums else min(timeout, 3000), not self.sums, self.cache)
        if r.status == 'proved' or not self.sums:
            return r
        lem = self.sum_facts()
        if not lem:
            return r if r.status == 'refuted' else check_unsat(base + [z3.Not(goal)], timeout, True, self.cache)
        return check_unsat(base + lem + [z3.Not(goal)], timeout, True, self.cache)

    def prove_forall(self, lo, hi, body, timeout=None, name='t'):
        t = z3.Int(f'{name}!sk')
        return self.prove(body(t), skolems=[t], extra=[t >= lo, t < hi], timeout=timeout)

    def consistent(self, timeout=5000, terms=()):
        s = z3.Solver()
        s.set('timeout', timeout)
        for f in self.facts + self.inst(self._terms(list(terms))):
            s.add(push_ite(f, self.cache))
        return s.check()
