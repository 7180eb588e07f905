"""Deductive engine: symbolic execution of the real CPython functions of flixOpt.

The function objects that run are the ones imported from /repo; only the *values* that flow through them are symbolic
(z3 terms, arrays of symbolic length) and the names `np`, `len`, `range`, ... in the modules' global namespace are bound
to shims that understand those values (see shims.py).  Branches on symbolic conditions fork by re-execution.
"""
import builtins
import itertools
from fractions import Fraction

import z3

REAL_ISINSTANCE = builtins.isinstance


class Unsupported(Exception):
    """The engine cannot interpret what the code does (never a verdict about the code)."""


class Abort(BaseException):
    """Stops the current path (infeasible)."""


# --------------------------------------------------------------------------------------------------------------------
# context
# --------------------------------------------------------------------------------------------------------------------
class Universal:
    """forall i1 in [lo,hi): body(i)  -- a quantified fact, instantiated by the prover at index terms."""

    def __init__(self, lo, hi, body, name=''):
        self.lo, self.hi, self.body, self.name = lo, hi, body, name


class SumTerm:
    def __init__(self, const, lo, hi, fn):
        self.const, self.lo, self.hi, self.fn = const, lo, hi, fn


def decl_names(e):
    out, seen, todo = set(), set(), [e]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(t.decl().name())
            todo += t.children()
    return frozenset(out)


NO_REALS = {}


def no_reals(e):
    k = e.get_id()
    if k not in NO_REALS:
        NO_REALS[k] = (e, not z3.is_arith(e) or e.is_int())
        if NO_REALS[k][1] and z3.is_app(e):
            NO_REALS[k] = (e, all(no_reals(c) for c in e.children()))
    return NO_REALS[k][1]


class Ctx:
    def __init__(self, prefix=(), assumptions=(), universals=(), index_terms=(), z3_timeout=2000):
        self.prefix = list(prefix)
        self.decisions = []  # list of (bool taken, bool other side feasible?)
        self.path = []
        self.assumptions = list(assumptions)
        self.universals = list(universals)
        self.index_terms = list(index_terms)
        self.sums = []
        self._sum_key = {}
        self.counter = itertools.count()
        self.family = []  # stack of generic loop iterations (symbol, lo, hi)
        self.solver = z3.Solver()
        self.solver.set('timeout', z3_timeout)
        self.solver.set('random_seed', 0)
        self._pushed = set()
        self.notes = []
        self.generic_loops = False
        self.generic = []  # generic iterations started so far: (index symbol, lo, hi)
        self.side = []  # side obligations (callee preconditions): (name, hyps snapshot, goal)

    # -- fresh names
    def fresh(self, base, sort='Real'):
        n = f'{base}!{next(self.counter)}'
        return {'Real': z3.Real, 'Int': z3.Int, 'Bool': z3.Bool}[sort](n)

    def fresh_fn(self, base, *sorts):
        return z3.Function(f'{base}!{next(self.counter)}', *sorts)

    # -- facts
    def assume(self, f):
        self.path.append(f)
        self.solver.add(f)

    def hyps(self):
        return self.assumptions + self.path

    def inst(self, terms):
        out = []
        for u in self.universals:
            for t in terms:
                out.append(z3.Implies(z3.And(t >= u.lo, t < u.hi), u.body(t)))
        return out

    def _sync(self):
        for a in self.assumptions:
            if a.get_id() not in self._pushed:
                self._pushed.add(a.get_id())
                self.solver.add(a)
        for ui, u in enumerate(self.universals):
            for t in self.index_terms:
                key = ('u', ui, t.get_id())
                if key not in self._pushed:
                    self._pushed.add(key)
                    self.solver.add(z3.Implies(z3.And(t >= u.lo, t < u.hi), u.body(t)))

    def feasible(self, f):
        self._sync()
        r = self.solver.check(f)
        if r == z3.unknown:  # facts without real numbers only
            s = z3.Solver()
            s.set('timeout', 2000)
            s.add([a for a in self.hyps() + [f] if no_reals(a)])
            r = s.check()
        return r != z3.unsat

    def decide(self, cond):
        """Branch on a z3 boolean."""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = len(self.decisions)
        if k < len(self.prefix):
            take, other, key = self.prefix[k]
            if key != decl_names(c):
                raise Unsupported('the order of branches differs between runs')
            self.decisions.append((take, other, key))
            self.assume(c if take else z3.Not(c))
            return take
        t, f = self.feasible(c), self.feasible(z3.Not(c))
        if not t and not f:
            raise Abort()
        if t != f:
            self.decisions.append((t, False, decl_names(c)))  # implied; recorded so that a replay of the prefix is deterministic
            self.assume(c if t else z3.Not(c))
            return t
        self.decisions.append((True, True, decl_names(c)))
        self.assume(c)
        return True

    def implied(self, f):
        self._sync()
        return self.solver.check(z3.Not(f)) == z3.unsat

    def add_index(self, t):
        if all(t.get_id() != x.get_id() for x in self.index_terms):
            self.index_terms.append(t)

    # -- sums
    def SUM(self, lo, hi, fn):
        """Sum over a (possibly symbolic) integer range; returns a z3 Real."""
        lo, hi = zint(lo), zint(hi)
        l, h = z3.simplify(lo), z3.simplify(hi)
        if z3.is_int_value(l) and z3.is_int_value(h) and h.as_long() - l.as_long() <= 64:
            tot = z3.RealVal(0)
            for j in range(l.as_long(), h.as_long()):
                tot = tot + fn(z3.IntVal(j))
            return tot
        j = z3.Int('j!sum')
        body = z3.simplify(fn(j), som=True, blast_distinct=True)
        return self._sum_norm(l, h, body, j, fn)

    def _sum_norm(self, lo, hi, body, j, fn):
        monos = list(body.children()) if z3.is_add(body) else [body]
        tot = None
        for m in monos:
            facs = list(m.children()) if z3.is_mul(m) else [m]
            inv, dep = [], []
            for f in facs:
                (dep if _mentions(f, j) else inv).append(f)
            if not dep:
                s = z3.ToReal(hi - lo)
            else:
                d = dep[0]
                for x in dep[1:]:
                    d = d * x
                s = self._sum_atom(lo, hi, z3.simplify(d), j)
            for f in inv:
                s = f * s
            tot = s if tot is None else tot + s
        tot = z3.simplify(tot) if tot is not None else z3.RealVal(0)
        if len(monos) > 1:  # remember the unsplit sum as well, for pointwise comparison with other sums
            key = ('whole', lo.sexpr(), hi.sexpr(), body.sexpr())
            if key not in self._sum_key:
                c = z3.Real(f'S!{next(self.counter)}')
                self._sum_key[key] = c
                self.sums.append(SumTerm(c, lo, hi, lambda t, b=body: z3.substitute(b, (j, t))))
                self.assumptions.append(c == tot)
            return self._sum_key[key]
        return tot

    def _sum_atom(self, lo, hi, d, j):
        key = ('atom', lo.sexpr(), hi.sexpr(), d.sexpr())
        if key not in self._sum_key:
            c = z3.Real(f'S!{next(self.counter)}')
            self._sum_key[key] = c
            self.sums.append(SumTerm(c, lo, hi, lambda t: z3.substitute(d, (j, t))))
            if self.generic_loops:
                self.assumptions.append(z3.And(z3.Implies(hi <= lo, c == 0), z3.Implies(hi == lo + 1, c == z3.substitute(d, (j, lo)))))
        return self._sum_key[key]


def _mentions(e, j):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(j):
            return True
        st.extend(x.children())
    return False


CTX = None


def ctx() -> Ctx:
    if CTX is None:
        raise Unsupported('no active context')
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


# --------------------------------------------------------------------------------------------------------------------
# conversions
# --------------------------------------------------------------------------------------------------------------------
def zreal(x):
    import numpy as np

    if isinstance(x, V):
        if x.n is not None:
            raise Unsupported('vector where a scalar is needed')
        return x.fn(z3.IntVal(0))
    if isinstance(x, SymInt):
        return z3.ToReal(x.e)
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, z3.ExprRef):
        return z3.ToReal(x) if x.is_int() else x
    if isinstance(x, (bool, np.bool_)):
        return z3.RealVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.RealVal(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non-finite number')
        return z3.RealVal(str(Fraction(x).limit_denominator(10**12)) if abs(x) < 1 and x != 0 and _decimal(x) else str(Fraction(x)))
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    raise Unsupported(f'not a number: {type(x)}')


def _decimal(x):
    return float(Fraction(x).limit_denominator(10**12)) == x


def zint(x):
    import numpy as np

    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, z3.ExprRef) and x.is_int():
        return x
    if isinstance(x, V) and x.n is None:
        raise Unsupported('real used as index')
    raise Unsupported(f'not an index: {type(x)}')


def is_sym(x):
    return isinstance(x, (V, BV, IV, SymInt, SymBool, SymRange, NoneVec, Block))


# --------------------------------------------------------------------------------------------------------------------
# booleans and integers
# --------------------------------------------------------------------------------------------------------------------
class SymBool:
    __slots__ = ('e',)
    __array_ufunc__ = None

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().decide(self.e)

    def _o(self, o):
        if isinstance(o, SymBool):
            return o.e
        return z3.BoolVal(bool(o))

    def __and__(self, o):
        return SymBool(z3.And(self.e, self._o(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.e, self._o(o)))

    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def _n(self):
        return V(None, lambda i: z3.If(self.e, z3.RealVal(1), z3.RealVal(0)))

    def __add__(self, o):
        return self._n() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._n() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def astype(self, t):
        return self._n()

    def any(self):
        return self

    all = any

    def item(self):
        return self

    def __repr__(self):
        return f'SymBool({self.e})'

    __hash__ = object.__hash__

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            return SymBool(self.e == self._o(o))
        return self._n() == o


class SymInt:
    __slots__ = ('e',)
    __array_ufunc__ = None

    def __init__(self, e):
        self.e = z3.simplify(e)

    @staticmethod
    def mk(e):
        e = z3.simplify(e)
        return e.as_long() if z3.is_int_value(e) else SymInt(e)

    def _bin(self, o, f, g):
        import numpy as np

        if isinstance(o, (SymInt, int, np.integer)):
            return SymInt.mk(f(self.e, zint(o)))
        if isinstance(o, (float, np.floating, V, np.ndarray)):
            return g(V(None, lambda i: z3.ToReal(self.e)), o)
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, list):
            return self.__rmul__(o)
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, list):
            if len(o) == 1 and o[0] is None:
                return NoneVec(self.e)
            if len(o) == 1:
                v = o[0]
                if isinstance(v, (SymInt, int)) and not isinstance(v, bool):
                    return IV(self.e, lambda i: zint(v))
                return V(self.e, lambda i: zreal(v))
            raise Unsupported('list repetition')
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)

    def __floordiv__(self, o):
        return self._bin(o, _floordiv, lambda a, b: _raise('floordiv'))

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: _floordiv(b, a), lambda a, b: _raise('floordiv'))

    def __mod__(self, o):
        return self._bin(o, _mod, lambda a, b: _raise('mod'))

    def __rmod__(self, o):
        return self._bin(o, lambda a, b: _mod(b, a), lambda a, b: _raise('mod'))

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        return V(None, lambda i: z3.ToReal(self.e)) / o

    def __rtruediv__(self, o):
        return o / V(None, lambda i: z3.ToReal(self.e))

    def __neg__(self):
        return SymInt.mk(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt.mk(z3.If(self.e >= 0, self.e, -self.e))

    def _cmp(self, o, f):
        import numpy as np

        if isinstance(o, (SymInt, int, np.integer)):
            return SymBool(f(self.e, zint(o)))
        if isinstance(o, (float, np.floating, V)):
            return SymBool(f(z3.ToReal(self.e), zreal(o)))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    __hash__ = object.__hash__

    def __bool__(self):
        return ctx().decide(self.e != 0)

    def __index__(self):
        e = z3.simplify(self.e)
        if z3.is_int_value(e):
            return e.as_long()
        raise Unsupported('symbolic integer used where CPython needs a concrete one')

    __int__ = __index__

    def __repr__(self):
        return f'SymInt({self.e})'

    def __format__(self, spec):
        return str(self.e)


def _raise(msg):
    raise Unsupported(msg)


def _floordiv(a, b):  # python floor division: b>0 assumed (z3 div is euclidean), checked
    c = ctx()
    if not c.decide(b > 0):
        raise Unsupported('floor division by a non-positive number')
    return a / b  # z3 Int division; b > 0 => floor


def _mod(a, b):
    c = ctx()
    if not c.decide(b > 0):
        raise Unsupported('modulo by a non-positive number')
    return a % b


# --------------------------------------------------------------------------------------------------------------------
# numeric values: scalars, vectors of symbolic length, and shape-polymorphic values
# --------------------------------------------------------------------------------------------------------------------
class V:
    """n is None: scalar.  Otherwise vector of length n (z3 Int) if `flag` is None or flag holds, else scalar."""

    __array_ufunc__ = None
    __slots__ = ('n', 'flag', 'fn', 'kind')

    def __init__(self, n, fn, flag=None, kind='float'):
        self.n = None if n is None else zint(n)
        self.flag = flag
        self.fn = fn
        self.kind = kind

    # shape helpers -------------------------------------------------------------------------------------------------
    def at(self, i):
        return self.fn(zint(i))

    def is_vec_cond(self):
        if self.n is None:
            return z3.BoolVal(False)
        return z3.BoolVal(True) if self.flag is None else self.flag

    def resolve(self):
        """Fork on the shape flag."""
        if self.n is None or self.flag is None:
            return self
        if ctx().decide(self.flag):
            return V(self.n, self.fn, None, self.kind)
        f = self.fn
        return V(None, lambda i: f(z3.IntVal(0)), None, self.kind)

    def resolved_scalar(self):
        return self.resolve().n is None

    def __len__(self):
        raise Unsupported('builtin len on a symbolic vector')

    @property
    def size(self):
        r = self.resolve()
        return 1 if r.n is None else SymInt.mk(r.n)

    @property
    def shape(self):
        r = self.resolve()
        return () if r.n is None else (SymInt.mk(r.n),)

    @property
    def ndim(self):
        return 0 if self.resolve().n is None else 1

    # arithmetic ----------------------------------------------------------------------------------------------------
    def _bin(self, o, f):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        n, flag = join_shape(self, o)
        a, b = self.fn, o.fn
        return V(n, lambda i: f(a(i), b(i)), flag)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: b * a)

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: b / a)

    def __neg__(self):
        a = self.fn
        return V(self.n, lambda i: -a(i), self.flag)

    def __pos__(self):
        return self

    def __abs__(self):
        a = self.fn
        return V(self.n, lambda i: z3.If(a(i) >= 0, a(i), -a(i)), self.flag)

    # numpy changes arrays in place (seen by everybody who holds the array), numbers not
    def _inplace(self, r):
        if r is NotImplemented or self.n is None or (self.flag is not None and not ctx().decide(self.flag)):
            return r
        if r.n is None or not ctx().decide(r.n == self.n):
            raise Unsupported('shape of an array changed in place')
        self.fn = r.fn
        return self

    def __iadd__(self, o):
        return self._inplace(self + o)

    def __isub__(self, o):
        return self._inplace(self - o)

    def __imul__(self, o):
        return self._inplace(self * o)

    def __itruediv__(self, o):
        return self._inplace(self / o)

    def __setitem__(self, k, value):
        if self.n is None or isinstance(k, (slice, tuple, V, BV)) or (self.flag is not None and not ctx().decide(self.flag)):
            raise Unsupported('assignment to part of an array')
        v = lift(value)
        if v is NotImplemented:
            raise Unsupported('assignment to an entry')
        k, old, new = zint(k), self.fn, v.fn(z3.IntVal(0))
        self.fn = lambda i: z3.If(z3.Or(i == k, i == k + self.n), new, old(i))

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return self._bin(o, _pow)

    def __rpow__(self, o):
        return self._bin(o, lambda a, b: _pow(b, a))

    # comparisons ---------------------------------------------------------------------------------------------------
    def _cmp(self, o, f):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        n, flag = join_shape(self, o)
        a, b = self.fn, o.fn
        if n is None:
            return SymBool(f(a(z3.IntVal(0)), b(z3.IntVal(0))))
        return BV(n, lambda i: f(a(i), b(i)), flag)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, dict)):
            return False
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        if o is None or isinstance(o, (str, dict)):
            return True
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    __hash__ = object.__hash__

    def __bool__(self):
        r = self.resolve()
        if r.n is not None:
            c = ctx()
            if c.decide(r.n == 1):
                return c.decide(r.fn(z3.IntVal(0)) != 0)
            raise ValueError('The truth value of an array with more than one element is ambiguous.')
        return ctx().decide(r.fn(z3.IntVal(0)) != 0)

    # indexing ------------------------------------------------------------------------------------------------------
    def __getitem__(self, k):
        r = self.resolve()
        if r.n is None:
            raise IndexError('invalid index to scalar variable.')
        a = r.fn
        if isinstance(k, slice):
            lo, hi = slice_bounds(k, r.n)
            return V(z3.simplify(hi - lo), lambda i: a(i + lo), None, r.kind)
        if isinstance(k, SymRange):
            check_index_range(k, r.n)
            lo = k.lo
            return V(k.length(), lambda i: a(i + lo), None, r.kind)
        if isinstance(k, IV):  # indices are not negative (precondition); an index past the end is an IndexError
            c = ctx()
            j = c.fresh('oob', 'Int')
            bad = z3.And(j >= 0, j < k.n, z3.Or(k.fn(j) >= r.n, k.fn(j) < -r.n))
            c.add_index(j)
            if c.decide(bad):
                raise IndexError('index out of bounds')
            c.universals.append(Universal(z3.IntVal(0), k.n, lambda i: z3.And(k.fn(i) < r.n, k.fn(i) >= -r.n), 'index in bounds'))
            n = r.n
            g = lambda i: z3.If(k.fn(i) < 0, k.fn(i) + n, k.fn(i)) if k.maybe_negative else k.fn(i)
            return V(k.n, lambda i: a(g(i)), None, r.kind)
        if isinstance(k, (list, range)) or type(k).__name__ == 'ndarray':
            idx = [norm_index(x, r.n) for x in k]
            return V(len(idx), lambda i: ite_chain(i, [a(x) for x in idx]), None, r.kind)
        i0 = norm_index(k, r.n)
        return V(None, lambda i: a(i0), None, r.kind)

    def __iter__(self):
        r = self.resolve()
        if r.n is None:
            raise TypeError('iteration over a 0-d array')
        n = z3.simplify(r.n)
        if z3.is_int_value(n):
            return iter([r[j] for j in range(n.as_long())])
        f = r.fn
        return GenericLoop(SymRange(0, SymInt(n)), lambda k: V(None, lambda i: f(k), None, r.kind))

    # numpy-ish methods ---------------------------------------------------------------------------------------------
    def sum(self, *a, **k):
        r = self.resolve()
        if r.n is None:
            return r
        s = ctx().SUM(z3.IntVal(0), r.n, r.fn)
        return V(None, lambda i: s)

    def max(self):
        return vmax(self)

    def min(self):
        return -vmax(-self)

    def is_integer(self):
        if self.n is not None:
            raise AttributeError('is_integer')
        return SymBool(z3.IsInt(z3.simplify(self.fn(z3.IntVal(0)), som=True)))

    def copy(self):
        return V(self.n, self.fn, self.flag, self.kind)

    def astype(self, t, *a, **k):
        import numpy as np

        if t is int or (isinstance(t, type) and issubclass(t, np.integer)):
            if self.kind == 'int':
                return V(self.n, self.fn, self.flag, 'int')
            f = self.fn

            def trunc(i):
                x = f(i)
                return z3.If(x >= 0, z3.ToReal(z3.ToInt(x)), -z3.ToReal(z3.ToInt(-x)))
            return V(self.n, trunc, self.flag, 'int')
        if t is bool or t is np.bool_:
            f = self.fn
            return BV(self.n, lambda i: f(i) != 0, self.flag)
        return V(self.n, self.fn, self.flag, self.kind)

    def item(self):
        return self

    def __repr__(self):
        return 'V(scalar)' if self.n is None else f'V(len={self.n})'

    def __format__(self, spec):
        return repr(self)

    def __float__(self):
        raise Unsupported('float() on a symbolic value')


_POW = z3.Function('pow', z3.RealSort(), z3.RealSort(), z3.RealSort())


def _pow(a, b):
    b1 = z3.simplify(b)
    if z3.is_rational_value(b1) and b1.denominator_as_long() == 1 and 0 <= b1.numerator_as_long() <= 4:
        r = z3.RealVal(1)
        for _ in range(b1.numerator_as_long()):
            r = r * a
        return r
    return _POW(a, b)


class BV:
    """Boolean vector (or shape-polymorphic boolean)."""

    __array_ufunc__ = None
    __slots__ = ('n', 'flag', 'fn')

    def __init__(self, n, fn, flag=None):
        self.n, self.fn, self.flag = (None if n is None else zint(n)), fn, flag

    def _len(self):
        return self.n if self.flag is None else z3.If(self.flag, self.n, z3.IntVal(1))

    def exists(self):
        c = ctx()
        n = z3.simplify(self._len())
        if z3.is_int_value(n) and n.as_long() <= 32:
            return SymBool(z3.Or([self.fn(z3.IntVal(j)) for j in range(n.as_long())]))
        b = c.fresh('any', 'Bool')
        sk = c.fresh('sk', 'Int')
        n0, f = n, self.fn
        c.assumptions.append(z3.Implies(b, z3.And(sk >= 0, sk < n0, f(sk))))
        c.add_index(sk)
        c.universals.append(Universal(z3.IntVal(0), n0, lambda t: z3.Implies(z3.Not(b), z3.Not(f(t))), 'any'))
        return SymBool(b)

    def forall(self):
        e = BV(self.n, lambda i: z3.Not(self.fn(i)), self.flag).exists()
        return SymBool(z3.Not(e.e))

    any = exists
    all = forall

    def __invert__(self):
        f = self.fn
        return BV(self.n, lambda i: z3.Not(f(i)), self.flag)

    def _bin(self, o, g):
        if isinstance(o, SymBool):
            o = BV(None, lambda i, e=o.e: e)
        if isinstance(o, bool):
            o = BV(None, lambda i, e=z3.BoolVal(o): e)
        n, flag = join_shape(self, o)
        a, b = self.fn, o.fn
        return BV(n, lambda i: g(a(i), b(i)), flag)

    def __and__(self, o):
        return self._bin(o, z3.And)

    def __or__(self, o):
        return self._bin(o, z3.Or)

    __rand__, __ror__ = __and__, __or__

    def astype(self, t):
        f = self.fn
        return V(self.n, lambda i: z3.If(f(i), z3.RealVal(1), z3.RealVal(0)), self.flag, 'int')

    def __mul__(self, o):
        return self.astype(int) * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self.astype(int) - o

    def __rsub__(self, o):
        return o - self.astype(int)

    def __getitem__(self, k):
        v = self.astype(int)[k]
        if v.n is None:
            return SymBool(v.at(0) != 0)
        return BV(v.n, lambda i: v.fn(i) != 0)

    def __bool__(self):
        if self.flag is not None and not ctx().decide(self.flag):
            return ctx().decide(self.fn(z3.IntVal(0)))
        if ctx().decide(self.n == 1):
            return ctx().decide(self.fn(z3.IntVal(0)))
        raise ValueError('The truth value of an array with more than one element is ambiguous.')


class IV:
    """Vector of integers (indices), symbolic length."""

    __array_ufunc__ = None

    maybe_negative = False

    def __init__(self, n, fn):
        self.n, self.fn = zint(n), fn

    def __symlen__(self):
        return SymInt.mk(self.n)

    @property
    def size(self):
        return SymInt.mk(self.n)

    @property
    def shape(self):
        return (SymInt.mk(self.n),)

    ndim = 1

    def at(self, i):
        return self.fn(zint(i))

    def __getitem__(self, k):
        if isinstance(k, slice):
            lo, hi = slice_bounds(k, self.n)
            f = self.fn
            return IV(z3.simplify(hi - lo), lambda i: f(i + lo))
        return SymInt.mk(self.fn(norm_index(k, self.n)))

    def __iter__(self):
        n = z3.simplify(self.n)
        if z3.is_int_value(n):
            return iter([SymInt.mk(self.fn(z3.IntVal(j))) for j in range(n.as_long())])
        f = self.fn
        return GenericLoop(SymRange(0, SymInt(n)), lambda k: SymInt.mk(f(k)))

    def _map(self, o, g):
        f = self.fn
        if isinstance(o, IV):
            if not ctx().decide(self.n == o.n):
                raise Unsupported('shape')
            h = o.fn
            return IV(self.n, lambda i: g(f(i), h(i)))
        e = zint(o)
        return IV(self.n, lambda i: g(f(i), e))

    def __add__(self, o):
        return self._map(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._map(o, lambda a, b: a - b)

    def copy(self):
        return self

    def tolist(self):
        return self


class Block:
    """A piece of symbolic length inside a list of indices (what iterating over an integer range in `list.extend` leaves behind)."""

    __array_ufunc__ = None

    def __init__(self, lo, n):
        self.lo, self.n = lo, n

    def _no(self, *a, **k):
        raise Unsupported('element of a list of symbolic length')

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __index__ = __int__ = __float__ = __mod__ = __floordiv__ = _no


class Chunks(IV):
    """Integer vector made of consecutive runs: blocks [(first value, length)]."""

    def __init__(self, blocks):
        self.blocks = [(z3.simplify(zint(a)), z3.simplify(zint(n))) for a, n in blocks]
        blocks = self.blocks
        n = z3.simplify(sum([b[1] for b in blocks], z3.IntVal(0)))

        def fn(i):
            off, offs = z3.IntVal(0), []
            for a, m in blocks:
                offs.append(off)
                off = off + m
            r = blocks[-1][0] + i - offs[-1]
            for k in range(len(blocks) - 2, -1, -1):
                r = z3.If(i < offs[k + 1], blocks[k][0] + i - offs[k], r)
            return r
        super().__init__(n, fn)

    def __iter__(self):
        return iter([Block(a, n) for a, n in self.blocks])

    def __getitem__(self, k):
        if isinstance(k, slice) and len(self.blocks) == 1:
            lo, hi = slice_bounds(k, self.n)
            return Chunks([(self.blocks[0][0] + lo, hi - lo)])
        return IV.__getitem__(self, k)

    def copy(self):
        return self

    def tolist(self):
        return list(self)


class NoneVec:
    """A vector of None of symbolic length."""

    def __init__(self, n):
        self.n = zint(n)

    def __getitem__(self, k):
        return None


def ite_chain(i, vals):
    if not vals:
        return z3.RealVal(0)
    r = vals[-1]
    for j in range(len(vals) - 2, -1, -1):
        r = z3.If(i == j, vals[j], r)
    return z3.simplify(r) if z3.is_int_value(z3.simplify(i)) else r


def lift(o):
    import numpy as np

    if isinstance(o, V):
        return o
    if isinstance(o, BV):
        return o.astype(int)
    if isinstance(o, (SymInt, SymBool)):
        e = zreal(o)
        return V(None, lambda i: e)
    if isinstance(o, (bool, int, float, np.integer, np.floating, np.bool_, Fraction)):
        e = zreal(o)
        return V(None, lambda i: e)
    if isinstance(o, np.ndarray) and o.ndim == 0:
        return lift(o.item())
    if isinstance(o, (np.ndarray, list, tuple)):
        vals = [lift(x) for x in o]
        if any(v is NotImplemented or v.n is not None for v in vals):
            return NotImplemented
        es = [v.fn(z3.IntVal(0)) for v in vals]
        return V(len(es), lambda i: ite_chain(i, es))
    return NotImplemented


def join_shape(a, b):
    if a.n is None:
        return b.n, b.flag
    if b.n is None:
        return a.n, a.flag
    n = a.n
    if not a.n.eq(b.n):
        c = ctx()
        cond = a.n == b.n
        pre = [f for f in (a.flag, b.flag) if f is not None]
        if pre:
            cond = z3.Implies(z3.And(pre), cond)
        if not c.decide(cond):
            a1, b1 = a.resolve(), b.resolve()
            if a1.n is None or b1.n is None:
                raise Unsupported('shape')
            if c.decide(a1.n == 1):
                raise Unsupported('broadcast of a length-1 vector')
            if c.decide(b1.n == 1):
                raise Unsupported('broadcast of a length-1 vector')
            raise ValueError('operands could not be broadcast together')
    if a.flag is None or b.flag is None:
        return n, None
    if a.flag.eq(b.flag):
        return n, a.flag
    return n, z3.Or(a.flag, b.flag)


def norm_index(k, n):
    """Python index -> z3 Int, with IndexError when out of range."""
    c = ctx()
    e = zint(k)
    n = zint(n)
    s = z3.simplify(e)
    if z3.is_int_value(s):
        neg = s.as_long() < 0
    else:
        neg = not c.decide(e >= 0)
    j = z3.simplify(e + n) if neg else s
    if not c.decide(z3.And(j >= 0, j < n)):
        raise IndexError('index out of range')
    return j


def slice_bounds(k, n):
    c = ctx()
    n = zint(n)
    if k.step is not None and k.step != 1:
        raise Unsupported('slice step')

    def norm(x, default):
        if x is None:
            return default
        e = z3.simplify(zint(x))
        if z3.is_int_value(e):
            neg = e.as_long() < 0
        else:
            neg = not c.decide(e >= 0)
        if neg:
            e = z3.simplify(e + n)
            if not c.decide(e >= 0):
                return z3.IntVal(0)
            return e
        if not c.decide(e <= n):
            return n
        return e

    lo, hi = norm(k.start, z3.IntVal(0)), norm(k.stop, n)
    if not c.decide(hi >= lo):
        hi = lo
    return lo, hi


def check_index_range(r, n):
    c = ctx()
    ok = z3.Or(r.hi <= r.lo, z3.And(r.lo >= 0, r.hi <= zint(n)))
    if not c.decide(ok):
        raise IndexError('index range out of bounds')


class SymRange:
    """range(lo, hi) with symbolic ends and step 1."""

    def __init__(self, lo, hi):
        self.lo, self.hi = z3.simplify(zint(lo)), z3.simplify(zint(hi))

    def length(self):
        c = ctx()
        if not c.decide(self.hi >= self.lo):
            return z3.IntVal(0)
        return z3.simplify(self.hi - self.lo)

    @property
    def start(self):
        return SymInt.mk(self.lo)

    @property
    def stop(self):
        return SymInt.mk(self.hi)

    @property
    def step(self):
        return 1

    def __getitem__(self, k):
        n = self.length()
        if isinstance(k, slice):
            lo, hi = slice_bounds(k, n)
            return SymRange(z3.simplify(self.lo + lo), z3.simplify(self.lo + hi))
        return SymInt.mk(self.lo + norm_index(k, n))

    def __iter__(self):
        l, h = self.lo, self.hi
        if z3.is_int_value(l) and z3.is_int_value(h):
            return iter(range(l.as_long(), h.as_long()))
        return GenericLoop(self)

    def __eq__(self, o):
        if isinstance(o, SymRange):
            return SymBool(z3.And(self.lo == o.lo, self.hi == o.hi))
        if isinstance(o, range):
            return SymBool(z3.And(self.lo == o.start, self.hi == o.stop))
        return False

    __hash__ = object.__hash__

    def __contains__(self, x):
        e = zint(x)
        return ctx().decide(z3.And(e >= self.lo, e < self.hi))

    def __repr__(self):
        return f'SymRange({self.lo},{self.hi})'


class GenericLoop:
    """`for i in <symbolic range>`: the body is executed once, for an arbitrary i (see loops.py for the accumulators)."""

    def __init__(self, rng, mk=None):
        self.rng = rng
        self.state = 0
        self.mk = mk or (lambda k: SymInt(k))

    def __iter__(self):
        return self

    def __next__(self):
        from . import loops

        return loops.step(self)


def vmax(v):
    v = lift(v)
    c = ctx()
    if v.n is None:
        return v
    n = z3.simplify(v.n if v.flag is None else z3.If(v.flag, v.n, z3.IntVal(1)))
    f = v.fn
    if z3.is_int_value(n) and 1 <= n.as_long() <= 16:
        r = f(z3.IntVal(0))
        for j in range(1, n.as_long()):
            x = f(z3.IntVal(j))
            r = z3.If(x > r, x, r)
        return V(None, lambda i: r)
    m = c.fresh('max')
    w = c.fresh('argmax', 'Int')
    c.assumptions.append(z3.And(w >= 0, w < n, m == f(w)))
    c.add_index(w)
    c.universals.append(Universal(z3.IntVal(0), n, lambda t: f(t) <= m, 'max'))
    return V(None, lambda i: m)


# --------------------------------------------------------------------------------------------------------------------
# exploration
# --------------------------------------------------------------------------------------------------------------------
class Path:
    def __init__(self, kind, value, c):
        self.kind, self.value, self.ctx = kind, value, c


def explore(fn, setup=None, max_paths=4000, deadline=None):
    """Runs fn(ctx) on every feasible path. fn sets up its symbols itself through ctx. Yields Path objects."""
    import time
    import traceback

    stack = [[]]
    count = 0
    while stack:
        prefix = stack.pop()
        c = Ctx(prefix)
        set_ctx(c)
        count += 1
        if count > max_paths or (deadline is not None and time.time() > deadline):
            yield Path('limit', None, c)
            return
        try:
            val = fn(c)
            p = Path('ok', val, c)
        except Abort:
            p = None
        except Unsupported as e:
            p = Path('unsupported', (str(e), traceback.format_exc()), c)
        except z3.Z3Exception as e:
            p = Path('unsupported', ('z3: ' + str(e), traceback.format_exc()), c)
        except RecursionError as e:
            p = Path('unsupported', ('recursion', ''), c)
        except Exception as e:  # an exception raised by the code under verification
            p = Path('raise', (e, traceback.format_exc()), c)
        finally:
            set_ctx(None)
        for k in range(len(prefix), len(c.decisions)):
            take, other, key = c.decisions[k]
            if other:
                stack.append(c.decisions[:k] + [(not take, False, key)])
        if p is not None:
            yield p
