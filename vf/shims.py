"""Bindings of `np` and of builtins that understand symbolic values, installed into the globals of flixOpt's modules.

Nothing in /repo is rewritten: module-level names are looked up in the module's __dict__ before builtins, so the real
function objects run with these bindings.  On concrete arguments every shim is the original function.
"""
import builtins
import math as real_math
import types

import numpy as real_np
import z3

from . import engine as E
from .engine import BV, NoneVec, SymBool, SymInt, SymRange, Unsupported, V, is_sym, lift


def has_sym(args):
    for a in args:
        if is_sym(a) or type(a).__name__ == 'BM2':
            return True
        if isinstance(a, (list, tuple)) and has_sym(a):
            return True
    return False


def sym_isinstance(x, cls):
    if not is_sym(x):
        return builtins.isinstance(x, cls)
    classes = cls if builtins.isinstance(cls, tuple) else (cls,)
    flat = []
    for c in classes:
        if builtins.isinstance(c, types.UnionType):
            flat.extend(c.__args__)
        else:
            flat.append(c)
    if builtins.isinstance(x, (V, BV)):
        wants_arr = any(c is real_np.ndarray for c in flat)
        wants_num = any(c in (int, float, real_np.number, real_np.floating, real_np.integer) for c in flat)
        if x.n is None:
            if not wants_num:
                return False
            if x.kind == 'float' or any(c is float for c in flat):
                return True
            return True
        if wants_arr == wants_num:
            return wants_arr
        is_vec = True if x.flag is None else E.ctx().decide(x.flag)
        return wants_arr if is_vec else wants_num
    if builtins.isinstance(x, SymInt):
        return any(c in (int, real_np.integer) for c in flat)
    if builtins.isinstance(x, SymBool):
        return any(c in (bool, int, real_np.bool_) for c in flat)
    if builtins.isinstance(x, SymRange):
        return any(c is range for c in flat)
    if builtins.isinstance(x, (NoneVec, E.IV)):
        return any(c is real_np.ndarray for c in flat)
    return False


class _RangeMeta(type):
    def __instancecheck__(cls, o):
        return builtins.isinstance(o, (builtins.range, SymRange))


def sym_len(x):
    if builtins.isinstance(x, (V, BV)):
        if x.n is None:
            raise TypeError('object of type float has no len()')
        if x.flag is not None and not E.ctx().decide(x.flag):
            raise TypeError('object of type float has no len()')
        return SymInt.mk(x.n)
    if builtins.isinstance(x, SymRange):
        return SymInt.mk(x.length())
    if builtins.isinstance(x, NoneVec):
        return SymInt.mk(x.n)
    if hasattr(type(x), '__symlen__'):
        return x.__symlen__()
    if builtins.isinstance(x, (list, tuple)) and any(builtins.isinstance(a, E.Block) for a in x):
        return SymInt.mk(z3.Sum([a.n if builtins.isinstance(a, E.Block) else z3.IntVal(1) for a in x]))
    return builtins.len(x)


def sym_range(*a):
    if not any(builtins.isinstance(x, SymInt) for x in a):
        return builtins.range(*a)
    if len(a) == 1:
        return SymRange(0, a[0])
    if len(a) == 2:
        return SymRange(a[0], a[1])
    if len(a) == 3 and a[2] == 1:
        return SymRange(a[0], a[1])
    raise Unsupported('range with a step')


def sym_sum(it, start=0):
    if builtins.isinstance(it, (V, BV)):
        return start + lift(it).sum()
    if builtins.isinstance(it, types.GeneratorType) and E.CTX is not None:
        from . import loops

        return loops.sum_generator(it, start)
    return builtins.sum(it, start)


def _minmax(name):
    real = getattr(builtins, name)

    def f(*args, **kw):
        if not has_sym(args):
            return real(*args, **kw)
        if kw:
            raise Unsupported(name)
        if len(args) == 1:
            if builtins.isinstance(args[0], V):
                r = args[0].resolve()
                if r.n is None:
                    raise TypeError('not iterable')
                return r.max() if name == 'max' else r.min()
            args = list(args[0])
        r = args[0]
        for x in args[1:]:
            better = (x > r) if name == 'max' else (x < r)
            if builtins.isinstance(better, SymBool):
                if builtins.isinstance(r, (int, SymInt)) and builtins.isinstance(x, (int, SymInt)):
                    r = SymInt.mk(z3.If(better.e, E.zint(x), E.zint(r)))
                else:
                    a, b, c = E.zreal(x), E.zreal(r), better.e
                    r = V(None, lambda i, a=a, b=b, c=c: z3.If(c, a, b))
            else:
                r = x if better else r
        return r

    return f


def sym_float(x=0.0):
    if builtins.isinstance(x, V):
        r = x.resolve()
        if r.n is not None:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return r
    if builtins.isinstance(x, (SymInt, SymBool)):
        return lift(x)
    return float(x)


class _FloatMeta(type):
    def __call__(cls, *a):
        return sym_float(*a)

    def __instancecheck__(cls, o):
        return sym_isinstance(o, float)


def sym_round(x, nd=None):
    if is_sym(x):
        if builtins.isinstance(x, SymInt):
            return x
        if builtins.isinstance(x, V) and x.n is None:  # nearest (ties: any of the two)
            c, e = E.ctx(), x.fn(z3.IntVal(0))
            k = c.fresh('round', 'Int')
            s = z3.RealVal(10 ** nd) if nd else z3.RealVal(1)
            c.assumptions.append(z3.And(2 * z3.ToReal(k) <= 2 * e * s + 1, 2 * z3.ToReal(k) >= 2 * e * s - 1))
            if nd is None:
                return SymInt(k)
            return V(None, lambda i: z3.ToReal(k) / s)
        raise Unsupported('round')
    return builtins.round(x, nd) if nd is not None else builtins.round(x)


def sym_abs(x):
    return builtins.abs(x)


def sym_int(*a):
    if a and builtins.isinstance(a[0], SymInt):
        return a[0]
    if a and is_sym(a[0]):
        raise Unsupported('int()')
    return int(*a)


# --------------------------------------------------------------------------------------------------------------------
class NP:
    """Shim of the numpy namespace."""

    def __init__(self, extra=None):
        self.__dict__.update(extra or {})

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        real = getattr(real_np, name)
        if builtins.isinstance(real, type) or not callable(real):
            return real

        def guard(*a, **k):
            if has_sym(a) or has_sym(tuple(k.values())):
                raise Unsupported(f'np.{name} on symbolic values')
            return real(*a, **k)

        return guard


def _np(name):
    def deco(f):
        real = getattr(real_np, name)

        def g(*a, **k):
            if has_sym(a) or has_sym(tuple(k.values())):
                return f(*a, **k)
            return real(*a, **k)

        setattr(NP, name, staticmethod(g))
        return f

    return deco


@_np('isscalar')
def _(x):
    if builtins.isinstance(x, (V, BV)):
        if x.n is None:
            return True
        if x.flag is None:
            return False
        return SymBool(z3.Not(x.flag))
    return builtins.isinstance(x, (SymInt, SymBool))


def _bin(name, f):
    @_np(name)
    def g(a, b, **k):
        if k:
            raise Unsupported(name)
        a, b = lift(a), lift(b)
        if a is NotImplemented or b is NotImplemented:
            raise Unsupported(f'np.{name} operand')
        return f(a, b)


_bin('add', lambda a, b: a + b)
_bin('subtract', lambda a, b: a - b)
_bin('multiply', lambda a, b: a * b)
_bin('divide', lambda a, b: a / b)
_bin('true_divide', lambda a, b: a / b)
_bin('power', lambda a, b: a ** b)
_bin('maximum', lambda a, b: a._bin(b, lambda x, y: z3.If(x >= y, x, y)))
_bin('minimum', lambda a, b: a._bin(b, lambda x, y: z3.If(x <= y, x, y)))
_bin('greater', lambda a, b: a > b)
_bin('less', lambda a, b: a < b)
_bin('greater_equal', lambda a, b: a >= b)
_bin('less_equal', lambda a, b: a <= b)
_bin('equal', lambda a, b: a == b)
_bin('not_equal', lambda a, b: a != b)


@_np('negative')
def _(a):
    return -a


@_np('abs')
def _(a):
    return abs(a)


def _ints(a):
    return builtins.isinstance(a, (list, tuple)) and a and all(builtins.isinstance(x, (int, SymInt, real_np.integer)) for x in a)


@_np('max')
def _(a):
    if _ints(a):
        return BUILTINS['max'](*a)
    return E.vmax(a)


@_np('min')
def _(a):
    if _ints(a):
        return BUILTINS['min'](*a)
    return -E.vmax(-lift(a))


@_np('arange')
def _(*a, **k):
    if builtins.isinstance(a[-1], V) or k or len(a) > 2:
        raise Unsupported('np.arange')
    lo, hi = (0, a[0]) if len(a) == 1 else a
    r = SymRange(lo, hi)
    return E.Chunks([(r.lo, r.length())])


def _blocks(xs):
    out = []
    for x in xs:
        if builtins.isinstance(x, E.Block):
            out.append((x.lo, x.n))
        elif builtins.isinstance(x, E.Chunks):
            out += x.blocks
        elif builtins.isinstance(x, (int, SymInt, real_np.integer)):
            out.append((E.zint(x), z3.IntVal(1)))
        elif builtins.isinstance(x, SymRange):
            out.append((x.lo, x.length()))
        else:
            raise Unsupported('list of indices')
    return E.Chunks(out)


@_np('amax')
def _(a):
    return E.vmax(a)


@_np('sum')
def _(a, **k):
    if k:
        raise Unsupported('np.sum kwargs')
    return lift(a).sum()


@_np('any')
def _(a, **k):
    if builtins.isinstance(a, BM2):
        return a.any(**k)
    if k.get('axis', 0) == 0 and builtins.isinstance(a, (BV, V)) and not builtins.isinstance(a, M2):
        k.pop('axis', None)
    if k:
        raise Unsupported('np.any kwargs')
    if builtins.isinstance(a, BV):
        return a.exists()
    if builtins.isinstance(a, SymBool):
        return a
    return (lift(a) != 0).any()


@_np('all')
def _(a, **k):
    if builtins.isinstance(a, BM2):
        return a.all(**k)
    if k.get('axis', 0) == 0 and builtins.isinstance(a, (BV, V)) and not builtins.isinstance(a, M2):
        k.pop('axis', None)
    if k:
        raise Unsupported('np.all kwargs')
    if builtins.isinstance(a, BV):
        return a.forall()
    if builtins.isinstance(a, SymBool):
        return a
    return (lift(a) != 0).all()


@_np('logical_not')
def _(a):
    return ~a


@_np('isclose')
def _(a, b, rtol=1e-05, atol=1e-08, **k):
    if builtins.isinstance(a, M2):
        return BM2([NP.isclose(r, b, rtol, atol) for r in a.rows])
    a, b = lift(a), lift(b)
    # |a - b| <= atol + rtol*|b|   (numpy's definition on finite values)
    d, tol = abs(a - b), atol + rtol * abs(b)
    return d <= tol


@_np('asarray')
def _(a, **k):
    return _array(a)


@_np('array')
def _(a, *x, **k):
    return _array(a)


@_np('atleast_1d')
def _(a):
    a = lift(a).resolve()
    return a if a.n is not None else V(1, a.fn)


def _array(a):
    if builtins.isinstance(a, (V, BV, NoneVec, E.IV)):
        return a
    if builtins.isinstance(a, (SymInt, SymBool)):
        return lift(a)
    if builtins.isinstance(a, (list, tuple)) and any(builtins.isinstance(x, E.Block) for x in a):
        return _blocks(a)
    if builtins.isinstance(a, (list, tuple)):
        if any(builtins.isinstance(x, V) and x.n is not None for x in a):
            vs = [lift(x).resolve() for x in a]
            if all(v.n is not None for v in vs):
                n = vs[0].n
                for v in vs[1:]:
                    if not E.ctx().decide(v.n == n):
                        raise ValueError('setting an array element with a sequence (inhomogeneous shape)')
                return M2(vs)
            raise ValueError('setting an array element with a sequence (inhomogeneous shape)')
        v = lift(list(a))
        if v is NotImplemented:
            raise Unsupported('np.array')
        return v
    raise Unsupported('np.array')


class M2(V):
    """2-d array given as a concrete list of rows."""

    __slots__ = ('rows',)

    def __init__(self, rows):
        super().__init__(rows[0].n, rows[0].fn)
        self.rows = rows

    @property
    def ndim(self):
        return 2


class BM2:
    """2-d boolean array given as a concrete list of rows (BV)."""

    __array_ufunc__ = None

    def __init__(self, rows):
        self.rows = rows

    def __invert__(self):
        return BM2([~r for r in self.rows])

    def _along0(self, op):
        rows = self.rows
        return BV(rows[0].n, lambda i: op([r.fn(i) for r in rows]))

    def any(self, axis=None):
        if axis != 0:
            raise Unsupported('any over a 2-d array')
        return self._along0(z3.Or)

    def all(self, axis=None):
        if axis != 0:
            raise Unsupported('all over a 2-d array')
        return self._along0(z3.And)


@_np('ones')
def _(n, *a, **k):
    return V(E.zint(n), lambda i: z3.RealVal(1))


@_np('zeros')
def _(n, *a, **k):
    return V(E.zint(n), lambda i: z3.RealVal(0))


@_np('full')
def _(n, v, *a, **k):
    e = E.zreal(v)
    return V(E.zint(n), lambda i: e)


@_np('append')
def _(a, b, **k):
    a, b = lift(a).resolve(), lift(b).resolve()
    if a.n is None:
        a = V(1, a.fn)
    if b.n is None:
        b = V(1, b.fn)
    na = a.n
    return V(z3.simplify(na + b.n), lambda i: z3.If(i < na, a.fn(i), b.fn(i - na)))


@_np('concatenate')
def _(xs, **k):
    if any(builtins.isinstance(x, E.Chunks) for x in xs):
        return _blocks([x for x in xs if not (builtins.isinstance(x, (real_np.ndarray, list)) and len(x) == 0)])
    r = lift(xs[0])
    for x in xs[1:]:
        r = NP.append(r, x)
    return r


class WhereResult:
    """np.where(mask)[0]: indices where the mask holds (only emptiness, first and last element are interpreted)."""

    def __init__(self, mask):
        self.mask = mask
        self.n = z3.simplify(mask._len())
        self._any = None

    def any(self):
        if self._any is None:
            self._any = self.mask.exists()
        return self._any

    @property
    def size(self):
        c = E.ctx()
        if z3.is_int_value(self.n) and self.n.as_long() <= 8:
            return SymInt.mk(z3.Sum([z3.If(self.mask.fn(z3.IntVal(j)), 1, 0) for j in range(self.n.as_long())]))
        a = self.any()
        s = c.fresh('nnz', 'Int')
        c.assumptions.append(z3.And(z3.If(a.e, s >= 1, s == 0), s <= self.n))
        return SymInt(s)

    def __symlen__(self):
        return self.size

    def __getitem__(self, k):
        c = E.ctx()
        if not (k == -1 or k == 0):
            raise Unsupported('np.where element')
        if z3.is_int_value(self.n) and self.n.as_long() <= 8:
            order = list(range(self.n.as_long()))
            for j in (reversed(order) if k == -1 else order):
                if c.decide(self.mask.fn(z3.IntVal(j))):
                    return j
            raise IndexError('index out of bounds')
        if not c.decide(self.any().e):
            raise IndexError('index out of bounds')
        z = c.fresh('lastidx' if k == -1 else 'firstidx', 'Int')
        f = self.mask.fn
        c.assumptions.append(z3.And(z >= 0, z < self.n, f(z)))
        if k == -1:
            c.universals.append(E.Universal(z + 1, self.n, lambda t: z3.Not(f(t)), 'last'))
        else:
            c.universals.append(E.Universal(z3.IntVal(0), z, lambda t: z3.Not(f(t)), 'first'))
        c.add_index(z)
        return SymInt(z)


@_np('where')
def _(mask, *ab):
    if ab:
        a, b = lift(ab[0]), lift(ab[1])
        m = mask if builtins.isinstance(mask, BV) else BV(None, lambda i: mask.e)
        n, flag = E.join_shape(E.V(m.n, None, m.flag), a)
        n, flag = E.join_shape(E.V(n, None, flag), b)
        return V(n, lambda i: z3.If(m.fn(i), a.fn(i), b.fn(i)), flag)
    return (WhereResult(mask),)


@_np('flatnonzero')
def _(mask):
    return WhereResult(mask if builtins.isinstance(mask, BV) else lift(mask) != 0)


@_np('nonzero')
def _(mask):
    return (WhereResult(mask if builtins.isinstance(mask, BV) else lift(mask) != 0),)


@_np('cumsum')
def _(a):
    raise Unsupported('cumsum')


@_np('isnan')
def _(a):
    a = lift(a)
    return a._cmp(a, lambda x, y: z3.BoolVal(False))


@_np('size')
def _(a):
    return lift(a).size


@_np('fromiter')
def _(a, *x, **k):
    return lift(a).copy()


@_np('rint')
def _(a):
    v = lift(a)

    def f(i):
        x = v.fn(i)
        lo = z3.ToInt(x)
        d = x - z3.ToReal(lo)
        half = z3.RealVal('1/2')
        up = z3.Or(d > half, z3.And(d == half, lo % 2 == 1))
        return z3.ToReal(z3.If(up, lo + 1, lo))

    return V(v.n, f, v.flag, 'float')


def _symiter(a):
    return hasattr(type(a), '__symlen__') or is_sym(a)


def sym_zip(*args, strict=False):
    if any(_symiter(a) for a in args):
        from .loops import SymZip

        return SymZip(args, strict)
    return builtins.zip(*args, strict=strict)


def sym_enumerate(a, start=0):
    if _symiter(a):
        from .loops import SymEnumerate

        return SymEnumerate(a, start)
    return builtins.enumerate(a, start)


BUILTINS = {
    'len': sym_len,
    'range': sym_range,
    'isinstance': sym_isinstance,
    'sum': sym_sum,
    'max': _minmax('max'),
    'min': _minmax('min'),
    'float': type('float', (), {}),  # replaced below
    'round': sym_round,
    'zip': sym_zip,
    'enumerate': sym_enumerate,
}


class SymFloat(metaclass=_FloatMeta):
    pass


BUILTINS['float'] = SymFloat


class _RangeProxy(metaclass=_RangeMeta):
    def __new__(cls, *a):
        return sym_range(*a)


BUILTINS['range'] = _RangeProxy


def _patched_isinstance(x, cls):
    # `float`/`range` in a patched module may be our proxies
    def back(c):
        if c is SymFloat:
            return float
        if c is _RangeProxy:
            return range
        return c

    if builtins.isinstance(cls, tuple):
        cls = tuple(back(c) for c in cls)
    else:
        cls = back(cls)
    return sym_isinstance(x, cls)


BUILTINS['isinstance'] = _patched_isinstance


class Patches:
    def __init__(self):
        self.undo_list = []

    def set(self, obj, name, value):
        missing = object()
        if builtins.isinstance(obj, dict):
            old = obj.get(name, missing)
            obj[name] = value
            self.undo_list.append((obj, name, old, missing))
        else:
            old = obj.__dict__.get(name, missing)
            setattr(obj, name, value)
            self.undo_list.append((obj, name, old, missing))

    def undo(self):
        while self.undo_list:
            obj, name, old, missing = self.undo_list.pop()
            if builtins.isinstance(obj, dict):
                if old is missing:
                    obj.pop(name, None)
                else:
                    obj[name] = old
            elif old is missing:
                delattr(obj, name)
            else:
                setattr(obj, name, old)


class Math:
    """Shim of the math namespace."""

    def __getattr__(self, name):
        real = getattr(real_math, name)
        if not callable(real):
            return real

        def guard(*a, **k):
            if has_sym(a):
                raise Unsupported(f'math.{name} on symbolic values')
            return real(*a, **k)

        return guard

    @staticmethod
    def _round(x, up):
        """Least integer >= x (up), greatest integer <= x; quotients of integers by multiplication with the divisor."""
        if builtins.isinstance(x, SymInt):
            return x
        c = E.ctx()
        e = z3.simplify(lift(x).fn(z3.IntVal(0)))
        n = c.fresh('ceil' if up else 'floor', 'Int')
        if e.decl().kind() == z3.Z3_OP_DIV and all(a.decl().kind() == z3.Z3_OP_TO_REAL for a in e.children()):
            a, b = [q.arg(0) for q in e.children()]
            if not c.decide(b > 0):
                raise Unsupported('quotient with a non-positive divisor')
            c.assumptions.append(z3.And((n - 1) * b < a, a <= n * b) if up else z3.And(n * b <= a, a < (n + 1) * b))
        else:
            c.assumptions.append(z3.And(z3.ToReal(n) - 1 < e, e <= z3.ToReal(n)) if up else z3.And(z3.ToReal(n) <= e, e < z3.ToReal(n) + 1))
        return SymInt(n)

    @staticmethod
    def ceil(x):
        return Math._round(x, True) if is_sym(x) else real_math.ceil(x)

    @staticmethod
    def floor(x):
        return Math._round(x, False) if is_sym(x) else real_math.floor(x)


def install(modules, patches=None):
    p = patches or Patches()
    shim = NP()
    import zlib

    from flixOpt.elements import Flow
    p.set(Flow, '__hash__', lambda self: zlib.crc32(self.label.encode()))  # sets of flows: the same order on every path
    for m in modules:
        d = m.__dict__
        for name, f in BUILTINS.items():
            if name not in d:
                p.set(d, name, f)
        if d.get('np') is real_np:
            p.set(d, 'np', shim)
        if d.get('numpy') is real_np:
            p.set(d, 'numpy', shim)
        if d.get('math') is real_math:
            p.set(d, 'math', Math())
    return p
