"""Symbolic numpy datetime arithmetic: instants and durations as exact numbers of hours, with their dimension kept.

A raw number added to an instant or a duration counts in the (unknown, positive) unit of the array, as numpy does.
"""
import builtins
import datetime
from fractions import Fraction

import numpy as real_np
import z3

from . import engine as E
from . import shims
from .engine import SymBool, SymInt, Unsupported, V, lift

HOURS = {'Y': None, 'M': None, 'W': Fraction(168), 'D': Fraction(24), 'h': Fraction(1), 'm': Fraction(1, 60), 's': Fraction(1, 3600), 'ms': Fraction(1, 3600 * 10**3),
         'us': Fraction(1, 3600 * 10**6), 'ns': Fraction(1, 3600 * 10**9)}


def unit_hours(u):
    f = HOURS.get(u)
    if f is None:
        raise Unsupported(f'time unit {u}')
    return f


def delta_hours(o):
    """Hours of a concrete duration, else None."""
    if builtins.isinstance(o, real_np.timedelta64):
        u, k = real_np.datetime_data(o.dtype)
        return unit_hours(u) * k * int(o.astype('int64'))
    if builtins.isinstance(o, datetime.timedelta):
        return Fraction(o.days * 24) + Fraction(o.seconds, 3600) + Fraction(o.microseconds, 3600 * 10**6)
    return None


class TimeV(V):
    """dim 'time' (datetime64) or 'delta' (timedelta64); fn is in hours; `unit`: hours per raw unit (z3 Real)."""

    __slots__ = ('dim', 'unit', 'np_unit')

    def __init__(self, n, fn, dim, unit, np_unit='h'):
        super().__init__(n, fn)
        self.dim, self.unit, self.np_unit = dim, unit, np_unit

    def like(self, v, dim=None):
        return TimeV(v.n, v.fn, dim or self.dim, self.unit, self.np_unit)

    @property
    def plain(self):
        return V(self.n, self.fn)

    @property
    def dtype(self):
        return real_np.dtype(('datetime64' if self.dim == 'time' else 'timedelta64') + f'[{self.np_unit}]')

    def astype(self, t, *a, **k):
        d = real_np.dtype(t)
        if d.kind == 'M' and self.dim == 'time' or d.kind == 'm' and self.dim == 'delta':
            u = real_np.datetime_data(d)[0]
            if u in ('us', 'ns', 'ms', 'generic') or u == self.np_unit:  # assumed: instants are whole multiples of these
                return self
            raise Unsupported('truncation of instants')
        if self.dim == 'delta' and d.kind in 'fi':
            return V(self.n, (lambda f, u: lambda i: f(i) / u)(self.fn, self.unit))
        raise Unsupported(f'astype {t}')

    def __getitem__(self, k):
        return self.like(V.__getitem__(self.plain, k))

    def __iter__(self):
        raise Unsupported('iteration over instants')

    def other(self, o):
        """(V in hours, dim) of the other operand; raw numbers count in the unit."""
        if builtins.isinstance(o, TimeV):
            return o.plain, o.dim
        h = delta_hours(o)
        if h is not None:
            e = E.zreal(h)
            return V(None, lambda i: e), 'delta'
        if builtins.isinstance(o, (bool, real_np.datetime64)):
            raise Unsupported('operand')
        v = lift(o)
        if v is NotImplemented:
            raise Unsupported(f'operand {type(o)}')
        if builtins.isinstance(o, (float, real_np.floating)) or (builtins.isinstance(o, V) and o.kind != 'int'):
            raise TypeError('ufunc cannot use operands with these types')
        u = self.unit
        return v * V(None, lambda i: u), 'delta'

    def __add__(self, o):
        v, d = self.other(o)
        if self.dim == d == 'time':
            raise TypeError('datetime64 + datetime64')
        return self.like(self.plain + v, 'time' if 'time' in (self.dim, d) else 'delta')

    __radd__ = __add__

    def __sub__(self, o):
        v, d = self.other(o)
        if self.dim == 'delta' and d == 'time':
            raise TypeError('timedelta64 - datetime64')
        return self.like(self.plain - v, 'delta' if self.dim == d else 'time')

    def __rsub__(self, o):
        v, d = self.other(o)
        return self.like(v - self.plain, 'delta' if self.dim == d else 'time')

    def _scalar(self, o):
        if builtins.isinstance(o, TimeV) or delta_hours(o) is not None or self.dim == 'time':
            raise TypeError('operand types')
        return lift(o)

    def __mul__(self, o):
        return self.like(self.plain * self._scalar(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if self.dim == 'time':
            raise TypeError('datetime64 / ...')
        if builtins.isinstance(o, TimeV) or delta_hours(o) is not None:
            return self.plain / self.other(o)[0]
        return self.like(self.plain / lift(o))

    def __rtruediv__(self, o):
        h = delta_hours(o)
        if h is None or self.dim == 'time':
            raise TypeError('... / time')
        return lift(h) / self.plain

    def __neg__(self):
        return self.like(-self.plain)

    def _cmp(self, o, f):
        v, d = self.other(o)
        return V._cmp(self.plain, v, f)

    __hash__ = object.__hash__

    def sum(self, *a, **k):
        return self.like(self.plain.sum())

    def max(self):
        return self.like(E.vmax(self.plain))

    def min(self):
        return -self.like(E.vmax(-self.plain))

    def __repr__(self):
        return f'<{self.dim}>'

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


def plain(a):
    if builtins.isinstance(a, TimeV):
        return a.plain
    if builtins.isinstance(a, (list, tuple)):
        return [plain(x) for x in a]
    return a


def find(a):
    for x in a:
        if builtins.isinstance(x, TimeV):
            return x
        if builtins.isinstance(x, (list, tuple)):
            r = find(x)
            if r is not None:
                return r
    return None


class _TD(type):
    def __call__(cls, v=0, unit=None):
        if builtins.isinstance(v, (V, SymInt)):
            h = unit_hours(unit) if unit else None
            if h is None:
                raise Unsupported('timedelta64 of a symbolic number without unit')
            w = lift(v)
            r = w * lift(h)
            return TimeV(r.n, r.fn, 'delta', E.zreal(h), unit)
        return real_np.timedelta64(v, unit) if unit is not None else real_np.timedelta64(v)

    def __instancecheck__(cls, o):
        return builtins.isinstance(o, real_np.timedelta64) or (builtins.isinstance(o, TimeV) and o.dim == 'delta' and o.n is None)


class Timedelta64(metaclass=_TD):
    pass


def _int_append(a, b, **k):
    """np.append for indices."""
    def iv(x):
        if builtins.isinstance(x, E.IV):
            return x
        if builtins.isinstance(x, E.SymRange):
            lo = x.lo
            return E.IV(x.length(), lambda i: i + lo)
        if builtins.isinstance(x, (int, SymInt)) and not builtins.isinstance(x, bool):
            e = E.zint(x)
            return E.IV(1, lambda i: e)
        if builtins.isinstance(x, (list, range)) and all(builtins.isinstance(q, (int, SymInt)) for q in x):
            es = [E.zint(q) for q in x]
            return E.IV(len(es), lambda i: E.ite_chain(i, es))
        return None
    p, q = iv(a), iv(b)
    if p is None or q is None:
        return None
    n = p.n
    return E.IV(z3.simplify(n + q.n), lambda i: z3.If(i < n, p.fn(i), q.fn(i - n)))


def install(p):
    """Adds time awareness to the numpy shim (after shims.install)."""
    NP = shims.NP
    for name, dim in (('append', None), ('concatenate', None), ('diff', 'delta'), ('max', None), ('min', None), ('sum', None), ('array', None), ('asarray', None), ('amax', None), ('amin', None),
                      ('hstack', None), ('subtract', None), ('add', None), ('divide', None), ('true_divide', None), ('insert', None)):
        old = getattr(NP, name, None)

        def g(*a, _old=old, _name=name, _dim=dim, **k):
            t = find(a)
            if _name in ('subtract', 'add', 'divide', 'true_divide') and t is not None:
                x, y = a
                return x - y if _name == 'subtract' else x + y if _name == 'add' else x / y
            if t is None:
                if _name == 'append' and shims.has_sym(a):
                    r = _int_append(*a)
                    if r is not None:
                        return r
                if _name in ('array', 'asarray') and builtins.isinstance(a[0], E.SymRange):
                    lo = a[0].lo
                    return E.IV(a[0].length(), lambda i: i + lo)
                if _old is None:
                    if shims.has_sym(a):
                        raise Unsupported('np.' + _name)
                    return getattr(real_np, _name)(*a, **k)
                return _old(*a, **k)
            if _name in ('array', 'asarray'):
                return a[0] if builtins.isinstance(a[0], TimeV) else _old(*a, **k)
            if _name in ('max', 'amax'):
                return t.max()
            if _name in ('min', 'amin'):
                return t.min()
            if _name == 'sum':
                return t.sum()
            if _name == 'diff':
                return t[1:] - t[:-1]
            if _old is None:
                raise Unsupported('np.' + _name)
            return t.like(_old(*plain(list(a)), **k), _dim)

        p.set(NP, name, staticmethod(g))
    p.set(NP, 'timedelta64', Timedelta64)
    back = shims._patched_isinstance

    def inst(x, cls):
        cl = cls if builtins.isinstance(cls, tuple) else (cls,)
        if Timedelta64 in cl:
            if builtins.isinstance(x, Timedelta64):
                return True
            cl = tuple(c for c in cl if c is not Timedelta64)
            if not cl:
                return False
        if builtins.isinstance(x, TimeV):
            if x.n is None:
                return any(c in (real_np.generic, real_np.timedelta64 if x.dim == 'delta' else real_np.datetime64) or (x.dim == 'delta' and c in (real_np.number, real_np.integer, real_np.signedinteger)) for c in cl)
            return any(c is real_np.ndarray for c in cl)
        return back(x, cl)

    from .contracts import modules

    for m in modules():
        if m.__dict__.get('isinstance') is back:
            p.set(m.__dict__, 'isinstance', inst)
