"""Loops over collections of unbounded size.

`for i in <symbolic range>` whose iterations are independent of each other is verified by executing its body once, for an arbitrary index
(the frame condition "an iteration writes only what belongs to its own index" is checked: by `carried` on the source of the running function
for local names, and by the recording objects for everything else).  Any other loop of symbolic length is reported as outside the engine's reach.
"""
import ast
import builtins
import inspect
import sys
import textwrap

import z3

from . import engine as E

MUTATORS = {'append', 'extend', 'insert', 'add', 'update', 'pop', 'remove', 'clear', 'setdefault', 'popitem'}
_CACHE = {}


def _for_node(frame):
    code = frame.f_code
    if code not in _CACHE:
        try:
            lines, start = inspect.getsourcelines(code)
            tree = ast.parse(textwrap.dedent(''.join(lines)))
        except (OSError, SyntaxError):
            tree, start = None, 0
        _CACHE[code] = (tree, start)
    tree, start = _CACHE[code]
    if tree is None:
        return None, None
    off = start - 1 if start > 0 else 0
    for node in ast.walk(tree):
        if isinstance(node, ast.For) and node.lineno + off <= frame.f_lineno <= node.iter.end_lineno + off:
            return node, tree
    return None, None


def carried(node, tree):
    """Reason why an iteration may depend on another one, or None."""
    targets = {n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)}
    if node.orelse:
        return 'else of a loop'
    stored = set()
    for st in node.body:
        for n in ast.walk(st):
            if isinstance(n, (ast.Break, ast.Return, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.NamedExpr)):
                return type(n).__name__
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                return f'call of .{n.func.attr}'
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                stored.add(n.id)
    for name in stored - targets:
        first = None
        for st in node.body:
            occ = [n for n in ast.walk(st) if isinstance(n, ast.Name) and n.id == name]
            if occ:
                first = st
                break
        if not (isinstance(first, ast.Assign) and len(first.targets) == 1 and isinstance(first.targets[0], ast.Name)
                and not any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(first.value))):
            return f'variable {name}'
    end = node.end_lineno
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.lineno > end and n.id in (stored | targets):
            # (re)assigned after the loop first?
            if not any(isinstance(m, ast.Name) and m.id == n.id and isinstance(m.ctx, ast.Store) and end < m.lineno <= n.lineno for m in ast.walk(tree)):
                return f'variable {n.id} used after the loop'
    return None


def step(loop):
    c = E.ctx()
    rng = loop.rng
    if loop.state == 1:
        raise StopIteration
    loop.state = 1
    if not c.decide(rng.hi > rng.lo):
        raise StopIteration
    if not c.generic_loops:
        raise E.Unsupported('loop over a range of symbolic length')
    frame = sys._getframe(1)
    while frame.f_globals.get('__name__', '').startswith('vf.') and frame.f_code.co_name != '<genexpr>':
        frame = frame.f_back
    if not (IN_SUM[0] and frame.f_code.co_name == '<genexpr>'):
        node, tree = _for_node(frame)
        if node is None:
            raise E.Unsupported('loop of symbolic length that is not a plain for statement')
        why = carried(node, tree)
        if why:
            raise E.Unsupported(f'loop of symbolic length with iterations that may depend on each other: {why}')
    j = c.fresh('j', 'Int')
    c.assume(z3.And(j >= rng.lo, j < rng.hi))
    c.add_index(j)
    c.generic.append((j, rng.lo, rng.hi))
    return loop.mk(j)


IN_SUM = [0]


def sum_generator(gen, start):
    """sum(<generator>): a generator over a symbolic range becomes a symbolic sum."""
    c = E.ctx()
    n0 = len(c.generic)
    IN_SUM[0] += 1
    try:
        try:
            first = next(gen)
        except StopIteration:
            return start
        new = c.generic[n0:]
        if not new:
            rest = list(gen)
            if len(c.generic) != n0:
                raise E.Unsupported('sum over a nested symbolic range')
            return builtins.sum(rest, start + first)
        if len(new) != 1:
            raise E.Unsupported('sum over nested symbolic ranges')
        try:
            next(gen)
            raise E.Unsupported('sum over several symbolic ranges')
        except StopIteration:
            pass
    finally:
        IN_SUM[0] -= 1
    j, lo, hi = new[0]
    v = E.lift(first)
    if v is NotImplemented or v.n is not None:
        raise E.Unsupported('sum of symbolic length over something else than numbers')
    e = v.fn(z3.IntVal(0))
    s = c.SUM(lo, hi, lambda t: z3.substitute(e, (j, t)))
    r = type(first)(None, lambda i: s) if isinstance(first, E.V) else E.V(None, lambda i: s)
    return start + r


class SymZip:
    """zip() of sequences of which at least one has symbolic length."""

    def __init__(self, args, strict):
        self.args = args
        c = E.ctx()
        from .shims import sym_len

        ns = [E.zint(sym_len(a)) for a in args]
        n = ns[0]
        for m in ns[1:]:
            if z3.simplify(n - m).eq(z3.IntVal(0)):
                continue
            if c.decide(n == m):
                continue
            if strict:
                raise ValueError('zip() arguments have different lengths')
            n = n if c.decide(n < m) else m
        self.n = z3.simplify(n)

    def __symlen__(self):
        return E.SymInt.mk(self.n)

    def _item(self, k):
        return tuple(_pick(a, k) for a in self.args)

    def __iter__(self):
        if z3.is_int_value(self.n):
            return iter([self._item(z3.IntVal(j)) for j in range(self.n.as_long())])
        return E.GenericLoop(E.SymRange(0, E.SymInt(self.n)), self._item)


class SymEnumerate:
    def __init__(self, a, start=0):
        self.a, self.start = a, start

    def __iter__(self):
        from .shims import sym_len

        n = z3.simplify(E.zint(sym_len(self.a)))
        mk = lambda k: (E.SymInt.mk(k + E.zint(self.start)), _pick(self.a, k))
        if z3.is_int_value(n):
            return iter([mk(z3.IntVal(j)) for j in range(n.as_long())])
        return E.GenericLoop(E.SymRange(0, E.SymInt(n)), mk)


def _pick(a, k):
    if isinstance(a, E.SymRange):
        return E.SymInt.mk(a.lo + k)
    if isinstance(a, E.IV):
        return E.SymInt.mk(a.fn(k))
    if isinstance(a, E.V):
        f = a.resolve().fn
        return E.V(None, lambda i: f(k), None, a.kind)
    if isinstance(a, E.NoneVec):
        return None
    if isinstance(a, SymZip):
        return a._item(k)
    import numpy as np

    if isinstance(a, (list, tuple, range, np.ndarray)):
        s = z3.simplify(k)
        if z3.is_int_value(s):
            return a[s.as_long()]
        if len(a) == 1:
            return a[0]
        v = E.lift(a)
        if v is not NotImplemented:
            return E.V(None, lambda i: v.fn(k))
    raise E.Unsupported(f'symbolic position in {type(a)}')
