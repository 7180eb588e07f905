"""A recording stand-in for pyomo.environ in symbolic mode (the contract of the pyomo components that flixOpt uses).

Var(index, domain): one unknown value per index; Constraint(index, rule): the row of every index is what the rule returns for it;
Objective(rule, sense).  Everything else of pyomo is outside the contract.
"""
import z3

from . import engine as E
from .engine import SymInt, Unsupported, V, lift


class Expr(V):
    """Affine expression in the unknowns; comparisons with it are rows."""

    __slots__ = ()

    def _bin(self, o, f):
        r = V._bin(self, o, f)
        return r if r is NotImplemented else Expr(r.n, r.fn, r.flag)

    def __radd__(self, o):
        return V.__radd__(self, o)

    def __rmul__(self, o):
        return V.__rmul__(self, o)

    def __rsub__(self, o):
        return V.__rsub__(self, o)

    def __neg__(self):
        return self * -1

    def _row(self, o, rel):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        if self.n is not None or o.n is not None:
            raise TypeError('an array is not a row')
        return RowCond(self.fn(z3.IntVal(0)) - o.fn(z3.IntVal(0)), rel)

    def __eq__(self, o):
        return self._row(o, 'eq')

    def __le__(self, o):
        return self._row(o, 'le')

    def __ge__(self, o):
        return self._row(o, 'ge')

    __hash__ = object.__hash__

    def __bool__(self):
        raise Unsupported('truth value of an expression')


class RowCond:
    def __init__(self, residual, rel):
        if rel == 'ge':
            residual, rel = -residual, 'le'
        self.residual, self.rel = residual, rel

    def __bool__(self):
        raise Unsupported('truth value of a relational expression')


class Ref(Expr):
    """One component data object: comp[i]."""

    __slots__ = ('comp', 'idx', 'lb', 'ub', 'val', 'fixed')

    def __init__(self, comp, idx):
        x = comp.x
        Expr.__init__(self, None, lambda i: x(idx))
        self.comp, self.idx = comp, idx
        self.lb = self.ub = self.val = None
        self.fixed = False

    def setlb(self, v):
        self.lb = v

    def setub(self, v):
        self.ub = v

    lower = property(lambda s: s.lb, setlb)
    upper = property(lambda s: s.ub, setub)

    @property
    def value(self):
        return self.val

    @value.setter
    def value(self, v):
        self.val = v

    def set_value(self, v, *a, **k):
        self.val = v

    def fix(self, *v, **k):
        if v:
            self.val = v[0]
        self.fixed = True

    def unfix(self):
        self.fixed = False

    __hash__ = object.__hash__


class FakeVar:
    count = 0

    def __init__(self, *index, domain=None, within=None, bounds=None, initialize=None, **kw):
        if len(index) != 1 or kw or (domain is not None and within is not None):
            raise Unsupported('pyo.Var')
        self.index = index[0]
        self.domain = domain if domain is not None else within
        if self.domain is None:
            self.domain = 'Reals'
        FakeVar.count += 1
        n = f'X{FakeVar.count}'
        if self.domain == 'Binary':  # what the solver returns is a number
            pass
        f = z3.Function(n, z3.IntSort(), z3.RealSort())
        self.x = f
        self.refs = {}
        if bounds is not None or initialize is not None:
            raise Unsupported('pyo.Var(bounds=...)')

    @property
    def n(self):
        from .shims import sym_len

        return E.zint(sym_len(self.index))

    def __getitem__(self, i):
        e = z3.simplify(E.zint(i))
        c = E.ctx()
        ix = self.index
        lo, hi = (ix.lo, ix.hi) if isinstance(ix, E.SymRange) else (z3.IntVal(ix.start), z3.IntVal(ix.stop))
        if not c.decide(z3.And(e >= lo, e < hi)):
            raise KeyError(f'Index {e} is not valid for indexed component')
        k = e.sexpr()
        if k not in self.refs:
            self.refs[k] = Ref(self, e)
        return self.refs[k]

    def get_values(self, include_fixed_values=True):
        return FakeDict(self)

    def extract_values(self):
        return FakeDict(self)


class FakeDict:
    def __init__(self, comp):
        self.comp = comp

    def values(self):
        x = self.comp.x
        return V(self.comp.n, lambda i: x(i))


class FakeConstraint:
    def __init__(self, *index, rule=None, **kw):
        if len(index) != 1 or kw or rule is None:
            raise Unsupported('pyo.Constraint')
        self.index = index[0]
        from .shims import sym_len

        self.n = z3.simplify(E.zint(sym_len(self.index)))
        self.rule = rule

    def construct(self, model):
        c = E.ctx()
        ix = self.index
        self.built = []
        if z3.is_int_value(self.n) and self.n.as_long() <= 16:
            for i in ix:
                r = self.rule(model, i)
                if not isinstance(r, RowCond):
                    raise ValueError('Constraint resolved to a trivial or invalid value')
                self.built.append((E.zint(i), r.residual, r.rel))
            return
        lo = ix.lo if isinstance(ix, E.SymRange) else z3.IntVal(ix.start)
        if not c.decide(self.n > 0):
            return
        j = c.fresh('row', 'Int')
        c.assume(z3.And(j >= lo, j < lo + self.n))
        c.add_index(j)
        r = self.rule(model, SymInt(j))
        if not isinstance(r, RowCond):
            raise ValueError('Constraint resolved to a trivial or invalid value')
        self.built.append((j, r.residual, r.rel))


class FakeObjective:
    def __init__(self, *a, rule=None, expr=None, sense='minimize', **kw):
        if a or kw:
            raise Unsupported('pyo.Objective')
        self.rule, self.expr_, self.sense = rule, expr, sense

    def construct(self, model):
        e = self.rule(model) if self.rule is not None else self.expr_
        v = lift(e)
        if v is NotImplemented or v.n is not None:
            raise ValueError('objective is not a scalar expression')
        self.e = v

    def expr(self):
        return V(None, self.e.fn)


class FakeModel:
    def __init__(self, *a, **k):
        self.__dict__['comps'] = {}

    def add_component(self, name, comp):
        if name in self.comps:
            raise RuntimeError(f'Cannot add component {name}: it exists already')
        if any(c is comp for c in self.comps.values()):
            raise RuntimeError('component is added twice')
        self.comps[name] = comp
        if hasattr(comp, 'construct'):
            comp.construct(self)

    def __setattr__(self, k, v):
        if isinstance(v, (FakeVar, FakeConstraint, FakeObjective)):
            self.add_component(k, v)
        self.__dict__[k] = v

    def add(self, *a, **k):
        raise Unsupported('model.add')


class FakePyo:
    Var, Constraint, Objective, ConcreteModel = FakeVar, FakeConstraint, FakeObjective, FakeModel
    Binary, Reals, minimize, maximize = 'Binary', 'Reals', 'minimize', 'maximize'

    def __getattr__(self, name):
        raise Unsupported('pyo.' + name)


# --------------------------------------------------------------------------------------------------------------------
# one observer for both worlds
# --------------------------------------------------------------------------------------------------------------------
class SymObs:
    def __init__(self, x, pm):
        self.x, self.pm = x, pm

    def begin(self, math_model):
        pass

    def comps(self, kind):
        cls = {'var': FakeVar, 'con': FakeConstraint, 'obj': FakeObjective}[kind]
        return [c for c in self.pm.model.comps.values() if isinstance(c, cls)]

    def value(self, variable, i=0):
        return self.pm.mapping[variable].x(self.x.i(i))

    def is_binary(self, comp):
        return comp.domain == 'Binary'

    def is_real(self, comp):
        return comp.domain == 'Reals'

    def var_len(self, comp):
        return comp.n

    def declared(self, comp):
        """For every declared element: (index, lb, ub, fixed value or None).  Symbolic: a generic element, plus the range it stands for."""
        c = E.ctx()
        out = []
        for r in comp.refs.values():
            out.append((r.idx, r.lb, r.ub, r.val if r.fixed else None))
        return out

    def covers(self, comp):
        c = E.ctx()
        idx = [r.idx for r in comp.refs.values()]
        for j, lo, hi in c.generic:
            if any(e.eq(j) for e in idx):
                return z3.And(lo <= 0, hi >= comp.n)
        n = z3.simplify(comp.n)
        if z3.is_int_value(n):
            return z3.BoolVal({e.as_long() for e in idx if z3.is_int_value(e)} == set(range(n.as_long())))
        return comp.n <= 0

    def n_rows(self, comp):
        return comp.n

    def rows(self, comp):
        """(row index, residual, relation) of a generic row."""
        return comp.built

    def objective(self, comp):
        return comp.e.fn(z3.IntVal(0)), comp.sense == 'minimize'


class ConcObs:
    def __init__(self, x, pm):
        self.x, self.pm = x, pm
        self.vals = {}

    def begin(self, math_model):
        """A random point at which the rows are evaluated."""
        from fractions import Fraction

        for v in math_model.variables:
            comp = self.pm.mapping[v]
            for i in comp:
                q = self.x.r_.randint(-64, 64) / 8
                self.vals[(id(comp), i)] = q
                self.saved = getattr(self, 'saved', {})
                self.saved[(id(comp), i)] = (comp[i].lb, comp[i].ub, comp[i].value if comp[i].fixed else None)
                comp[i].unfix()
                comp[i].set_value(q, skip_validation=True)

    def comps(self, kind):
        import pyomo.environ as pyo

        cls = {'var': pyo.Var, 'con': pyo.Constraint, 'obj': pyo.Objective}[kind]
        return list(self.pm.model.component_objects(cls))

    def value(self, variable, i=0):
        from fractions import Fraction

        return Fraction(self.vals[(id(self.pm.mapping[variable]), int(i))])

    def is_binary(self, comp):
        return all(comp[i].is_binary() for i in comp)

    def is_real(self, comp):
        import pyomo.environ as pyo

        return all(comp[i].domain is pyo.Reals for i in comp)

    def var_len(self, comp):
        return len(comp)

    def declared(self, comp):
        return [(i,) + self.saved[(id(comp), i)] for i in comp]

    def covers(self, comp):
        return True

    def n_rows(self, comp):
        return len(comp)

    def rows(self, comp):
        from fractions import Fraction

        import pyomo.environ as pyo

        out = []
        for i in comp:
            c = comp[i]
            b = pyo.value(c.body)
            if c.equality:
                out.append((i, Fraction(b) - Fraction(pyo.value(c.upper)), 'eq'))
            elif c.upper is not None and c.lower is None:
                out.append((i, Fraction(b) - Fraction(pyo.value(c.upper)), 'le'))
            elif c.lower is not None and c.upper is None:
                out.append((i, Fraction(pyo.value(c.lower)) - Fraction(b), 'le'))
            else:
                out.append((i, Fraction(b), 'other'))
        return out

    def objective(self, comp):
        from fractions import Fraction

        import pyomo.environ as pyo

        return Fraction(pyo.value(comp.expr)), comp.sense == pyo.minimize


def observer(x, pm):
    return SymObs(x, pm) if x.sym else ConcObs(x, pm)
