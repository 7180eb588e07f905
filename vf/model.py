"""A common view of a generated optimisation model: symbolic (contracts of the math layer) and concrete (real pyomo rows)."""
import math
from fractions import Fraction

import z3

from . import engine as E
from .engine import V, lift, zint, zreal

INF = float('inf')


class Row:
    def __init__(self, label, kind, n, flag, lhs, rhs, uses, sumlabel=False):
        self.label, self.kind, self.n, self.flag, self.lhs, self.rhs = label, kind, n, flag, lhs, rhs
        self.uses = uses  # labels of variables

    @property
    def hi(self):
        if self.n is None:
            return z3.IntVal(1)
        return self.n if self.flag is None else z3.If(self.flag, self.n, z3.IntVal(1))

    def body(self, i):
        l, r = self.lhs(i), self.rhs(i)
        return l == r if self.kind == 'eq' else l <= r

    def relaxed(self, i, tol):
        l, r = self.lhs(i), self.rhs(i)
        return z3.And(l <= r + tol, l >= r - tol) if self.kind == 'eq' else l <= r + tol


class Var:
    """A decision variable: z3 value at index i, bounds."""

    def __init__(self, label, n, binary, lb, ub, fixed, fn):
        self.label, self.n, self.binary, self.lb, self.ub, self.fixed = label, n, binary, lb, ub, fixed
        self.fn = fn

    def __call__(self, i=0):
        return self.fn(zint(i))

    def bound(self, i, tol=None):
        """Conjunction of everything the variable's own declaration imposes (binary-ness is in the encoding)."""
        x = self(i)
        fs = []
        tol = z3.RealVal(0) if tol is None else tol
        if self.fixed is not None:
            f = self.fixed(i)
            if f is not None:
                return z3.And(x <= f + tol, x >= f - tol)
        if self.lb is not None:
            b = self.lb(i)
            if b is not None:
                fs.append(x >= b - tol)
        if self.ub is not None:
            b = self.ub(i)
            if b is not None:
                fs.append(x <= b + tol)
        return z3.And(fs) if fs else z3.BoolVal(True)


class View:
    def __init__(self):
        self.vars, self.rows = {}, []
        self.objective = None
        self.shares = []

    def var(self, label):
        if label not in self.vars:
            raise MissingVariable(label)
        return self.vars[label]

    def has(self, label):
        return label in self.vars

    def row_universals(self):
        return [E.Universal(z3.IntVal(0), r.hi, r.body, 'row:' + r.label) for r in self.rows]

    def bound_universals(self):
        return [E.Universal(z3.IntVal(0), v.n, v.bound, 'var:' + v.label) for v in self.vars.values()]


class MissingVariable(Exception):
    pass


def sym_of(variable):
    """z3 symbol of a Variable object."""
    s = getattr(variable, '_sym', None)
    if s is None:
        if variable.is_binary:
            b = z3.Function(variable.label, z3.IntSort(), z3.BoolSort())
            s = lambda i: z3.If(b(i), z3.RealVal(1), z3.RealVal(0))
        else:
            f = z3.Function(variable.label, z3.IntSort(), z3.RealSort())
            s = lambda i: f(i)
        variable._sym = s
    return s


def _bound_fn(b, what):
    if b is None:
        return None
    if isinstance(b, float) and math.isinf(b):
        return None
    v = lift(b)
    if v is NotImplemented:
        raise E.Unsupported(f'bound {type(b)}')
    return lambda i: v.fn(zint(i))


def sym_var(v):
    c = E.ctx()
    for b, what in ((v.lower_bound, 'lower'), (v.upper_bound, 'upper'), (v.fixed_value, 'fixed')):
        if b is None or (isinstance(b, float) and math.isinf(b)):
            continue
        w = lift(b)
        if w.n is not None:  # contract of translate_variable: vector bounds have the length of the variable
            cond = w.n == zint(v.length)
            if w.flag is not None:
                cond = z3.Implies(w.flag, cond)
            if not c.decide(cond):
                raise ValueError(f'{what} bound of "{v.label}" has the wrong length')
    return Var(
        v.label, zint(v.length), v.is_binary, _bound_fn(v.lower_bound, 'lb'), _bound_fn(v.upper_bound, 'ub'),
        _bound_fn(v.fixed_value, 'fix') if v.fixed else None, sym_of(v),
    )


def summand_value(s, i):
    x = sym_of(s.variable)
    f = s.factor
    if s.as_sum:
        n = s.sum_n
        if n is None:
            return x(s.index.fn(z3.IntVal(0))) * f.fn(z3.IntVal(0))
        one = s.index.n.eq(z3.IntVal(1))
        body = lambda j: x(s.index.fn(z3.IntVal(0) if one else j)) * f.fn(j)
        return E.ctx().SUM(z3.IntVal(0), n, body)
    if s.index.n.eq(z3.IntVal(1)):
        return x(s.index.fn(z3.IntVal(0))) * f.fn(i)
    return x(s.index.fn(i)) * f.fn(i)


def sym_row(eq):
    from flixOpt.math_modeling import Equation

    kind = 'eq' if isinstance(eq, Equation) else 'ineq'
    n, flag = getattr(eq, '_cshape', (None, None))
    summands = list(eq.summands)
    const = lift(eq.constant)

    sums = {}  # as_sum entries do not depend on the row: evaluate once

    def lhs(i):
        tot = z3.RealVal(0)
        for k, s in enumerate(summands):
            if s.as_sum:
                if k not in sums:
                    sums[k] = fam(s, lambda: summand_value(s, i))
                tot = tot + sums[k]
            else:
                tot = tot + fam(s, lambda: summand_value(s, i))
        return tot

    def fam(s, f):
        val = f()
        for sym, lo, hi in reversed(s.family):
            val = E.ctx().SUM(lo, hi, lambda t, v=val, sym=sym: z3.substitute(v, (sym, t)))
        return val

    return Row(eq.label, kind, n, flag, lhs, lambda i: const.fn(i), [s.variable.label for s in summands])


def sym_view(variables, constraints):
    w = View()
    for v in variables:
        w.vars[v.label] = sym_var(v)
    for eq in constraints:
        w.rows.append(sym_row(eq))
    w.context = E.ctx()
    return w


# --------------------------------------------------------------------------------------------------------------------
# concrete view: rows as they are handed to the solver
# --------------------------------------------------------------------------------------------------------------------
def frac(x):
    return Fraction(float(x)) if not isinstance(x, Fraction) else x


def pyomo_view(math_model):
    """View of the real pyomo model built by MathModel.translate_to_modeling_language()."""
    import pyomo.environ as pyo
    from pyomo.repn import generate_standard_repn

    pm = math_model.model
    w = View()
    byid = {}
    for v in math_model.variables:
        comp = pm.mapping[v]
        keys = list(comp.keys())
        xs = {}
        for k in keys:
            x = z3.Real(f'{v.label}[{k}]')
            byid[id(comp[k])] = x
            xs[k] = (x, comp[k])
        binary = bool(v.is_binary)
        pyv = {k: d for k, (x, d) in xs.items()}

        def fn(i, xs=xs):
            s = z3.simplify(i)
            return xs[s.as_long()][0]

        def lb(i, pyv=pyv):
            b = pyv[z3.simplify(zint(i)).as_long()].lb
            return None if b is None or math.isinf(b) else zreal(Fraction(b))

        def ub(i, pyv=pyv):
            b = pyv[z3.simplify(zint(i)).as_long()].ub
            return None if b is None or math.isinf(b) else zreal(Fraction(b))

        def fixed(i, pyv=pyv):
            d = pyv[z3.simplify(zint(i)).as_long()]
            return zreal(Fraction(d.value)) if d.fixed else None

        var = Var(v.label, z3.IntVal(len(keys)), binary, lb, ub, fixed, fn)
        var.pyomo = pyv
        var.domain_binary = all(d.is_binary() for d in pyv.values())
        w.vars[v.label] = var
    names = {}
    for part, comp in pm.mapping.items():
        names[id(comp)] = getattr(part, 'label', str(part))
    for con in pm.model.component_data_objects(pyo.Constraint, active=True):
        repn = generate_standard_repn(con.body, compute_values=True)
        label = names.get(id(con.parent_component()), con.name) + f'[{con.index()}]'
        e = zreal(Fraction(repn.constant))
        for coef, var in zip(repn.linear_coefs, repn.linear_vars):
            e = e + zreal(Fraction(coef)) * byid[id(var)]
        # fixed variables are folded into the constant by pyomo: keep their value
        if not repn.is_linear():
            raise E.Unsupported('nonlinear row')
        uses = [str(byid[id(v)]) for v in repn.linear_vars]
        lo, up = con.lower, con.upper
        lo = None if lo is None else zreal(Fraction(float(pyo.value(lo))))
        up = None if up is None else zreal(Fraction(float(pyo.value(up))))
        if con.equality:
            w.rows.append(Row(label, 'eq', None, None, lambda i, e=e: e, lambda i, u=up: u, uses))
        else:
            if up is not None:
                w.rows.append(Row(label, 'ineq', None, None, lambda i, e=e: e, lambda i, u=up: u, uses))
            if lo is not None:
                w.rows.append(Row(label, 'ineq', None, None, lambda i, l=lo: l, lambda i, e=e: e, uses))
    objs = list(pm.model.component_data_objects(pyo.Objective, active=True))
    if len(objs) == 1:
        repn = generate_standard_repn(objs[0].expr, compute_values=True)
        e = zreal(Fraction(repn.constant))
        for coef, var in zip(repn.linear_coefs, repn.linear_vars):
            e = e + zreal(Fraction(coef)) * byid[id(var)]
        w.objective = e
        w.objective_minimise = objs[0].sense == pyo.minimize
    w.byid = byid
    return w
