"""Contracts that stand for callees when their callers are verified (symbolic mode).

Every contract in this file is itself verified against the real function in the property that owns it (see CONTRACTS).
"""
import numpy as real_np
import z3

from . import engine as E
from .engine import SymInt, SymRange, Unsupported, V, lift

CONTRACTS = {
    '_Constraint.add_summand / Summand / SumOfSummand / PyomoModel.translate_*': 'C01',
    '_Constraint.add_constant': 'C01',
    'TimeSeries / _create_time_series (active data = data at active indices, scalar iff constant)': 'C17',
    'FlowSystem.get_time_data_from_indices (dt>0, total = sum dt)': 'C17',
    'OnOffModel._previous_on_values / get_consecutive_duration': 'C07',
    'EffectCollectionModel.add_share_*': 'C16',
}


class Index:
    """Indices of a summand: j-th entry -> z3 index, with symbolic length."""

    def __init__(self, n, fn):
        self.n, self.fn = z3.simplify(E.zint(n)), fn

    @staticmethod
    def of(ind, variable):
        if ind is None:
            ind = variable.indices
        if isinstance(ind, SymRange):
            return Index(ind.length(), lambda j, lo=ind.lo: lo + j)
        if isinstance(ind, range):
            if ind.step == 1:
                return Index(len(ind), lambda j, lo=ind.start: z3.IntVal(lo) + j)
            vals = [z3.IntVal(x) for x in ind]
            return Index(len(vals), lambda j: E.ite_chain(j, vals))
        if isinstance(ind, (SymInt, int, real_np.integer)):
            e = E.zint(ind)
            return Index(1, lambda j: e)
        if isinstance(ind, (list, tuple, real_np.ndarray)):
            vals = [E.zint(x) for x in ind]
            return Index(len(vals), lambda j: E.ite_chain(j, vals))
        if isinstance(ind, E.Chunks):
            i = Index(ind.n, ind.fn)
            i.blocks = ind.blocks
            return i
        if isinstance(ind, (V, E.IV)):
            raise Unsupported('index array')
        raise TypeError(f'object of type {type(ind)} has no len()')


class CSummand:
    def __init__(self, variable, factor, index, as_sum, n, flag):
        self.variable, self.factor, self.index, self.as_sum = variable, factor, index, as_sum
        self.n, self.flag = n, flag  # shape of the summand itself (None: scalar)
        self.family = list(E.ctx().family)

    @property
    def length(self):
        return shape_len(self.n, self.flag)


def shape_len(n, flag):
    if n is None:
        return 1
    return SymInt.mk(n if flag is None else z3.If(flag, n, z3.IntVal(1)))


def _join(self, n, flag):
    """_update_length: length 1 is always possible, otherwise lengths must agree."""
    cn, cflag = getattr(self, '_cshape', (None, None))
    if n is None:
        return
    if cn is None:
        self._cshape = (n, flag)
    else:
        if not z3.simplify(cn - n).eq(z3.IntVal(0)):
            cond = cn == n
            pre = [f for f in (cflag, flag) if f is not None]
            if pre:
                cond = z3.Implies(z3.And(pre), cond)
            if not E.ctx().decide(cond):
                raise ValueError('length of the new element does not match the existing length of the Equation')
        f = None if (cflag is None or flag is None) else (cflag if cflag.eq(flag) else z3.Or(cflag, flag))
        self._cshape = (n, f)
    self.length = shape_len(*self._cshape)


def add_summand(self, variable, factor, indices_of_variable=None, as_sum=False):
    from flixOpt.math_modeling import Variable

    if not isinstance(variable, Variable):
        raise TypeError(f'no variable given ({variable})')
    f = lift(factor)
    if f is NotImplemented:
        raise TypeError(f'factor is not numeric: {type(factor)}')
    idx = Index.of(indices_of_variable, variable)
    c = E.ctx()
    # all used indices exist
    vn = E.zint(variable.length)
    for lo, m in getattr(idx, 'blocks', ()):
        if not c.decide(z3.Or(m <= 0, z3.And(lo >= 0, lo + m - 1 < vn))):
            raise IndexError('index of variable out of range')
    if not hasattr(idx, 'blocks') and not c.implied(z3.Or(idx.n == 0, z3.And(idx.fn(z3.IntVal(0)) >= 0, idx.fn(idx.n - 1) < vn))):
        if not c.decide(z3.Or(idx.n == 0, z3.And(idx.fn(z3.IntVal(0)) >= 0, idx.fn(idx.n - 1) < vn))):
            raise IndexError('index of variable out of range')
    one = z3.IntVal(1)
    if idx.n.eq(one):
        n, flag = f.n, f.flag
        if n is not None and z3.simplify(n).eq(one):
            n = flag = None
    else:
        n, flag = idx.n, None
        if f.n is not None and not z3.simplify(f.n - idx.n).eq(z3.IntVal(0)):
            cond = f.n == idx.n
            if f.flag is not None:
                cond = z3.Implies(f.flag, cond)
            if not c.decide(cond):
                raise Exception('length of factor and variable do not match')
    s = CSummand(variable, f, idx, as_sum, None if as_sum else n, None if as_sum else flag)
    if as_sum:
        s.sum_n, s.sum_flag = n, flag
    _join(self, s.n, s.flag)
    self.summands.append(s)


def add_constant(self, value):
    v = lift(value)
    if v is NotImplemented:
        raise TypeError('constant is not numeric')
    cur = lift(self.constant)
    self.constant = cur + v
    self.parts_of_constant.append(value)
    _join(self, self.constant.n, self.constant.flag)


# --- time series -----------------------------------------------------------------------------------------------------
class UserTS:
    """A user supplied time series parameter (scalar or array) in symbolic mode; `.active` is what the model must see."""


def make_ts_class():
    from flixOpt.core import TimeSeries, TimeSeriesData

    class CTimeSeries(TimeSeries):
        is_array = False  # precondition of these units: the length of the data fits (C17 verifies its rejection)

        def __init__(self, label, data, with_end=False):
            self.label = label
            self.with_end = with_end
            if isinstance(data, TimeSeriesData):
                self.aggregation_weight, self.aggregation_group = data.agg_weight, data.agg_group
                data.label = label
                data = data.data
            else:
                self.aggregation_weight, self.aggregation_group = None, None
            v = lift(data)
            if v is NotImplemented:
                raise TypeError(f'not numeric: {type(data)}')
            self.data = v
            self.active_indices = None
            self.aggregated_data = None

        @property
        def active_data(self):
            return ACTIVE.get(id(self.data), self.data)

        def clear_indices_and_aggregated_data(self):
            pass

    return CTimeSeries


ACTIVE = {}
_CTS = {}


def create_time_series(label, data, element, with_end=False, **kw):
    from flixOpt.core import TimeSeries

    if data is None:
        return None
    if isinstance(data, TimeSeries):
        data.clear_indices_and_aggregated_data()
        if not any(t is data for t in element.used_time_series):
            element.used_time_series.append(data)
        return data
    cls = _CTS.setdefault('c', make_ts_class())
    ts = cls(f'{element.label_full}__{label}', data, with_end)
    element.used_time_series.append(ts)
    return ts


class TimeAxis:
    """Result of FlowSystem.get_time_data_from_indices: only its length is used by the modelling code."""

    def __init__(self, n):
        self.n = n

    def __symlen__(self):
        return SymInt.mk(self.n)


MODULES = ['math_modeling', 'structure', 'core', 'interface', 'features', 'effects', 'elements', 'components',
           'linear_converters', 'flow_system', 'calculation', 'utils', 'aggregation']


def modules():
    import importlib

    import flixOpt  # noqa: F401

    return [importlib.import_module('flixOpt.' + m) for m in MODULES]


def install(patches=None):
    """Symbolic mode: shims + contracts of the verified callees, for this process."""
    import flixOpt.math_modeling as mm
    import flixOpt.structure as st
    from flixOpt.flow_system import FlowSystem
    from flixOpt.structure import SystemModel

    from . import shims

    mods = modules()
    p = shims.install(mods, patches)
    p.set(mm._Constraint, 'add_summand', add_summand)
    p.set(mm._Constraint, 'add_constant', add_constant)
    real_cts = st._create_time_series
    for m in mods:
        for name, val in list(m.__dict__.items()):
            if val is real_cts:
                p.set(m.__dict__, name, create_time_series)

    real_conv = st.copy_and_convert_datatypes

    def convert(data, *a, **k):  # display of symbolic values (log messages only; C20 verifies the real function)
        return repr(data) if E.is_sym(data) else real_conv(data, *a, **k)

    for m in mods:
        for name, val in list(m.__dict__.items()):
            if val is real_conv:
                p.set(m.__dict__, name, convert)

    def get_time_data_from_indices(self, time_indices=None):
        env = E.ctx().env
        if time_indices is not None:
            raise Unsupported('time indices')
        tot = env.total
        return TimeAxis(env.n), TimeAxis(z3.simplify(env.n + 1)), env.dt.user, V(None, lambda i: tot)

    p.set(FlowSystem, 'get_time_data_from_indices', get_time_data_from_indices)
    p.set(SystemModel, 'translate_to_modeling_language', _translate)
    return p


def _translate(self):
    self.duration['Translation'] = 0
