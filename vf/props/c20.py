"""C20: saved results can be loaded and are the same."""
import builtins
import contextlib
import datetime as real_dt
import importlib
import json as real_json
import os
import shutil
import tempfile

import z3

from .. import engine as E
from .. import shims
from ..engine import V
from ..unit import Unit, run_units
from .c01 import REAL_ERRORS

LEVEL = 'proof'
TRUSTED = [
    'json.load(json.dump(x)) is x for dicts with str keys, lists, str, int, float, bool, None (keys that are not str become their JSON text; Python writes floats so that they are read back exactly)',
    'datetime.fromisoformat(d.isoformat()) is the instant of d, also for whole dates; numpy: tolist() of datetime64 gives dates (unit D) or datetimes (h to us)',
    'yaml.dump / yaml.safe_load of the descriptions (not results)',
]
EXPLANATION = (
    'Result values, lengths and time axes are symbolic. The real functions save (Calculation._save_solve_infos, results, FlowSystem/Component/Flow.infos, copy_and_convert_datatypes) and load '
    '(CalculationResults, convert_numeric_lists_to_arrays, ComponentResults, FlowResults, BusResults, to_dataframe) run on them for the systems of the other properties; files are objects in memory. '
    'List comprehensions over lists of symbolic length are executed once, for an arbitrary element. Conversions of nested data are proved step by step (structural induction).'
)


# ---------------------------------------------------------------------------------------------------------------- values
class Sc(V):
    """A scalar with the Python/numpy type `py`."""

    __slots__ = ('py',)

    def __init__(self, e, py):
        V.__init__(self, None, lambda i: e)
        self.py = py

    @property
    def e(self):
        return self.fn(z3.IntVal(0))


class Arr(V):
    """A numpy array of numbers of the element type `py`."""

    __slots__ = ('py',)

    def __init__(self, n, fn, py):
        V.__init__(self, n, fn)
        self.py = py

    @property
    def dtype(self):
        import numpy as np

        return np.dtype(self.py)

    def tolist(self):
        plain = self.dtype.type(0).item().__class__
        return SList(self.n, lambda i: Sc(self.fn(i), plain))


class Date:
    """A datetime/date (py) at the instant `e` (microseconds)."""

    def __init__(self, e, py):
        self.e, self.py = e, py

    def isoformat(self):
        return Iso(self.e, self.py)


class Iso:
    """The ISO 8601 text of an instant."""

    py = str

    def __init__(self, e, of):
        self.e, self.of = e, of


class Times:
    """numpy array of datetime64."""

    def __init__(self, n, fn, unit, lo=0):
        self.n, self.fn, self.unit = E.zint(n), fn, unit

    @property
    def dtype(self):
        import numpy as np

        return np.dtype(f'datetime64[{self.unit}]')

    def tolist(self):
        if self.unit == 'ns':
            raise E.Unsupported('tolist() of nanoseconds')
        py = real_dt.date if self.unit == 'D' else real_dt.datetime
        return SList(self.n, lambda i: Date(self.fn(i), py))

    def astype(self, t):
        if str(t) in ('datetime64', 'datetime64[us]', '<M8[us]'):
            return Times(self.n, self.fn, 'us')
        raise E.Unsupported(f'astype({t})')

    def __getitem__(self, k):
        if isinstance(k, slice) and k.start is None and k.step is None and isinstance(k.stop, int) and k.stop < 0:
            return Times(z3.simplify(self.n + k.stop), self.fn, self.unit)
        raise E.Unsupported(f'times[{k!r}]')

    def __symlen__(self):
        return E.SymInt.mk(self.n)


class SList(list):
    """A list of symbolic length n; iterating visits an arbitrary element (the iterations of a comprehension do not depend on each other)."""

    def __init__(self, n, item):
        super().__init__()
        self.n, self.item = E.zint(n), item

    def __iter__(self):
        c = E.ctx()
        if not c.decide(self.n > 0):
            return
        k = c.fresh('el', 'Int')
        c.assume(z3.And(k >= 0, k < self.n))
        GENERIC[k.decl().name()] = (k, self.n, len(c.path))
        yield self.item(k)

    def __symlen__(self):
        return E.SymInt.mk(self.n)

    def __len__(self):
        raise E.Unsupported('builtin len of a list of symbolic length')

    def __getitem__(self, k):
        raise E.Unsupported('element of a list of symbolic length')


GENERIC = {}


def generic_of(o):
    """The index an element of a list of symbolic length depends on, or None."""
    e = getattr(o, 'e', None)
    if not isinstance(o, (Sc, Date, Iso)):
        return None
    found, todo = [], [e]
    while todo:
        q = todo.pop()
        if z3.is_const(q) and q.decl().name() in GENERIC:
            found.append(q.decl().name())
        todo.extend(q.children())
    if len(set(found)) > 1:
        raise E.Unsupported('two list indices')
    return GENERIC[found[0]] if found else None


def restore(o):
    """[f(x_k)] built by a comprehension over a list of symbolic length -> the list of all f(x_i)."""
    if isinstance(o, SList) or not isinstance(o, (list, tuple)) or list.__len__(list(o)) != 1:
        return o
    el = o[0]
    g = generic_of(el)
    if g is None:
        return o
    k, n, pos = g
    for h in E.ctx().path[pos:]:
        if any(z3.is_const(q) and q.eq(k) for q in subterms(h)):
            raise E.Unsupported('a branch on the value of a list element')
    e = el.e
    mk = {Sc: lambda x: Sc(x, el.py), Date: lambda x: Date(x, el.py), Iso: lambda x: Iso(x, el.of)}[type(el)]
    return SList(n, lambda i: mk(z3.substitute(e, (k, E.zint(i)))))


def subterms(e):
    todo = [e]
    while todo:
        q = todo.pop()
        yield q
        todo.extend(q.children())


def np_isinstance(x, cls):
    if isinstance(x, (Sc, Date, Iso, Arr, Times)):
        flat = []
        for c in cls if builtins.isinstance(cls, tuple) else (cls,):
            flat.append(float if c is shims.SymFloat else getattr(c, 'real', c) if not isinstance(c, type) else c)
        import numpy as np

        py = np.ndarray if isinstance(x, (Arr, Times)) else x.py
        return any(isinstance(c, type) and issubclass(py, c) for c in flat)
    back = [getattr(c, 'real', c) if not isinstance(c, type) else c for c in (cls if builtins.isinstance(cls, tuple) else (cls,))]
    return shims._patched_isinstance(x, tuple(back))


def convert_to(py, prev):
    def f(*a):
        if a and isinstance(a[0], Sc):
            if issubclass(py, int) and py is not bool and not issubclass(a[0].py, (int,)) and not a[0].py.__name__.startswith('int'):
                raise E.Unsupported('int() of a float')
            return Sc(a[0].e, py)
        return prev(*a)
    f.real = py
    return f


class NPx:
    def __init__(self, base):
        self.__dict__['base'] = base

    def __getattr__(self, name):
        return getattr(self.base, name)

    def array(self, a, *k, **kw):
        a = restore(a)
        if isinstance(a, (Arr, Times)):
            return a
        if isinstance(a, SList):
            el = a.item(z3.IntVal(0))
            if isinstance(el, Sc):
                return Arr(a.n, lambda i: a.item(i).e, el.py)
            if isinstance(el, Date):
                return Times(a.n, lambda i: a.item(i).e, 'us')
            raise E.Unsupported('np.array of a list')
        return self.base.array(a, *k, **kw)

    @staticmethod
    def asarray(a, *k, **kw):
        raise E.Unsupported('np.asarray')

    def issubdtype(self, a, b):
        import numpy as np

        return np.issubdtype(a, b)

    def all(self, a, *k, **kw):
        if E.is_sym(a):
            return NONDEFAULT[0]
        return self.base.all(a, *k, **kw)


NONDEFAULT = [False]


class FakeDatetime:
    class datetime(real_dt.datetime):
        @classmethod
        def fromisoformat(cls, s):
            if isinstance(s, Iso):
                return Date(s.e, real_dt.datetime)
            return real_dt.datetime.fromisoformat(s)

    date = real_dt.date


class Opaque:
    """Some JSON value (inputs of the user: not results)."""


def to_json(o):
    """What json.load gives for json.dump(o)."""
    o = restore(o)
    if isinstance(o, dict):
        out = {}
        for k, v in o.items():
            if not isinstance(k, (str, int, float, bool, type(None))):
                raise TypeError(f'keys must be str, int, float, bool or None, not {type(k).__name__}')
            out[k if isinstance(k, str) else real_json.dumps(k)] = to_json(v)
        return out
    if isinstance(o, SList):
        to_json(o.item(z3.IntVal(0)))
        return SList(o.n, lambda i: to_json(o.item(i)))
    if isinstance(o, (list, tuple)):
        return [to_json(q) for q in o]
    if isinstance(o, Sc):
        if not issubclass(o.py, (int, float)):
            raise TypeError(f'Object of type {o.py.__name__} is not JSON serializable')
        return Sc(o.e, float if issubclass(o.py, float) else o.py)
    if isinstance(o, (Iso, Opaque)):
        return o
    if isinstance(o, (Date, V, Times)):
        raise TypeError(f'Object of type {type(o).__name__} is not JSON serializable')
    return real_json.loads(real_json.dumps(o))


class Disk:
    """Files in memory: open/json/yaml of the modules under contract."""

    def __init__(self):
        self.files = {}

    class File:
        def __init__(self, disk, path, mode):
            self.disk, self.path, self.mode = disk, str(path), mode

        def __enter__(self):
            if 'w' in self.mode:
                self.disk.files[self.path] = None
            elif self.disk.files.get(self.path) is None:
                raise FileNotFoundError(self.path)
            return self

        def __exit__(self, *a):
            return False

    def open(self, path, mode='r', *a, **k):
        return Disk.File(self, path, mode)

    def dump(self, o, f, **k):
        assert 'w' in f.mode
        if self.files[f.path] is not None:
            raise E.Unsupported('two objects in a file')
        self.files[f.path] = to_json(o)

    def load(self, f):
        return copied(self.files[f.path])

    def dump_yaml(self, o, f, **k):
        self.files[f.path] = o

    safe_load = load


def copied(o):
    if isinstance(o, dict):
        return {k: copied(v) for k, v in o.items()}
    if isinstance(o, list) and not isinstance(o, SList):
        return [copied(v) for v in o]
    return o


# ---------------------------------------------------------------------------------------------------------------- pandas
class BFrame:
    def __init__(self, cols):
        self.cols = cols

    def __or__(self, o):
        return BFrame({k: (n, (lambda i, a=a, b=o.cols[k][1]: z3.Or(a(i), b(i)))) for k, (n, a) in self.cols.items()})

    def any(self, *a, **k):
        """Per column: does an element fulfil it (branch)."""
        c = E.ctx()
        out = {}
        for k_, (n, f) in self.cols.items():
            w = c.fresh('w', 'Int')
            some = z3.Bool(f'some {k_} {w.decl().name()}')
            if c.decide(some):
                c.assume(z3.And(w >= 0, w < n, f(w)))
                c.add_index(w)
                out[k_] = True
            else:
                c.universals.append(E.Universal(z3.IntVal(0), n, lambda i, f=f: z3.Not(f(i)), f'no {k_}'))
                out[k_] = False
        return out


class Frame:
    """Stand-in of a pandas.DataFrame with columns of symbolic length."""

    def __init__(self, data=None, index=None):
        self.data = dict(data)
        for k, v in self.data.items():
            if not isinstance(v, V) or v.n is None:
                raise ValueError('If using all scalar values, you must pass an index')
        self.index = index

    @property
    def columns(self):
        return list(self.data)

    @property
    def empty(self):
        return not self.data

    @property
    def n(self):
        ns = [v.n for v in self.data.values()]
        for q in ns[1:]:
            if not E.ctx().decide(q == ns[0]):
                raise ValueError('All arrays must be of the same length')
        return ns[0] if ns else z3.IntVal(0)

    def __symlen__(self):
        return E.SymInt.mk(self.n)

    def _cmp(self, o, f):
        b = E.zreal(o)
        return BFrame({k: (v.n, (lambda i, v=v: f(v.fn(i), b))) for k, v in self.data.items()})

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def abs(self):
        return Frame({k: V(v.n, lambda i, v=v: z3.If(v.fn(i) < 0, -v.fn(i), v.fn(i))) for k, v in self.data.items()}, self.index)

    class Loc:
        def __init__(self, f):
            self.f = f

        def __getitem__(self, key):
            if isinstance(key, tuple) and key[0] == slice(None) and isinstance(key[1], dict):
                return Frame({k: v for k, v in self.f.data.items() if key[1][k]}, self.f.index)
            raise E.Unsupported('loc')

        def __setitem__(self, key, row):
            f = self.f
            n = f.n
            if not isinstance(row, dict) or E.ctx().feasible(E.zint(key) != n):
                raise E.Unsupported('loc[...] = ...')
            f.data = {k: V(n + 1, lambda i, v=v, r=row[k]: z3.If(i == n, r, v.fn(i))) for k, v in f.data.items()}

    class ILoc:
        def __init__(self, f):
            self.f = f

        def __getitem__(self, key):
            if key == -1:
                n = self.f.n
                return {k: v.fn(n - 1) for k, v in self.f.data.items()}
            raise E.Unsupported('iloc')

    @property
    def loc(self):
        return Frame.Loc(self)

    @property
    def iloc(self):
        return Frame.ILoc(self)


class FakePandas:
    DataFrame = Frame


# ---------------------------------------------------------------------------------------------------------------- units
def install_io(p, disk):
    """Bind the stand-ins in the modules that save and load (own process)."""
    import flixOpt.calculation as ca
    import flixOpt.results as rs
    import flixOpt.structure as st
    import flixOpt.utils as ut

    for m in (st, ut, rs, ca):
        d = m.__dict__
        p.set(d, 'isinstance', np_isinstance)
        p.set(d, 'len', shims.sym_len)
        p.set(d, 'np', NPx(d['np'] if not isinstance(d['np'], NPx) else d['np'].base))
    for m in (st, ut, rs):
        p.set(m.__dict__, 'float', convert_to(float, m.__dict__.get('float', float)))
        p.set(m.__dict__, 'int', convert_to(int, m.__dict__.get('int', int)))
        p.set(m.__dict__, 'bool', convert_to(bool, m.__dict__.get('bool', bool)))
    if disk is not None:
        for m in (ca, rs):
            p.set(m.__dict__, 'open', disk.open)
            p.set(m.__dict__, 'json', type('json', (), dict(dump=staticmethod(disk.dump), load=staticmethod(disk.load), loads=None, dumps=None)))
            p.set(m.__dict__, 'yaml', type('yaml', (), dict(dump=staticmethod(disk.dump_yaml), safe_load=staticmethod(disk.safe_load))))
    p.set(rs.__dict__, 'datetime', FakeDatetime)
    p.set(rs.__dict__, 'pd', FakePandas)


def same(x, name, a, b):
    """The loaded value b is the number / the numbers / the text a."""
    if isinstance(a, dict):
        if not isinstance(b, dict):
            return x.fail(f'{name}: nested results')
        if {str(k) for k in a} != set(b):
            return x.fail(f'{name}: the same names', f'{sorted(map(str, a))} {sorted(b)}')
        for k in a:
            same(x, f'{name}/{k}', a[k], b[str(k)])
        return
    if isinstance(a, Times):
        b = restore(b)
        if not isinstance(b, SList):
            return x.fail(f'{name}: a list of time stamps')
        x.check(f'{name}: number of time stamps', x.eq(b.n, a.n))
        x.forall(f'{name}: time stamps', 0, a.n, lambda i: x.eq(b.item(i).e, a.fn(i)))
        return
    if x.sym and isinstance(a, V):
        if not isinstance(b, V):
            return x.fail(f'{name}: a number or an array', str(type(b)))
        (va, na), (vb, nb) = x.length(a), x.length(b)
        x.check(f'{name}: shape', x.And(x.eq(va, vb), x.eq(na, nb)))
        x.forall(f'{name}: values', 0, na, lambda i: x.eq(b.fn(i), a.fn(i)))
        return
    import numpy as np

    if isinstance(a, np.ndarray) and a.dtype.kind == 'M':
        return x.check(f'{name}: time stamps', [np.datetime64(q) for q in b] == [q for q in a.astype('datetime64[us]')])
    if isinstance(a, np.ndarray) and len(a) == 0:
        return x.check(f'{name}: values', len(b) == 0)
    if x.sym and isinstance(a, float):
        return x.check(f'{name}: value', isinstance(b, float) and a == b)
    x.check(f'{name}: values', np.shape(a) == np.shape(b) and bool(np.all(np.asarray(a) == np.asarray(b))) and isinstance(b, np.ndarray) == isinstance(a, np.ndarray))


def frame_is(x, name, df, expected, n, times, with_end):
    """df has exactly the columns expected (name -> (factor, array)) and rows n, the last value is repeated at the end."""
    cols = list(df.columns)
    if sorted(cols) != sorted(expected):
        return x.fail(f'{name}: columns', f'{cols} {sorted(expected)}')
    if not cols:
        return
    for k in cols:
        f, a = expected[k]
        col = df.data[k] if x.sym else df[k].to_numpy()
        va, na = x.length(a)
        full = x.eq(na, n + 1)
        rows = n + 1 if with_end else na
        x.check(f'{name}: number of rows', x.eq(x.length(col)[1], rows))
        x.forall(f'{name}: values of {k}', 0, na, lambda i: x.eq(x.at(col, i), f * x.at(a, i)))
        if with_end:
            x.check(f'{name}: last value of {k}', x.Implies(x.Not(full), x.eq(x.at(col, n), f * x.at(a, n - 1))))
    idx = df.index
    if x.sym:
        if idx is None:
            return x.fail(f'{name}: time axis')
        x.check(f'{name}: length of the time axis', x.eq(idx.n, x.length(df.data[cols[0]])[1]))
        x.forall(f'{name}: time axis', 0, idx.n, lambda i: x.eq(idx.fn(i), times.fn(i)))
    else:
        import numpy as np

        x.check(f'{name}: time axis', bool(np.all(idx.to_numpy() == times[: len(df)])))


class RoundTrip(Unit):
    """The systems of the other properties: arbitrary results are saved, loaded and viewed."""

    seeds = (2, 6)

    def __init__(self, scn):
        self.scn = scn
        self.name = f'saved and loaded: {scn.prop} {scn.name}'

    def configs(self, tier):
        cfgs = [dict(c, past=1, prev=('none', 'none')) if isinstance(c.get('prev'), tuple) else c for c in self.scn.configs('quick')]  # the history does not matter here
        if tier == 'quick':
            cfgs = cfgs[:: max(1, len(cfgs) // 3)]
        return [dict(c, _seg=k % 3 == 1, _unit=['h', 'D', 'us'][k % 3], _default=bool(k % 2), _numbers=['float64', 'int64'][(k // 2) % 2]) for k, c in enumerate(cfgs)]

    def install(self):
        from .. import contracts

        import flixOpt.results  # noqa: F401
        import flixOpt.structure as st

        self.real = st.copy_and_convert_datatypes
        p = contracts.install()
        disk = self.disk = Disk()
        install_io(p, disk)
        import flixOpt.calculation as ca

        def convert(data, *a, **k):  # inputs of the user: some JSON value (unit `Conversion` verifies the conversion)
            if not isinstance(data, (Sc, Arr)) and (E.is_sym(data) or type(data).__name__ in ('TimeSeries', 'TimeSeriesData', 'ActiveTS')):
                return Opaque()
            if isinstance(data, Opaque):
                return data
            if not isinstance(data, (list, tuple, dict)) and hasattr(data, 'active_data'):
                return Opaque()
            return self.real(data, *a, **k)

        import sys
        for m in list(sys.modules.values()):
            if getattr(m, '__name__', '').startswith('flixOpt') and 'copy_and_convert_datatypes' in m.__dict__:
                p.set(m.__dict__, 'copy_and_convert_datatypes', convert)
        p.set(ca.__dict__, 'get_compact_representation', lambda *a, **k: {})
        from flixOpt.structure import SystemModel
        p.set(SystemModel, 'infos', property(lambda self: {}))
        p.set(ca.FlowSystem, 'network_infos', lambda self: ({}, {}))

    def body(self, x, cfg):
        from .. import scenario

        cfg = dict(cfg)
        unit, default, numbers, seg = cfg.pop('_unit'), cfg.pop('_default'), cfg.pop('_numbers'), cfg.pop('_seg')
        if x.sym:
            env = scenario.SymEnv(x.c, nmin=self.scn.nmin)
            x.c.env = env
            GENERIC.clear()
            NONDEFAULT[0] = default
        else:
            env = scenario.ConcEnv(x.r_.randint(0, 10**6))
        try:
            view = self.scn.build(env, cfg)
        except REAL_ERRORS:
            raise
        except Exception:
            if x.sym:
                raise E.Abort()
            return
        sm = view.sm
        fs = sm.flow_system
        import numpy as np

        if x.sym:
            py = {'float64': np.float64, 'int64': np.int64}[numbers]
            for k, v in enumerate(sm.variables):
                f = z3.Function(f'result{k}', z3.IntSort(), z3.RealSort())
                if isinstance(v.length, int) and v.length == 1:
                    v.result = Sc(f(z3.IntVal(0)), [float, np.float64, int][k % 3])
                else:
                    v.result = Arr(v.length, f, py)
            t = z3.Function('time', z3.IntSort(), z3.RealSort())
            n = env.n
            times = Times(z3.simplify(n + 1), t, unit)
            sm.time_series_with_end = times
            dt = sm.dt_in_hours
            sm.dt_in_hours = Arr(n, dt.fn, np.float64) if isinstance(dt, V) and dt.n is not None else dt
            sm.result_of_objective = Sc(z3.Real('objective'), float)
        else:
            for k, v in enumerate(sm.variables):
                if v.length == 1:
                    v.result = [float, np.float64, int][k % 3](x.r_.randint(-400, 400) / 8)
                else:
                    v.result = np.array([x.r_.randint(-400, 400) / 8 for _ in range(v.length)])
            if unit == 'D':
                n = len(sm.time_series)
                sm.time_series_with_end = np.datetime64('2020-02-27', 'D') + np.arange(n + 1)
            sm.result_of_objective = x.r_.random()
            times = sm.time_series_with_end
            n = len(times) - 1
        from flixOpt.math_modeling import HighsSolver

        sm.solver = HighsSolver(mip_gap=0, solver_output_to_console=False, threads=1)
        calc = segmented(fs, sm) if seg else fs_calc(fs, sm)
        with storage(self, x, calc) as folder:
            calc._save_solve_infos()
            from flixOpt.results import CalculationResults

            res = CalculationResults(calc.name, folder)
        if seg:
            same(x, 'results', calc.results(combined_arrays=True), res.all_results)
        ref = variables_of(sm)
        if not seg:
            same(x, 'results', ref, res.all_results)
        self.views(x, fs, res, ref, n, times)

    def views(self, x, fs, res, ref, n, times):
        n = x.i(n)
        at = lambda *p: dig(res.all_results, p)

        def is_at(d, *p):
            q = at(*p)
            return d is q or (q == {} and d == {})

        if x.sym:
            x.forall('time axis', 0, n, lambda i: x.And(x.eq(res.time.fn(i), times.fn(i)), x.eq(res.time_with_end.fn(i), times.fn(i))))
            x.check('length of the time axis', x.And(x.eq(res.time_with_end.n, n + 1), x.eq(res.time.n, n)))
        else:
            x.check('time axis', list(res.time_with_end) == list(times.astype('datetime64[us]')) and list(res.time) == list(times.astype('datetime64[us]'))[:-1])
        same(x, 'time steps', ref['Time intervals in hours'], res.time_intervals_in_hours)

        def same_set(name, a, b):
            if sorted(a) != sorted(b):
                x.fail(name, f'{sorted(a)} {sorted(b)}')
                return False
            return True

        def is_(name, cond, detail=''):
            if not cond:
                x.fail(name, str(detail))

        same_set('components', res.component_results, fs.components)
        same_set('buses', res.bus_results, fs.buses)
        same_set('effects', res.effect_results, list(fs.effect_collection.effects) + ['Penalty'])
        flows = res.flow_results()
        same_set('flows', flows, [f'{c.label}__{f.label}' for c in fs.components.values() for f in c.inputs + c.outputs])
        views = {}

        def data(comp, flow, var='flow_rate'):
            return at('Components', comp.label, flow.label, var)

        for c in fs.components.values():
            r = res.component_results.get(c.label)
            if r is None:
                continue
            is_('results of a component', r.label == c.label and is_at(r.all_results, 'Components', c.label))
            for side, mine in (('inputs', c.inputs), ('outputs', c.outputs)):
                if not same_set(f'{side} of a component', [f.label for f in getattr(r, side)], [f.label for f in mine]):
                    continue
                by = {f.label: f for f in getattr(r, side)}
                for f in mine:
                    q = by[f.label]
                    is_('results of a flow', is_at(q.all_results, 'Components', c.label, f.label) and q.variables is q.all_results and flows.get(f'{c.label}__{f.label}') is q)
                    is_('names of a flow', q.label_full == f'{c.label}__{f.label}' and q.component_label == c.label and q.bus_label == f.bus.label)
                    is_('direction of a flow', q.is_input_in_component == (side == 'inputs'))
                    views[q.label_full] = ({'flow_rate': (1, data(c, f))},) * 2
            for name, val in r.all_results.items():
                if name not in [f.label for f in c.inputs + c.outputs]:
                    is_('variables of a component', name in r.variables and r.variables[name] is val)
            views[c.label] = [{f'{c.label}__{f.label}': (s, data(c, f)) for s, fl in ((si, c.inputs), (so, c.outputs)) if s is not None for f in fl} for si, so in ((-1, 1), (1, None))]
        for b in fs.buses.values():
            r = res.bus_results.get(b.label)
            if r is None:
                continue
            is_('results of a bus', r.label == b.label)
            into = [(c, f) for c in fs.components.values() for f in c.outputs if f.bus is b]
            out = [(c, f) for c in fs.components.values() for f in c.inputs if f.bus is b]
            for side, mine in (('inputs', into), ('outputs', out)):
                same_set(f'{side} of a bus', [f.label_full for f in getattr(r, side)], [f'{c.label}__{f.label}' for c, f in mine])
                for q in getattr(r, side):
                    is_('flows of a bus', flows.get(q.label_full) is q)
            vs = []
            for si, so in ((-1, 1), (1, None)):
                d = {}
                for s, fl, exc in ((si, into, 'excess_input'), (so, out, 'excess_output')):
                    if s is None:
                        continue
                    d.update({f'{c.label}__{f.label}': (s, data(c, f)) for c, f in fl})
                    if exc in at('Buses', b.label):
                        d['Excess Input' if exc == 'excess_input' else 'Excess Output'] = (s, at('Buses', b.label, exc))
                vs.append(d)
            views[b.label] = vs
            is_('variables of a bus', is_at(r.all_results, 'Buses', b.label))
        for e in fs.effect_collection.effects.values():
            r = res.effect_results.get(e.label)
            if r is not None:
                is_('results of an effect', r.label == e.label and is_at(r.all_results, 'Effects', e.label))
        pen = res.effect_results.get('Penalty')
        if pen is not None:
            is_('results of the penalty', is_at(pen.all_results, 'Effects', 'penalty'))
        for k, (label, (a, b)) in enumerate(views.items()):
            end = k % 2 == 0
            df = res.to_dataframe(label, threshold=None, with_last_time_step=end)
            frame_is(x, f'view of {label}', df, a, n, times, end)
            df = res.to_dataframe(label, input_factor=1, output_factor=None, threshold=None, with_last_time_step=not end)
            frame_is(x, f'view of {label} (inputs only)', df, b, n, times, not end)
        few = [c for c in fs.components.values() if 0 < len(c.inputs + c.outputs) <= 2]
        if few:  # columns of small values are dropped
            c = few[0]
            limit = x.num('limit', 0)
            df = res.to_dataframe(c.label, threshold=limit, with_last_time_step=False)
            every = views[c.label][0]
            cols = list(df.columns)
            if not set(cols) <= set(every):
                x.fail('view without small values: columns', f'{cols} {sorted(every)}')
            else:
                for k in set(every) - set(cols):
                    a = every[k][1]
                    x.forall(f'view without small values: {k} is small', 0, n, lambda i: x.And(x.at(a, i) <= x.r(limit), x.at(a, i) >= -x.r(limit)))
                if cols:
                    frame_is(x, 'view without small values', df, {k: every[k] for k in cols}, n, times, False)
        x.check('views', True)


def variables_of(sm):
    """the value of every variable under the names of its element and (sub) model"""
    from flixOpt.features import ShareAllocationModel

    def of(model):
        d = {v.label_short: v.result for v in model.variables.values()}
        if isinstance(model, ShareAllocationModel):
            d['Shares'] = {v.label_short: v.result for v in model.shares.values()}
        else:
            d.update({m.label: of(m) for m in model.sub_models})
        return d

    fs = sm.flow_system
    return {'Components': {k: of(c.model) for k, c in fs.components.items()}, 'Buses': {k: of(b.model) for k, b in fs.buses.items()},
            'Effects': of(fs.effect_collection.model), 'Others': {m.element.label: of(m) for m in sm.other_models}, 'Objective': sm.result_of_objective,
            'Time': sm.time_series_with_end, 'Time intervals in hours': sm.dt_in_hours}


def dig(d, path):
    for k in path:
        d = d.get(k, {})
    return d


def arrays_only(d):
    """The combined results of a segmented calculation (contract of C18): the arrays, under their names."""
    import numpy as np

    out = {}
    for k, v in d.items():
        if isinstance(v, dict):
            v = arrays_only(v)
            if v:
                out[k] = v
        elif isinstance(v, (Arr, Times, np.ndarray)):
            out[k] = v
    return out


def segmented(fs, sm):
    from flixOpt.calculation import Calculation, SegmentedCalculation

    calc = SegmentedCalculation.__new__(SegmentedCalculation)
    Calculation.__init__(calc, 'saved', fs)
    calc.segment_length, calc.overlap_length = 3, 1
    ref = arrays_only(variables_of(sm))
    calc.results = lambda combined_arrays=False, combined_scalars=False, individual_results=False: ref if combined_arrays else {}
    calc.sub_calculations = [type('Sub', (), dict(system_model=sm))()]
    return calc


def fs_calc(fs, sm):
    from flixOpt.calculation import FullCalculation

    calc = FullCalculation('saved', fs)
    calc.system_model = sm
    return calc


@contextlib.contextmanager
def storage(unit, x, calc):
    """The folder of the calculation: in memory, or a scratch folder."""
    if x.sym:
        unit.disk.files.clear()
        import pathlib

        base = pathlib.Path('/nowhere')
        for k, f in (('data', 'data.json'), ('results', 'results.json'), ('infos', 'infos.yaml')):
            calc._paths[k] = base / f'{calc.name}_{f}'
        yield base
        return
    folder = tempfile.mkdtemp(dir=os.getcwd())
    try:
        calc._define_path_names(folder)
        yield folder
    finally:
        shutil.rmtree(folder)


class Mark:
    """A value of unknown type inside nested data."""

    def __init__(self, k):
        self.k = k


class Conversion(Unit):
    """Conversion for JSON and back, one level: containers by the contract of their elements (structural induction), numbers and arrays directly."""

    name = 'conversion'

    def configs(self, tier):
        out = [dict(kind=k) for k in ('float', 'float64', 'float32', 'int', 'int32', 'int64', 'bool', 'bool_', 'str', 'none')]
        out += [dict(kind=k) for k in ('array float64', 'array int64', 'array float32', 'empty array', 'list float', 'list int', 'times D', 'times h', 'times us', 'bools', 'flags')]
        out += [dict(kind=f'{c} {n}') for c in ('dict', 'list', 'tuple') for n in (0, 1, 2, 3)] + [dict(kind='set 1'), dict(kind='mixed'), dict(kind='nested'), dict(kind='unknown')]
        return out

    def install(self):
        from .. import contracts

        import flixOpt.results  # noqa: F401

        p = shims.install(contracts.modules())
        install_io(p, Disk())

    def body(self, x, cfg):
        import numpy as np

        import flixOpt.structure as st
        import flixOpt.utils as ut

        kind = cfg['kind']
        GENERIC.clear()

        def save(d, **k):
            r = st.copy_and_convert_datatypes(d, use_numpy=False, **k)
            return to_json(r) if x.sym else real_json.loads(real_json.dumps(r))

        back = lambda d: ut.convert_numeric_lists_to_arrays(d)
        types = dict(float=float, float64=np.float64, float32=np.float32, int=int, int32=np.int32, int64=np.int64, bool=bool, bool_=np.bool_)
        first, _, arg = kind.partition(' ')
        if kind in types:
            py = types[kind]
            plain = bool if 'bool' in kind else int if 'int' in kind else float
            if x.sym:
                e = z3.Real('value')
                v = Sc(e, py)
            else:
                v = py(x.r_.randint(0, 1) if 'bool' in kind else x.r_.randint(-400, 400) / 8)
            r = back(dict(a=save(v)))['a']
            if x.sym:
                x.check('the same number', isinstance(r, Sc) and r.py is plain and x.eq(r.e, e))
            else:
                x.check('the same number', type(r) is plain and r == v)
            x.check('alone', (back(save(v)).e.eq(e)) if x.sym else back(save(v)) == v)
        elif kind == 'str':
            for v in ('', 'a__b', '1.0', 'null', '\u20ac"'):
                x.check('the same text', back(dict(a=save(v)))['a'] == v and type(save(v)) is str)
        elif kind == 'none':
            x.check('None', back(dict(a=save(None)))['a'] is None)
        elif first in ('array', 'list') and not arg.isdigit():
            py = dict(float64=np.float64, int64=np.int64, float32=np.float32, float=float, int=int)[arg]
            n = x.int('n', 1, None if x.sym else 5)
            if x.sym:
                f = z3.Function('values', z3.IntSort(), z3.RealSort())
                v = Arr(n.e, f, py) if first == 'array' else SList(n.e, lambda i: Sc(f(i), py))
                ref = Arr(n.e, f, py)
            else:
                v = np.array([x.r_.randint(-400, 400) / 8 for _ in range(n)], dtype=py)
                ref = v
                if first == 'list':
                    v = v.tolist()
            for name, r in (('in a dict', back(dict(a=save(v)))['a']), ('alone', back(save(v))), ('in a list', back([dict(a=save(v)), 'x'])[0]['a'])):
                same(x, name, ref, r)
                if not x.sym:
                    x.check(f'{name}: an array', isinstance(r, np.ndarray))
        elif kind == 'empty array':
            r = back(dict(a=save(np.array([]))))['a']
            x.check('empty', isinstance(r, (list, np.ndarray)) and len(r) == 0)
        elif kind == 'bools':
            r = back(dict(a=save([True, False])))['a']
            x.check('flags', list(r) == [True, False])
        elif kind == 'flags':
            r = save(np.array([True, False, True]))
            x.check('flags', r == [True, False, True])
        elif first == 'times':
            import flixOpt.results as rs

            n = x.int('n', 2, None if x.sym else 5)
            if x.sym:
                v = Times(n.e, z3.Function('time', z3.IntSort(), z3.RealSort()), arg)
                r = back(dict(a=save(v)))['a']
                same(x, 'times', v, r)
                r = rs.np.array([rs.datetime.datetime.fromisoformat(d) for d in r]).astype('datetime64')
                x.check('read: number', x.eq(r.n, v.n))
                x.forall('read: instants', 0, v.n, lambda i: x.eq(r.fn(i), v.fn(i)))
            else:
                v = (np.datetime64('2020-02-27') + np.cumsum([x.r_.randint(1, 50) for _ in range(n)]) * np.timedelta64(1, arg)).astype(f'datetime64[{arg}]')
                same(x, 'times', v, back(dict(a=save(v)))['a'])
        elif kind == 'mixed':
            r = back(dict(a=save([1, 'x', None, [2.5, 3], dict(b=[])])))['a']
            x.check('mixed', r[:3] == [1, 'x', None] and list(r[3]) == [2.5, 3] and list(r[4]) == ['b'] and len(r[4]['b']) == 0)
        elif kind == 'nested':
            n = x.int('n', 1, None if x.sym else 5)
            if x.sym:
                f, g = [z3.Function(q, z3.IntSort(), z3.RealSort()) for q in 'fg']
                a, b, s = Arr(n.e, f, np.float64), Arr(n.e + 1, g, np.int64), Sc(z3.Real('s'), np.float64)
            else:
                a, b, s = [np.array([x.r_.randint(-400, 400) / 8 for _ in range(n + q)]) for q in (0, 1)] + [np.float64(2.5)]
            d = {'x': {'y': {'a': a, 'b': b}, 's': s, 'e': {}}, 'z': {'x': {'a': b}}}
            same(x, 'nested', d, back(save(d)))
            if set(d) != {'x', 'z'} or d['x']['y']['a'] is not a or d['x']['s'] is not s:
                x.fail('the results stay as they are')
        elif kind == 'unknown':
            try:
                st.copy_and_convert_datatypes(Mark(0), use_numpy=False)
                x.fail('data of unknown type is rejected')
            except TypeError:
                x.check('data of unknown type is rejected', True)
        else:
            self.step(x, first, int(arg), st, ut)

    def step(self, x, kind, n, st, ut):
        marks = [Mark(k) for k in range(n)]
        data = {'dict': lambda: {f'k{m.k}': m for m in marks}, 'list': lambda: list(marks), 'tuple': lambda: tuple(marks), 'set': lambda: set(marks)}[kind]()
        seen = {}
        real, real2 = st.copy_and_convert_datatypes, ut.convert_numeric_lists_to_arrays

        def conv(d, use_numpy=True, use_element_label=False):
            if isinstance(d, Mark):
                seen[d.k] = (use_numpy, use_element_label)
                return ('converted', d.k)
            return real(d, use_numpy, use_element_label)

        st.__dict__['copy_and_convert_datatypes'] = conv
        try:
            for flag in (False, True):
                seen.clear()
                r = real(data, use_numpy=False, use_element_label=flag)
                if kind == 'dict':
                    ok = r == {f'k{k}': ('converted', k) for k in range(n)}
                else:
                    ok = isinstance(r, list) and r == [('converted', k) for k in range(n)]
                x.check('elements are converted one by one, in order', ok and seen == {k: (False, flag) for k in range(n)})
        finally:
            st.__dict__['copy_and_convert_datatypes'] = real
        # loading: numbers stay, nested containers are converted, in order
        if kind in ('dict', 'list'):
            items = [{'m': 'text'} for _ in marks]
            src = {f'k{k}': d for k, d in enumerate(items)} if kind == 'dict' else items
            r = real2(src)
            got = list(r.values()) if kind == 'dict' else list(r)
            x.check('loaded one by one, in order', len(got) == n and all(g == d for g, d in zip(got, items)) and (kind != 'dict' or list(r) == list(src)))


class EndToEnd(Unit):
    """Real calculations, real solver, real files (bounded)."""

    name = 'end to end'
    symbolic = False
    seeds = (2, 8)

    def configs(self, tier):
        return [dict(kind=k, unit=u, excess=e) for k, u, e in (
            ('full', 'h', True), ('full', 'D', False), ('full', 'ns', True), ('full', 'm', False), ('segmented', 'h', True), ('segmented', 'D', False), ('aggregated', 'h', True), ('selected', 's', True))]

    def body(self, x, cfg):
        import contextlib
        import io
        import logging

        import numpy as np

        import flixOpt as fx
        from flixOpt.results import CalculationResults

        logging.getLogger('flixOpt').setLevel(logging.CRITICAL + 1)
        n = 8
        step = np.timedelta64(1, 'D') if cfg['unit'] == 'D' else np.timedelta64(1, 'h')
        t = (np.datetime64('2020-02-27') + np.arange(n) * step).astype(f"datetime64[{cfg['unit']}]")
        fs = fx.FlowSystem(t)
        costs = fx.Effect('costs', 'EUR', 'costs', is_standard=True, is_objective=True)
        co2 = fx.Effect('CO2', 'kg', 'co2', specific_share_to_other_effects_operation={costs: 0.5})
        pen = 1e5 if cfg['excess'] else None
        heat, gas = fx.Bus('heat', excess_penalty_per_flow_hour=pen), fx.Bus('gas', excess_penalty_per_flow_hour=None)
        demand = x.arr('demand', n, 1, 9)
        price = x.arr('price', n, 1, 5)
        fs.add_elements(
            costs, co2,
            fx.linear_converters.Boiler('boiler', eta=0.5, Q_th=fx.Flow('q', heat, size=20, relative_minimum=0.01, on_off_parameters=fx.OnOffParameters(effects_per_switch_on=1)), Q_fu=fx.Flow('f', gas)),
            fx.Storage('sto', fx.Flow('in', heat, size=5), fx.Flow('out', heat, size=5), capacity_in_flow_hours=10, initial_charge_state=2),
            fx.Sink('load', fx.Flow('l', heat, size=1, fixed_relative_profile=demand)),
            fx.Source('grid', fx.Flow('g', gas, size=1000, effects_per_flow_hour={costs: price, co2: np.float64(0.25)})))
        solver = fx.solvers.HighsSolver(mip_gap=0, solver_output_to_console=False, threads=1)
        folder = tempfile.mkdtemp(dir=os.getcwd())
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                if cfg['kind'] in ('full', 'selected'):
                    calc = fx.FullCalculation('c', fs, time_indices=range(2, 7) if cfg['kind'] == 'selected' else None)
                    calc.do_modeling()
                    calc.solve(solver, save_results=folder)
                    ref = variables_of(calc.system_model)
                elif cfg['kind'] == 'aggregated':
                    calc = fx.AggregatedCalculation('c', fs, fx.AggregationParameters(4.0, 1, True, True))
                    calc.do_modeling()
                    calc.solve(solver, save_results=folder)
                    ref = variables_of(calc.system_model)
                else:
                    calc = fx.SegmentedCalculation('c', fs, 4, 1)
                    calc.do_modeling_and_solve(solver, save_results=folder)
                    ref = calc.results(combined_arrays=True)
            res = CalculationResults('c', folder)
        finally:
            shutil.rmtree(folder)
        same(x, 'results', ref, res.all_results)
        RoundTrip.views(self, x, fs, res, ref, len(ref['Time']) - 1, ref['Time'])


def run(out, tier, t_end):
    units = [Conversion(), EndToEnd()]
    for k in range(3, 17):
        m = importlib.import_module(f'vf.props.c{k:02d}')
        units += [RoundTrip(s) for s in getattr(m, 'SCENARIOS', []) if not getattr(s, 'bounded_only', False)]
    run_units(out, units, tier, t_end)
