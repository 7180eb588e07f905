"""C18: a segmented calculation covers every step once and hands over the state."""
import z3

from .. import engine as E
from ..unit import Unit, run_units

LEVEL = 'proof'
TRUSTED = [
    'the single windows are FullCalculations (their models: C03-C17; their reported values: C02); in the proof a window is a stand-in that reports arbitrary values of the right lengths and may fail at any point',
    'math.ceil of an exact quotient (machine division treated as exact)',
]
ASSUMPTIONS = [
    'segment length > 2 and at least the overlap fits (rejected otherwise, checked); overlap >= 0; the last window has at least two steps (a horizon of one step is not supported by FullCalculation either)',
]
EXPLANATION = (
    'SegmentedCalculation.__init__ / do_modeling_and_solve (with all helpers) run on a symbolic horizon, segment length and overlap. The loop over the segments is cut at an arbitrary iteration: '
    'base case (first window), step (arbitrary window after an arbitrary previous one), exit. The combination of results runs on symbolic window lengths for up to 4 windows.'
)


class Boom(Exception):
    pass


class Windows:
    """Stand-in of FullCalculation: records what it is given and reports arbitrary values."""

    def __init__(self, x, flows, storages, fail_at=None, nested=False):
        self.x, self.flows, self.storages, self.fail_at, self.nested = x, flows, storages, fail_at, nested
        self.calcs = []
        world = self

        class Calc:
            def __init__(self, name, flow_system, modeling_language='pyomo', time_indices=None):
                self.name, self.flow_system, self.time_indices = name, flow_system, time_indices
                self.durations = {'modeling': 0.0, 'solving': 0.0, 'saving': 0.0}
                self.system_model = type('SM', (), {'sub_models': []})()
                self.k = len(world.calcs)
                self.starts = None
                self.solved = False
                world.calcs.append(self)

            def do_modeling(self):
                world.maybe(self, 'modeling')
                self.starts = world.current()
                world.attach(self)
                return self.system_model

            def solve(self, solver, save_results=False):
                world.maybe(self, 'solve')
                self.solved = True

            def results(self):
                return self._results

        self.Calc = Calc

    def maybe(self, calc, where):
        if self.fail_at == (where, calc.k):
            raise Boom()

    def current(self):
        return {**{f.label_full: f.previous_flow_rate for f in self.flows}, **{s.label_full: s.initial_charge_state for s in self.storages}}

    def attach(self, calc):
        """Arbitrary results of a window."""
        x, k = self.x, calc.k
        n = calc.n = x.length(calc.time_indices)[1]
        n_ = E.SymInt.mk(n) if x.sym else n
        mk = lambda name, m: x.arr(f'{name}[{k}]', m, binary=False)
        calc.rates, calc.states = {}, {}
        nested = {'costs': {'total': x.num(f'total[{k}]'), 'all': {}}, 'bus': {'excess': None}}
        for f in self.flows:
            v = calc.rates[f.label_full] = mk(f.label_full, n_)
            f.model = _o(flow_rate=_o(result=v, length=n_))
            nested.setdefault(f.comp.label, {})[f.label] = {'flow_rate': v, 'sumFlowHours': x.num(f'{f.label_full} hours[{k}]')}
        for s in self.storages:
            v = calc.states[s.label_full] = mk(s.label_full, n_ + 1)
            s.model = _o(charge_state=_o(result=v, length=n_ + 1))
            nested.setdefault(s.label, {})['charge_state'] = v
        calc._results = nested


class _o:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def system(x, T):
    """A storage, a source and a sink on a time axis of T steps."""
    import numpy as np

    import flixOpt as f
    from .. import contracts

    fs = f.FlowSystem(np.array(['2020-01-01T00', '2020-01-01T01', '2020-01-01T02'], dtype='datetime64[h]') if x.sym else np.datetime64('2020-01-01T00') + np.arange(T))
    if x.sym:
        fs.time_series = contracts.TimeAxis(x.i(T))
    bus = f.Bus('bus', None)
    p_in, p_out = x.num('p_in', 0, 100), x.num('p_out', 0, 100)
    c0 = x.num('c0', 0, 100)
    src = f.Source('Src', source=f.Flow('s', bus=bus, size=100, previous_flow_rate=p_in))
    snk = f.Sink('Snk', sink=f.Flow('d', bus=bus, size=100))
    sto = f.Storage('Sto', f.Flow('in', bus=bus, size=100), f.Flow('out', bus=bus, size=100, previous_flow_rate=p_out), 100, initial_charge_state=c0)
    st2 = f.Storage('St2', f.Flow('in', bus=bus, size=100), f.Flow('out', bus=bus, size=100), 100, initial_charge_state='lastValueOfSim')
    # the start of the user may be free, and the history may have several steps
    st3 = f.Storage('St3', f.Flow('in', bus=bus, size=100, previous_flow_rate=np.array([0, 7.5, 3])), f.Flow('out', bus=bus, size=100, previous_flow_rate=0), 100, initial_charge_state=None)
    st4 = f.Storage('St4', f.Flow('in', bus=bus, size=100), f.Flow('out', bus=bus, size=100), 100, initial_charge_state=0)
    fs.add_elements(src, snk, sto, st2, st3, st4)
    return fs


def objects(fs):
    flows = []
    for label, c in fs.components.items():
        for fl in c.inputs + c.outputs:
            flows.append(fl)
    from flixOpt.components import Storage

    return flows, [c for c in fs.components.values() if isinstance(c, Storage)]


class Loop:
    """`range(n)` of the loop over the segments: first iteration, then an arbitrary one from an arbitrary earlier state, then exit."""

    def __init__(self, owner, n):
        self.owner, self.n, self.state = owner, n, 0

    def __iter__(self):
        return self

    def __next__(self):
        c = E.ctx()
        self.state += 1
        if self.state == 1:
            self.owner.loop_n = self.n
            if not c.decide(self.n > 0):
                raise StopIteration
            return 0
        if self.state == 2:
            if not c.decide(self.n > 1):
                raise StopIteration
            i = c.fresh('i', 'Int')
            c.assume(z3.And(i >= 1, i < self.n))
            self.owner.step(i)
            return E.SymInt(i)
        raise StopIteration

    def __symlen__(self):
        return E.SymInt.mk(self.n)


def loop_range(mk, unit):
    """Symbolic mode: `range(n)` of the loop over the segments becomes mk(n) (the first range(symbolic) after unit.armed is set)."""
    from .. import contracts, shims
    import flixOpt.calculation as calc

    p = shims.install(contracts.modules())
    real_range = calc.__dict__['range']

    class Range(metaclass=shims._RangeMeta):
        def __new__(cls, *a):
            if getattr(unit, 'armed', False) and a and isinstance(a[-1], E.SymInt) and (len(a) == 1 or (len(a) == 2 and isinstance(a[0], int) and a[0] == 0)):
                unit.armed = False
                return mk(a[-1].e)
            return real_range(*a)

    p.set(calc.__dict__, 'range', Range)


class Segments(Unit):
    """Windows and hand-over, for an arbitrary number of segments."""

    name = 'segments'
    seeds = (25, 250)

    def configs(self, tier):
        out = []
        for idx in ('none', 'list', 'range'):
            for fail in ('no', 'modeling', 'solve', 'first modeling'):
                if fail == 'no' or idx == 'none' or tier != 'quick':
                    out.append(dict(idx=idx, fail=fail))
        return out

    def install(self):
        loop_range(lambda n: Loop(self, n), self)

    # -- the arbitrary iteration
    def step(self, i):
        """Before iteration i >= 1: the previous window is an arbitrary one that satisfies the contract of its own iteration."""
        x, w = self.x, self.w
        first = w.calcs[0]
        self.snapshot_first = (first.time_indices, first.starts)
        self.i = i
        prev = i - 1
        s, o, T = self.s.e, self.o.e, x.i(self.T)
        c = E.ctx()
        # ghost lemma: (i-1)*s <= i*s <= (n-1)*s < T
        for j in (i, prev):
            self.lemma_start(j)
        lo = prev * s
        hi = z3.If(lo + s + o < T, lo + s + o, T)
        n = hi - lo
        c.assume(n >= s)
        first.k = 'prev'
        first.time_indices = E.SymRange(E.SymInt(lo), E.SymInt(hi))
        first.time_indices_real = None
        w.attach(first)
        # start values left by earlier iterations: arbitrary
        for f in w.flows:
            f.previous_flow_rate = x.num(f'earlier start of {f.label_full}')
        for st in w.storages:
            st.initial_charge_state = x.num(f'earlier start of {st.label_full}')

    def lemma_start(self, j):
        x = self.x
        s, T, n = self.s.e, x.i(self.T), self.loop_n
        x.check('ghost: start of a window lies before the end', z3.Implies(z3.And(j >= 0, j < n, s > 0, (n - 1) * s < T), j * s < T), terms=[j])
        E.ctx().assume(z3.Implies(z3.And(j >= 0, j < n), j * s < T))
        E.ctx().assume(j * s >= 0)

    def body(self, x, cfg):
        import flixOpt.calculation as fc

        self.x = x
        if x.sym:
            T = x.int('T', 3)
            s = x.int('s', 3)
            o = x.int('o', 0)
        else:
            s = x.int('s', 3, 6)
            o = x.int('o', 0, 4)
            T = x.int('T', s + o, s + o + 14)
        x.assume(x.i(s) + x.i(o) <= x.i(T))
        n_full = T if cfg['idx'] == 'none' else (x.int('n', T, None) if x.sym else x.int('n', T, T + 4))
        fs = system(x, n_full)
        flows, storages = objects(fs)
        if cfg['idx'] == 'none':
            idx, pick = None, lambda j: j
        elif cfg['idx'] == 'list':
            if x.sym:
                idx = x.iarr('idx', T, 0, n_full - 1)
                pick = idx.fn
            else:
                idx = sorted(x.r_.sample(range(n_full), T))
                pick = lambda j: idx[j]
        else:
            a = x.int('a', 0, n_full - T)
            idx = x.rng(a, a + T)
            pick = lambda j: x.i(a) + j
        self.T, self.s, self.o = T, s, o
        fail_at = None if cfg['fail'] == 'no' else ('modeling', 0) if cfg['fail'] == 'first modeling' else (cfg['fail'], (x.r_.randint(0, 3) if not x.sym else 1))
        w = self.w = Windows(x, flows, storages, fail_at)
        original = w.current()
        real = fc.FullCalculation
        fc.FullCalculation = w.Calc
        self.armed = x.sym
        self.i = None
        self.loop_n = None
        user_idx = None if idx is None or x.sym else list(idx)
        try:
            seg = fc.SegmentedCalculation('seg', fs, s, o, time_indices=idx)
            try:
                seg.do_modeling_and_solve(None, save_results=False)
                failed = False
            except Boom:
                failed = True
        finally:
            fc.FullCalculation = real
            self.armed = False
        if not x.sym and user_idx is not None and list(idx) != user_idx:
            x.fail('the selection of the user is unchanged')
        # restored
        now = w.current()
        for k in original:
            if not same(now[k], original[k], x):
                x.fail('start values of the user are restored', k)
        if not w.calcs:
            x.fail('no window was solved')
            return
        S, O, TT = x.i(s), x.i(o), x.i(T)
        if x.sym:
            n = self.loop_n
            if n is None:
                raise E.Unsupported('the loop over the segments is not a range')
            x.check('the windows end with the horizon: (n-1)*s < T <= n*s', z3.And(n >= 1, (n - 1) * S < TT, TT <= n * S))
            E.ctx().assume(z3.And(n >= 1, (n - 1) * S < TT, TT <= n * S))
            # ghost lemma: every step belongs to a window
            q, r = z3.Ints('q r')
            x.check('every step is the own step of a window', z3.Implies(z3.And(q >= 0, r >= 0, r < S, q * S + r < TT), q < n), terms=[q, r])
            if self.i is None:
                todo = [(z3.IntVal(0), w.calcs[0].time_indices, w.calcs[0].starts, None)]
                if not failed and len(w.calcs) != 1:
                    x.fail('one window per segment')
            else:
                idx0, st0 = self.snapshot_first
                todo = [(z3.IntVal(0), idx0, st0, None)]
                if len(w.calcs) != 2:
                    x.fail('one window per iteration')
                else:
                    todo.append((self.i, w.calcs[1].time_indices, w.calcs[1].starts, w.calcs[0]))
        else:
            n = -(-T // s)
            want = n if fail_at is None or fail_at[1] >= n else fail_at[1] + 1
            if failed != (fail_at is not None and fail_at[1] < n):
                x.fail('a failing segment is reported')
            if len(w.calcs) != want:
                x.fail('number of windows', f'{len(w.calcs)} instead of {want}')
            todo = [(k, c.time_indices, c.starts, w.calcs[k - 1] if k else None) for k, c in enumerate(w.calcs)]
        for k, ti, starts, prev in todo:
            lo = k * S
            length = x.If(lo + S + O <= TT, S + O, TT - lo)
            x.check('a window spans its own steps and the overlap, cut off at the end', x.And(x.length(ti)[0], x.eq(x.length(ti)[1], length), length >= 1))
            x.forall('a window consists of consecutive selected steps', 0, length, lambda j: x.eq(at(x, ti, j), x.i(pick(lo + j))))
            if starts is None:
                continue
            if prev is None:
                for lab, v in starts.items():
                    if not same(v, original[lab], x):
                        x.fail('the first window starts from the values of the user', lab)
            else:
                for f in flows:
                    x.check('previous flow rate = flow rate of the last own step of the window before', x.eq(x.at(starts[f.label_full]), x.at(prev.rates[f.label_full], S - 1)))
                for st in storages:
                    x.check('initial charge state = charge state at the end of the last own step of the window before', x.eq(x.at(starts[st.label_full]), x.at(prev.states[st.label_full], S)))
        if not failed:
            for c in w.calcs:
                if not c.solved and not (x.sym and c.k == 'prev'):
                    x.fail('every window is solved')


def same(a, b, x):
    import numpy as np

    if a is b:
        return True
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return np.array_equal(a, b)
    if isinstance(a, (int, float, str, type(None))) or isinstance(b, (int, float, str, type(None))) or not x.sym:
        return type(a) is type(b) and bool(np.all(a == b))
    return False


def at(x, a, j):
    if isinstance(a, E.SymRange):
        return a.lo + x.i(j)
    return x.at(a, j)


class Rejections(Unit):
    """Segment lengths without effect are rejected before anything is done."""

    name = 'lengths'

    def body(self, x, cfg):
        import flixOpt.calculation as fc

        T = x.int('T', 3, None if x.sym else 12)
        s = x.int('s', 1, None if x.sym else 14)
        o = x.int('o', 0, None if x.sym else 6)
        fs = system(x, T)
        ok = True
        try:
            fc.SegmentedCalculation('seg', fs, s, o)
        except AssertionError:
            ok = False
        x.check('accepted exactly if the segments are longer than 2 and fit with their overlap', x.eq(ok, x.And(x.i(s) > 2, x.i(s) + x.i(o) <= x.i(T))) if not x.sym else z3.BoolVal(ok) == z3.And(s.e > 2, s.e + x.i(o) <= x.i(T)))


class Combine(Unit):
    """Results of k windows: every step once, from its own window, in order."""

    name = 'combined results'
    seeds = (15, 100)

    def configs(self, tier):
        return [dict(k=k, repeat=r) for k in ((1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5, 6)) for r in (False, True) if not (r and k not in (1, 3))]

    def install(self):
        def mk(n):
            self.x.check('as many windows as segments are needed', n == self.k)
            return range(self.k)
        loop_range(mk, self)

    def body(self, x, cfg):
        import flixOpt.calculation as fc

        k = cfg['k']
        self.x, self.k = x, k
        s = x.int('s', 3, None if x.sym else 5)
        # T: k windows, the last one with at least two steps
        T = x.int('T', None, None) if x.sym else x.int('T', max(s, (k - 1) * s + 2), k * s)
        o = x.int('o', 0, None if x.sym else min(4, T - s))
        S, O, TT = x.i(s), x.i(o), x.i(T)
        x.assume(x.And(TT >= (k - 1) * S + 2, TT <= k * S, S + O <= TT))
        fs = system(x, T)
        flows, storages = objects(fs)
        w = Windows(x, flows, storages)
        real = fc.FullCalculation
        fc.FullCalculation = w.Calc
        try:
            seg = fc.SegmentedCalculation('seg', fs, s, o)
            self.armed = x.sym
            seg.do_modeling_and_solve(None, save_results=False)
            if cfg['repeat']:
                w.calcs.clear()
                self.armed = x.sym
                seg.do_modeling_and_solve(None, save_results=False)
        finally:
            fc.FullCalculation = real
        calcs = w.calcs
        if len(calcs) != k:
            x.fail('number of windows', str(len(calcs)))
            return
        arrays = seg.results(combined_arrays=True)
        scalars = seg.results(combined_scalars=True)
        single = seg.results(individual_results=True)
        if list(single.values()) != [c._results for c in calcs] and not all(a is c._results for a, c in zip(single.values(), calcs)):
            x.fail('results of the single windows, in order')
        starts = seg.start_values_of_segments
        if len(starts) != k or any(set(a) != set(c.starts) for a, c in zip(starts.values(), calcs)):
            x.fail('start values of every segment are reported')
        else:
            for a, c in zip(starts.values(), calcs):
                for lab, v in a.items():
                    if v is not c.starts[lab]:
                        x.check('reported start values are those the segment started with', (not isinstance(v, str)) and x.eq(x.at(v), x.at(c.starts[lab])))
        own = {}
        for f in flows:
            own[(f.comp.label, f.label, 'flow_rate')] = (lambda c, f=f: c.rates[f.label_full], TT)
        for st in storages:
            own[(st.label, 'charge_state')] = (lambda c, st=st: c.states[st.label_full], TT + 1)
        if set(paths(arrays)) != set(own):
            x.fail('combined arrays are those of all elements', str(set(paths(arrays)) ^ set(own)))
            return
        for path, (src, n) in own.items():
            v = get(arrays, path)
            isvec, ln = x.length(v)
            x.check(f'{".".join(path)}: one value per step', x.And(isvec, x.eq(ln, n)))

            def value(t, src=src):
                r = x.at(src(calcs[-1]), t - (k - 1) * S)
                for q in range(k - 2, -1, -1):
                    r = x.If(t < (q + 1) * S, x.at(src(calcs[q]), t - q * S), r) if x.sym else (x.at(src(calcs[q]), t - q * S) if t < (q + 1) * S else r)
                return r
            if x.sym or bool(x.eq(ln, n)):
                x.forall(f'{".".join(path)}: value of the window the step belongs to', 0, n, (lambda t, v=v, value=value: x.eq(x.at(v, t), value(t))) if x.sym else (lambda t, v=v, src=src: x.eq(x.at(v, t), x.at(src(calcs[min(t // s, k - 1)]), t - min(t // s, k - 1) * s))))
        for path in [('costs', 'total')] + [(f.comp.label, f.label, 'sumFlowHours') for f in flows]:
            v = get(scalars, path)
            if len(v) != k:
                x.fail('one scalar per window')
            for q in range(min(k, len(v))):
                x.check('scalars of the windows, in order', x.eq(x.at(v[q]), x.at(get(calcs[q]._results, path))))


def paths(d, pre=()):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from paths(v, pre + (k,))
        else:
            yield pre + (k,)


def get(d, path):
    for k in path:
        d = d[k]
    return d


class EndToEnd(Unit):
    """Real windows solved by HiGHS (bounded)."""

    name = 'solved windows'
    symbolic = False
    seeds = (3, 20)

    def configs(self, tier):
        return [dict(on=on, idx=idx) for on in (False, True) for idx in ('none', 'list')]

    def body(self, x, cfg):
        import numpy as np

        import flixOpt as f
        import flixOpt.calculation as fc

        s = x.int('s', 3, 4)
        o = x.int('o', 0, 2)
        T = x.int('T', s + o, 2 * s + 4)
        if (T - 1) % s == 0:
            T += 1
        n_full = T if cfg['idx'] == 'none' else T + 2
        idx = None if cfg['idx'] == 'none' else list(range(2, n_full))
        fs = f.FlowSystem(np.datetime64('2020-01-01T00') + np.arange(n_full))
        costs = f.Effect('costs', 'EUR', 'c', is_standard=True, is_objective=True)
        fs.add_effects(costs)
        bus = f.Bus('bus', 1000)
        price = x.arr('price', n_full, 0, 5)
        load = x.arr('load', n_full, 0, 6)
        c0 = x.num('c0', 0, 8)
        src_kw = dict(on_off_parameters=f.OnOffParameters(switch_on_total_max=50), relative_minimum=0.3) if cfg['on'] else {}
        src = f.Source('Src', source=f.Flow('s', bus=bus, size=8, effects_per_flow_hour=price, previous_flow_rate=x.num('p0', 0, 3), **src_kw))
        snk = f.Sink('Snk', sink=f.Flow('d', bus=bus, size=1, fixed_relative_profile=load))
        sto = f.Storage('Sto', f.Flow('in', bus=bus, size=4), f.Flow('out', bus=bus, size=4), 8, initial_charge_state=c0, eta_charge=0.9, eta_discharge=0.9, relative_loss_per_hour=0.05)
        fs.add_elements(src, snk, sto)
        flows, storages = objects(fs)
        seen = []
        real = fc.FullCalculation

        class Spy(real):
            def do_modeling(self):
                seen.append(({fl.label_full: fl.previous_flow_rate for fl in flows}, {st.label: st.initial_charge_state for st in storages}, self))
                return super().do_modeling()

        before = {fl.label_full: fl.previous_flow_rate for fl in flows}
        fc.FullCalculation = Spy
        try:
            seg = fc.SegmentedCalculation('seg', fs, s, o, time_indices=idx)
            seg.do_modeling_and_solve(f.solvers.HighsSolver(0.0, 20, solver_output_to_console=False, threads=1), save_results=False)
        finally:
            fc.FullCalculation = real
        k = -(-T // s)
        if len(seen) != k:
            x.fail('number of windows')
            return
        if {fl.label_full: fl.previous_flow_rate for fl in flows} != before or sto.initial_charge_state != c0:
            x.fail('start values of the user are restored')
        parts = [c.results()['Components'] for _, _, c in seen]
        pick = list(range(n_full)) if idx is None else idx
        for q, (fr, st, c) in enumerate(seen):
            ti = list(c.time_indices)
            if ti != pick[q * s: min(q * s + s + o, T)]:
                x.fail('a window consists of consecutive selected steps', str(ti))
                return
            m = len(ti)
            charge = parts[q]['Sto']['charge_state']
            want = c0 if q == 0 else parts[q - 1]['Sto']['charge_state'][s]
            x.check('the storage starts with the content handed over', abs(charge[0] - want) < 1e-5)
            flow = {fl.label_full: parts[q][fl.comp.label][fl.label]['flow_rate'] for fl in flows}
            if q:
                for fl in flows:
                    x.check('previous flow rate handed over', abs(fr[fl.label_full] - parts[q - 1][fl.comp.label][fl.label]['flow_rate'][s - 1]) < 1e-9)
            x.forall('demand of the selected steps', 0, m, lambda t: abs(flow[snk.sink.label_full][t] - load[ti[t]]) < 1e-5)
        whole = seg.results(combined_arrays=True)
        arrays = whole['Components']
        if list(whole['Time'][:T]) != list(fs.time_series[pick]) or len(whole['Time']) != T + 1:
            x.fail('time axis of the combined results')
        for fl in flows:
            v = arrays[fl.comp.label][fl.label]['flow_rate']
            if len(v) != T:
                x.fail('one value per step')
                continue
            x.forall('combined flow rates', 0, T, lambda t: v[t] == parts[min(t // s, k - 1)][fl.comp.label][fl.label]['flow_rate'][t - min(t // s, k - 1) * s])


def run(out, tier, t_end):
    run_units(out, [Segments(), Rejections(), Combine(), EndToEnd()], tier, t_end)
