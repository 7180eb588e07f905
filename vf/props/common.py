"""Small building blocks shared by the scenarios."""
import z3

from ..scenario import BIN, EQ, GE, LE, EPS, P, Scenario, Spec  # noqa: F401


def fx():
    import flixOpt

    return flixOpt


def base(env, **kw):
    """Flow system with one standard/objective effect and one bus without excess."""
    import flixOpt as f

    fs = env.flow_system(**kw)
    costs = f.Effect('costs', 'EUR', 'costs', is_standard=True, is_objective=True)
    fs.add_effects(costs)
    bus = f.Bus('bus', excess_penalty_per_flow_hour=None)
    return fs, costs, bus


def close_bus(env, fs, bus, label='Env', source=True, sink=True, size=1000):
    """Unconstrained counterpart at a bus, so that any flow of the component under test is possible."""
    import flixOpt as f

    if source:
        fs.add_elements(f.Source(label + 'Src', source=f.Flow('src', bus=bus, size=size)))
    if sink:
        fs.add_elements(f.Sink(label + 'Snk', sink=f.Flow('snk', bus=bus, size=size)))


def zero():
    return z3.IntVal(0)


def component_status(s, env, w, comp, flows, limits, tag=None):
    """Status of a component from its flows; limits: label -> (lo(t), hi(t)) per flow."""
    on = w.var(f'{comp}__OnOff_on')
    xs = [w.var(f'{comp}__{k}_flow_rate') for k in flows]
    for k, x, (lo, hi) in zip(flows, xs, limits):
        on_off(s, env, w, w.var(f'{comp}__{k}__OnOff_on'), x, lo, hi, f'flow {k}', tag=tag)
    s.forall('component on -> at least one flow is in use', 0, env.n, lambda t: z3.Implies(BIN(on(t)), GE(sum(x(t) for x in xs), EPSR)), tag=tag)
    s.forall('component off -> all flows are zero', 0, env.n, lambda t: z3.Implies(z3.Not(BIN(on(t))), z3.And([EQ(x(t), 0) for x in xs])), tag=tag)
    return on


def flow_hours(s, env, w, flow, tag='assume'):
    x, fh = w.var(flow + '_flow_rate'), w.var(flow + '_sumFlowHours')
    s.fact(f'flow hours of {flow}', lambda: EQ(fh(0), env.SUM(0, env.n, lambda t: x(t) * env.dt(t))), tag=tag)


def on_hours(s, env, w, pre, tag='assume'):
    h, on = w.var(pre + '_totalOnHours'), w.var(pre + '_on')
    s.fact(f'hours of operation {pre}', lambda: EQ(h(0), env.SUM(0, env.n, lambda t: on(t) * env.dt(t))), tag=tag)


def on_off(s, env, w, on, x, lo, hi, who='flow', tag=None):
    """Status of a single flow: on -> within [max(eps, lo), hi], off -> zero."""
    s.forall(f'{who}: on -> rate is at least the threshold and the minimum, and at most the maximum', 0, env.n,
             lambda t: z3.Implies(BIN(on(t)), z3.And(GE(x(t), zmax(EPSR, lo(t))), LE(x(t), hi(t)))), tag=tag)
    s.forall(f'{who}: off -> rate is zero', 0, env.n, lambda t: z3.Implies(z3.Not(BIN(on(t))), EQ(x(t), 0)), tag=tag)


EPSR = z3.RealVal(str(EPS))


def zmax(a, b):
    return z3.If(a >= b, a, b)


def contributions(s, env, w, effect, op=None, inv=None, name=None):
    """The operation / investment totals of an effect are exactly the given contributions."""
    name = name or effect
    ts = w.var(f'{effect}__operation_operation_sum_TS')
    op_sum, inv_sum, tot = w.var(f'{effect}__operation_operation_sum'), w.var(f'{effect}__invest_invest_sum'), w.var(f'{effect}__all_all_sum')
    s.forall(f'{name}: operation contributions per step', 0, env.n, lambda t: EQ(ts(t), op(t) if op else z3.RealVal(0)))
    s.fact(f'{name}: operation total', lambda: EQ(op_sum(0), env.SUM(0, env.n, lambda t: ts(t))))
    s.fact(f'{name}: investment total', lambda: EQ(inv_sum(0), inv() if inv else z3.RealVal(0)))
    s.fact(f'{name}: overall total', lambda: EQ(tot(0), op_sum(0) + inv_sum(0)))


def product(**axes):
    import itertools

    ks = list(axes)
    return [dict(zip(ks, vs)) for vs in itertools.product(*axes.values())]


def switch_existence(s, env, w, pre, on, was_on=None):
    """Start-ups are modelled as soon as hours of operation are limited (C06 owns the clauses; used as context here)."""
    if not w.has(pre + '_switchOn'):
        return
    a, b, k = w.var(pre + '_switchOn'), w.var(pre + '_switchOff'), w.var(pre + '_nrSwitchOn')
    s.forall('start-ups', 1, env.n, lambda t: z3.And(EQ(a(t) - b(t), on(t) - on(t - 1)), LE(a(t) + b(t), 1)), tag='assume')
    s.fact('first start-up', lambda: z3.And(EQ(a(0) - b(0), on(0) - (z3.If(was_on, z3.RealVal(1), z3.RealVal(0)) if was_on is not None else 0)), LE(a(0) + b(0), 1)), tag='assume')
    s.fact('number of start-ups', lambda: EQ(k(0), env.SUM(0, env.n, lambda t: a(t))), tag='assume')
