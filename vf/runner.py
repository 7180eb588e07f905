"""check <PROPERTY> <quick|thorough>: discharge the property's obligations, cross-check concretely, write evidence."""
import fnmatch
import gc
import hashlib
import importlib
import json
import logging
import os
import pickle
import select
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get('VF_JOBS', '8'))


# --------------------------------------------------------------------------------------------------------------------
# forked tasks
# --------------------------------------------------------------------------------------------------------------------
class Task:
    def __init__(self, key, fn, timeout):
        self.key, self.fn, self.timeout = key, fn, timeout


def run_tasks(tasks, budget_end, on_result=None):
    """Every task in its own forked process; returns {key: ('ok', value) | ('error', text) | ('timeout', None)}."""
    results = {}
    queue = list(tasks)[::-1]
    running = {}
    while queue or running:
        while queue and len(running) < NPROC:
            t = queue.pop()
            if time.time() > budget_end:
                results[t.key] = ('timeout', None)
                continue
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    gc.freeze()
                    gc.set_threshold(200000, 20, 20)
                    os.setpgid(0, 0)
                    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)  # solvers print
                    val = ('ok', t.fn())
                except BaseException:
                    val = ('error', traceback.format_exc())
                try:
                    data = pickle.dumps(val)
                except Exception:
                    data = pickle.dumps(('error', 'result not picklable: ' + traceback.format_exc()))
                try:
                    with os.fdopen(w, 'wb') as fh:
                        fh.write(data)
                except BaseException:
                    code = 1
                os._exit(code)
            os.close(w)
            running[r] = (t, pid, time.time(), [])
        if not running:
            break
        rd, _, _ = select.select(list(running), [], [], 0.5)
        for fd in rd:
            t, pid, t0, buf = running[fd]
            chunk = os.read(fd, 1 << 16)
            if chunk:
                buf.append(chunk)
                continue
            os.close(fd)
            os.waitpid(pid, 0)
            del running[fd]
            try:
                results[t.key] = pickle.loads(b''.join(buf))
            except Exception:
                results[t.key] = ('error', 'worker died')
            if os.environ.get('VF_VERBOSE'):
                print(f'{time.time() - t0:7.1f} s  {t.key}  {results[t.key][0]}', file=sys.stderr, flush=True)
            if on_result:
                on_result(t.key, results[t.key])
        now = time.time()
        for fd, (t, pid, t0, buf) in list(running.items()):
            if now - t0 > t.timeout or now > budget_end + 10:
                try:
                    os.kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                os.waitpid(pid, 0)
                os.close(fd)
                del running[fd]
                results[t.key] = ('timeout', None)
    return results


# --------------------------------------------------------------------------------------------------------------------
# tracing which functions of the repository were executed symbolically (evidence only)
# --------------------------------------------------------------------------------------------------------------------
class FunctionTrace:
    def __init__(self):
        self.names = set()

    def __enter__(self):
        mon = sys.monitoring

        def start(co, offset):
            if '/flixOpt/' in co.co_filename:
                self.names.add(f'{os.path.basename(co.co_filename)[:-3]}.{co.co_qualname}')
            return mon.DISABLE

        mon.use_tool_id(mon.PROFILER_ID, 'vf')
        mon.restart_events()
        mon.register_callback(mon.PROFILER_ID, mon.events.PY_START, start)
        mon.set_events(mon.PROFILER_ID, mon.events.PY_START)
        return self

    def __exit__(self, *a):
        sys.monitoring.set_events(sys.monitoring.PROFILER_ID, 0)
        sys.monitoring.free_tool_id(sys.monitoring.PROFILER_ID)


def sym_task(scn, cfg, seconds):
    def go():
        from . import contracts, prover, scenario

        contracts.install()
        with FunctionTrace() as ft:
            recs = scenario.verify_symbolic(scn, cfg, time.time() + seconds)
        return recs, dict(prover.STATS), sorted(ft.names)

    return go


def conc_task(scn, cfg, seeds, seconds, values=None, n=None):
    def go():
        from . import scenario

        out = []
        end = time.time() + seconds
        for s in seeds:
            env = scenario.ConcEnv(s, n=n, values=values)
            r = scenario.check_concrete(scn, cfg, env)
            r['seed'] = s
            if r['status'] != 'violation':
                r.pop('assignment', None)
            out.append(r)
            if r['status'] == 'violation' or time.time() > end:
                break
        return out

    return go


def ce_task(scn, cfg, seconds):
    """Counterexample search with all numbers symbolic and a fixed small horizon (no quantifiers left)."""

    def go():
        from . import contracts, scenario

        contracts.install()
        return scenario.fixed_horizon(scn, cfg, time.time() + seconds)

    return go


# --------------------------------------------------------------------------------------------------------------------
def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def match_known(known, prop, rec):
    for k in known:
        if k.get('status') != 'known' or k['property'] != prop:
            continue
        if k.get('scenario') and k['scenario'] != rec.get('scenario'):
            continue
        cfg = rec.get('config', {})
        if any(cfg.get(a) != b for a, b in k.get('config', {}).items()):
            continue
        if k.get('clause') and not fnmatch.fnmatch(str(rec.get('clause', rec.get('name'))), k['clause']):
            continue
        return k
    return None


class Outcome:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.obligations = []  # records of the deductive part
        self.bounded = []  # records of the concrete part
        self.violations = []  # (record, replayable)
        self.known = []
        self.functions = set()
        self.stats = {}
        self.assumptions = []
        self.notes = []


def write_replay(prop, rec):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    txt = json.dumps(rec, indent=1, default=str, sort_keys=True)
    h = hashlib.sha1(txt.encode()).hexdigest()[:10]
    p = os.path.join(d, f'{prop}-{h}.json')
    open(p, 'w').write(txt)
    return p


def seed_base():
    try:
        return int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        return 1


def run_scenarios(out, scns, tier, t_end):
    sb = seed_base() * 1000
    nseeds = 6 if tier == 'quick' else 60
    tasks = []
    index = {}
    for scn in scns:
        for i, cfg in enumerate(scn.configs(tier)):
            index[(scn.name, i)] = (scn, cfg)
    sym_secs = 160 if tier == 'quick' else 400
    for (name, i), (scn, cfg) in index.items():
        if getattr(scn, 'bounded_only', False):
            continue
        tasks.append(Task(('sym', name, i), sym_task(scn, cfg, sym_secs), sym_secs + 30))
    for (name, i), (scn, cfg) in index.items():
        tasks.append(Task(('conc', name, i), conc_task(scn, cfg, range(sb, sb + nseeds), 40 if tier == 'quick' else 300), 90 if tier == 'quick' else 400))
    res = run_tasks(tasks, t_end)
    violated = set()
    suspects = []
    for (kind, name, i), r in res.items():
        scn, cfg = index[(name, i)]
        from .scenario import cfg_json

        base = dict(scenario=name, config=cfg_json(cfg))
        if kind == 'conc':
            if r[0] != 'ok':
                out.bounded.append(dict(base, status='unknown', reason=r[0] + ' ' + str(r[1])[-300:]))
                continue
            for rec in r[1]:
                out.bounded.append(rec)
                if rec['status'] == 'violation':
                    violated.add((name, i))
                    out.violations.append((rec, True))
        else:
            if r[0] != 'ok':
                out.obligations.append(dict(base, name='symbolic execution', status='undecided', reason=r[0] + ' ' + str(r[1])[-600:]))
                continue
            recs, stats, names = r[1]
            out.functions |= set(names)
            for k, v in stats.items():
                out.stats[k] = out.stats.get(k, 0) + v
            out.obligations += recs
            if any(x['status'] == 'refuted' for x in recs):
                suspects.append((name, i))
    # refuted obligations: look for a concrete failing input
    todo = [s for s in suspects if s not in violated]
    if todo:
        end = min(t_end + 120, time.time() + 240)
        t2 = []
        for s in todo:
            scn, cfg = index[s]
            t2.append(Task(('conc2',) + s, conc_task(scn, cfg, range(sb + 5000, sb + 5040), 60), 90))
            t2.append(Task(('ce',) + s, ce_task(scn, cfg, 60), 100))
        r2 = run_tasks(t2, end)
        t3 = []
        ce = {}
        for s in todo:
            scn, cfg = index[s]
            k = r2.get(('conc2',) + s)
            if k and k[0] == 'ok':
                for rec in k[1]:
                    if rec['status'] == 'violation' and s not in violated:
                        violated.add(s)
                        out.violations.append((rec, True))
            k = r2.get(('ce',) + s)
            ce[s] = k
            if s not in violated and k and k[0] == 'ok':
                for q, c in enumerate(k[1]):
                    if c['status'] == 'refuted' and c.get('values'):
                        t3.append(Task(('rp',) + s + (q,), conc_task(scn, cfg, [sb], 40, values=c['values'], n=c['n']), 60))
        r3 = run_tasks(t3, end + 60)
        spurious = set()
        for key, k in r3.items():
            s = key[1:3]
            if k[0] == 'ok':
                if all(rec['status'] == 'ok' for rec in k[1]):
                    spurious.add(key[1:])
                for rec in k[1]:
                    if rec['status'] == 'violation' and s not in violated:
                        violated.add(s)
                        out.violations.append((rec, True))
        for s in todo:
            if s in violated:
                continue
            k = ce.get(s)
            # a counterexample counts unless the real code, run on its values, satisfies the specification; an exception
            # counts only if the real code raises it (the symbolic values may lack an operation)
            ces = [c for q, c in enumerate(k[1]) if c['status'] == 'refuted' and c.get('kind') != 'exception' and s + (q,) not in spurious] if k and k[0] == 'ok' else []
            confirmed = bool(ces)
            bad = [o for o in out.obligations if o['scenario'] == s[0] and o['config'] == cfg_json(index[s][1]) and o['status'] == 'refuted']
            if confirmed:
                rec = dict(bad[0], clause=bad[0]['name'], verifier=ces[:3], failed=[b['name'] for b in bad])
                out.violations.append((rec, False))
            else:
                for b in bad:
                    b['status'] = 'undecided'
                    b['reason'] = 'no counterexample for horizons 2..3 that the real code reproduces'


def main(argv):
    prop, tier = argv[0].upper(), (argv[1] if len(argv) > 1 else 'quick')
    t0 = time.time()
    t_end = t0 + (float(os.environ.get('VF_BUDGET', '420' if tier == 'quick' else '3000')))
    logging.disable(logging.CRITICAL)
    out = Outcome(prop, tier)
    mod = importlib.import_module(f'vf.props.{prop.lower()}')
    try:
        import flixOpt  # noqa: F401
        logging.disable(logging.CRITICAL)
        ok = True
    except Exception:
        ok = False
        out.violations.append((dict(scenario='import', config={}, clause='the package can be imported', trace=traceback.format_exc()), True))
    if ok:
        scns = getattr(mod, 'SCENARIOS', [])
        if scns:
            run_scenarios(out, scns, tier, t_end)
        if hasattr(mod, 'run'):
            mod.run(out, tier, t_end)
    return finish(out, mod, t0)


def finish(out, mod, t0):
    known = load_known()
    reported = []
    seen_known = {}
    groups = {}
    for rec, rep in out.violations:
        k = match_known(known, out.prop, rec)
        if k:
            seen_known[k['id']] = k
            continue
        g = (rec.get('scenario'), rec.get('clause'))
        if g in groups:
            continue
        groups[g] = 1
        reported.append((rec, rep))
    for k in seen_known.values():
        print(f"KNOWN-FINDING: property={out.prop} {k['what']}")
    obl = out.obligations
    n_proved = sum(o['status'] == 'proved' for o in obl)
    n_ref = sum(o['status'] == 'refuted' for o in obl)
    n_und = sum(o['status'] == 'undecided' for o in obl)
    b_ok = sum(b['status'] == 'ok' for b in out.bounded)
    b_unk = sum(b['status'] == 'unknown' for b in out.bounded)
    # refuted obligations that belong to a known finding are not counted as discharged
    code = 0
    lines = []
    for rec, rep in reported[:12]:
        path = write_replay(out.prop, dict(rec, property=out.prop, replay='concrete' if rep else 'obligation'))
        lines.append(f'VIOLATION property={out.prop} replay={path}' + ('' if rep else ' no-failing-input-found'))
        print(f"failed: {rec.get('scenario')} {rec.get('config')} :: {rec.get('clause')} -- {rec.get('detail', rec.get('reason', ''))}"[:600])
        code = 1
    for ln in lines:
        print(ln)
    if not reported and not obl and not out.bounded:
        print('no obligation was generated')
        code = 2
    samples = [o for o in obl if o['status'] == 'proved'][:3]
    undecided = [dict(scenario=o['scenario'], config=o['config'], name=o['name'], reason=str(o.get('reason'))[:160]) for o in obl if o['status'] == 'undecided']
    level = getattr(mod, 'LEVEL', 'proof')
    back = {}
    for o in obl:
        if o['status'] == 'proved':
            b = str(o.get('backend', 'z3')).split(':')[0]
            back[b] = back.get(b, 0) + 1
    cov = dict(
        obligations=len(obl),
        discharged=n_proved,
        undecided=n_und,
        refuted=n_ref,
        bounded_instances=len(out.bounded),
        bounded_ok=b_ok,
        bounded_unknown=b_unk,
        back_ends=back,
        solver_time_s=round(out.stats.get('time', 0.0), 2),
        solver_queries=out.stats.get('queries', 0),
        functions_under_contract=sorted(out.functions)[:400],
        checker_cmd=f'bash /verif/check.sh {out.prop} {out.tier}',
        trusted_base=list(getattr(mod, 'TRUSTED', [])) + TRUSTED,
        explanation=getattr(mod, 'EXPLANATION', EXPLANATION),
        sample_obligations=[dict(name=o['name'], scenario=o['scenario'], config=o['config']) for o in samples],
        undecided_obligations=undecided[:60],
        bounded_note='obligations listed as undecided are only covered by the bounded concrete instances (horizons 2-4, random dyadic parameters); they are not counted as discharged',
    )
    cov.update(getattr(out, 'extra_coverage', {}))
    ev = dict(
        property=out.prop, tier=out.tier, seed=seed_base(), level=level, coverage=cov, wall_s=round(time.time() - t0, 2),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + ASSUMPTIONS + out.assumptions,
        violations=len(reported),
        violation_records=[dict(scenario=r.get('scenario'), config=r.get('config'), clause=r.get('clause')) for r, _ in reported],
        known_findings=[k['what'] for k in seen_known.values()],
    )
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{out.prop}.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    print(f'{out.prop} {out.tier}: obligations {len(obl)} (proved {n_proved}, undecided {n_und}, refuted {n_ref}); bounded instances {len(out.bounded)} '
          f'(ok {b_ok}, unknown {b_unk}); {ev["wall_s"]} s')
    return code


EXPLANATION = (
    'The functions of /repo are executed by CPython on symbolic values (horizon length N, all numbers and the scalar/array shape of every '
    'parameter are symbolic); every path yields the generated constraints. Obligations: each clause of the specification follows from the '
    'generated rows and bounds (soundness) and each generated row and bound follows from the specification (nothing feasible is cut off), for all N. '
    'z3 discharges them, cvc5 is the fall-back. The same scenario is run concretely through real numpy and pyomo as a cross-check.'
)
ASSUMPTIONS = [
    'machine arithmetic of the coefficients is treated as exact real arithmetic in the proofs (the concrete cross-check uses exact rationals of the real floats and a tolerance of 1e-6)',
    'the set of structural configurations (which options are present, how many flows/effects/segments) is enumerated; numbers and horizon length are universally quantified',
]
TRUSTED = [
    'z3 / cvc5', 'CPython', 'the engine in /verif/vf (symbolic value classes and the numpy/builtin shims in shims.py)',
    'pyomo component construction and the numeric solver',
]
