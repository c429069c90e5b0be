"""Runner for the runtime monitors: loads the code under test from the repository's working tree,
drives the workloads of one property in parallel, collects what the monitors observed, and turns
that into one of three verdicts (held / violated / inconclusive)."""
import concurrent.futures as cf
import contextlib
import ctypes
import hashlib
import importlib
import io
import json
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))
CASE_ALARM = 150           # seconds before a case is re-run under a logical step budget ...
CASE_CPU = 45              # ... sooner when it has spent as many seconds computing
STEP_BUDGET = 300_000_000  # executed repository lines; ordinary cases need < 1e6, the largest some 1e7
MEM_LIMIT = 3 << 30


class Violation(Exception):
    def __init__(self, what, **detail):
        super().__init__(what)
        self.what = what
        self.detail = detail


class Inconclusive(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class StepBudget(BaseException):
    pass


class Lib:
    """The code under test."""

    def __init__(self):
        sys.dont_write_bytecode = True
        # never read (possibly stale) bytecode lying in the repository
        sys.pycache_prefix = os.path.join(VERIF, 'replays', '.no-pycache')
        warnings.simplefilter('ignore')
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        self.st = importlib.import_module('gcs.slice_tools')
        self.sg = importlib.import_module('gcs.storage')
        self.gb = importlib.import_module('gcs_basics')
        for m in (self.st, self.sg, self.gb):
            f = os.path.realpath(m.__file__)
            if not f.startswith(REPO + os.sep):
                raise Inconclusive('%s was loaded from %s' % (m.__name__, f))
        for c in ('Buffer', 'Strided', 'COO', 'FlatCOO', 'CSR', 'DM'):
            setattr(self, c, getattr(self.sg, c))


_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = Lib()
    return _lib


def h64(x):
    return int.from_bytes(hashlib.blake2b(repr(x).encode('utf-8', 'replace'), digest_size=8).digest(), 'big')


class Ctx:
    """What one worker observed."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.events = {}
        self.states = set()
        self.cases = 0
        self.nontrivial = set()
        self.samples = {}
        self.known_hits = {}
        self.reset()

    def reset(self):
        self.desc = {}
        self.trace = []
        self.sig = None
        self.trivial = False

    # --- what workloads call
    def describe(self, **kw):
        """Describe the current case (replay information)."""
        self.desc.update(kw)

    def step(self, *what):
        """Append to the history of the current case."""
        self.trace.append(what)

    def event(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + n

    def state(self, *key):
        if len(self.states) < 400000:
            self.states.add(h64(key))

    def check(self, cond, what, **detail):
        if not cond:
            raise Violation(what, **detail)

    def eq(self, got, want, what, **detail):
        if not (got == want):
            raise Violation(what, got=got, want=want, **detail)

    def known(self, key, what, **detail):
        """A violation whose mechanism may be a listed known finding."""
        if key in open_findings(self.prop):
            self.known_hits[key] = self.known_hits.get(key, 0) + 1
            return
        raise Violation(what, **detail)


_findings = None


def open_findings(prop):
    global _findings
    if _findings is None:
        _findings = {}
        with open(os.path.join(VERIF, 'known_findings.json')) as f:
            for e in json.load(f)['findings']:
                if e['status'] == 'open':
                    _findings.setdefault(e['property'], {})[e['key']] = e['what']
    return _findings.get(prop, {})


def short(x, n=400):
    try:
        s = repr(x)
    except Exception as e:  # a broken repr must not hide the verdict
        s = '<unprintable %s: %s>' % (type(x).__name__, type(e).__name__)
    return s if len(s) <= n else s[:n] + '...'


# ---------------------------------------------------------------- line reach (evidence only)
class Reach:
    TOOL = 4

    def __init__(self):
        self.hit = set()

    def start(self):
        mon = getattr(sys, 'monitoring', None)
        if mon is None:
            return
        try:
            mon.use_tool_id(self.TOOL, 'vf-reach')
        except ValueError:
            return
        hit = self.hit
        disable = mon.DISABLE

        def on_line(code, line):
            fn = code.co_filename
            if fn.startswith(REPO) and '/tests/' not in fn:
                hit.add((fn[len(REPO) + 1:], code.co_qualname, line))
            return disable
        mon.register_callback(self.TOOL, mon.events.LINE, on_line)
        mon.set_events(self.TOOL, mon.events.LINE)


_reach = Reach()


def run_with_steps(fn):
    """Run fn under a budget of executed repository lines."""
    mon = sys.monitoring
    tool = 3
    mon.use_tool_id(tool, 'vf-steps')
    count = [0]

    def on_line(code, line):
        if not code.co_filename.startswith(REPO):
            return mon.DISABLE
        count[0] += 1
        if count[0] > STEP_BUDGET:
            raise StepBudget()
    try:
        mon.register_callback(tool, mon.events.LINE, on_line)
        mon.set_events(tool, mon.events.LINE)
        mon.restart_events()
        return fn()
    finally:
        mon.set_events(tool, 0)
        mon.free_tool_id(tool)


# ---------------------------------------------------------------- worker side
_W = {}


def _alarm(sig, frm):
    until, cpu = _W.get('limits', (0, 0))
    if time.monotonic() < until and time.process_time() < cpu:
        signal.alarm(15)        # waiting or on a busy machine
        return
    raise CaseTimeout()


def worker_init(prop, tier, seed):
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    if multiprocessing.parent_process() is not None:
        with contextlib.suppress(Exception):    # die with the runner
            ctypes.CDLL(None).prctl(1, signal.SIGKILL, 0, 0, 0)
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    with contextlib.suppress(Exception):
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    sys.setrecursionlimit(5000)
    _reach.start()
    with contextlib.redirect_stdout(io.StringIO()):
        lib()
    _W['mod'] = importlib.import_module('vf.props.' + prop.lower())
    _W['ctx'] = Ctx(prop, tier, seed)


def case_rng(prop, seed, kind, idx):
    return random.Random('%s|%s|%s|%s' % (prop, seed, kind, idx))


def run_case(mod, ctx, kind, idx):
    """Run one case; returns None or a violation record."""
    def go():
        ctx.reset()
        fn = mod.WORKLOADS[kind][0]
        with contextlib.redirect_stdout(io.StringIO()):
            return fn(ctx, case_rng(ctx.prop, ctx.seed, kind, idx), idx)

    def record(what, detail, tb=None):
        return dict(property=ctx.prop, seed=ctx.seed, tier=ctx.tier, kind=kind, case=idx,
                    what=what, detail={k: short(v) for k, v in detail.items()},
                    case_description={k: short(v, 1500) for k, v in ctx.desc.items()},
                    history=[short(t, 300) for t in ctx.trace[-60:]], traceback=tb)
    t0 = time.process_time()
    try:
        _W['limits'] = time.monotonic() + getattr(mod, 'CASE_ALARM', CASE_ALARM), t0 + CASE_CPU
        signal.alarm(CASE_CPU)
        try:
            go()
        finally:
            signal.alarm(0)
            if 'VF_SLOWLOG' in os.environ and time.process_time() - t0 > 1:
                with open(os.environ['VF_SLOWLOG'], 'a') as f:
                    f.write('%s %s %s %.1f\n' % (ctx.prop, kind, idx, time.process_time() - t0))
    except CaseTimeout:
        _W['limits'] = 0, 0
        signal.alarm(500)
        try:
            run_with_steps(go)
            ctx.event('slow_cases')
        except StepBudget:
            return record('no termination within %d executed repository lines' % STEP_BUDGET, {})
        except CaseTimeout:
            raise Inconclusive('case %s/%s: watchdog fired' % (kind, idx))
        except Violation as v:
            return record(v.what, v.detail)
        except Inconclusive:
            raise
        except Exception as e:
            return record('unexpected %s: %s' % (type(e).__name__, short(e, 200)), {}, traceback.format_exc(limit=-12))
        finally:
            signal.alarm(0)
    except Violation as v:
        return record(v.what, v.detail)
    except Inconclusive:
        raise
    except Exception as e:
        return record('unexpected %s: %s' % (type(e).__name__, short(e, 200)), {}, traceback.format_exc(limit=-12))
    ctx.cases += 1
    if not ctx.trivial:
        ctx.nontrivial.add(h64((kind, ctx.sig if ctx.sig is not None else ctx.desc)))
    ctx.samples.setdefault(kind, {k: short(v, 300) for k, v in ctx.desc.items()} or {'case': idx})
    return None


def run_chunk(args):
    kind, lo, hi, deadline = args
    mod, ctx = _W['mod'], _W['ctx']
    done = 0
    viol = None
    err = None
    for idx in range(lo, hi):
        if time.monotonic() > deadline:
            break
        try:
            viol = run_case(mod, ctx, kind, idx)
        except Inconclusive as e:
            err = str(e)
            break
        done += 1
        if viol:
            break
    out = dict(pid=os.getpid(), done=done, viol=viol, err=err, kind=kind, want=hi - lo,
               cases=ctx.cases, events=ctx.events, states=ctx.states, nontrivial=ctx.nontrivial,
               samples=ctx.samples, known=ctx.known_hits, reach=_reach.hit)
    # hand over increments only
    ctx.cases = 0
    ctx.events, ctx.states, ctx.nontrivial, ctx.samples, ctx.known_hits = {}, set(), set(), {}, {}
    out['reach'] = set(_reach.hit)
    return out


# ---------------------------------------------------------------- main side
def executable_lines():
    """Number of lines per module that belong to functions (reach denominator)."""
    res = {}
    for rel in ('gcs/slice_tools.py', 'gcs/storage.py', 'gcs_basics.py'):
        try:
            with open(os.path.join(REPO, rel)) as f:
                code = compile(f.read(), rel, 'exec')
        except Exception:
            continue
        lines = set()

        def walk(c):
            for k in c.co_consts:
                if hasattr(k, 'co_code'):
                    if k.co_name != '<module>':
                        lines.update((k.co_qualname, ln) for _, _, ln in k.co_lines() if ln)
                    walk(k)
        walk(code)
        res[rel] = len({ln for _, ln in lines})
    return res


# by how much quick runs multiply their number of cases (at most to that of thorough runs), about 20 s on 8 cores
QUICK = {'C01': 4, 'C02': 3, 'C05': 2.4, 'C06': 5, 'C07': 2.6, 'C08': 2, 'C09': 1.7, 'C11': 3.5, 'C12': 2, 'C14': 2.5,
         'C15': 1.9, 'C18': 5, 'C19': 5, 'C20': 6, 'C21': 4.3, 'C22': 1.6, 'C25': 6, 'C26': 1.9, 'C27': 1.7, 'C28': 6,
         'C29': 5, 'C30': 2.3, 'C31': 4.4, 'C32': 4.3, 'C33': 3.6, 'C35': 2.9, 'C36': 5}


def main(prop, tier, seed, replay=None):
    t0 = time.monotonic()
    mod = importlib.import_module('vf.props.' + prop.lower())
    if replay:
        with open(replay) as f:
            r = json.load(f)
        worker_init(prop, r['tier'], r['seed'])
        v = run_case(_W['mod'], _W['ctx'], r['kind'], r['case'])
        print(json.dumps(v, indent=1) if v else 'replay: no violation')
        if v:
            print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1 if v else 0

    budget = getattr(mod, 'BUDGET', {}).get(tier, 240 if tier == 'quick' else 1500)
    budget = float(os.environ.get('VERIF_BUDGET', budget))
    deadline = t0 + budget
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    tasks = []
    for kind, (fn, counts) in mod.WORKLOADS.items():
        n = counts[tier]
        if n > 8:
            more = QUICK.get(prop, 1) if tier == 'quick' else 1
            n = max(8, int(max(n, min(n * more, counts['thorough'])) * scale))
        step = max(1, min(getattr(mod, 'CHUNK', 400), (n + 31) // 32))
        tasks.append([(kind, lo, min(n, lo + step), deadline) for lo in range(0, n, step)])
    # round-robin over kinds
    order = []
    i = 0
    while any(tasks):
        for t in tasks:
            if i < len(t):
                order.append(t[i])
        i += 1
        if i >= max(len(t) for t in tasks):
            break

    agg = dict(cases=0, events={}, states=set(), nontrivial=set(), samples={}, known={}, reach=set())
    viols, errs, per_kind = [], [], {}
    truncated = False
    ex = cf.ProcessPoolExecutor(max_workers=WORKERS, initializer=worker_init, initargs=(prop, tier, seed))
    pool_broken = None
    procs = []
    try:
        futs = [ex.submit(run_chunk, t) for t in order]
        procs = list((getattr(ex, '_processes', None) or {}).values())
        for fu in cf.as_completed(futs):
            try:
                o = fu.result()
            except cf.CancelledError:
                continue
            agg['cases'] += o['cases']
            for k, n in o['events'].items():
                agg['events'][k] = agg['events'].get(k, 0) + n
            for k, n in o['known'].items():
                agg['known'][k] = agg['known'].get(k, 0) + n
            agg['states'] |= o['states']
            agg['nontrivial'] |= o['nontrivial']
            agg['reach'] |= o['reach']
            for k, s in o['samples'].items():
                agg['samples'].setdefault(k, s)
            pk = per_kind.setdefault(o['kind'], 0)
            per_kind[o['kind']] = pk + o['done']
            if o['err']:
                errs.append(o['err'])
            if o['viol']:
                viols.append(o['viol'])
            elif o['done'] < o['want'] and not o['err']:
                truncated = True
            if viols:
                for f2 in futs:
                    f2.cancel()
                break
    except cf.process.BrokenProcessPool as e:
        pool_broken = str(e)
    finally:
        ex.shutdown(wait=False, cancel_futures=True)

    wall = time.monotonic() - t0
    need = getattr(mod, 'REQUIRED_EVENTS', ())
    missing = [k for k in need if not agg['events'].get(k)]
    exe = executable_lines()
    reached = {}
    for fn, _q, ln in agg['reach']:
        reached.setdefault(fn, set()).add(ln)
    funcs = sorted({'%s:%s' % (fn, q) for fn, q, _ in agg['reach'] if q != '<module>'})
    coverage = dict(
        evaluations=agg['cases'],
        distinct_nontrivial=len(agg['nontrivial']),
        rule=mod.RULE,
        samples=[dict(workload=k, **v) for k, v in sorted(agg['samples'].items())][:12] or ['none'],
        monitor_events=dict(sorted(agg['events'].items())),
        distinct_states_observed=len(agg['states']),
        cases_per_workload=per_kind,
        truncated_by_time_budget=truncated,
        known_findings_reproduced=agg['known'],
        repository_lines_reached={k: [len(v), exe.get(k)] for k, v in sorted(reached.items()) if k in exe},
        repository_functions_reached=funcs)
    evidence = dict(property=prop, tier=tier, seed=seed, level='exploration', coverage=coverage,
                    assumptions=list(getattr(mod, 'ASSUMPTIONS', ())) + [
                        'held on the executions counted here; nothing is claimed about inputs or schedules not driven',
                        'the oracle uses only CPython list/range/dict/int semantics and no code of the repository'],
                    wall_s=round(wall, 2), violations=len(viols))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=short)

    for key, what in sorted(open_findings(prop).items()):
        if agg['known'].get(key):
            print('KNOWN-FINDING: property=%s %s [%s; %d occurrences]' % (prop, what, key, agg['known'][key]))
    print('%s %s seed=%d: %d cases (%d distinct non-trivial), %d distinct states, events %s, %.1fs%s' % (
        prop, tier, seed, agg['cases'], len(agg['nontrivial']), len(agg['states']),
        json.dumps(coverage['monitor_events']), wall, ' (time budget reached)' if truncated else ''))
    sys.stdout.flush()
    if viols:
        v = min(viols, key=lambda v: len(json.dumps(v)))
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s-%s-%s.json' % (prop, v['seed'], v['kind'], v['case']))
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        print(json.dumps(v, indent=1))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        code = 1
    elif errs or pool_broken:
        print('INCONCLUSIVE: ' + (pool_broken or errs[0]))
        code = 2
    elif missing or not agg['cases']:
        print('INCONCLUSIVE: the deciding monitor was never reached: %s' % (missing or 'no case ran'))
        code = 2
    else:
        code = 0
    sys.stdout.flush()
    for p in procs:
        with contextlib.suppress(Exception):
            p.kill()
    os._exit(code)
