"""
Search engine: shards each property's sub-checks over worker processes, counts what was generated,
and turns a (shrunk) failure into a replay file.

A property module ``props.cNN`` defines ``SUBS``: a list of :class:`Sub`.  A sub-check's ``check``
takes a JSON case and a :class:`Ctx`, raises on a violation, and returns a (list of) label(s) if the
case was non-trivial, or None if it was trivial.
"""
import argparse, hashlib, importlib, json, math, multiprocessing as mp, os, queue, shutil, sys, tempfile, time
import traceback, warnings
from dataclasses import dataclass, field
from pathlib import Path
from typing import Any, Callable

ROOT = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get('VERIF_REPO', '/repo'))


class Violation(AssertionError):
    """The property does not hold for this case."""


class HarnessError(Exception):
    """The check itself could not be carried out."""


def require(cond, msg, **detail):
    if not cond:
        if detail:
            msg = msg + ' | ' + ', '.join(f'{k}={_short(v)}' for k, v in detail.items())
        raise Violation(msg)


def _short(v):
    s = repr(v)
    return s if len(s) < 400 else s[:400] + '...'


@dataclass
class Sub:
    name: str
    strategy: Callable[[], Any]
    check: Callable[[Any, 'Ctx'], Any]
    quick: int
    thorough: int
    rule: str
    shards: int = 8
    examples: list = field(default_factory=list)


class Ctx:
    """Per worker context: scratch directories."""

    def __init__(self, base: Path):
        self.base = base
        self.n = 0
        self._dirs = []

    def tmp(self) -> Path:
        self.n += 1
        d = self.base / f'c{os.getpid()}_{self.n}'
        d.mkdir(parents=True)
        self._dirs.append(d)
        return d

    def cleanup(self):
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)
        self._dirs = []


def _np_default(o):
    import numpy as np
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    return repr(o)


def dumps(case):
    return json.dumps(case, default=_np_default, sort_keys=True)


ENV_ERRORS = (MemoryError,)


def run_case(sub: Sub, case, ctx: Ctx):
    """Run one case.  Returns labels; raises Violation or HarnessError."""
    import numpy as np
    # the case must be self-contained JSON: decouple it from the check
    case = json.loads(dumps(case))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                return sub.check(case, ctx)
    except (Violation, HarnessError):
        raise
    except ENV_ERRORS as ex:
        raise HarnessError(f'{type(ex).__name__}: {ex}') from ex
    except OSError as ex:
        if ex.errno in (28, 24, 12):  # no space, fds, memory
            raise HarnessError(f'{type(ex).__name__}: {ex}') from ex
        raise Violation(_ex_msg(ex)) from ex
    except Exception as ex:
        if type(ex).__module__.startswith('hypothesis'):
            raise
        raise Violation(_ex_msg(ex)) from ex
    finally:
        ctx.cleanup()


def _ex_msg(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    where = [f for f in tb if str(REPO) in f.filename] or tb
    f = where[-1]
    cause = f' (from {type(ex.__cause__).__name__}: {ex.__cause__})' if ex.__cause__ else ''
    return f'unexpected {type(ex).__name__}: {ex}{cause} at {f.filename}:{f.lineno}'


def run_task(sub: Sub, shard: int, n: int, seed: int, ctx: Ctx, budget: float, cur_file: Path, count: bool = True) -> dict:
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings
    import hypothesis.internal.conjecture.engine as hc_engine

    hc_engine.MAX_SHRINKING_SECONDS = 40
    res = dict(sub=sub.name, shard=shard, evaluations=0, hashes=set(), labels={}, samples=[], failure=None, error=None, skipped=0, trivial=0)
    t0 = time.monotonic()
    state = dict(fail=None, fail_len=None)

    def one(case):
        if state['fail'] is None and time.monotonic() - t0 > budget:
            res['skipped'] += 1
            return
        s = dumps(case)
        cur_file.write_text(json.dumps(dict(sub=sub.name, case=json.loads(s))))
        try:
            labels = run_case(sub, case, ctx)
        except Violation as ex:
            if state['fail'] is None or len(s) <= state['fail_len']:
                state['fail'], state['fail_len'] = (json.loads(s), str(ex)), len(s)
            raise
        if state['fail'] is None:
            res['evaluations'] += 1
            if labels:
                labels = [labels] if isinstance(labels, str) else list(labels)
                h = hashlib.md5((sub.name + s).encode()).digest()[:8]
                res['hashes'].add(h)
                for lb in labels:
                    res['labels'][lb] = res['labels'].get(lb, 0) + 1
                if len(res['samples']) < 2:
                    res['samples'].append(json.loads(s))
            else:
                res['trivial'] += 1

    try:
        if shard == 0:
            for case in sub.examples:
                one(case)
        test = settings(
            max_examples=n, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
            suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink], print_blob=False,
            verbosity=Verbosity.quiet,
        )(hypothesis.seed(seed)(given(sub.strategy())(one)))
        test()
    except HarnessError as ex:
        res['error'] = f'{sub.name}: {ex}\n{traceback.format_exc()}'
    except BaseException as ex:
        if state['fail'] is None:
            res['error'] = f'{sub.name}: {type(ex).__name__}: {ex}\n{traceback.format_exc()}'
    if state['fail'] is not None:
        res['failure'] = dict(sub=sub.name, case=state['fail'][0], message=state['fail'][1])
        res['error'] = None
    res['wall'] = time.monotonic() - t0
    return res


def _quiet_libs(tmp):
    import logging
    os.environ['PROJ_USER_WRITABLE_DIRECTORY'] = str(tmp)
    import cv2
    cv2.setNumThreads(1)
    logging.disable(logging.WARNING)


def worker(mod_name, tasks, results, base, budget, wid):
    base = Path(base)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)  # libraries may print; only the parent reports
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(devnull, 2)
    mod = importlib.import_module(mod_name)
    subs = {s.name: s for s in mod.SUBS}
    cur_file = base / f'cur{wid}.json'
    ctx = Ctx(base)
    while True:
        try:
            t = tasks.get(timeout=0.5)
        except queue.Empty:
            continue
        if t is None:
            results.put(None)
            return
        name, shard, n, seed = t
        results.put(('res', run_task(subs[name], shard, n, seed, ctx, budget, cur_file)))


def _seed(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], 'big')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--sub', action='append')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--no-evidence', action='store_true')
    args = ap.parse_args()
    prop = args.prop.upper()
    t0 = time.time()
    base = Path(tempfile.mkdtemp(prefix=f'vf-{prop}-'))
    try:
        code = _main(args, prop, base, t0)
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        shutil.rmtree(base, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


def _main(args, prop, base, t0):
    _quiet_libs(base)
    import orthority
    pkg = Path(orthority.__file__).resolve()
    if REPO.resolve() not in pkg.parents:
        print(f'orthority imported from {pkg}, not {REPO}', file=sys.stderr)
        return 2
    mod_name = f'props.{prop.lower()}'
    mod = importlib.import_module(mod_name)
    subs = {s.name: s for s in mod.SUBS}

    if args.replay:
        rp = json.loads(Path(args.replay).read_text())
        try:
            labels = run_case(subs[rp['sub']], rp['case'], Ctx(base))
        except Violation as ex:
            print(f'{rp["sub"]}: {ex}')
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
            print(f'VIOLATION property={prop} replay={args.replay}')
            return 1
        print(f'replay passed: {labels}')
        return 0

    # optional known findings: list of (text) for findings which still reproduce
    tasks_list = []
    for s in mod.SUBS:
        if args.sub and s.name not in args.sub:
            continue
        n = s.quick if args.tier == 'quick' else s.thorough
        n = max(1, int(n * args.scale))
        shards = min(s.shards, n)
        for k in range(shards):
            tasks_list.append((s.name, k, math.ceil(n / shards), _seed(args.seed, prop, s.name, k)))
    # interleave so that the slowest sub-checks start first
    budget = 200 if args.tier == 'quick' else 3600 * 3
    ctx = mp.get_context('fork')
    tasks, results = ctx.Queue(), ctx.Queue()
    for t in tasks_list:
        tasks.put(t)
    nproc = min(args.jobs, len(tasks_list))
    for _ in range(nproc):
        tasks.put(None)
    procs = [ctx.Process(target=worker, args=(mod_name, tasks, results, str(base), budget, i), daemon=True) for i in range(nproc)]
    for p_ in procs:
        p_.start()

    agg = {s.name: dict(evaluations=0, hashes=set(), labels={}, samples=[], skipped=0, trivial=0, wall=0.0) for s in mod.SUBS}
    failure = error = None
    done = 0
    t_fail = None
    while done < nproc:
        try:
            msg = results.get(timeout=1.0)
        except queue.Empty:
            msg = 'none'
        if msg is None:
            done += 1
            continue
        if msg == 'none':
            dead = [(i, p_) for i, p_ in enumerate(procs) if p_.exitcode not in (None, 0)]
            if dead and failure is None:
                i, p_ = dead[0]
                cf = base / f'cur{i}.json'
                if p_.exitcode == -9 or not cf.exists():
                    error = f'worker {i} died with exit code {p_.exitcode}'
                else:
                    cur = json.loads(cf.read_text())
                    failure = dict(**cur, message=f'process crashed with exit code {p_.exitcode}')
                break
        else:
            r = msg[1]
            a = agg[r['sub']]
            a['evaluations'] += r['evaluations']
            a['hashes'] |= r['hashes']
            a['skipped'] += r['skipped']
            a['trivial'] += r['trivial']
            a['wall'] += r['wall']
            for k, v in r['labels'].items():
                a['labels'][k] = a['labels'].get(k, 0) + v
            a['samples'] = (a['samples'] + r['samples'])[:2]
            if r['error'] and error is None:
                error = r['error']
                break
            if r['failure']:
                if failure is None or len(dumps(r['failure']['case'])) < len(dumps(failure['case'])):
                    failure = r['failure']
                break
    for p_ in procs:
        if p_.is_alive():
            p_.terminate()
    for p_ in procs:
        p_.join(timeout=5)
        if p_.is_alive():
            p_.kill()

    wall = time.time() - t0
    evid = dict(
        property=prop, tier=args.tier, seed=args.seed, level='exploration',
        coverage=dict(
            evaluations=sum(a['evaluations'] for a in agg.values()),
            distinct_nontrivial=sum(len(a['hashes']) for a in agg.values()),
            rule=' || '.join(f'{s.name}: {s.rule}' for s in mod.SUBS),
            samples=[dict(sub=k, case=_trunc(c)) for k, a in agg.items() for c in a['samples']],
            per_check={
                k: dict(evaluations=a['evaluations'], distinct_nontrivial=len(a['hashes']), trivial=a['trivial'],
                        labels=dict(sorted(a['labels'].items())), not_run_time_budget=a['skipped'],
                        cpu_s=round(a['wall'], 1))
                for k, a in agg.items()
            },
        ),
        assumptions=getattr(mod, 'ASSUMPTIONS', []),
        wall_s=round(wall, 2), violations=1 if failure else 0,
    )
    if not args.no_evidence:
        (ROOT / 'evidence').mkdir(exist_ok=True)
        (ROOT / 'evidence' / f'{prop}.json').write_text(json.dumps(evid, indent=1, default=_np_default))
    if failure:
        (ROOT / 'replays').mkdir(exist_ok=True)
        rel = f'replays/{prop}-{failure["sub"]}.json'
        (ROOT / rel).write_text(json.dumps(dict(property=prop, **failure), indent=1))
        print(f'{failure["sub"]}: {failure["message"]}')
        print(f'VIOLATION property={prop} replay={rel}')
        return 1
    if error:
        print(error, file=sys.stderr)
        return 2
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            for line in getattr(mod, 'known_findings', lambda b: [])(base):
                print(line)
        except Exception as ex:
            print(f'known findings could not be reproduced: {type(ex).__name__}: {ex}', file=sys.stderr)
    cov = evid['coverage']
    print(f'{prop} ok: {cov["evaluations"]} cases, {cov["distinct_nontrivial"]} distinct non-trivial, {wall:.1f} s')
    for k, a in cov['per_check'].items():
        print(f'   {k}: {a}')
    return 0


def _trunc(c):
    s = dumps(c)
    return c if len(s) < 3000 else s[:3000] + '...'
