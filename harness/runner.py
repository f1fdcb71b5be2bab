"""Runs the workload of one check in parallel under its monitors, writes the
evidence and reports violations."""
import gc
import importlib
import json
import multiprocessing
import os
import resource
import signal
import sys
import threading
import time
import traceback

from harness import env
from harness.obs import Obs
from harness.obs import Skip
from harness.obs import Violation

WORKERS = 8
CPU_LIMIT = 60          # CPU seconds for one case; usual cases take < 0.1
MEM_LIMIT = 3 << 30     # address space of a worker
UNDECIDED = 20          # cases of a worker the harness may fail on
# Development only: a part of the cases, for tools/seedtable.py.
SCALE = float(os.environ.get('VERIF_SCALE', '1'))
WALL = {'quick': 420, 'thorough': 3600}


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


def families(mod):
    return mod.FAMILIES


def budget(mod, tier):
    """Number of cases per family."""
    out = []
    for fam in families(mod):
        name, func, quick, thorough = fam
        n = quick if tier == 'quick' else thorough
        out.append((name, func, max(1, int(n * SCALE)) if n else 0))
    return out


def from_sut(tb):
    """Did the exception come out of the code under test?"""
    src = os.path.join(os.path.realpath(env.REPO_SRC), 'zope', 'tal')
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if os.path.realpath(fn).startswith(src):
            return True
        tb = tb.tb_next
    return False


def run_case(mod, name, func, seed, index, obs):
    """Run one case; returns None or (what, detail)."""
    r = env.rng(seed, mod.ID, name, index)
    obs.family, obs.index = name, index
    if threading.current_thread() is threading.main_thread():
        signal.signal(signal.SIGVTALRM, _alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL,
                         getattr(mod, "CPU", CPU_LIMIT), 5)
    try:
        try:
            func(r, obs, index)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except Violation as v:
        return v.what, v.detail
    except Skip:
        obs.count('skipped')
    except Hang:
        tb = sys.exc_info()[2]
        return ('does not come to an end',
                {'traceback': traceback.format_exc()[-3000:],
                 'code under test': from_sut(tb)})
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as exc:
        tb = sys.exc_info()[2]
        text = ''.join(traceback.format_exception(type(exc), exc, tb))
        if type(exc).__name__ == 'ModelBug' or not from_sut(tb):
            return ('HARNESS', {'traceback': text[-4000:]})
        return ('unexpected %s' % type(exc).__name__,
                {'traceback': text[-4000:]})
    return None


class Coverage:
    """Which lines of the code under test were executed (evidence only)."""

    def __init__(self):
        self.lines = set()
        self.src = os.path.join(os.path.realpath(env.REPO_SRC), 'zope', 'tal')

    def start(self):
        mon = getattr(sys, 'monitoring', None)
        if mon is None:
            return
        try:
            mon.use_tool_id(4, 'verif')
        except ValueError:
            return

        def line(code, lineno):
            fn = code.co_filename
            if fn.startswith(self.src) and 'tests' not in fn:
                self.lines.add((os.path.basename(fn), lineno))
            return mon.DISABLE

        mon.register_callback(4, mon.events.LINE, line)
        mon.set_events(4, mon.events.LINE)


def worker(mod, tier, seed, wid, nworkers, stop, deadline, queue):
    try:
        try:
            resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
        except (ValueError, OSError):
            pass
        if hasattr(mod, 'init_worker'):
            mod.init_worker()
        obs = Obs()
        cov = Coverage()
        cov.start()
        bad = []
        done = {}
        cut = False
        undecided = 0
        plan = []
        for name, func, n in budget(mod, tier):
            mine = range(wid, n, nworkers)
            plan.extend(((i + .5) / n, name, func, i) for i in mine)
            done[name] = 0
        plan.sort(key=lambda t: (t[0], t[1]))   # spread over the families
        for _, name, func, i in plan:
            if stop.is_set():
                break
            if time.monotonic() > deadline:
                cut = True
                break
            res = run_case(mod, name, func, seed, i, obs)
            done[name] += 1
            if res is not None:
                bad.append((name, i, res[0], res[1]))
                if res[0] == 'HARNESS' and undecided < UNDECIDED:
                    # another case may show what is wrong
                    undecided += 1
                elif not known(mod.ID, res[0]):
                    stop.set()
                    break
        queue.put({'wid': wid, 'n': dict(obs.n), 'distinct': obs.distinct,
                   'evaluations': obs.evaluations, 'samples': obs.samples,
                   'bad': bad, 'done': done, 'cut': cut,
                   'lines': cov.lines})
    except BaseException:
        queue.put({'wid': wid, 'crash': traceback.format_exc()})


_known = None


def known(prop, what):
    """The known finding that explains *what*, if there is one."""
    global _known
    if _known is None:
        _known = []
        try:
            with open(env.KNOWN) as f:
                for line in f:
                    if line.startswith('known: '):
                        head, _, text = line[7:].strip().partition(' :: ')
                        p, _, key = head.partition(' ')
                        _known.append((p.partition('=')[2], key, text))
        except FileNotFoundError:
            pass
    for p, key, text in _known:
        if p == prop and key == what:
            return text
    return None


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def dump(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = '%s.%d' % (path, os.getpid())
    with open(tmp, 'w', encoding='utf-8', errors='backslashreplace') as f:
        json.dump(jsonable(data), f, indent=1, ensure_ascii=True)
        f.write('\n')
    os.replace(tmp, path)


def load(prop):
    return importlib.import_module('checks.' + prop.lower())


def main(argv):
    prop = argv[0]
    env.setup()
    mod = load(prop)
    if len(argv) > 2 and argv[1] == '--replay':
        return replay(mod, argv[2])
    tier, seed = env.tier(), env.seed()
    t0 = time.monotonic()
    nworkers = int(os.environ.get('VERIF_WORKERS', WORKERS))
    ctx = multiprocessing.get_context('fork')
    stop, queue = ctx.Event(), ctx.Queue()
    deadline = t0 + WALL[tier]
    if hasattr(mod, 'prepare'):
        mod.prepare(tier, seed)
    gc.freeze()
    procs = [ctx.Process(target=worker, args=(
        mod, tier, seed, w, nworkers, stop, deadline, queue))
        for w in range(nworkers)]
    for p in procs:
        p.start()
    results, crashes = [], []
    for _ in procs:
        while True:
            try:
                res = queue.get(timeout=5)
                break
            except Exception:
                if not any(p.is_alive() for p in procs):
                    res = {'crash': 'worker died without a report'}
                    break
        if 'crash' in res:
            crashes.append(res['crash'])
            stop.set()
        else:
            results.append(res)
    for p in procs:
        p.join(timeout=20)
        if p.is_alive():
            p.kill()
    return report(mod, tier, seed, results, crashes, t0)


def report(mod, tier, seed, results, crashes, t0):
    prop = mod.ID
    counts, distinct, lines = {}, set(), set()
    evaluations, samples, bad, done = 0, [], [], {}
    cut = False
    for r in sorted(results, key=lambda r: r['wid']):
        for k, v in r['n'].items():
            counts[k] = counts.get(k, 0) + v
        distinct |= r['distinct']
        lines |= r['lines']
        evaluations += r['evaluations']
        samples.extend(r['samples'])
        bad.extend(r['bad'])
        cut = cut or r['cut']
        for k, v in r['done'].items():
            done[k] = done.get(k, 0) + v
    bad.sort(key=lambda b: (b[0], b[1]))
    harness = [b for b in bad if b[2] == 'HARNESS']
    found = {}
    listed = {}
    for name, i, what, detail in bad:
        if what == 'HARNESS':
            continue
        text = known(prop, what)
        if text is not None:
            listed[what] = text
        else:
            found.setdefault(what, (name, i, detail))
    replays = []
    for what, (name, i, detail) in list(found.items())[:5]:
        path = os.path.join(env.REPLAYS, '%s-%s-%d-%d.json' % (
            prop, name, seed, i))
        dump(path, {'property': prop, 'family': name, 'case': i,
                    'seed': seed, 'tier': tier, 'what': what,
                    'detail': detail})
        replays.append((what, path))
    byfile = {}
    for fn, _ in lines:
        byfile[fn] = byfile.get(fn, 0) + 1
    missing = [k for k in getattr(mod, 'REQUIRED', ()) if not counts.get(k)]
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(distinct),
            'rule': mod.RULE,
            'samples': samples[:6],
            'cases': done,
            'observed': dict(sorted(counts.items())),
            'lines_of_code_under_test_executed': dict(sorted(byfile.items())),
            'stopped_by_time': cut,
            'not_reached': missing,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', ())),
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': len(found),
    }
    dump(os.path.join(env.EVIDENCE, prop + '.json'), evidence)
    for text in listed.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    if found:
        for what, path in replays:
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  ' + what)
        return 1
    if harness or crashes:
        for b in harness[:2]:
            print('harness error in %s case %d:\n%s' % (
                b[0], b[1], b[3]['traceback']), file=sys.stderr)
        for c in crashes[:2]:
            print('worker crash:\n' + c, file=sys.stderr)
        return 2
    if missing:
        print('inconclusive: never observed: %s' % ', '.join(missing),
              file=sys.stderr)
        return 2
    print('%s held: %d executions judged, %d distinct, %.1f s' % (
        prop, evaluations, len(distinct), evidence['wall_s']))
    return 0


def replay(mod, path):
    with open(path, encoding='utf-8') as f:
        rec = json.load(f)
    if hasattr(mod, 'prepare'):
        mod.prepare(rec['tier'], rec['seed'])
    if hasattr(mod, 'init_worker'):
        mod.init_worker()
    obs = Obs()
    for name, func, _ in budget(mod, rec['tier']):
        if name == rec['family']:
            res = run_case(mod, name, func, rec['seed'], rec['case'], obs)
            if res is None:
                print('%s case %d holds now' % (name, rec['case']))
                return 0
            what, detail = res
            print(what)
            print(json.dumps(jsonable(detail), indent=1, ensure_ascii=False))
            if what == 'HARNESS':
                return 2
            print('VIOLATION property=%s replay=%s' % (mod.ID, path))
            return 1
    print('no family %r' % rec['family'], file=sys.stderr)
    return 2
