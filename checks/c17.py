"""Compiled templates are never changed and can be shared."""
import sys
import threading

from harness import disorder
from harness import gen
from harness import pair
from harness.lang import CE
from harness.obs import Skip
from harness.obs import Violation
from harness.obs import clip

from checks.common import build

ID = 'C17'
LEVEL = 'exploration'
RULE = ('Each case renders one compiled set of templates many times: '
        'repeatedly, after failures injected at engine calls, nested inside '
        'engine calls, interleaved call by call under a seeded schedule, in '
        'free running threads, and with every list and dictionary of the '
        'compiled form replaced by one that refuses changes.  Every '
        'rendering must give the output and the engine events of a '
        'rendering of a freshly compiled template, and the compiled form '
        'must read the same before and after.  Non-trivial: more than one '
        'engine event; distinct by output, events and schedule.')
REQUIRED = ('html', 'xml', 'snapshot', 'guarded', 'after failure', 'nested',
            'views', 'interleaved', 'switches', 'threads', 'twice', 'use',
            'units', 'loops', 'handled errors', 'options',
            'in disorder')
CPU = 60

PROFILE = dict(metal=.3, onerror=.12, error=.04, translate=.15, name=.3,
               i18nattrs=.12, domain=.1, data=.3, attributes=.3, repeat=.15,
               structure=.3, script=.05, pre=0, extend=.3, turn=.2,
               crlf=.05)


def freeze(x, memo=None):
    """A structural description of a compiled template."""
    if isinstance(x, CE):
        return ('CE', x.expr)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(y) for y in x])
    if isinstance(x, dict):
        return ('dict', [(k, freeze(v)) for k, v in x.items()])
    return (type(x).__name__, repr(x))


def _refuse(name):
    def method(self, *args, **kw):
        raise Violation('compiled template changed while rendering',
                        operation=name)
    return method


class FrozenList(list):
    for _n in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort',
               'reverse', '__setitem__', '__delitem__', '__iadd__',
               '__imul__'):
        locals()[_n] = _refuse('list.' + _n)


class FrozenDict(dict):
    for _n in ('__setitem__', '__delitem__', 'pop', 'popitem', 'clear',
               'update', 'setdefault', '__ior__'):
        locals()[_n] = _refuse('dict.' + _n)


def guard(x):
    if type(x) is list:
        return FrozenList([guard(y) for y in x])
    if type(x) is tuple:
        return tuple([guard(y) for y in x])
    if type(x) is dict:
        return FrozenDict([(k, guard(v)) for k, v in x.items()])
    return x


class View:
    """A read-only view, as a security proxy gives: what is taken out of it
    is a view, too."""

    def __init__(self, x):
        self._x = x

    __class__ = property(lambda self: type(self._x))

    def __len__(self):
        return len(self._x)

    def __bool__(self):
        return bool(self._x)

    def __iter__(self):
        return iter([view(y) for y in self._x])

    def __contains__(self, y):
        return y in self._x

    def __eq__(self, other):
        return self._x == (other._x if type(other) is View else other)

    def __getitem__(self, k):
        return view(self._x[k])

    def get(self, k, default=None):
        return view(self._x.get(k, default))

    def items(self):
        return [(k, view(v)) for k, v in self._x.items()]

    def keys(self):
        return list(self._x)

    def __repr__(self):
        return repr(self._x)


def view(x):
    return View(x) if type(x) in (list, tuple, dict) else x


def make(r, obs, i):
    g = gen.Gen(r, xml=bool(i % 2), prof=gen.profile(**PROFILE))
    g.budget = r.choice((10, 20))
    case = gen.make_case(g, r.choice((1, 1, 2)), file=r.random() < .8)
    return disorder.perhaps(r, obs, case)


def observed(res):
    return (res.out, res.exc, res.trace, res.errors, res.problems)


def fresh(case, fault=(), **kw):
    case.compile()
    return observed(pair.run_real(case, fault, **kw))


def options(r):
    return r.choice(({}, {}, {}, {'sourceAnnotations': True}, {'tal': 0},
                     {'metal': 0}, {'strictinsert': 0},
                     {'showtal': 1, 'tal': 0}, {'wrap': 40},
                     {'i18nInterpolate': 0}))


def faults(r, n, always=False):
    if n and (always or r.random() < .4):
        return frozenset(r.randrange(n) for _ in range(r.choice((1, 1, 2))))
    return frozenset()


def check(want, got, case, how, **more):
    if want == got:
        return
    names = ('output', 'exception', 'engine events', 'handled errors',
             'protocol')
    for name, a, b in zip(names, want, got):
        if a != b:
            i = pair.first_diff(a, b) if a and b else None
            raise Violation('%s differ %s' % (name, how), expected=clip(
                a if i is None else a[max(0, i - 20):i + 60]), observed=clip(
                b if i is None else b[max(0, i - 20):i + 60]),
                first_difference=i, **case.describe(), **more)


def start(r, obs, i):
    case = make(r, obs, i)
    build(case)
    want = fresh(case)
    if len(want[2]) < 2:
        raise Skip('no events')
    obs.count('xml' if case.main.xml else 'html')
    obs.count('handled errors', len(want[3]))
    for e in want[2]:
        if e[0] == 'macro':
            obs.count('use')
        elif e[0] == 'translate':
            obs.count('units')
        elif e[0] == 'repeat':
            obs.count('loops')
    return case, want


def repeated(r, obs, i):
    """One after another, also after failures and with other settings."""
    case, want = start(r, obs, i)
    a = freeze((case.program, case.macros, case.rmacros))
    case.compile()
    b = freeze((case.program, case.macros, case.rmacros))
    obs.ev()
    obs.count('twice')
    if a != b:
        raise Violation('compiling twice gives different results',
                        **case.describe())
    done = []
    n = len(want[2])
    for k in range(r.choice((2, 4, 6))):
        fault = faults(r, n)
        kw = options(r)
        # what a fresh compilation gives under these conditions
        shared = case.program, case.macros, case.rmacros
        expected = fresh(case, fault, **kw) if fault or kw else want
        case.program, case.macros, case.rmacros = shared
        got = observed(pair.run_real(case, fault, **kw))
        obs.ev()
        obs.count('after failure', any(d[0] for d in done))
        obs.count('options', bool(kw))
        done.append((sorted(fault), kw))
        check(expected, got, case, 'from a fresh rendering', history=done)
    obs.count('snapshot')
    if freeze((case.program, case.macros, case.rmacros)) != b:
        raise Violation('compiled template changed by rendering',
                        history=done, **case.describe())
    obs.seen(want[0], done)
    obs.sample(template=clip(case.main.source, 300), history=repr(done))


def guarded(r, obs, i):
    """Every list and dictionary of the compiled form refuses changes."""
    case, want = start(r, obs, i)
    fault = faults(r, len(want[2]))
    kw = options(r)
    want = fresh(case, fault, **kw)
    case.rmacros = {k: guard(v) for k, v in case.rmacros.items()}
    case.program, case.macros = guard(case.program), guard(case.macros)
    res = pair.run_real(case, fault, **kw)
    if isinstance(res.error, Violation):
        raise Violation(res.error.what, fault=sorted(fault), settings=kw,
                        **res.error.detail, **case.describe())
    obs.ev()
    obs.count('guarded')
    check(want, observed(res), case, 'with a guarded template')
    obs.seen(want[0], sorted(fault))


def proxied(r, obs, i):
    """The engine gives macros as read-only views."""
    case, want = start(r, obs, i)
    fault = faults(r, len(want[2]))
    kw = options(r)
    want = fresh(case, fault, **kw)
    case.rmacros = {k: view(v) for k, v in case.rmacros.items()}
    got = observed(pair.run_real(case, fault, **kw))
    obs.ev()
    obs.count('views', sum(e[0] == 'macro' for e in want[2]))
    check(want, got, case, 'with views of macros', fault=sorted(fault),
          settings=kw)
    obs.seen(want[0], sorted(fault))


def nested(r, obs, i):
    """A complete rendering of the same templates inside an engine call."""
    case, want = start(r, obs, i)
    n = len(want[2])
    inner_fault = faults(r, n)
    inner_want = fresh(case, inner_fault)
    outer_fault = faults(r, n)
    outer_want = fresh(case, outer_fault)
    at = set(r.sample(range(n), min(n, r.choice((1, 2, 4)))))

    def hook(engine, kind):
        if len(engine.trace) in at:
            got = observed(pair.run_real(case, inner_fault))
            obs.ev()
            obs.count('nested')
            if got != inner_want:
                bad.append(got)

    bad = []
    got = observed(pair.run_real(case, outer_fault, hook))
    for b in bad:
        check(inner_want, b, case, 'inside another rendering', at=sorted(at))
    check(outer_want, got, case, 'around another rendering', at=sorted(at))
    obs.ev()
    obs.seen(want[0], sorted(at), sorted(inner_fault), sorted(outer_fault))


class Turns:
    """Lets exactly one of several threads run, as a schedule says."""

    def __init__(self, rng, n):
        self.rng = rng
        self.go = [threading.Semaphore(0) for _ in range(n)]
        self.live = list(range(n))
        self.switches = 0

    def pick(self):
        return self.rng.choice(self.live)

    def step(self, me):
        k = self.pick()
        if k != me:
            self.switches += 1
            self.go[k].release()
            self.go[me].acquire()

    def finish(self, me):
        self.live.remove(me)
        if self.live:
            self.go[self.pick()].release()


def together(case, jobs, turns):
    results = [None] * len(jobs)

    def run(k):
        if turns:
            turns.go[k].acquire()
        hook = (lambda engine, kind: turns.step(k)) if turns else None
        try:
            results[k] = observed(pair.run_real(case, jobs[k], hook))
        except BaseException as exc:
            results[k] = exc
        finally:
            if turns:
                turns.finish(k)

    threads = [threading.Thread(target=run, args=(k,))
               for k in range(len(jobs))]
    for t in threads:
        t.start()
    if turns:
        turns.go[turns.pick()].release()
    for t in threads:
        t.join()
    for x in results:
        if isinstance(x, BaseException):
            raise x
    return results


def interleaved(r, obs, i):
    """Several renderings take turns at every engine call."""
    case, want = start(r, obs, i)
    n = len(want[2])
    jobs = [faults(r, n) for _ in range(r.choice((2, 2, 3)))]
    expected = [fresh(case, f) for f in jobs]
    turns = Turns(r, len(jobs))
    got = together(case, jobs, turns)
    obs.ev(len(jobs))
    obs.count('interleaved')
    obs.count('switches', turns.switches)
    for a, b in zip(expected, got):
        check(a, b, case, 'when interleaved', jobs=[sorted(j) for j in jobs])
    obs.seen(want[0], [sorted(j) for j in jobs], turns.switches)


def threads(r, obs, i):
    """Free running threads with the shortest switching interval."""
    case, want = start(r, obs, i)
    n = len(want[2])
    jobs = [faults(r, n) for _ in range(4)]
    expected = [fresh(case, f) for f in jobs]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        got = together(case, jobs, None)
    finally:
        sys.setswitchinterval(old)
    obs.ev(len(jobs))
    obs.count('threads', len(jobs))
    for a, b in zip(expected, got):
        check(a, b, case, 'in threads', jobs=[sorted(j) for j in jobs])
    obs.seen(want[0], [sorted(j) for j in jobs], 'threads')


FAMILIES = [
    ('repeated', repeated, 5000, 40000),
    ('guarded', guarded, 6000, 50000),
    ('proxied', proxied, 4000, 30000),
    ('nested', nested, 3000, 25000),
    ('interleaved', interleaved, 2400, 20000),
    ('threads', threads, 1200, 10000),
]
