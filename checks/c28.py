"""Rendering leaves nothing behind."""
import gc
import sys
import types
import weakref

from zope.tal.taldefs import TALError
from zope.tal.talinterpreter import TALInterpreter

from checks.common import build
from harness import disorder
from harness import gen
from harness import lang
from harness import pair
from harness import sut
from harness.engine import Engine
from harness.obs import Skip
from harness.obs import Violation
from harness.obs import clip
from harness.obs import say

ID = 'C28'
LEVEL = 'exploration'
RULE = ('The cycle collector is switched off; each case renders templates '
        'with failures injected at engine calls, drops what the caller '
        'holds, and asks weak references to the renderer, the engine, the '
        'stream, the values, loop iterators, mappings, error informations '
        'and exceptions.  Containers and default arguments of the modules '
        'under test are compared before and after.  Finished renderers are '
        'called again; failed ones run between renderings of others.  '
        'Non-trivial: more than one engine event; distinct by output and '
        'events.')
REQUIRED = ('html', 'xml', 'completed', 'failed', 'handled', 'renderer',
            'engine', 'stream', 'value', 'exception', 'iterator',
            'error information', 'called again', 'called a third time',
            'after failure of another', 'modules', 'use', 'units', 'slots',
            'structure', 'annotations', 'compiled template',
            'in disorder')
CPU = 60

PROFILE = dict(metal=.25, onerror=.2, error=.06, translate=.15, name=.4,
               i18nattrs=.12, domain=.1, data=.3, attributes=.3, repeat=.2,
               structure=.35, script=.05, pre=0, extend=.3, turn=.2,
               define=.3, glob=.3, fill=.5)


class Value:
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text

    def __repr__(self):
        return 'Value(%r)' % self.text


class Failure(Exception):
    pass


class Engine28(Engine):
    """Keeps nothing itself; reports every object it hands out."""

    def __init__(self, macros, values, fault, refs):
        Engine.__init__(self, macros, values)
        self.faults = frozenset(fault)
        self.refs = refs
        self.n = 0
        self.kinds = set()

    def track(self, kind, x):
        self.refs.append((kind, weakref.ref(x)))
        return x

    def event(self, kind, what, *more):
        self.ticks += 1
        self.n += 1
        self.kinds.add(kind)
        if self.n - 1 in self.faults:
            raise self.track('exception', Failure('fault'))

    def _expr(self, ce, kind):
        self.event(kind, ce.expr)
        v = lang.evaluate(ce.expr, self)
        if type(v) is lang.Thing:
            v = self.track('value', Value(v.text))
        elif kind == 'value' and isinstance(v, str):
            v = self.track('value', Value(v))
        elif kind == 'structure' and isinstance(v, str):
            v = self.track('value', Value(v))
        elif isinstance(v, (Value, lang.Thing)):
            self.track('value', v)
        return v

    def setRepeat(self, name, ce):
        return self.track('iterator', Engine.setRepeat(self, name, ce))

    def createErrorInfo(self, exc, position):
        info = Engine.createErrorInfo(self, exc, position)
        return self.track('error information', info)


def case_of(r, obs, i):
    g = gen.Gen(r, xml=bool(i % 2), prof=gen.profile(**PROFILE))
    g.budget = r.choice((10, 20))
    n = r.choice((0, 1, 1, 2))
    if n:
        case = gen.make_case(g, n, file=r.random() < .8)
    else:
        doc = gen.make_doc(g, 'main.pt')
        case = pair.Case(doc, (), g.values, g.fragments)
    return disorder.perhaps(r, obs, case)


def settings(r):
    kw = r.choice(({}, {}, {}, {'strictinsert': 0}, {'wrap': 40},
                   {'i18nInterpolate': 0}, {'tal': 0}, {'metal': 0}))
    kw = dict({'wrap': 0}, **kw)
    if r.random() < .3:
        kw['sourceAnnotations'] = 1
    return kw


def events(case, kw):
    e = Engine28(case.rmacros, case.values, (), [])
    try:
        sut.render(case.program, case.macros, e, **kw)
    except BaseException as exc:
        if isinstance(exc, (KeyboardInterrupt, MemoryError)):
            raise
    return e.n


def once(case, fault, kw, obs, keep):
    """Render, drop everything, return weak references."""
    refs = []
    engine = Engine28(case.rmacros, case.values, fault, refs)
    stream = sut.Stream()
    renderer = TALInterpreter(case.program, case.macros, engine, stream, **kw)
    refs += [('renderer', weakref.ref(renderer)),
             ('engine', weakref.ref(engine)),
             ('stream', weakref.ref(stream))]
    failed = False
    try:
        renderer()
    except BaseException as exc:
        if isinstance(exc, (KeyboardInterrupt, MemoryError)):
            raise
        failed = True
    obs.count('failed' if failed else 'completed')
    obs.count('handled', len(engine.errors))
    for k, name in (('macro', 'use'), ('translate', 'units'),
                    ('structure', 'structure')):
        if k in engine.kinds:
            obs.count(name)
    # An engine that failed is left inside the scopes of the failure; what
    # its variables hold is the engine's business.
    engine.scopes = [{}]
    engine.globals = {}
    keep.append((stream.getvalue(), engine.n, failed))
    return refs


def blame(ref):
    """Who holds the object?"""
    out = []
    for x in gc.get_referrers(ref())[:4]:
        if isinstance(x, types.FrameType):
            out.append('frame %s' % x.f_code.co_name)
        else:
            out.append(clip('%s %r' % (type(x).__name__, x), 200))
    return out


def lifetime(r, obs, i):
    case = build(case_of(r, obs, i))
    obs.count('xml' if case.main.xml else 'html')
    obs.count('slots', sum('slot' in d.source for d in case.docs()))
    kw = settings(r)
    if 'sourceAnnotations' in kw:
        obs.count('annotations')
    n = events(case, kw)
    if not n:
        raise Skip('no events')
    keep = []
    gc.collect()
    gc.disable()
    try:
        for k in range(3):
            fault = () if not k else {r.randrange(n) for _ in range(k)}
            refs = once(case, fault, kw, obs, keep)
            obs.ev()
            for kind, ref in refs:
                if ref() is not None:
                    raise Violation(
                        '%s is kept alive' % kind, fault=sorted(fault),
                        failed=keep[-1][2], settings=kw,
                        referrers=blame(ref), **case.describe())
                obs.count(kind)
        # the compiled template itself
        class Holder(list):
            pass
        program = Holder(case.program)
        ref = weakref.ref(program)
        try:
            sut.render(program, case.macros,
                       Engine(case.rmacros, case.values), **dict(kw, tal=0))
        except (lang.Lookup, TALError):
            pass
        case.program = None
        del program
        if ref() is not None:
            raise Violation('compiled template is kept alive',
                            referrers=blame(ref), **case.describe())
        obs.count('compiled template')
    finally:
        gc.enable()
    obs.seen(keep)
    obs.sample(template=clip(case.main.source, 300), settings=kw,
               renderings=[clip(k, 120) for k in keep])


class Engine28b(Engine):
    def reset(self):
        self.trace = []
        self.ticks = 0
        self.globals = {}
        self.errors = []


def again(r, obs, i):
    """Call a finished renderer again, with failures of others between."""
    case = build(case_of(r, obs, i))
    other = build(case_of(r, obs, i + r.randrange(2)))
    kw = settings(r)
    engine = Engine28b(case.rmacros, case.values)
    stream = sut.Stream()
    renderer = TALInterpreter(case.program, case.macros, engine, stream, **kw)
    seen = []
    for k in range(3):
        if k:
            fail(r, obs, other if r.random() < .5 else case, kw)
        start = len(stream.parts)
        engine.reset()
        try:
            renderer()
        except BaseException as exc:
            if isinstance(exc, (KeyboardInterrupt, MemoryError)):
                raise
            if not k:
                raise Skip('fails')
            raise Violation('finished renderer fails when called again',
                            error=say(exc),
                            settings=kw, call=k + 1, **case.describe())
        out = ''.join(stream.parts[start:])
        seen.append((out, engine.trace, engine.errors))
        obs.ev()
        if seen[k] != seen[0]:
            n = [j for j in range(3) if seen[k][j] != seen[0][j]][0]
            raise Violation(
                '%s of a second call differ' % ('output', 'engine calls',
                                                'errors')[n],
                expected=clip(seen[0][n]), observed=clip(seen[k][n]),
                at=pair.first_diff(seen[0][n], seen[k][n]),
                settings=kw, call=k + 1, **case.describe())
        obs.count(('first call', 'called again', 'called a third time')[k])
    if engine.problems or len(engine.scopes) != 1:
        raise Violation('engine left unbalanced', settings=kw,
                        problems=engine.problems, **case.describe())
    if len(engine.trace) > 1:
        obs.seen(seen[0][0], [e[:2] for e in seen[0][1]])


def fail(r, obs, case, kw):
    n = events(case, kw)
    if n:
        e = Engine28(case.rmacros, case.values, {r.randrange(n)}, [])
        try:
            sut.render(case.program, case.macros, e, **kw)
        except BaseException as exc:
            if isinstance(exc, (KeyboardInterrupt, MemoryError)):
                raise
            obs.count('after failure of another')


MODULES = ('talinterpreter', 'talgenerator', 'taldefs', 'htmltalparser',
           'talparser', 'xmlparser', 'translationcontext', 'interfaces')


def describe(x, depth=0):
    if depth > 4:
        return type(x).__name__
    if isinstance(x, (list, tuple)):
        return [describe(y, depth + 1) for y in x]
    if isinstance(x, (set, frozenset)):
        return sorted(map(repr, x))
    if isinstance(x, dict):
        return sorted((repr(k), describe(v, depth + 1))
                      for k, v in x.items())
    if isinstance(x, types.FunctionType):
        return [x.__name__, describe(x.__defaults__, depth + 1),
                describe(x.__kwdefaults__, depth + 1),
                sorted(x.__dict__)]
    if isinstance(x, type) and x.__module__.startswith('zope.tal.'):
        return [x.__name__] + sorted(
            (k, describe(v, depth + 1)) for k, v in vars(x).items()
            if not k.startswith('__') or k == '__init__')
    if depth and isinstance(x, (str, int, float, type(None))):
        return repr(x)
    # What a name stands for may be found out late; only what is
    # collected in containers counts.
    return type(x).__name__ if depth else ''


def state():
    out = {}
    for name in MODULES:
        m = sys.modules.get('zope.tal.' + name)
        if m is None:
            continue
        for k, v in vars(m).items():
            if k.startswith('__') or isinstance(v, types.ModuleType):
                continue
            out[name + '.' + k] = describe(v)
    return out


def modules(r, obs, i):
    """No module of the package remembers anything."""
    before = None
    for k in range(16):
        case = build(case_of(r, obs, i + k))
        kw = settings(r)
        n = events(case, kw)
        fail(r, obs, case, kw)
        if k < 4:
            before = state()    # lazy imports are done
            continue
        obs.ev()
        after = state()
        if before != after:
            names = sorted(n for n in set(before) | set(after)
                           if before.get(n) != after.get(n))
            raise Violation('rendering changed the modules', changed=[
                '%s: %s -> %s' % (n, clip(before.get(n), 200),
                                  clip(after.get(n), 200)) for n in names],
                **case.describe())
        obs.seen(n, kw)
    obs.count('modules')


FAMILIES = [('lifetime', lifetime, 7500, 20000),
            ('again', again, 10000, 30000),
            ('modules', modules, 64, 800)]
