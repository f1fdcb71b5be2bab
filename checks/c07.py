"""Fault enumeration: a failure at every engine call of a rendering."""
from checks.common import TRACE
from checks.common import build
from checks.common import differ
from checks.common import grown
from harness import gen
from harness import lang
from harness import pair
from harness import wide
from harness.engine import Engine
from harness.obs import Skip
from harness.obs import Violation
from harness.obs import clip
from harness.obs import expect
from harness.tree import Elem
from harness.tree import Text

ID = 'C07'
LEVEL = 'fault_enumeration'
RULE = TRACE + ('Each template is first rendered without failures to number '
                'its engine calls; then a failure is injected at each call in '
                'turn (all of them, or an even selection when there are more '
                'than the cap), at pairs of calls, and at all calls from some '
                'point on.  Failures of all other calls of the engine, '
                'such as the opening of scopes, are injected without the '
                'reference: what follows the handler must be rendered as '
                'if nothing had failed.  Non-trivial: the failure struck '
                'inside an element with a handler; distinct by output and event sequence.')
REQUIRED = ('html', 'xml', 'use', 'units', 'loops', 'handled errors',
            'unhandled', 'named', 'slot filled', 'handler failed',
            'position checked', 'grown', 'large', 'failed setPosition',
            'failed setSourceFile', 'failed beginScope', 'failed endScope',
            'failed setLocal', 'failed createErrorInfo', 'failed getValue',
            'failed translate')

ALL = (0, 1, 2, 3, 4, 5)


class FaultBase(BaseException):
    """An injected failure that is no Exception."""


def enumerate_faults(prof, libs, cap):
    def run(r, obs, i):
        g = gen.Gen(r, xml=bool(i % 2), prof=gen.profile(**prof))
        g.budget = r.choice((8, 15, 25))
        n = r.choice(libs)
        if n:
            case = gen.make_case(g, n)
        else:
            case = pair.Case(gen.make_doc(g, 'main.pt'), (), g.values,
                             g.fragments)
        build(case)
        obs.count('xml' if g.xml else 'html')
        base = pair.run_model(case)
        for k, v in base.stats.items():
            obs.count(k, v)
        judge(obs, case, ())
        count = len(base.trace)
        if not count:
            return
        points = list(range(count))
        if count > cap:
            points = sorted(r.sample(points, cap))
        exc = r.choice((lang.Fault, lang.Fault, FaultBase))
        for k in points:
            judge(obs, case, (k,), exc)
        for _ in range(min(4, count)):
            a = r.randrange(count)
            judge(obs, case, (a, a + 1 + r.randrange(4)), exc)
        a = r.randrange(count)
        judge(obs, case, tuple(range(a, a + 200)), exc)
    return run


def judge(obs, case, fault, exc=lang.Fault):
    mod = pair.run_model(case, fault=fault, fault_exc=exc)
    real = pair.run_real(case, fault=fault, fault_exc=exc)
    obs.ev()
    differ(pair.compare(real, mod, ALL, None, True, True), case, real, mod,
           fault=list(fault)[:5], kind=exc.__name__)
    if real.exc == exc.__name__ and real.error not in real.engine.raised:
        expect(False, 'exception reaching the caller is not the one raised',
               observed=repr(real.error), **case.describe())
    if fault and real.errors:
        obs.count('handled errors')
        obs.count('position checked', len(real.errors))
        obs.seen(real.out, [e[:2] for e in real.trace])
        obs.sample(template=clip(case.main.source, 400),
                   fault_at=list(fault)[:3], output=clip(real.out, 300),
                   handled=[repr(e) for e in real.errors[:3]])
    if real.exc:
        obs.count('unhandled')
        if real.errors:
            obs.count('handler failed')


BASE = dict(define=.25, condition=.12, repeat=.15, content=.2, replace=.1,
            attributes=.25, omit=.12, onerror=.35, glob=.2)
I18N = dict(translate=.25, name=.5, i18nattrs=.15, domain=.2, data=.3, pre=0,
            message=.1)

METAL = dict(metal=.6, fill=.7, deep=.75, extend=.5)

MARK = 's:MARK'
START = 's:START'
END = 's:END'


class AnyCall(Engine):
    """Counts the calls of the engine up to a mark, and fails at some."""

    def __init__(self, *args, at=(), **kw):
        Engine.__init__(self, *args, **kw)
        self.at = frozenset(at)
        self.calls = []
        self.part = []
        self.marked = None

    def tick(self):
        return 7

    def called(self, name):
        if self.marked is None:
            self.calls.append(name)
            if len(self.calls) - 1 in self.at:
                exc = lang.Fault('call %d' % len(self.calls))
                self.raised.append(exc)
                raise exc

    def event(self, kind, what, *more):
        if what in (START, END):
            self.part.append(len(self.calls))
        elif what == MARK:
            self.marked = len(self.trace), len(self.scopes)
        Engine.event(self, kind, what, *more)


def failing(name):
    method = getattr(Engine, name)

    def call(self, *args, **kw):
        self.called(name)
        return method(self, *args, **kw)
    return call


#: each fails before it has any effect
for _name in ('setPosition', 'setSourceFile', 'beginScope', 'endScope', 'setLocal', 'setGlobal', 'getValue', 'evaluate',
              'evaluateValue', 'evaluateBoolean', 'evaluateText',
              'evaluateStructure', 'evaluateMacro', 'setRepeat', 'translate',
              'createErrorInfo', 'evaluateCode'):
    setattr(AnyCall, _name, failing(_name))


def anycall(r, obs, i):
    """Failures of any call of the engine, not only of expressions; what
    follows the handler must go on as if nothing had happened."""
    g = gen.Gen(r, xml=bool(i % 2), prof=gen.profile(**CALLS))
    libs = gen.make_case(g, r.choice((0, 1))).libs
    g.budget = r.choice((6, 15))
    block = g.nodes(gen.Ctx(), 0, top=True)
    g.budget = r.choice((4, 10))
    rest = g.nodes(gen.Ctx(), 0, top=True)
    block = ([Elem('em', stm={'tal:content': ('text', START)})] + block +
             [Elem('em', stm={'tal:content': ('text', END)})])
    for _ in range(2):
        block = [Elem('div', stm={'tal:on-error': ('text', 's:HANDLED')},
                      children=block)]
    doc = gen.make_doc(g, 'main.pt', nodes=block + [
        Elem('em', stm={'tal:content': ('text', MARK)}), Text('x')] + rest)
    case = pair.Case(doc, libs, g.values, g.fragments)
    build(case)
    obs.count('xml' if g.xml else 'html')
    plain = pair.run_real(case, engine=AnyCall)
    if len(plain.engine.part) != 2:
        raise Skip('does not get there')
    first, last = plain.engine.part
    ends = [k for k in range(first, last)
            if not plain.engine.calls[k].startswith('evaluate')]
    for k in range(6):
        at = {r.choice(ends) if r.random() < .7 else r.randrange(first, last)}
        if r.random() < .3:
            at.add(min(at) + r.randint(1, 6))
        real = pair.run_real(case, engine=lambda *a, **kw: AnyCall(
            *a, at=at, **kw))
        obs.ev()
        obs.count('failed calls', len(real.engine.raised))
        where = [real.engine.calls[k] for k in sorted(at)
                 if k < len(real.engine.calls)]
        for name in where:
            obs.count('failed ' + name)
        detail = dict(case.describe(), calls=where, output=clip(real.out))
        if real.engine.marked is None:
            if real.exc != 'Fault' or len(real.engine.raised) < 2:
                raise Violation('failure of the engine not handled',
                                exception=real.exc, **detail)
            continue
        if real.engine.problems or real.engine.marked[1] \
                != plain.engine.marked[1]:
            raise Violation('scopes after a failure', expected=plain.
                            engine.marked, observed=real.engine.marked,
                            problems=real.engine.problems, **detail)
        x = plain.trace[plain.engine.marked[0]:]
        y = real.trace[real.engine.marked[0]:]
        if x != y or plain.exc != real.exc:
            raise Violation('after a failure what follows differs',
                            expected=repr(x), observed=repr(y), **detail)
        x = plain.out[plain.out.index('MARK'):]
        if real.out[real.out.index('MARK'):] != x:
            raise Violation('after a failure output differs', expected=x,
                            **detail)
        obs.seen(real.out, where)


CALLS = dict(BASE, metal=.3, fill=.5, extend=.3, script=.03, error=.02,
             onerror=.2, **I18N)
CALLS.update(glob=0)

FAMILIES = [
    ('anycall', anycall, 4000, 30000),
    ('tal', enumerate_faults(BASE, (0,), 25), 4000, 30000),
    ('macros', enumerate_faults(dict(BASE, **METAL), (1, 2), 20), 5000, 40000),
    ('i18n', enumerate_faults(dict(BASE, **I18N), (0,), 20), 3000, 25000),
    ('all', enumerate_faults(dict(BASE, metal=.3, script=.03, error=.03,
                                  **I18N), (1, 2), 20), 3000, 25000),
    ('grown', grown(wide.handlers, wide.nest,
                    fields=(0, 1, 2, 3, 4), errors=True), 1600, 16000),
]
