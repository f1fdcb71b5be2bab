"""The output goes to the given stream, and its failures to the caller."""
import contextlib
import io
import os
import tempfile

from zope.tal import talinterpreter
from zope.tal.talinterpreter import TALInterpreter

from checks.c28 import settings
from checks.common import build
from harness import disorder
from harness import gen
from harness import pair
from harness import sut
from harness.engine import Engine
from harness.obs import Skip
from harness.obs import Violation
from harness.obs import clip
from harness.obs import say

ID = 'C34'
LEVEL = 'exploration'
RULE = ('Each set of templates is rendered into a plain recording stream, '
        'then into streams of other kinds (false ones, ones without any '
        'method but the writing one, files, standard output), with other '
        'buffers for captured text, and into streams that fail at a chosen '
        'write.  Output and engine events must be those of the first '
        'rendering; a failing stream must end the rendering with its own '
        'exception, unseen by error handlers, after a prefix of the output '
        'and of the events.  Non-trivial: more than one engine event; '
        'distinct by output, events and stream.')
REQUIRED = ('html', 'xml', 'bare stream', 'false stream', 'empty list stream',
            'text file', 'standard output', 'string stream', 'odd results',
            'failing', 'failing inside handler', 'failing first',
            'failing last', 'other buffers', 'captured', 'handled errors',
            'shared stream', 'annotations', 'failed renderings',
            'in disorder')

PROFILE = dict(metal=.25, onerror=.2, error=.06, translate=.2, name=.4,
               i18nattrs=.12, domain=.1, data=.3, attributes=.3, repeat=.2,
               structure=.35, script=.08, pre=.1, extend=.3, turn=.2,
               define=.3, fill=.5)


class Bare:
    """Nothing but a write method."""
    __slots__ = ('parts', 'write')

    def __init__(self):
        self.parts = []
        self.write = self.parts.append

    def value(self):
        return ''.join(self.parts)


class Strict:
    """Allows nothing but writing."""

    def __init__(self):
        object.__setattr__(self, 'parts', [])

    def __getattribute__(self, name):
        if name == 'write' or name.startswith('__'):
            return object.__getattribute__(self, name)
        raise Violation('stream used for something else than writing',
                        name=name)

    def __setattr__(self, name, value):
        raise Violation('stream changed', name=name)

    def write(self, s):
        object.__getattribute__(self, 'parts').append(s)

    def __eq__(self, other):
        raise Violation('stream compared')

    __hash__ = None


class No(sut.Stream):
    """A stream that is false."""

    def __bool__(self):
        return False

    value = sut.Stream.getvalue


class Empty(list):
    """A stream that is false as long as it is empty."""
    write = list.append

    def value(self):
        return ''.join(self)


class Odd(sut.Stream):
    """Returns what nobody should look at."""

    def write(self, s):
        sut.Stream.write(self, s)
        return (len(s), None, -1, True, 'x')[len(self.parts) % 5]

    value = sut.Stream.getvalue


class Broken(Exception):
    pass


class Interrupt(BaseException):
    pass


class Failing(sut.Stream):
    def __init__(self, at, exc):
        sut.Stream.__init__(self)
        self.at = at
        self.exc = exc
        self.after = 0

    def write(self, s):
        if self.at < 0:
            self.after += 1
        if self.at == 0:
            self.at -= 1
            raise self.exc
        self.at -= 1
        sut.Stream.write(self, s)


def case_of(r, obs, i):
    g = gen.Gen(r, xml=bool(i % 2), prof=gen.profile(**PROFILE))
    g.budget = r.choice((5, 12, 25))
    n = r.choice((0, 0, 1, 2))
    if n:
        case = gen.make_case(g, n, file=r.random() < .8)
    else:
        doc = gen.make_doc(g, 'main.pt' if r.random() < .8 else None)
        case = pair.Case(doc, (), g.values, g.fragments)
    return disorder.perhaps(r, obs, case)


def run(case, stream, kw, factory=TALInterpreter):
    """(exception, engine)"""
    engine = Engine(case.rmacros, case.values)
    try:
        factory(case.program, case.macros, engine, stream, **kw)()
    except BaseException as exc:
        if isinstance(exc, (KeyboardInterrupt, MemoryError, Violation)):
            raise
        return exc, engine
    return None, engine


def name(exc):
    return exc and type(exc).__name__


def first(r, obs, i):
    case = build(case_of(r, obs, i))
    kw = settings(r)
    stream = sut.Stream()
    exc, engine = run(case, stream, kw)
    obs.count('xml' if i % 2 else 'html')
    obs.count('handled errors', len(engine.errors))
    obs.count('annotations', bool(kw.get('sourceAnnotations')))
    obs.count('failed renderings', exc is not None)
    return case, kw, stream, exc, engine


def same(obs, case, kw, want, got, how):
    """(output, exception, engine) twice"""
    obs.ev()
    obs.count(how)
    if want[0] != got[0]:
        raise Violation('output differs: ' + how, expected=clip(want[0]),
                        observed=clip(got[0]), settings=kw,
                        **case.describe())
    if name(want[1]) != name(got[1]):
        raise Violation('outcome differs: ' + how, expected=name(want[1]),
                        observed=say(got[1]),
                        settings=kw, **case.describe())
    a, b = want[2], got[2]
    if a.trace != b.trace or a.errors != b.errors:
        raise Violation('engine events differ: ' + how, at=pair.first_diff(
            a.trace, b.trace), settings=kw, **case.describe())
    if len(a.trace) > 1:
        obs.seen(got[0], [e[:2] for e in b.trace], how)


def kinds(r, obs, i):
    case, kw, stream, exc, engine = first(r, obs, i)
    want = stream.getvalue(), exc, engine
    for how, cls in (('bare stream', Bare), ('false stream', No),
                     ('empty list stream', Empty),
                     ('odd results', Odd)):
        s = cls()
        noise = io.StringIO()
        with contextlib.redirect_stdout(noise):
            e, eng = run(case, s, kw)
        same(obs, case, kw, want, (s.value(), e, eng), how)
        if noise.getvalue():
            raise Violation('printed: ' + how, text=clip(noise.getvalue()),
                            **case.describe())
    s = Strict()
    e, eng = run(case, s, kw)
    parts = object.__getattribute__(s, 'parts')
    if not all(type(x) is str for x in parts):
        raise Violation('something else than plain text written',
                        types=sorted({type(x).__name__ for x in parts}),
                        settings=kw, **case.describe())
    same(obs, case, kw, want, (''.join(parts), e, eng), 'strict stream')
    s = getattr(talinterpreter, 'FasterStringIO', sut.Stream)()
    e, eng = run(case, s, kw)
    same(obs, case, kw, want, (s.getvalue(), e, eng), 'bundled stream')
    s = io.StringIO(newline='')
    e, eng = run(case, s, kw)
    same(obs, case, kw, want, (s.getvalue(), e, eng), 'string stream')
    s = io.StringIO(newline='')
    with contextlib.redirect_stdout(s):
        e, eng = run(case, None, kw)
    same(obs, case, kw, want, (s.getvalue(), e, eng), 'standard output')
    if i % 8 < 2:
        fd, path = tempfile.mkstemp(prefix='c34-')
        os.close(fd)
        try:
            with open(path, 'w', encoding='utf-8', newline='') as f:
                e, eng = run(case, f, kw)
                if f.closed:
                    raise Violation('stream closed', **case.describe())
            with open(path, encoding='utf-8', newline='') as f:
                same(obs, case, kw, want, (f.read(), e, eng), 'text file')
        finally:
            os.unlink(path)
    # two renderings into one stream
    s = sut.Stream()
    s.write('before')
    e, eng = run(case, s, kw)
    s.write('between')
    run(case, s, kw)
    if s.getvalue() != 'before%sbetween%s' % (want[0], want[0]):
        raise Violation('shared stream', expected=clip(want[0]),
                        observed=clip(s.getvalue()), settings=kw,
                        **case.describe())
    obs.count('shared stream')
    obs.sample(template=clip(case.main.source, 300), output=clip(want[0]))


def failing(r, obs, i):
    case, kw, stream, exc, engine = first(r, obs, i)
    n = len(stream.parts)
    if not n:
        raise Skip('no output')
    full = stream.getvalue()
    points = {0, n - 1}
    while len(points) < min(n, 6):
        points.add(r.randrange(n))
    for at in sorted(points):
        fault = r.choice((Broken, OSError, ValueError, Interrupt,
                          GeneratorExit, UnicodeError))('no more')
        s = Failing(at, fault)
        e, eng = run(case, s, kw)
        obs.ev()
        obs.count('failing')
        obs.count('failing first', at == 0)
        obs.count('failing last', at == n - 1)
        obs.count('failing inside handler',
                  'tal:on-error' in case.main.source)
        detail = dict(write=at, settings=kw, error=say(e),
                      written=clip(s.getvalue()), expected=clip(full),
                      **case.describe())
        if e is not fault:
            raise Violation('failure of the stream does not reach the '
                            'caller', **detail)
        if s.after:
            raise Violation('written after the failure', **detail)
        if s.parts != stream.parts[:at]:
            raise Violation('not the beginning of the output', **detail)
        k = len(eng.trace)
        if eng.trace != engine.trace[:k]:
            raise Violation('not the beginning of the engine events',
                            at=pair.first_diff(engine.trace, eng.trace),
                            **detail)
        if eng.errors != engine.errors[:len(eng.errors)]:
            raise Violation('failure of the stream handled by the template',
                            handled=clip(eng.errors), **detail)
        obs.seen(s.getvalue(), k, at)
    # the same compiled templates still work
    s = sut.Stream()
    e, eng = run(case, s, kw)
    same(obs, case, kw, (full, exc, engine), (s.getvalue(), e, eng),
         'after failure')


class Buffer:
    """A buffer with nothing but the documented methods."""
    made = 0

    def __init__(self):
        Buffer.made += 1
        self.__s = io.StringIO(newline='')

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError(type(s))
        return self.__s.write(s)

    def getvalue(self):
        return self.__s.getvalue()


class Others(TALInterpreter):
    """A renderer with buffers of another kind."""

    def StringIO(self):
        return Buffer()


class Falsy(TALInterpreter):
    def StringIO(self):
        Buffer.made += 1
        return FalseBuffer()


class FalseBuffer(Buffer):
    def __bool__(self):
        return False


def buffers(r, obs, i):
    case, kw, stream, exc, engine = first(r, obs, i)
    want = stream.getvalue(), exc, engine
    for factory in (Others, Falsy):
        Buffer.made = 0
        s = sut.Stream()
        e, eng = run(case, s, kw, factory)
        same(obs, case, kw, want, (s.getvalue(), e, eng), 'other buffers')
        obs.count('captured', Buffer.made)


FAMILIES = [
    ('kinds', kinds, 4000, 30000),
    ('failing', failing, 8000, 60000),
    ('buffers', buffers, 6000, 40000),
]
