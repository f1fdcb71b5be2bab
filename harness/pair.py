"""Run a set of templates through the code under test and through the
reference model, and compare what was observed."""
from harness import lang
from harness import model
from harness import sut
from harness.engine import Engine
from harness.obs import Skip


class Case:
    """A main template plus libraries of macros."""

    #: statements were moved about, and results may go anywhere
    disordered = False

    def __init__(self, main, libs=(), values=None, fragments=None, seed=None):
        self.main = main
        self.libs = list(libs)
        self.values = values or {}
        self.fragments = dict(fragments or {})
        self.seed = seed
        self.mmacros = {}
        for d in self.docs():
            model.annotate(d.nodes)
            for name, e in model.macros_of(d.nodes).items():
                self.mmacros[name] = model.Macro(e, d.xml)
        self.rmacros = None
        self.program = None

    def docs(self):
        return self.libs + [self.main]

    def compile(self):
        self.rmacros = {}
        for d in self.docs():
            program, macros = sut.compile_doc(d)
            self.rmacros.update(macros)
        self.program, self.macros = program, macros
        return program

    def describe(self):
        return {'templates': [{'file': d.file, 'xml': d.xml,
                               'source': d.source} for d in self.docs()],
                'values': {k: repr(v) for k, v in self.values.items()}}


class Result:
    __slots__ = ('out', 'exc', 'trace', 'errors', 'problems', 'engine',
                 'balanced', 'stats', 'error')


def run_real(case, fault=(), hook=None, **kw):
    r = Result()
    eng = kw.pop('engine', Engine)(case.rmacros, case.values, fault, hook,
                 fault_exc=kw.pop('fault_exc', lang.Fault),
                 translate=kw.pop('translate', None))
    stream = kw.pop('stream', None) or sut.Stream()
    r.exc = r.error = None
    try:
        sut.render(case.program, case.macros, eng, stream, **kw)
    except BaseException as exc:
        if isinstance(exc, (KeyboardInterrupt, MemoryError)):
            raise
        r.exc = type(exc).__name__
        r.error = exc
    r.out = stream.getvalue()
    r.trace = eng.trace
    r.errors = eng.errors
    r.problems = eng.problems
    r.balanced = len(eng.scopes) == 1
    r.engine = eng
    return r


def run_model(case, fault=(), **kw):
    r = Result()
    m = model.Model(case.mmacros, case.values, fault, case.main.xml,
                    case.fragments, **kw)
    r.exc = None
    try:
        m.render(case.main.nodes)
    except model.ModelBug as exc:
        if case.disordered and 'unknown fragment' in str(exc):
            raise Skip('translated markup inserted as structure')
        raise
    except model.TooBig:
        raise Skip('too many events')
    except BaseException as exc:
        if isinstance(exc, (KeyboardInterrupt, MemoryError)):
            raise
        if type(exc).__module__ == 'builtins' and not isinstance(
                exc, (KeyError, TypeError)):
            raise model.ModelBug(repr(exc)) from exc
        r.exc = model.errname(exc)
    r.out = ''.join(m.out)
    r.trace = m.trace
    r.errors = m.errors
    r.stats = m.stats
    r.engine = m
    return r


STRUCT = 'structure refused'


def norm_exc(name):
    if name in ('BadStructure', 'HTMLParseError', 'NestingError',
                'EmptyTagError', 'OpenTagError', 'ExpatError'):
        return STRUCT
    return name


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return i
    if len(a) != len(b):
        return min(len(a), len(b))
    return None


def clip(s, i, n=60):
    lo = max(0, i - 20)
    return repr(s[lo:i + n])


def compare(real, mod, fields=(0, 1), kinds=None, output=True, errors=False,
            more=True):
    """List of differences, most telling first.  mod is on the left of every
    comparison so that its wildcards work."""
    out = []
    if norm_exc(mod.exc) != norm_exc(real.exc):
        out.append(('outcome', 'expected %s, got %s' % (
            mod.exc or 'completion', real.exc or 'completion')))
    if output and mod.exc is None and real.exc is None \
            and mod.out != real.out:
        i = first_diff(mod.out, real.out)
        out.append(('output', 'at offset %d: expected %s, got %s' % (
            i, clip(mod.out, i), clip(real.out, i))))
    want = _project(mod.trace, fields, kinds, more)
    got = _project(real.trace, fields, kinds, more)
    if want != got:
        i = first_diff(want, got)
        out.append(('events', 'event %d: expected %s, got %s' % (
            i, repr(want[i])[:300] if i < len(want) else 'none',
            repr(got[i])[:300] if i < len(got) else 'none')))
    if errors:
        w = [(norm_exc(a), b) for a, b in mod.errors]
        g = [(norm_exc(a), b) for a, b in real.errors]
        if w != g:
            i = first_diff(w, g)
            out.append(('handled errors', 'expected %r, got %r' % (
                w[i:i + 1], g[i:i + 1])))
    for p in real.problems:
        out.append(('protocol', p))
    if real.exc is None and not real.balanced:
        out.append(('protocol', 'scopes left open'))
    return out


def _project(trace, fields, kinds, more):
    out = []
    for ev in trace:
        if kinds is not None and ev[0] not in kinds:
            continue
        out.append(tuple([ev[f] for f in fields]) + (ev[6:] if more else ()))
    return out
