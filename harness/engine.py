"""Recording engine: implements the compiler and engine interfaces of
zope.tal and records every call that the properties talk about."""
from zope.tal.taldefs import ErrorInfo

from harness import lang


class ErrInfo(ErrorInfo):
    """What handlers see; made by the class that engines share."""

    @property
    def pos(self):
        return self.lineno, self.offset


class Compiler:
    """Expression compiler; keeps what it was asked to compile."""

    def __init__(self):
        self.compiled = []

    def getCompilerError(self):
        return lang.BadExpression

    def compile(self, expr):
        self.compiled.append(expr)
        if lang.split_kind(expr)[0] == 'bad':
            raise lang.BadExpression('cannot compile')
        return lang.CE(expr)


HIDDEN = ('attrs', 'error')


class Iterator:
    def __init__(self, engine, name, seq, expr):
        self.engine = engine
        self.name = name
        self.seq = list(seq)
        self.expr = expr
        self.i = 0

    def __next__(self):
        e = self.engine
        e.event('next', self.expr)
        if self.i >= len(self.seq):
            return False
        e.setLocal(self.name, self.seq[self.i], quiet=True)
        self.i += 1
        return True

    next = __next__


class Engine(Compiler):
    """One rendering context.

    macros: name -> compiled macro program
    fault:  index of the recorded event at which to raise, or a set of them
    hook:   called as hook(engine, kind) before each recorded event (used by
            the schedulers)
    """

    def __init__(self, macros=None, values=None, fault=(), hook=None,
                 fault_exc=lang.Fault, translate=None):
        Compiler.__init__(self)
        self.macros = macros if macros is not None else {}
        self.values = values or {}
        self.faults = frozenset(fault)
        self.fault_exc = fault_exc
        self.hook = hook
        self.default = type(lang.DEFAULT)()
        self.trace = []
        self.ticks = 0
        self.globals = {}
        self.scopes = [{}]
        self.depths = []            # scope balance log
        self.pos = None
        self.file = None
        self.errors = []
        self.raised = []            # injected failures
        self.problems = []
        self._translate = translate or lang.translation

    # -- environment
    def lookup(self, name):
        for s in reversed(self.scopes):
            if name in s:
                return True, s[name]
        if name in self.globals:
            return True, self.globals[name]
        return False, None

    def visible(self):
        d = dict(self.globals)
        for s in self.scopes:
            d.update(s)
        return tuple(sorted((k, repr(v)) for k, v in d.items()
                            if k not in HIDDEN
                            and (k != 'macroname' or v is not None)))

    def attrs(self):
        found, value = self.lookup('attrs')
        return tuple(sorted((k, str(v)) for k, v in value.items())
                     ) if found else None

    def tick(self):
        return self.ticks

    def macro(self, name):
        try:
            return self.macros[name]
        except KeyError:
            raise lang.Lookup(name)

    def event(self, kind, what, *more):
        n = len(self.trace)
        if self.hook is not None:
            self.hook(self, kind)
        self.ticks += 1
        self.trace.append((kind, what, self.pos, self.file, self.visible(),
                           self.attrs()) + more)
        if n in self.faults:
            exc = self.fault_exc('fault@%d' % n)
            self.raised.append(exc)
            raise exc

    def _expr(self, ce, kind):
        if not isinstance(ce, lang.CE):
            self.problems.append('%s: not a compiled expression: %r'
                                 % (kind, ce))
            raise TypeError('not a compiled expression: %r' % (ce,))
        self.event(kind, ce.expr)
        return lang.evaluate(ce.expr, self)

    # -- ITALExpressionEngine
    def getDefault(self):
        return self.default

    def setPosition(self, position):
        self.pos = tuple(position)

    def setSourceFile(self, name):
        self.file = name

    def beginScope(self):
        self.scopes.append({})

    def endScope(self):
        if len(self.scopes) < 2:
            self.problems.append('endScope without beginScope')
            raise AssertionError('endScope without beginScope')
        self.scopes.pop()

    def setLocal(self, name, value, quiet=False):
        if len(self.scopes) < 2 and name not in ('macroname',) and not quiet:
            self.problems.append('local variable %r set outside any scope'
                                 % name)
        self.scopes[-1][name] = value

    def setGlobal(self, name, value):
        self.globals[name] = value

    def getValue(self, name, default=None):
        found, value = self.lookup(name)
        return value if found else default

    def evaluate(self, ce):
        return self._expr(ce, 'any')

    def evaluateValue(self, ce):
        return self._expr(ce, 'value')

    def evaluateBoolean(self, ce):
        # any true or false value will do
        return self._expr(ce, 'bool')

    def evaluateText(self, ce):
        return lang.as_text(self._expr(ce, 'text'))

    def evaluateStructure(self, ce):
        return self._expr(ce, 'structure')

    def evaluateMacro(self, ce):
        return self._expr(ce, 'macro')

    def setRepeat(self, name, ce):
        seq = self._expr(ce, 'repeat')
        return Iterator(self, name, seq, ce.expr)

    def createErrorInfo(self, exc, position):
        self.errors.append((type(exc).__name__, tuple(position)))
        info = ErrInfo(exc, tuple(position))
        if info.type is not exc.__class__ or info.value is not exc:
            self.problems.append('error information about %r shows %r, %r'
                                 % (exc, info.type, info.value))
        return info

    def translate(self, msgid, domain=None, mapping=None, default=None):
        self.event('translate', lang.describe_msgid(msgid), domain,
                   tuple(sorted((mapping or {}).items())), default)
        return self._translate(msgid, domain, mapping, default)

    def evaluateCode(self, language, code):
        self.event('code', (language, code))
        return '{%s:%d&<}' % (code.strip()[:8], len(code))


# positions of the fields of an event
KIND, WHAT, POS, FILE, ENV, ATTRS = range(6)


def project(trace, fields, kinds=None):
    out = []
    for ev in trace:
        if kinds is not None and ev[0] not in kinds:
            continue
        out.append(tuple(ev[f] for f in fields) + ev[6:])
    return out
