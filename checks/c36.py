"""Only the documented interfaces of engine and compiler are used."""
from zope.tal.interfaces import ITALExpressionCompiler
from zope.tal.interfaces import ITALExpressionEngine

from harness import disorder
from harness import gen
from harness import lang
from harness import pair
from harness import sut
from harness.engine import Compiler
from harness.engine import Engine
from harness.obs import Violation
from harness.obs import clip
from harness.obs import say

ID = 'C36'
LEVEL = 'exploration'
RULE = ('Generated templates are compiled with a compiler and rendered with '
        'an engine that offer the methods of the documented interfaces and '
        'nothing else.  Every call is checked against the signature in the '
        'interface and the documented types of the arguments.  Compiled '
        'expressions, values of variables, error information and the default '
        'are objects that fail the case when anything is done with them '
        'but to hand them back.  Output, exception and engine events must be '
        'those of a rendering with an ordinary engine, failures of single '
        'calls included.  Distinct by output and calls.')
REQUIRED = ('html', 'xml', 'failed renderings', 'handled errors', 'faults',
            'loose inserts', 'in disorder') + tuple(
                'called ' + name for name in sorted(ITALExpressionEngine)) + (
                'called compile', 'called getCompilerError',
                'attributes of structure', 'default given',
                'truth of default')

PROFILE = dict(metal=.25, onerror=.2, error=.06, translate=.15, name=.4,
               i18nattrs=.15, data=.4, attributes=.3, repeat=.15, domain=.1,
               structure=.35, script=.06, extend=.2, omit=.2, replace=.12,
               default=.1, turn=.1)


class Misuse(BaseException):
    """Something not in the interface was done."""


def opaque(name, *allowed):
    def refuse(special):
        def method(self, *args, **kw):
            problem('%s of %s used' % (special, name))
        return method
    return type(name, (object,), dict(
        {s: refuse(s) for s in (
            '__eq__', '__ne__', '__hash__', '__bool__', '__len__', '__iter__',
            '__str__', '__repr__', '__getattr__', '__call__', '__lt__',
            '__contains__', '__getitem__', '__add__', '__format__',
            '__copy__', '__deepcopy__', '__reduce_ex__', '__setattr__')
         if s not in allowed}, __slots__=('held',),
        __init__=lambda self, held: object.__setattr__(self, 'held', held)
        if '__setattr__' not in allowed else setattr(self, 'held', held)))


Expression = opaque('compiled expression')
Value = opaque('value of a variable')
Info = opaque('error information')
Default = opaque('default', '__bool__')


def truth_of_default(self):
    # evaluateBoolean may give the default, anywhere else it is told by 'is'
    if not TRUTH:
        problem('__bool__ of default used')
    return True


Default.__bool__ = truth_of_default
TRUTH = []


class Truth:
    """True or false, and nothing else."""
    __slots__ = ('held',)

    def __init__(self, held):
        self.held = held

    def __bool__(self):
        return bool(self.held)

    def __eq__(self, other):
        problem('a truth value is compared')

    __hash__ = None

    def __getattr__(self, name):
        problem('%s of a truth value' % name)


class Steps:
    """An iterator that can do one thing only."""
    __slots__ = ('_Steps__next',)

    def __init__(self, iterator):
        self.__next = iterator.__next__

    def __next__(self):
        return Truth(self.__next())

    def __getattr__(self, name):
        problem('%s of an iterator' % name)

    def __bool__(self):
        problem('truth of an iterator')


PROBLEMS = []


def problem(what):
    PROBLEMS.append(what)
    raise Misuse(what)


def is_position(x):
    return (type(x) is tuple and len(x) == 2
            and (x == (None, None) or all(type(n) is int for n in x)))


KINDS = {
    'compiled_expression': lambda x: type(x) is Expression,
    'expression': lambda x: isinstance(x, str),
    'position': is_position,
    'filename': lambda x: x is None or isinstance(x, str),
    'name': lambda x: type(x) is str,
    'exception': lambda x: isinstance(x, BaseException),
    'msgid': lambda x: isinstance(x, str),
    'domain': lambda x: x is None or type(x) is str,
    'mapping': lambda x: x is None or type(x) is dict,
    'default': lambda x: x is None or isinstance(x, str),
    'lang': lambda x: isinstance(x, str),
    'code': lambda x: isinstance(x, str),
}


def checked(obs, interface, name, func):
    info = interface[name].getSignatureInfo()

    def call(self, *args, **kw):
        obs.count('called ' + name)
        del TRUTH[:]
        given = dict(zip(info['positional'], args))
        if len(args) > len(info['positional']) or set(given) & set(kw) \
                or set(kw) - set(info['positional']) \
                or set(info['required']) - set(given) - set(kw):
            problem('%s called with %d arguments and %s'
                    % (name, len(args), sorted(kw)))
        given.update(kw)
        for k, v in given.items():
            if k in KINDS and not (name == 'getValue' and k == 'default') \
                    and not KINDS[k](v):
                problem('%s called with %s of type %s'
                        % (name, k, type(v).__name__))
        return func(**given)
    return call


def facade(obs, interface, funcs):
    """An object with the methods of the interface and nothing else."""
    def missing(self, name):
        problem('%s is not in the interface' % name)

    def refuse(self, *args):
        problem('truth or equality of %s' % interface.__name__)

    d = {name: checked(obs, interface, name, funcs[name])
         for name in interface if name in funcs}
    d.update(__slots__=(), __getattr__=missing, __bool__=refuse,
             __len__=refuse, __eq__=refuse, __hash__=refuse)
    return type('Only', (object,), d)()


def make_compiler(obs):
    real = Compiler()
    return facade(obs, ITALExpressionCompiler, {
        'getCompilerError': real.getCompilerError,
        'compile': lambda expression: Expression(real.compile(expression))})


def make_engine(obs, real):
    default = Default(real.default)

    def out(value):
        if value is real.default:
            obs.count('default given')
            return default
        return value

    def wrap(cls, value):
        if value is real.default:
            return default
        return cls(value)

    def unwrap(value):
        return value.held if type(value) in (Value, Info, Default) else value

    def truth(compiled_expression):
        value = real.evaluateBoolean(compiled_expression.held)
        if value is real.default:
            TRUTH.append(1)
            obs.count('truth of default')
            return default
        return Truth(value)

    def set_local(name, value):
        if name not in ('attrs', 'macroname') and type(value) not in (
                Value, Info, Default):
            problem('variable %s is set to a %s that no expression gave'
                    % (name, type(value).__name__))
        real.setLocal(name, unwrap(value))

    def set_global(name, value):
        if type(value) not in (Value, Default):
            problem('variable %s is set to a %s that no expression gave'
                    % (name, type(value).__name__))
        real.setGlobal(name, unwrap(value))

    def get_value(name, default=None):
        value = real.getValue(name, default)
        return value if value is default else Value(value)

    return facade(obs, ITALExpressionEngine, {
        'getDefault': lambda: default,
        'setPosition': real.setPosition,
        'setSourceFile': lambda filename: real.setSourceFile(filename),
        'beginScope': real.beginScope,
        'endScope': real.endScope,
        'evaluate': lambda compiled_expression: real.evaluate(
            compiled_expression.held),
        'evaluateBoolean': truth,
        'evaluateMacro': lambda compiled_expression: out(real.evaluateMacro(
            compiled_expression.held)),
        'evaluateStructure': lambda compiled_expression: out(
            real.evaluateStructure(compiled_expression.held)),
        'evaluateText': lambda compiled_expression: out(real.evaluateText(
            compiled_expression.held)),
        'evaluateValue': lambda compiled_expression: wrap(
            Value, real.evaluateValue(compiled_expression.held)),
        'createErrorInfo': lambda exception, position: Info(
            real.createErrorInfo(exception, position)),
        'setGlobal': set_global,
        'setLocal': set_local,
        'getValue': get_value,
        'setRepeat': lambda name, compiled_expression: Steps(
            real.setRepeat(name, compiled_expression.held)),
        'translate': real.translate,
        'evaluateCode': lambda lang, code: real.evaluateCode(lang, code),
    })


def strict(obs, case, fault, **kw):
    """Like pair.run_real, with nothing but the interfaces."""
    r = pair.Result()
    rmacros = {}
    for d in case.docs():
        program, macros = sut.compile_source(d.source, d.xml,
                                             make_compiler(obs), d.file)
        rmacros.update(macros)
    real = Engine(rmacros, case.values, fault)
    stream = sut.Stream()
    r.exc = r.error = None
    try:
        sut.render(program, macros, make_engine(obs, real), stream, **kw)
    except (KeyboardInterrupt, MemoryError, Misuse):
        raise
    except BaseException as exc:
        r.exc, r.error = type(exc).__name__, exc
    r.out = stream.getvalue()
    r.engine = real
    return r


def interfaces(r, obs, i):
    xml = bool(i % 2)
    g = gen.Gen(r, xml=xml, prof=gen.profile(**PROFILE))
    g.budget = r.choice((8, 20))
    n = r.choice((0, 0, 1, 2))
    case = gen.make_case(g, n) if n else pair.Case(
        gen.make_doc(g, 'main.pt'), (), g.values, g.fragments)
    case = disorder.perhaps(r, obs, case)
    case.compile()
    kw = r.choice(({}, {}, {'strictinsert': 0}, {'sourceAnnotations': 1},
                   {'showtal': 1}, {'wrap': 40}, {'tal': 0},
                   {'i18nInterpolate': 0}))
    plain = pair.run_real(case, **kw)
    fault = ()
    if plain.trace and r.random() < .3:
        fault = (r.randrange(len(plain.trace)),)
        plain = pair.run_real(case, fault, **kw)
        obs.count('faults')
    detail = dict(case.describe(), settings=repr(kw), fault=fault)
    del PROBLEMS[:]
    real = None
    try:
        real = strict(obs, case, fault, **kw)
    except Misuse:
        pass
    except Exception as exc:
        raise Violation('compilation fails', error=say(exc), **detail)
    obs.ev()
    obs.count('xml' if xml else 'html')
    if PROBLEMS:
        raise Violation('use of what the interfaces do not offer',
                        problems=PROBLEMS[:5], **detail)
    obs.count('handled errors', len(plain.errors))
    obs.count('failed renderings', bool(plain.exc))
    obs.count('loose inserts', 'strictinsert' in kw)
    obs.count('attributes of structure', any(
        e.stm.get('tal:replace', ' ')[0] == 'structure'
        and 'tal:attributes' in e.stm
        for d in case.docs() for e in gen.iter_elems(d.nodes)))
    for what, x, y in (('exception', plain.exc, real.exc),
                       ('output', plain.out, real.out),
                       ('engine calls', plain.trace, real.engine.trace),
                       ('handled errors', plain.errors, real.engine.errors),
                       ('problems', plain.problems, real.engine.problems)):
        if x != y:
            raise Violation('%s with nothing but the interfaces' % what,
                            expected=clip(repr(x)), observed=clip(repr(y)),
                            error=say(real.error), **detail)
    obs.seen(real.out, [e[:2] for e in plain.trace])
    if len(plain.trace) > 3:
        obs.sample(template=clip(case.main.source, 300),
                   output=clip(real.out, 200), calls=len(plain.trace))


FAMILIES = [
    ('interfaces', interfaces, 24000, 120000),
]
