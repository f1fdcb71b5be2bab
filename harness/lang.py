"""The expression language used by generated templates.

An expression is ``kind:argument``.  The same evaluator serves the recording
engine (driven by the code under test) and the reference model, so the two
can only disagree because of *when*, *how often* and *in which environment*
the code under test evaluates an expression.
"""
from zope.i18nmessageid import Message


class Boom(Exception):
    """Failure produced by an expression of a template."""


class BoomBase(BaseException):
    """A failure that is not an Exception."""


class Fault(Exception):
    """Failure injected by the monitor at an engine call."""


class Lookup(Exception):
    """Unknown variable."""


class BadExpression(Exception):
    """Raised by the expression compiler."""

    def __init__(self, msg):
        Exception.__init__(self, msg)


class _Default:
    """Each engine has its own."""

    def __repr__(self):
        return 'Default'


DEFAULT = _Default()


class Thing:
    """A value that is neither string nor number."""

    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text

    def __repr__(self):
        return 'Thing(%r)' % self.text


class CE:
    """A compiled expression: opaque to the code under test."""

    __slots__ = ('expr',)

    def __init__(self, expr):
        self.expr = expr

    def __repr__(self):
        return 'CE(%r)' % self.expr


def message(arg):
    """``id|domain|default|k=v,k=v`` -> Message"""
    parts = (arg.split('|') + [''] * 4)[:4]
    mapping = None
    if parts[3]:
        mapping = dict(kv.split('=', 1) for kv in parts[3].split(','))
    return Message(parts[0], parts[1] or None, parts[2] or None, mapping)


def split_kind(expr):
    # The expression arrives stripped on the left; a trailing blank belongs
    # to the argument.
    kind, sep, arg = expr.partition(':')
    return kind.strip(), arg


def evaluate(expr, ctx):
    """Evaluate *expr*.

    ctx offers ``lookup(name)`` -> (found, value), ``values`` (registry for
    h:) and ``tick()`` (number of evaluations so far, for unique values).
    """
    kind, arg = split_kind(expr)
    if kind == 's':
        return arg
    if kind == 'v':
        found, value = ctx.lookup(arg.strip())
        if not found:
            raise Lookup(arg.strip())
        return value
    if kind == 'g':
        found, value = ctx.lookup(arg.strip())
        return value if found else 'unset'
    if kind == 'n':
        return None
    if kind == 'd':
        return getattr(ctx, 'default', DEFAULT)
    if kind == 't':
        return True
    if kind == 'f':
        return False
    if kind == 'i':
        return int(arg)
    if kind == 'q':
        arg = arg.strip()
        return arg.split(',') if arg else []
    if kind == 'r':
        return list(range(int(arg)))
    if kind == 'b':                     # truth value of a variable
        found, value = ctx.lookup(arg.strip())
        return bool(found and value)
    if kind == 'odd':
        found, value = ctx.lookup(arg.strip())
        return bool(found and len(str(value)) % 2)
    if kind == 'not':
        return not evaluate(arg.strip(), ctx)
    if kind == 'x':
        k = arg.strip()
        if k == 'B':
            raise BoomBase(k)
        if k == 'K':
            raise KeyError(k)
        if k == 'T':
            from zope.tal.taldefs import TALError
            raise TALError('boom')
        raise Boom(k)
    if kind == 'm':
        return message(arg)
    if kind == 'h':
        return ctx.values[arg.strip()]
    if kind == 'a':
        found, value = ctx.lookup('attrs')
        return str(value.get(arg.strip(), 'noattr')) if found else 'noattrs'
    if kind == 'u':
        return '%s#%d' % (arg, ctx.tick())
    if kind == 'o':
        return Thing(arg)
    if kind == 'mn':
        found, value = ctx.lookup('macroname')
        return str(value)
    if kind == 'err':
        found, value = ctx.lookup('error')
        return describe(value) if found else 'noerror'
    if kind == 'mp':
        if not arg.strip():
            return {}
        return dict(kv.split('=', 1) for kv in arg.split(','))
    if kind == 'dec':
        found, value = ctx.lookup(arg.strip())
        return max(0, int(value) - 1) if found else 0
    if kind == 'mc':                    # one of several macros, in turn
        names = arg.strip().split(',')
        return ctx.macro(names[ctx.tick() % len(names)])
    if kind == 'mac':
        return ctx.macro(arg.partition('#')[0].strip())
    raise Lookup('bad expression %r' % expr)


#: what inserting bad structure may raise; the model's name comes first
REFUSED = ('BadStructure', 'HTMLParseError', 'NestingError', 'EmptyTagError',
           'OpenTagError', 'ExpatError', 'TALError')


def describe(err):
    v = err.value
    name = type(v).__name__
    if name in ('MacroError', 'METALError'):
        return 'METALError@%s' % (err.pos,)
    if name == 'I18NError':
        return 'I18NError@%s' % (err.pos,)
    if name in REFUSED:
        return 'refused@%s' % (err.pos,)
    return '%s/%s@%s' % (getattr(v, '__class__', None).__name__,
                         getattr(v, 'args', ()), err.pos)


def as_text(value):
    if value is None or isinstance(value, (_Default, str)):
        return value
    return str(value)


def as_bool(value):
    return value if isinstance(value, _Default) else bool(value)


def interpolate(text, mapping):
    if not mapping:
        return text
    out = []
    i = 0
    while True:
        j = text.find('${', i)
        if j < 0:
            out.append(text[i:])
            return ''.join(out)
        k = text.find('}', j)
        if k < 0:
            out.append(text[i:])
            return ''.join(out)
        name = text[j + 2:k]
        if name in mapping:
            out.append(text[i:j])
            out.append(str(mapping[name]))
        else:
            out.append(text[i:k + 1])
        i = k + 1


def translation(msgid, domain, mapping, default):
    """What the recording engine answers to a translation request."""
    if isinstance(msgid, Message):
        dom = msgid.domain or domain
        mapping = msgid.mapping if msgid.mapping is not None else mapping
    else:
        dom = domain
    s = str(msgid)
    if s.endswith('-same'):
        return interpolate(s, mapping)
    if s.endswith('-default') and default is not None:
        return interpolate(str(default), mapping)
    return interpolate('[%s|%s]' % (dom, s.swapcase()
                                    if '${' not in s else s), mapping)


def describe_msgid(msgid):
    if isinstance(msgid, Message):
        return ('M', str(msgid), msgid.domain, msgid.default,
                tuple(sorted((msgid.mapping or {}).items())))
    return (type(msgid).__name__, msgid)
