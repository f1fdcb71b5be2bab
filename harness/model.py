"""Reference semantics: a direct interpreter of template trees.

Written from the documentation of the languages and the property statements,
as a plain recursive tree walk: no intermediate code, no optimiser, no merged
instructions.  It produces the expected output and the expected sequence of
engine events, including failures injected at given events.
"""
import html
import re

from zope.i18nmessageid import Message

from harness import lang
from harness.lang import DEFAULT
from harness.tree import VOID
from harness.tree import Elem
from harness.tree import Text

BOOLEAN = frozenset('compact nowrap ismap declare noshade checked disabled '
                    'readonly multiple selected noresize defer'.split())
HIDDEN = ('attrs', 'error')

_entity = re.compile(r'&(?!(?:[A-Za-z][A-Za-z0-9]*|#[0-9]+|#[xX][0-9A-Fa-f]*);'
                     r')')
_nl = re.compile(r'\r?\n[ \t]*\Z')

#: more engine events than this are not worth the time
EVENTS = 6000


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


def static_attr(name, value, xml=False):
    if value is None:
        return name
    if xml:
        return dyn_attr(name, value, xml)
    v = _entity.sub('&amp;', value)
    if html.unescape(v) != value:
        # only what no reader takes for a reference may stay as it is
        v = value.replace('&', '&amp;')
    v = v.replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')
    return '%s="%s"' % (name, v)


def dyn_attr(name, value, xml=False):
    v = esc(value).replace('"', '&quot;')
    if xml:
        for ch in '\t\n\r':
            v = v.replace(ch, '&#%d;' % ord(ch))
    return '%s="%s"' % (name, v)


def norm(s):
    return ' '.join(s.split())


class _Any:
    def __eq__(self, other):
        return True

    def __repr__(self):
        return 'ANY'

    def get(self, *args):
        # what the attributes are is not known here
        raise TooBig


ANY = _Any()


class MacroError(Exception):
    """The model expects a METAL error."""


class I18NError(Exception):
    """The model expects an i18n error."""


class Handled(Exception):
    pass


class ErrInfo:
    def __init__(self, value, pos):
        self.type = value.__class__
        self.value = value
        self.pos = pos


class Macro:
    """A macro as seen by the model."""

    def __init__(self, elem, xml):
        self.elem = elem
        self.xml = xml


class Frame:
    __slots__ = ('fills', 'extending', 'name', 'defined', 'entered')

    def __init__(self, fills, extending, name, defined):
        self.fills = fills
        self.extending = extending
        self.name = name
        self.defined = defined
        self.entered = False


def annotate(nodes, in_use=False, domain=None, fills=None):
    """Decide which METAL statements are in force, the way the language
    defines it (inside a macro use only fillers count), and the lexical
    translation domain."""
    run = ''
    for n in nodes:
        if not isinstance(n, Elem):
            run += n.raw
            continue
        s = n.stm
        use_here = in_use
        m = _nl.search(run) if 'tal:repeat' in s else None
        roles = {'ws': m.group() if m else ''}
        run = ''
        mine = fills
        if use_here and 'metal:fill-slot' in s:
            roles['fill'] = s['metal:fill-slot'].strip()
            fills[roles['fill']] = n
            use_here = False
        if not use_here:
            if 'metal:define-macro' in s:
                roles['def'] = s['metal:define-macro'].strip()
            use = s.get('metal:use-macro') or s.get('metal:extend-macro')
            if use:
                roles['use'] = use
                roles['fills'] = mine = {}
                use_here = True
            if 'metal:define-slot' in s:
                roles['slot'] = s['metal:define-slot'].strip()
        n.m = roles
        n.lex = s.get('i18n:domain') or domain
        annotate(n.children, use_here, n.lex, mine)


def macros_of(nodes):
    out = {}
    for n in nodes:
        if isinstance(n, Elem):
            if 'def' in n.m:
                out[n.m['def']] = n
            out.update(macros_of(n.children))
    return out


def has_i18n(n):
    return any(k.startswith('i18n:') for k in n.stm)


def has_tal(n):
    return n.ns is not None or any(k.startswith('tal:') for k in n.stm)


class Model:
    """One expected rendering."""

    def __init__(self, macros=None, values=None, fault=(), xml=False,
                 fragments=None, strict=True, limit=100,
                 fault_exc=lang.Fault, translate=None, macroname=False,
                 metal=True, interpolate=True, shown=False):
        self.macros = macros or {}      # name -> Macro | anything
        self.values = values or {}
        self.fragments = fragments or {}    # string -> nodes (structure)
        self.faults = frozenset(fault)
        self.fault_exc = fault_exc
        self.xml = xml
        self.strict = strict
        self.limit = limit
        self.metal = metal
        self.interpolate = interpolate
        self.shown = shown          # statements stay in the output
        self.trace = []
        self.ticks = 0
        self.globals = {}
        self.scopes = [{}]
        self.out = []
        self.i18n = []          # mappings of open units
        self.frames = []
        self.domain = 'default'
        self.pos = None
        self.file = None
        self.in_use = False
        self.handled = 0
        self.errors = []
        self.stats = {}
        self._translate = translate or lang.translation

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    # -- environment (own implementation of the same rules as the engine)
    def lookup(self, name):
        for s in self.scopes[::-1]:
            if name in s:
                return True, s[name]
        return name in self.globals, self.globals.get(name)

    def visible(self):
        d = {}
        d.update(self.globals)
        for s in self.scopes:
            d.update(s)
        return tuple(sorted((k, repr(v)) for k, v in d.items()
                            if k not in HIDDEN
                            and (k != 'macroname' or v is not None)))

    def attrs(self):
        found, value = self.lookup('attrs')
        if not found or value is ANY:
            return value
        return tuple(sorted((k, str(v)) for k, v in value.items()))

    def tick(self):
        return self.ticks

    def macro(self, name):
        if name not in self.macros:
            raise lang.Lookup(name)
        return self.macros[name]

    def event(self, kind, what, e, *more):
        n = len(self.trace)
        if n >= EVENTS:
            raise TooBig
        self.ticks += 1
        if e is not None:
            self.pos, self.file = e.pos, e.file
        self.trace.append((kind, what, self.pos, self.file, self.visible(),
                           self.attrs()) + more)
        if n in self.faults:
            raise self.fault_exc('fault@%d' % n)

    def ev(self, kind, expr, e):
        self.event(kind, expr, e)
        return lang.evaluate(expr, self)

    def translate(self, msgid, default, mapping, e):
        if default is None:
            default = (msgid.default if isinstance(msgid, Message)
                       else str(msgid))
        if not self.interpolate:
            return str(msgid)
        self.event('translate', lang.describe_msgid(msgid), e, self.domain,
                   tuple(sorted(mapping.items())), default)
        return self._translate(msgid, self.domain, mapping, default)

    # -- rendering
    def render(self, nodes):
        self.nodes(nodes)
        return ''.join(self.out)

    def w(self, s):
        self.out.append(s)

    def capture(self, f, *args):
        old, self.out = self.out, []
        try:
            f(*args)
            return ''.join(self.out)
        finally:
            self.out = old

    def nodes(self, nodes):
        run = ''
        for n in nodes:
            if isinstance(n, Text):
                run += n.raw
                continue
            ws = n.m['ws']
            self.w(run[:len(run) - len(ws)])
            run = ''
            self.elem(n, ws)
        self.w(run)

    def elem(self, n, ws):
        m = n.m
        if 'def' in m:
            old, self.in_use = self.in_use, False
            self.macro_root(n, ws)
            self.in_use = old
        else:
            self.macro_root(n, ws)

    def macro_root(self, n, ws):
        """Everything inside a define-macro."""
        m = n.m
        if not self.metal:
            self.body(n, ws)
        elif 'use' in m:
            self.use(n, ws)
        elif 'slot' in m:
            self.slot(n, ws)
        else:
            self.body(n, ws)

    def use(self, n, ws):
        m = n.m
        extending = 'def' in m and self.in_use
        expr = m['use']
        target = self.ev('macro', expr, n)
        if target is not DEFAULT:
            if not isinstance(target, Macro) or target.xml != self.xml:
                raise MacroError('incompatible')
        if len(self.frames) >= self.limit:
            raise MacroError('limit')
        self.count('use')
        if extending:
            self.count('extending')
        self.frames.append(Frame(m['fills'], extending, expr,
                                 m.get('def')))
        found, outer = self.lookup('macroname')
        self.scopes[-1]['macroname'] = expr.rsplit('/', 1)[-1]
        old, self.in_use = self.in_use, True
        if target is DEFAULT:
            self.count('use default')
            self.body(n, ws)
        else:
            e = target.elem
            self.macro_root(e, e.m['ws'])
        self.in_use = old
        self.frames.pop()
        self.scopes[-1]['macroname'] = outer

    def slot(self, n, ws):
        name = n.m['slot']
        i = len(self.frames) - 1
        while i >= 0:
            fr = self.frames[i]
            if name in fr.fills:
                break
            if not fr.extending or i == 0:
                i = -1
                break
            i -= 1
        if i < 0:
            self.count('slot default')
            self.body(n, ws)
            return
        self.count('slot filled')
        filler = fr.fills[name]
        chopped = self.frames[i:]
        del self.frames[i:]
        try:
            # the filler element itself may be a macro definition or slot
            if 'slot' in filler.m:
                self.slot(filler, filler.m['ws'])
            else:
                self.body(filler, filler.m['ws'])
        finally:
            self.frames.extend(chopped)
            for fr in chopped:
                fr.entered = True

    def body(self, n, ws=''):
        """The element with METAL out of the way."""
        olddomain = self.domain
        if ('metal:define-slot' in n.stm or has_i18n(n)):
            if n.lex is not None:
                self.domain = n.lex
        scoped = has_tal(n) or has_i18n(n)
        if scoped:
            self.scopes.append({'attrs': n.allattrs})
        if 'tal:on-error' in n.stm:
            self.guarded(n, ws)
        else:
            self.unguarded(n, ws)
        if scoped:
            self.scopes.pop()
        self.domain = olddomain

    def guarded(self, n, ws):
        save = (len(self.scopes), len(self.i18n), list(self.frames),
                self.domain, self.in_use)
        old, self.out = self.out, []
        try:
            self.unguarded(n, ws)
        except BaseException as exc:
            if isinstance(exc, (KeyboardInterrupt, ModelBug, TooBig)):
                raise
            self.out = old
            pos = self.pos
            del self.scopes[save[0]:]
            del self.i18n[save[1]:]
            self.frames = save[2]
            self.domain = save[3]
            self.in_use = save[4]
            self.handled += 1
            self.errors.append((errname(exc), pos))
            self.scopes.append({'error': ErrInfo(exc, pos)})
            try:
                self.handler(n)
            finally:
                self.scopes.pop()
        else:
            got = ''.join(self.out)
            self.out = old
            self.w(got)

    def handler(self, n):
        kind, expr = n.stm['tal:on-error']
        if not n.ns or self.shown:
            self.w(self.start(n, dynamic=False) + '>')
        self.insert(n, kind, expr, lambda: None)
        if not n.ns or self.shown:
            self.w('</%s>' % self.tagname(n))

    def unguarded(self, n, ws):
        s = n.stm
        for scope, name, expr in s.get('tal:define', ()):
            value = self.ev('value', expr, n)
            if scope == 'global':
                self.globals[name] = value
            else:
                self.scopes[-1][name] = value
        if 'tal:condition' in s:
            if not lang.as_bool(self.ev('bool', s['tal:condition'], n)):
                self.count('condition false')
                return
        if 'tal:repeat' in s:
            name, expr = s['tal:repeat']
            seq = list(self.ev('repeat', expr, n))
            self.count('loops')
            for item in seq:
                self.event('next', expr, n)
                self.scopes[-1][name] = item
                self.count('items')
                self.w(ws)
                self.named(n)
            self.event('next', expr, n)
        else:
            self.named(n)

    def named(self, n):
        name = n.stm.get('i18n:name')
        if not name:
            self.tagged(n)
            return
        if not self.i18n:
            self.pos, self.file = n.pos, n.file
            raise I18NError('no unit')
        depth = len(self.i18n)
        scopes = len(self.scopes)
        text = self.capture(self.tagged, n)
        if self.xml or n.tag != 'pre':
            text = norm(text)
        assert depth == len(self.i18n) and scopes == len(self.scopes)
        self.i18n[-1][name] = text
        self.w('${%s}' % name)
        self.count('named')

    def dynamic(self, n):
        """name -> (expr, listed, msgid)"""
        d = {}
        listed = dict(n.stm.get('i18n:attributes', ()))
        if not self.xml:
            listed = {k.lower(): v for k, v in listed.items()}
        for name, expr in n.stm.get('tal:attributes', ()):
            if not self.xml:
                name = name.lower()
            d[name] = (expr, name in listed, listed.get(name))
        for name, msgid in listed.items():
            if name not in d:
                d[name] = (None, True, msgid)
        return d

    def start(self, n, dynamic=True, repl=None):
        """Start tag without its end."""
        parts = []
        for prefix, uri in n.decls:
            if uri not in ALLNS or self.shown:
                parts.append('xmlns%s="%s"' % (':' + prefix if prefix else '',
                                               esc(uri)))
        d = {}
        if repl is not None:
            d = dict(repl)
        elif dynamic and 'tal:replace' not in n.stm:
            d = self.dynamic(n)
        own = [(a[0], a[1]) for a in n.attrs]
        items = own
        if self.shown and n.allattrs:
            items = list(n.allattrs.items())[len(n.decls):]
        for name, value in items:
            if name in d and (name, value) in own:
                parts.extend(self.attr(n, name, value, d.pop(name), True))
            elif (name, value) in own:
                parts.append(static_attr(name, value, self.xml))
            elif value is None:
                parts.append(name)
            else:
                parts.append(dyn_attr(name, value, self.xml))
        for name in sorted(d):
            parts.extend(self.attr(n, name, None, d[name], False))
        return ' '.join(['<' + self.tagname(n)] + parts)

    def tagname(self, n):
        return '%s:%s' % (n.ns, n.tag) if n.ns and self.shown else n.tag

    def attr(self, n, name, value, how, present):
        expr, listed, msgid = how
        e = n if n.pos else self.owner
        if expr is None:
            if not present and msgid is None:
                return []
        elif not self.xml and name in BOOLEAN:
            v = lang.as_bool(self.ev('bool', expr, e))
            if v is DEFAULT:
                if not present:
                    return []
            elif v:
                value = None
            else:
                return []
        else:
            v = lang.as_text(self.ev('text', expr, e))
            if v is DEFAULT:
                if not present:
                    return []
            elif v is None:
                self.count('attr dropped')
                return []
            else:
                value = v
        if listed:
            if msgid is not None or value is not None:
                self.count('attr translated')
                t = self.translate(msgid or value, value, {}, e)
                if t is not None:
                    value = t
        elif isinstance(value, Message):
            t = self.translate(value, None, {}, e)
            if t is not None:
                value = t
        self.count('attr dynamic')
        return [dyn_attr(name, name if value is None else value,
                         self.xml)]

    def tagged(self, n):
        """Start tag, content, end tag, with tag omission."""
        s = n.stm
        omit = bool(n.ns) and not self.shown
        optional = omit
        if 'tal:omit-tag' in s:
            optional = True
            if s['tal:omit-tag'] == '':
                omit = True
            elif self.ev('bool', s['tal:omit-tag'], n):
                omit = True
        elif 'tal:replace' in s:
            optional = omit = True
        start = self.start(n)
        if omit:
            self.content(n)
            return
        tag = self.tagname(n)
        if self.xml:
            if self.is_empty(n):
                self.w(start + '/>')
            else:
                self.w(start + '>')
                self.content(n)
                self.w('</%s>' % tag)
        elif n.selfclose and not any(k in s for k in (
                'tal:content', 'tal:replace', 'i18n:translate',
                'tal:script')):
            self.w(start + ' />')
        elif tag in VOID:
            self.w(start + '>')
        else:
            self.w(start + '>')
            self.content(n)
            self.w('</%s>' % tag)

    def is_empty(self, n):
        s = n.stm
        if 'tal:content' in s or 'tal:replace' in s or 'i18n:translate' in s:
            return False
        if 'i18n:name' in s and not (n.ns or 'tal:omit-tag' in s):
            return False
        if 'tal:script' in s:
            return False
        return not any(isinstance(c, Elem) or c.raw for c in n.children)

    def content(self, n):
        s = n.stm
        sub = s.get('tal:content') or s.get('tal:replace')
        if sub:
            self.insert(n, sub[0], sub[1], lambda: self.children(n),
                        'i18n:translate' in s,
                        self.dynamic(n) if 'tal:replace' in s else None)
        elif 'i18n:translate' in s:
            self.unit(n)
        else:
            self.children(n)

    def children(self, n):
        if 'tal:script' in n.stm:
            code = self.capture(self.nodes, n.children)
            lang_ = n.stm['tal:script']
            self.event('code', (lang_, code), n)
            self.w('{%s:%d&<}' % (code.strip()[:8], len(code)))
        else:
            self.nodes(n.children)

    def unit(self, n):
        s = n.stm
        msgid = s['i18n:translate']
        mapping = {}
        self.i18n.append(mapping)
        default = self.capture(self.children, n)
        self.i18n.pop()
        if not msgid:
            msgid = default if (not self.xml and n.tag == 'pre'
                                ) else norm(default)
        if 'i18n:data' in s:
            data = self.ev('any', s['i18n:data'], n)
            if data:
                mapping.update(data)
        self.count('units')
        self.w(self.translate(msgid, default, mapping, n))

    def insert(self, n, kind, expr, keep, i18n=False, repl=None):
        if kind == 'text':
            v = lang.as_text(self.ev('text', expr, n))
        else:
            v = self.ev('structure', expr, n)
        if v is None:
            self.count('nothing')
            return
        if v is DEFAULT:
            self.count('default kept')
            keep()
            return
        if kind == 'text':
            if i18n or isinstance(v, Message):
                v = self.translate(v, None, {}, n)
            self.w(esc(v))
            self.count('text inserted')
            return
        if isinstance(v, Message):
            v = self.translate(v, None, {}, n)
        elif i18n:
            if not isinstance(v, str):
                v = str(v)
            v = self.translate(v, None, {}, n)
        else:
            v = str(v)
        self.count('structure inserted')
        if not (self.strict or repl):
            self.w(v)
            return
        frag = self.fragments.get(v)
        if not set('<&') & set(v) and (frag is None or repl
                                       and frag != 'bad'):
            frag = [Text(v)]
        if frag is None:
            raise ModelBug('unknown fragment %r' % v)
        if frag == 'bad':
            raise BadStructure()
        if isinstance(frag, str):       # the output expected
            if repl:
                raise ModelBug('attributes of literal fragment')
            self.w(frag)
            return
        self.owner = n
        if repl:
            self.scopes.append({'attrs': ANY})
        self.w(Fragment(self, repl).render(frag))
        if repl:
            self.scopes.pop()


class Fragment:
    """Inserted structure: the markup with statements removed; the first
    element takes over dynamic attributes."""

    def __init__(self, model, repl):
        self.model = model
        self.repl = repl
        self.out = []

    def render(self, nodes):
        for n in nodes:
            self.node(n)
        return ''.join(self.out)

    def node(self, n):
        if isinstance(n, Text):
            self.out.append(n.raw)
            return
        repl, self.repl = self.repl, None
        name = (n.ns + ':' if n.ns else '') + n.tag
        plain = Elem(name, n.attrs)
        plain.decls = n.decls
        plain.allattrs = n.allattrs
        start = self.model.start(plain, repl=repl or {})
        xml = self.model.xml
        if xml and not any(isinstance(c, Elem) or c.raw for c in n.children):
            self.out.append(start + '/>')
        elif not xml and n.selfclose:
            self.out.append(start + ' />')
        elif not xml and n.tag in VOID:
            self.out.append(start + '>')
        else:
            self.out.append(start + '>')
            for c in n.children:
                self.node(c)
            self.out.append('</%s>' % name)


ALLNS = frozenset(['http://xml.zope.org/namespaces/tal',
                   'http://xml.zope.org/namespaces/metal',
                   'http://xml.zope.org/namespaces/i18n'])


class ModelBug(BaseException):
    """The harness itself is wrong: never a verdict."""


class TooBig(BaseException):
    """The case grew out of proportion."""


class BadStructure(Exception):
    """Expected: inserted structure is refused."""


def errname(exc):
    n = type(exc).__name__
    return {'MacroError': 'METALError'}.get(n, n)

