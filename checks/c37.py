"""A part of a template renders to the same thing wherever it stands."""
import re

from harness import engine as engines
from harness import gen
from harness import sut
from harness.obs import Violation
from harness.obs import clip
from harness.obs import say

ID = 'C37'
LEVEL = 'exploration'
RULE = ('A generated part is rendered alone and put into up to five '
        'surroundings: between other parts, into elements, conditions, '
        'loops, definitions, error handlers, macros, slots, defaults of '
        'statements.  What the surroundings add is known from how they are '
        'written, so that output, exception and engine calls (expression, '
        'variables, attributes, messages) of the whole can be put together '
        'from those of the part.  No reference renderer is involved.  '
        'Distinct by output and surroundings.')
AROUND = ('element', 'block', 'omitted tag', 'condition', 'loop', 'definition',
          'handler', 'macro in place', 'macro', 'slot', 'slot default',
          'default content', 'default replace', 'parts before', 'parts after',
          'attributes', 'failed before', 'named part', 'extended macro', 'comment')
REQUIRED = ('html', 'xml', 'failed renderings', 'handled errors',
            'translations', 'scripts', 'loops', 'macros', 'structure',
            'deep', 'handled around') + AROUND
ASSUMPTIONS = ['The part sets no global variables and uses none that depend '
               'on the number of evaluations so far.']

PROFILE = dict(metal=.2, onerror=.12, error=.03, translate=.15, name=.35,
               i18nattrs=.12, data=.3, attributes=.25, repeat=.12,
               structure=.3, script=.05, extend=.2, domain=.1, uniq=0, glob=0,
               pre=.5)
NS = ('xmlns:tal="http://xml.zope.org/namespaces/tal" '
      'xmlns:metal="http://xml.zope.org/namespaces/metal" '
      'xmlns:i18n="http://xml.zope.org/namespaces/i18n"')
SPACE = re.compile(r'\s+')
POSITION = re.compile(r'@\(.*?\)')


class Engine(engines.Engine):
    def tick(self):
        return 7


class Part:
    """Source, and what is observed when it is rendered."""

    def __init__(self, source, out='', trace=(), exc=None):
        self.source = source
        self.out = out
        self.trace = list(trace)
        self.exc = exc

    def put(self, source, out, times=1):
        """Inside of something; % stands for the part."""
        new = Part(source.replace('%', self.source))
        if self.exc:
            new.exc = self.exc
            new.out = out.partition('%')[0] + self.out
            new.trace = self.trace
        else:
            new.out = out.replace('%', self.out)
            new.trace = self.trace * times
        return new


def show(s):
    return POSITION.sub('@', s)


def norm(s):
    return SPACE.sub(' ', s)


def calls(trace):
    """The engine calls that belong to the part."""
    out = []
    for e in trace:
        if 'WRAP' in str(e[1]):
            continue
        env = [(k, v) for k, v in e[4] if k != 'macroname' and k[:2] != 'zz']
        attrs = None if e[0] == 'macro' else e[5]
        out.append((e[0], show(repr(e[1])), env, attrs, show(repr(e[6:]))))
    return out


def whole(part, xml):
    return '<root %s>%s</root>' % (NS, part.source) if xml else part.source


def observe(source, xml, macros, values, **kw):
    program, own = sut.compile_source(source, xml, file='main.pt')
    engine = Engine(dict(macros, **own), values)
    stream = sut.Stream()
    exc = None
    try:
        sut.render(program, own, engine, stream, **kw)
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        exc = e
    out = stream.getvalue()
    if xml:
        out = out.replace('<root>', '', 1)
        if exc is None:
            out = out[:-len('</root>')]
    return out, engine, exc


class Around:
    def __init__(self, r, obs, xml, parts, library):
        self.r = r
        self.library = library
        self.obs = obs
        self.xml = xml
        self.parts = parts
        self.n = 0

    def name(self):
        self.n += 1
        return 'zzWRAP%d' % self.n

    def tag(self):
        return self.r.choice(('div', 'section', 'center', 'form')
                             if not self.xml else ('div', 'x-y', 'a.b'))

    def once(self, part):
        r = self.r
        k = r.choice(AROUND)
        t = self.tag()
        self.obs.count(k)
        a = '<%s>%%</%s>' % (t, t)
        if k == 'element':
            return part.put(a, a)
        if k == 'comment':
            return part.put('<!-- c -->%<!-- d -->', '<!-- c -->%<!-- d -->')
        if k == 'attributes':
            return part.put(
                '<%s class="x" id="y" tal:attributes="id s:WRAP">%%</%s>'
                % (t, t), '<%s class="x" id="WRAP">%%</%s>' % (t, t))
        if k == 'block':
            return part.put(r.choice((
                '<tal:block>%</tal:block>', '<metal:x>%</metal:x>',
                '<tal:x tal:omit-tag="">%</tal:x>')), '%')
        if k == 'omitted tag':
            return part.put('<%s tal:omit-tag="t:WRAP">%%</%s>' % (t, t), '%')
        if k == 'condition':
            return part.put('<tal:x condition="t:WRAP">%</tal:x>'
                            '<tal:x condition="f:WRAP">no</tal:x>', '%')
        if k == 'loop':
            n = r.choice((1, 2, 3))
            return part.put('<%s tal:repeat="zz q:%s">%%</%s>' % (
                t, ','.join(['WRAP'] * n), t), a * n, n)
        if k == 'definition':
            return part.put('<%s tal:define="zz s:WRAP; zzb s:WRAP">%%</%s>'
                            % (t, t), a)
        if k == 'handler':
            kind = r.choice(('', 'structure ', 'text '))
            new = part.put('<%s tal:on-error="%ss:FAILED WRAP">%%</%s>' % (
                t, kind, t), a)
            if part.exc:
                # from here on as if nothing had failed
                self.obs.count('handled around')
                new.exc = None
                new.out = '<%s>FAILED WRAP</%s>' % (t, t)
            return new
        if k == 'named part':
            # white space next to preformatted text is not judged
            if 'pre' in (part.source + part.out + self.library).lower():
                return part
            new = part.put(
                '<%s i18n:translate="WRAP ${zn}-same">before <b i18n:name="zn"'
                '>%%</b></%s>' % (t, t), '<%s>WRAP <b>%%</b>-same</%s>' % (
                    t, t))
            # runs of whitespace are one space in what a name stands for
            new.out = ('<%s>' % t if part.exc else
                       new.out.replace(part.out, norm(part.out)))
            return new
        if k == 'failed before':
            return part.put('<b tal:on-error="s:E WRAP"><i tal:repeat="zz '
                            'q:WRAP"><u tal:define="zzc s:WRAP" tal:content='
                            '"x:WRAP">x</u></i></b>%', '<b>E WRAP</b>%')
        if k == 'macro in place':
            return part.put('<%s metal:define-macro="%s">%%</%s>' % (
                t, self.name(), t), a)
        if k == 'macro':
            m = self.name()
            if 'define-macro' in part.source:
                return part
            return part.put(
                '<tal:x condition="f:WRAP"><%s metal:define-macro="%s">%%</%s>'
                '</tal:x><b metal:use-macro="mac:%s">x</b>' % (t, m, t, m), a)
        if k == 'extended macro':
            m, m2 = self.name(), self.name()
            if 'define-macro' in part.source:
                return part
            return part.put(
                '<tal:x condition="f:WRAP"><%s metal:define-macro="%s">%%</%s>'
                '<i metal:define-macro="%s" metal:extend-macro="mac:%s"/>'
                '</tal:x><b metal:use-macro="mac:%s">x</b>' % (
                    t, m, t, m2, m, m2), a)
        if k == 'slot':
            m = self.name()
            return part.put(
                '<tal:x condition="f:WRAP"><u metal:define-macro="%s">[<i '
                'metal:define-slot="zz">d</i>]</u></tal:x><b metal:use-macro='
                '"mac:%s">x<%s metal:fill-slot="zz">%%</%s>y</b>' % (
                    m, m, t, t), '<u>[%s]</u>' % a)
        if k == 'slot default':
            m = self.name()
            if 'define-macro' in part.source:
                return part
            return part.put(
                '<tal:x condition="f:WRAP"><u metal:define-macro="%s">[<%s '
                'metal:define-slot="zz">%%</%s>]</u></tal:x><b metal:use-macro'
                '="mac:%s">x</b>' % (m, t, t, m), '<u>[%s]</u>' % a)
        if k == 'default content':
            return part.put('<%s tal:content="%sd:WRAP">%%</%s>' % (
                t, r.choice(('', 'structure ', 'text ')), t), a)
        if k == 'default replace':
            return part.put('<%s tal:replace="%sd:WRAP">%%</%s>' % (
                t, r.choice(('', 'structure ')), t), '%')
        # a macro is defined once only
        if not self.parts:
            return part
        other = self.parts.pop()
        new = Part(part.source, part.out, part.trace, part.exc)
        first, second = ((other, new) if k == 'parts before' else (new, other))
        both = Part(first.source + '|' + second.source)
        both.exc = first.exc or second.exc
        both.out = first.out
        both.trace = first.trace
        if not first.exc:
            both.out += '|' + second.out
            both.trace = both.trace + second.trace
        return both


def inner(doc):
    """Source of the nodes of a document, between words."""
    s = doc.source
    if doc.xml:
        s = s[s.index('>', s.index('<root')) + 1:s.rindex('<')]
    # what belongs to a first loop is not shared with what stands before
    return 'x%sx' % s


def make_part(obs, g, macros, **kw):
    doc = gen.make_doc(g)
    part = Part(inner(doc).replace('%', '&#37;'))
    out, engine, exc = observe(whole(part, g.xml), g.xml, macros, g.values,
                               **kw)
    part.out = out
    part.trace = calls(engine.trace)
    part.exc = exc and type(exc).__name__
    for e in engine.trace:
        if e[0] == 'translate':
            obs.count('translations')
        elif e[0] in ('code', 'next', 'macro', 'structure'):
            obs.count({'code': 'scripts', 'next': 'loops', 'macro': 'macros',
                       'structure': 'structure'}[e[0]])
    obs.count('handled errors', len(engine.errors))
    obs.count('failed renderings', bool(exc))
    return part


def placed(r, obs, i):
    xml = bool(i % 2)
    g = gen.Gen(r, xml=xml, prof=gen.profile(**PROFILE))
    macros = {}
    if r.random() < .5:
        lib = gen.make_case(g, 1).libs[0]
        _, macros = sut.compile_doc(lib)
    kw = r.choice(({}, {}, {}, {'strictinsert': 0}))
    parts = []
    for _ in range(3):
        g.budget = r.choice((4, 8, 15))
        parts.append(make_part(obs, g, macros, **kw))
    around = Around(r, obs, xml, parts[1:], lib.source if macros else '')
    part = parts[0]
    depth = r.choice((1, 1, 2, 3, 5))
    alone = part.source
    for _ in range(depth):
        new = around.once(part)
        if len(new.out) > 20000:
            break
        part = new
    obs.count('deep', depth > 3)
    obs.count('xml' if xml else 'html')
    detail = {'part': alone, 'source': whole(part, xml), 'settings': repr(kw),
              'values': {k: repr(v) for k, v in g.values.items()}}
    if macros:
        detail['library'] = lib.source
    try:
        out, engine, exc = observe(whole(part, xml), xml, macros, g.values,
                                   **kw)
    except Exception as e:
        raise Violation('refused in other surroundings', error=say(e),
                        **detail)
    obs.ev()
    got = exc and type(exc).__name__
    if got != part.exc:
        raise Violation('exception in other surroundings', expected=part.exc,
                        observed=say(exc), **detail)
    if show(out) != show(part.out):
        raise Violation('output in other surroundings',
                        expected=clip(part.out), observed=clip(out), **detail)
    seen = calls(engine.trace)
    if seen != part.trace or engine.problems:
        k = next((k for k, (x, y) in enumerate(zip(seen, part.trace))
                  if x != y), min(len(seen), len(part.trace)))
        raise Violation('engine calls in other surroundings', at=k,
                        expected=clip(repr(part.trace[k:k + 2])),
                        observed=clip(repr(seen[k:k + 2])),
                        problems=engine.problems, **detail)
    obs.seen(out, depth)
    obs.sample(template=clip(whole(part, xml), 400), output=clip(out, 300))


FAMILIES = [
    ('placed', placed, 24000, 120000),
]
