"""A template that is HTML and XML at once means the same in both modes."""
import re
from xml.parsers import expat

from harness import gen
from harness import lang
from harness import sut
from harness.engine import Engine
from harness.obs import Violation
from harness.obs import clip
from harness.obs import say

ID = 'C38'
LEVEL = 'exploration'
RULE = ('Templates and macro libraries that can be read as HTML and as XML '
        '(lower case names, no elements or attributes with a meaning of '
        'their own in HTML, no character references) are compiled and '
        'rendered in both modes, with failures injected into a third of '
        'them.  Exceptions and engine calls (expression, position, '
        'variables, attributes, messages) must be equal, and so must the '
        'outputs, read by an XML parser.  No reference renderer is '
        'involved.  Distinct by output and number of engine calls.')
REQUIRED = ('conditions', 'loops', 'macros', 'structure', 'translations',
            'translated attributes', 'failed renderings', 'handled errors',
            'injected failures', 'extensions', 'slots', 'rejected templates',
            'attributes')
PROFILE = dict(metal=.25, onerror=.12, error=.02, translate=.2, name=.35,
               i18nattrs=.15, data=.3, attributes=.3, repeat=.15,
               structure=.3, extend=.3, domain=.1, shout=0)
TAGS = {'br': 'x-br', 'p': 'para', 'script': 'x.s', 'li': 'item',
        'pre': 'x-pre', 'Pre': 'doc', 'A.b': 'a.b'}
LINE = re.compile(r'[\n\t\r]')
# the two ways to write an empty element
EMPTY = re.compile(r'<([\w.:-]+)((?:\s+[\w:][^<>]*?)?)\s*(?:/>|></\1>)')



def plain(s):
    # HTML allows for it to stay as it is, as there is no such entity
    return s.replace('&zz;', '&amp;zz;')


class Gen(gen.Gen):
    def attrnames(self):
        return 'id', 'class', 'title', 'href', 'value', 'x-y', 'data-b'

    def elem(self, *a, **kw):
        e = gen.Gen.elem(self, *a, **kw)
        if not e.ns:
            e.tag = TAGS.get(e.tag, e.tag)
        return e

    def hostile(self):
        # line breaks in attributes are escaped in XML only
        x = gen.Gen.hostile(self)
        if x[:2] == 'h:':
            self.values[x[2:]] = LINE.sub(' ', self.values[x[2:]])
        return x

    def text(self):
        t = gen.Gen.text(self)
        for old, new in (('&#65;', '&amp;'), ('&#x41;', '&lt;'),
                         ('&quot;', '&gt;')):
            t.raw = t.raw.replace(old, new)
        t.raw = re.sub(r'(?<![-?])>', ']', t.raw)
        return t


class Reader:
    """Parsed form of output."""

    def __init__(self):
        self.events = []

    def add(self, *event):
        self.events.append(event)

    def text(self, s):
        if self.events and self.events[-1][0] == 'text':
            s = self.events.pop()[1] + s
        self.add('text', s)

    def start(self, tag, attrs):
        pairs = tuple(zip(attrs[::2], attrs[1::2]))
        self.add('start', tag, tuple(p for p in pairs
                                     if not p[0].startswith('xmlns')))


def read(s):
    h = Reader()
    p = expat.ParserCreate()
    p.ordered_attributes = True
    p.StartElementHandler = h.start
    p.EndElementHandler = lambda t: h.add('end', t)
    p.CharacterDataHandler = h.text
    p.CommentHandler = lambda s: h.add('comment', s)
    p.ProcessingInstructionHandler = lambda t, s: h.add('pi', t, s)
    p.Parse(s, True)
    return h.events


def run(case, xml, fault):
    macros = {}
    for d in case.libs:
        _, m = sut.compile_source(d.source, xml, file=d.file)
        macros.update(m)
    program, own = sut.compile_source(case.main.source, xml,
                                      file=case.main.file)
    engine = Engine(dict(macros, **own), case.values, fault=fault,
                    translate=translation)
    stream = sut.Stream()
    exc = None
    try:
        sut.render(program, own, engine, stream)
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        exc = e
    return stream.getvalue(), engine, exc


def translation(msgid, domain, mapping, default):
    # letters keep their case, so that what comes out can be read
    if getattr(msgid, 'domain', None):
        domain = msgid.domain
    if getattr(msgid, 'mapping', None) is not None:
        mapping = msgid.mapping
    return lang.interpolate('[%s|%s]' % (domain, msgid), mapping)


COUNTED = {'bool': 'conditions', 'next': 'loops', 'macro': 'macros',
           'structure': 'structure', 'translate': 'translations'}


def both(r, obs, i):
    g = Gen(r, xml=True, prof=gen.profile(**PROFILE))
    case = gen.make_case(g, r.choice((0, 1, 2)))
    if r.random() < .1:
        # something wrong
        s = case.main.source
        k = r.choice(('tal:foo="x"', 'metal:use-macro="s:x" '
                      'metal:fill-slot="s"', 'tal:content="x" '
                      'tal:replace="y"', 'tal:define="1"', 'i18n:name="n"',
                      'tal:repeat="x"', 'tal:condition="bad:"',
                      'metal:define-macro="1 2"', 'i18n:data="x"',
                      'tal:attributes="id x; id y"', 'metal:fill-slot="a"'))
        at = s.rindex('</root')
        case.main.source = '%s<item %s>x</item>%s' % (s[:at], k, s[at:])
    fault = ()
    try:
        want = run(case, True, ())
    except Exception as e:
        obs.count('rejected templates')
        try:
            run(case, False, ())
        except Exception as f:
            got = f
        else:
            got = None
        obs.ev()
        if type(got) is not type(e) or say(got) != say(e):
            raise Violation('rejected in one mode or otherwise',
                            expected=say(e), observed=say(got),
                            source=case.main.source,
                            libraries=[d.source for d in case.libs])
        obs.seen(say(e))
        return
    if r.random() < .35 and want[1].trace:
        fault = (r.randrange(len(want[1].trace)),)
        obs.count('injected failures')
        want = run(case, True, fault)
    detail = dict(case.describe(), fault=fault)
    try:
        got = run(case, False, fault)
    except Exception as e:
        raise Violation('rejected as HTML only', error=say(e), **detail)
    obs.ev()
    for e in want[1].trace:
        if e[0] in COUNTED:
            obs.count(COUNTED[e[0]])
    source = ''.join(d.source for d in case.libs) + case.main.source
    for k, what in (('extend-macro', 'extensions'), ('fill-slot', 'slots'),
                    ('tal:attributes', 'attributes'),
                    ('i18n:attributes', 'translated attributes')):
        obs.count(what, k in source)
    obs.count('handled errors', len(want[1].errors))
    if (type(want[2]) is not type(got[2])):
        raise Violation('exceptions differ', expected=say(want[2]),
                        observed=say(got[2]), **detail)
    a, b = [[EMPTY.sub(r'<\1\2/>', plain(repr(e))) for e in x[1].trace]
            for x in (want, got)]
    if a != b or want[1].problems or got[1].problems:
        k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y),
                 min(len(a), len(b)))
        raise Violation('engine calls differ', at=k,
                        expected=clip(''.join(a[k:k + 1])),
                        observed=clip(''.join(b[k:k + 1])), **detail)
    if want[2] is not None:
        obs.count('failed renderings')
    else:
        x = read(want[0])
        try:
            y = read(plain(got[0]))
        except expat.ExpatError as e:
            y = say(e)
        if x != y:
            raise Violation('outputs differ', expected=clip(want[0], 2000),
                            observed=clip(got[0], 2000), **detail)
    obs.seen(want[0], len(a))
    obs.sample(template=clip(case.main.source, 400), xml=clip(want[0], 300),
               html=clip(got[0], 300))


FAMILIES = [
    ('both', both, 20000, 100000),
]
