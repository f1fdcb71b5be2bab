"""The work grows in proportion to the template and to what is rendered."""
import html.parser
import os
import sys
import time

import _markupbase

import zope.tal.talinterpreter
from zope.tal.talgettext import POEngine
from zope.tal.talgettext import POTALInterpreter

from harness import engine as engines
from harness import gen
from harness import sut
from harness.obs import Skip
from harness.obs import Violation
from harness.obs import clip
from harness.obs import say

ID = 'C35'
LEVEL = 'exploration'
RULE = ('The lines executed by the code under test are counted while '
        'templates of 4, 16 and 64 times a size (shapes: up to 256 times) '
        'are compiled and rendered, and while loops of so many items are.  '
        'From the second to the third size the count may grow at most 1.4 '
        'times as fast as from the first to the second.  '
        'Generated bodies, and shapes that grow in one direction: '
        'attributes, definitions, slots, macros, named parts, inserted '
        'structure, text.  Long runs of one or two characters, in every '
        'place of a template, are measured in processor time, for what '
        'happens inside of a single line, and so are 32000 of a kind: 8 '
        'times as much may take 24 times as long.  Non-trivial: every case; distinct by the counts.')
REQUIRED = ('html', 'xml', 'compiled', 'rendered', 'loop', 'extracted',
            'siblings', 'shape', 'many attributes', 'dynamic attributes',
            'translated attributes', 'definitions', 'slots', 'macros', 'uses',
            'named parts', 'structure', 'text', 'references', 'handlers',
            'comments', 'omitted end tags', 'nested uses',
            'nested', 'nested statements', 'nested handlers', 'nested units',
            'expanded', 'runs', 'runs refused', 'runs rendered', 'bulk')

WATCHED = (os.path.dirname(zope.tal.talinterpreter.__file__) + os.sep,
           html.parser.__file__, _markupbase.__file__)
TOOL = 3
SIZES = 4, 16, 64
MORE = 4, 32, 256


class Engine(engines.Engine):
    """Each item of a loop is like the others."""

    def tick(self):
        return 100000 + engines.Engine.tick(self)


class Lines:
    """Counts lines executed in the watched files."""

    def __enter__(self):
        self.n = 0
        mon = sys.monitoring
        mon.use_tool_id(TOOL, 'lines')
        mon.register_callback(TOOL, mon.events.LINE, self.line)
        mon.set_events(TOOL, mon.events.LINE)
        return self

    def line(self, code, number):
        if code.co_filename.startswith(WATCHED):
            self.n += 1
        else:
            return sys.monitoring.DISABLE

    def __exit__(self, *exc):
        mon = sys.monitoring
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.free_tool_id(TOOL)


PROFILE = dict(metal=0, onerror=.1, error=0, translate=.15, name=.4,
               i18nattrs=.12, domain=.1, data=.3, attributes=.3, repeat=.15,
               structure=.35, script=.05, define=.3, condition=.2,
               omit=.2, content=.2, fault=0)


def judge(obs, how, counts, sizes, **detail):
    obs.ev()
    obs.count(how)
    a, b = counts[1] - counts[0], counts[2] - counts[1]
    due = a * (sizes[2] - sizes[1]) / (sizes[1] - sizes[0])
    if b > 1.4 * max(due, 0) + 400:
        raise Violation('work grows faster than the input: ' + how,
                        sizes=sizes, lines=counts, **detail)
    obs.seen(how, counts)


def measure(source, xml, values, what=('compiled', 'rendered'), **kw):
    """Lines for compiling and for rendering."""
    with Lines() as a:
        try:
            program, macros = sut.compile_source(source, xml, file='main.pt')
        except Exception as exc:
            raise Violation('correct template refused', source=clip(source),
                            error=say(exc))
    engine = Engine(macros, values)
    engine.visible = engine.attrs = lambda: ()
    failed = None
    with Lines() as b:
        try:
            sut.render(program, macros, engine, **kw)
        except Exception as exc:
            failed = exc
    return a.n, b.n, failed, program, macros


def body(r, i):
    g = gen.Gen(r, xml=bool(i % 2), prof=gen.profile(**PROFILE))
    g.budget = r.choice((3, 6))
    nodes = g.nodes(gen.Ctx(), 0, top=True)
    return g, nodes


def siblings(r, obs, i):
    g, nodes = body(r, i)
    xml = g.xml
    obs.count('xml' if xml else 'html')
    obs.count('siblings')
    kw = r.choice(({}, {}, {'wrap': 40}, {'tal': 0}, {'showtal': 1},
                   {'sourceAnnotations': 1}))
    compiled, rendered = [], []
    seed = g.r.getstate()
    for n in SIZES:
        g.r.setstate(seed)
        source = gen.make_doc(g, nodes=nodes * n).source
        a, b, failed, program, macros = measure(source, xml, g.values, **kw)
        if failed:
            raise Skip('fails')
        compiled.append(a)
        rendered.append(b)
    judge(obs, 'compiled', compiled, SIZES, source=clip(source))
    judge(obs, 'rendered', rendered, SIZES, source=clip(source), settings=kw)
    obs.sample(template=clip(source, 200), compiled=compiled,
               rendered=rendered, sizes=SIZES)


def loop(r, obs, i):
    g, nodes = body(r, i)
    e = gen.Elem('x-y', stm={'tal:repeat': ('zz', 'v:items')},
                 children=nodes)
    seed = g.r.getstate()
    source = gen.make_doc(g, nodes=[e]).source
    if 'v:items' not in source:
        raise Skip('not written')
    obs.count('xml' if g.xml else 'html')
    g.r.setstate(seed)
    rendered = []
    program, macros = sut.compile_source(source, g.xml, file='main.pt')
    for n in SIZES:
        engine = Engine(macros, g.values)
        engine.globals['items'] = [7] * n
        engine.visible = engine.attrs = lambda: ()
        with Lines() as b:
            try:
                sut.render(program, macros, engine)
            except Exception:
                raise Skip('fails')
        rendered.append(b.n)
    judge(obs, 'loop', rendered, SIZES, source=clip(source))


NS = ('xmlns:tal="http://xml.zope.org/namespaces/tal" '
      'xmlns:metal="http://xml.zope.org/namespaces/metal" '
      'xmlns:i18n="http://xml.zope.org/namespaces/i18n"')


def each(n, text, sep=''):
    return sep.join(text.replace('#', str(k)) for k in range(n))


#: name -> a text of size n
SHAPES = {
    'many attributes': lambda n: '<b %s tal:attributes="a0 s:x"/>' % each(
        n, 'a#="v&amp;#"', ' '),
    'dynamic attributes': lambda n: '<b %s tal:attributes="%s"/>' % (
        each(n, 'a#="v"', ' '), each(2 * n, 'a# s:x#', '; ')),
    'translated attributes': lambda n: '<b %s i18n:attributes="%s"/>' % (
        each(n, 'a#="v"', ' '), each(n, 'a# m#', '; ')),
    'definitions': lambda n: '<b tal:define="%s">x</b>' % each(
        n, 'v# s:a;;b', '; '),
    'slots': lambda n: '<p><b metal:define-macro="m">%s</b><i metal:'
    'use-macro="mac:m">%s</i></p>' % (
        each(n, '<u metal:define-slot="s#">d</u>'),
        each(n, '<u metal:fill-slot="s#">f</u>\n')),
    'macros': lambda n: '<p>%s</p>' % each(
        n, '<b metal:define-macro="m#">x</b>'),
    'uses': lambda n: '<p><b metal:define-macro="m">x</b>%s</p>' % each(
        n, '<i metal:use-macro="mac:m"/>'),
    'nested uses': lambda n: '<p><b metal:define-macro="m">x<i metal:'
    'define-slot="s"/></b>%s</p>' % each(
        n, '<i metal:use-macro="mac:m"><u metal:fill-slot="s"><i metal:'
        'use-macro="mac:m"/></u></i>'),
    'expanded': lambda n: '<p><b metal:define-macro="m">x</b>%s</p>' % each(
        n, '<i metal:use-macro="mac:m"/><b tal:content="s:x"/>'),
    'named parts': lambda n: '<p i18n:translate="">%s</p>' % each(
        n, 'a <b i18n:name="n#">x</b>\n'),
    'structure': lambda n: '<p><b tal:content="structure s:%s"/></p>' % each(
        n, '&lt;b c=\'#\'&gt;x&lt;/b&gt;'),
    'text': lambda n: '<p>%s<b tal:content="s:%s"/></p>' % (
        each(n, 'a b\n  c\n'), each(n, 'x\n')),
    'references': lambda n: '<p>%s</p>' % ('&amp;&#65;&lt;' * n),
    'handlers': lambda n: '<p>%s</p>' % each(
        n, '<b tal:on-error="s:e" tal:content="x:B"/>'),
    'comments': lambda n: '<p>%s</p>' % each(n, '<!-- # --><?pi #?>'),
    'nested': lambda n: '%sx%s' % ('<div>\n' * n, '</div>' * n),
    'nested statements': lambda n: '%sx%s' % (each(
        n, '<b tal:define="v s:#" tal:condition="t:" tal:attributes="c s:d" '
        'tal:omit-tag="f:" i18n:domain="d#">'), '</b>' * n),
    'nested handlers': lambda n: '%sx%s' % (each(
        n, '<b tal:on-error="s:e">'), '</b>' * n),
    'nested units': lambda n: '%sx%s' % (each(
        n, '<b i18n:translate="m#">t <i i18n:name="n">'), '</i></b>' * n),
    'omitted end tags': lambda n: '<ul>%s</ul><table>%s</table>' % (
        each(n, '<li>#<p>x'), each(n, '<tr><td>#<td>x')),
    'same message': lambda n: '<p>%s</p>' % each(
        n, '<b i18n:translate="">same</b>'),
    'messages': lambda n: '<p>%s</p>' % each(
        n, '<b i18n:translate="">m #</b>\n'),
    'domains': lambda n: '<p>%s</p>' % each(
        n, '<b i18n:domain="d#" i18n:translate="id">d #</b>\n'),
    'loops': lambda n: '<p>%s</p>' % each(
        n, '\n <b tal:repeat="v r:1">x</b>'),
    'scripts': lambda n: '<p>%s</p>' % each(
        n, '<b tal:script="x">x</b>\n'),
    'globals': lambda n: '<p>%s</p>' % each(
        n, '<b tal:define="global g# s:x"/>\n'),
}


def shape(r, obs, i):
    names = sorted(SHAPES)
    name = names[i // 2 % len(names)]
    xml = bool(i % 2)
    if name == 'omitted end tags':
        xml = False
    obs.count(name)
    obs.count('shape')
    obs.count('xml' if xml else 'html')
    kw = {'tal': 0} if name == 'expanded' else r.choice(
        ({}, {}, {'wrap': 60}, {'sourceAnnotations': 1}))
    fill = r.choice(('', 'tail', '\n', '<i>more</i>'))
    pre = r.choice(('', '<em>first</em>', 'text\n'))
    compiled, rendered, extracted = [], [], []
    # the nesting is limited by Python
    sizes = SIZES if name.startswith('nested') else MORE
    for n in sizes:
        source = pre + SHAPES[name](n) + fill
        if xml:
            source = '<root %s>%s</root>' % (NS, source)
        a, b, failed, program, macros = measure(source, xml, {}, **kw)
        if failed:
            raise Violation('rendering fails', source=clip(source), shape=name,
                            error=say(failed))
        compiled.append(a)
        rendered.append(b)
        engine = POEngine()
        engine.file = 'f'
        with Lines() as c:
            POTALInterpreter(program, macros, engine, sut.Stream(),
                             metal=False)()
        extracted.append(c.n)
    judge(obs, 'compiled', compiled, sizes, source=clip(source), shape=name)
    judge(obs, 'rendered', rendered, sizes, source=clip(source), settings=kw,
          shape=name)
    judge(obs, 'extracted', extracted, sizes, source=clip(source), shape=name)


#: where a run of characters stands; % is the run
PLACES = (
    '<p>%x</p>', '<div><p>%x<p>y</div>', '<div><p>x%<p>y</div>',
    '<ul><li>a%x<b>c</b>%x<li>y</ul>', '<ul><li>a<b>c</b>%<li>y</ul>',
    '<div>%x<b tal:repeat="v r:2">y</b></div>',
    '<div>x%<b tal:repeat="v r:2">y</b></div>',
    '<p class="x%x">y</p>', '<p class="x%x" tal:attributes="id s:a">y</p>',
    '<p class="x%x" tal:attributes="class d:">y</p>',
    '<p tal:attributes="class s:x%x">y</p>',
    '<p tal:attributes="%class s:x">y</p>',
    '<p tal:attributes="class%s:x">y</p>',
    '<p tal:attributes="class s:x%">y</p>',
    '<p tal:attributes="class s:x;%id s:y">y</p>',
    '<p tal:attributes="class%">y</p>',
    '<p tal:define="v s:x%x">y</p>', '<p tal:define="%v s:x">y</p>',
    '<p tal:define="local%v s:x">y</p>', '<p tal:define="v%s:x">y</p>',
    '<p tal:define="v%">y</p>', '<p tal:define="v% s:x">y</p>',
    '<p tal:define="v s:x;%w s:x">y</p>', '<p tal:define="global%">y</p>',
    '<p tal:repeat="v% r:1">y</p>', '<p tal:repeat="%v r:1">y</p>',
    '<p tal:repeat="v%r:1">y</p>', '<p tal:repeat="v%">y</p>',
    '<p tal:content="s:x%x">y</p>', '<p tal:content="%s:x">y</p>',
    '<p tal:content="text%s:x">y</p>', '<p tal:content="structure%">y</p>',
    '<p tal:content="structure s:x%x">y</p>',
    '<p tal:replace="structure%s:x">y</p>',
    '<p tal:replace="structure s:&lt;p&gt;a%x&lt;p&gt;">y</p>',
    '<p tal:replace="structure s:&lt;b c=\'%x\'/&gt;">y</p>',
    '<p i18n:translate="">x%x</p>', '<p i18n:translate="x%x">y</p>',
    '<p i18n:translate="">%</p>', '<pre i18n:translate="">x%x</pre>',
    '<p i18n:translate="">a <b i18n:name="n%">y</b></p>',
    '<p i18n:translate="">a <b i18n:name="n">x%x</b></p>',
    '<p i18n:translate="m" i18n:data="%n:">a</p>',
    '<p i18n:translate="" tal:content="s:x%x">a</p>',
    '<p class="x%x" i18n:attributes="class">a</p>',
    '<p class="x" i18n:attributes="%class">a</p>',
    '<p class="x" i18n:attributes="class%m">a</p>',
    '<p class="x" i18n:attributes="class m%">a</p>',
    '<p i18n:domain="x%x" i18n:translate="">a</p>',
    '<p metal:define-macro="m%">a</p>', '<p metal:define-macro="%m">a</p>',
    '<p metal:define-macro="m"><b metal:define-slot="m%">a</b></p>',
    '<p metal:use-macro="d:%"><b metal:fill-slot="%m">a</b></p>',
    '<p tal:on-error="s:x%x" tal:content="x:B">a</p>',
    '<!--x%x-->', '<?x x%x?>', '<script>x%x</script>',
    '<p tal:condition="t:%">x</p>', '<p tal:omit-tag="t:%">x</p>',
    '<p%>x</p>', '<p %class="a">x</p>', '<p class="a"%>x</p>',
    '<p>x</p%>', '<a%a>x</a%a>', '<p b%b="x">x</p>', '<p b=%>x</p>',
    '<p tal:b%b="x">x</p>', '<tal:p b="x%x">x</tal:p>',
    '<script type="text/server-x">x%x</script>',
)
RUNS = (' ', '\n', '\t', '\r\n', 'a', '&amp;', '&amp;#', '&lt;', '&#65;',
        '&copy', '&', '&a', '&#', '&#x', '&#x1', ';', '; ', ';;', '.', '-',
        '$', '${', '${a}', '{', '}', ':', '0', '_', '\xe9', '\xa0', ' \n',
        '\n ', 'a ', 'a\n', 'x:', '=', '/', '|', '(', '[', ']', '>', '$$',
        '\\', '&#10;', '&#32;', '&amp;a', '&amp;#x')
LONG = 40000
BULK = 32000


def spent(source, xml):
    """Processor time for compiling, rendering and extracting."""
    program = None
    out = []
    t = time.process_time()
    try:
        program, macros = sut.compile_source(source, xml, file='main.pt')
    except Exception:
        pass
    out.append(('compiled', time.process_time() - t))
    if program is not None:
        t = time.process_time()
        engine = Engine(macros, {})
        engine.visible = engine.attrs = lambda: ()
        try:
            sut.render(program, macros, engine)
        except Exception:
            pass
        out.append(('rendered', time.process_time() - t))
        t = time.process_time()
        engine = POEngine()
        engine.file = 'f'
        try:
            POTALInterpreter(program, macros, engine, sut.Stream(),
                             metal=False)()
        except Exception:
            pass
        out.append(('extracted', time.process_time() - t))
    return out


def slow(times, again, **detail):
    if max(t for _, t in times) < 1:
        return
    short = dict(again())
    for how, t in times:
        if t > 1 and t > 24 * short[how]:
            raise Violation('time grows faster than the input: ' + how,
                            seconds=t, seconds_short=short[how], **detail)


def runs(r, obs, i):
    xml = bool(i % 2)
    k, place = divmod(i // 2, len(PLACES))
    if k < len(RUNS):
        unit = RUNS[k]
    else:
        unit = ''.join(r.choice(RUNS) for _ in range(r.choice((2, 2, 3))))

    def write(n):
        source = PLACES[place].replace('%', unit * (n // len(unit)))
        return '<root %s>%s</root>' % (NS, source) if xml else source
    times = spent(write(LONG), xml)
    obs.ev()
    obs.count('runs')
    obs.count('xml' if xml else 'html')
    obs.count('runs rendered' if len(times) > 1 else 'runs refused')
    obs.seen('run', xml, place, unit)
    slow(times, lambda: spent(write(LONG // 8), xml), place=PLACES[place],
         run=unit, xml=xml, length=LONG)


def bulk(r, obs, i):
    names = sorted(n for n in SHAPES if not n.startswith('nested'))
    name = names[i // 2 % len(names)]
    xml = bool(i % 2) and name != 'omitted end tags'

    def write(n):
        source = SHAPES[name](n)
        return '<root %s>%s</root>' % (NS, source) if xml else source
    times = spent(write(BULK), xml)
    obs.ev()
    obs.count('bulk')
    obs.seen('bulk', xml, name)
    if len(times) < 2:
        raise Violation('correct template refused', shape=name, xml=xml)
    slow(times, lambda: spent(write(BULK // 8), xml), shape=name, xml=xml,
         number=BULK)


FAMILIES = [
    ('siblings', siblings, 600, 5000),
    ('loop', loop, 600, 5000),
    ('shape', shape, 160, 1000),
    ('runs', runs, 7000, 40000),
    ('bulk', bulk, 48, 100),
]
