"""Inserted structure is checked and inserted but never executed."""
from xml.parsers import expat

from zope.i18nmessageid import Message

from checks.c01 import SOUP
from checks.common import TRACE
from checks.common import build
from checks.common import differential
from checks.common import grown
from harness import gen
from harness import lexhtml
from harness import lexxml
from harness import pair
from harness import sut
from harness import wide
from harness.engine import Engine
from harness.lang import Thing
from harness.obs import Skip
from harness.obs import Violation
from harness.obs import clip
from harness.obs import same
from harness.tree import NS
from harness.tree import VOID

ID = 'C24'
LEVEL = 'exploration'
RULE = (TRACE + 'Structure is inserted everywhere: markup written token by '
        'token with the output expected, containing statements whose '
        'evaluation, or even compilation, would be noticed; markup that a '
        'plain parser refuses; and, for lenient insertion, arbitrary '
        'strings.  Soup is inserted and also compiled as a template of its '
        'own; both must give the same output or be refused alike.  '
        'Non-trivial: more than one event; distinct by output and events.')
REQUIRED = ('html', 'xml', 'markup', 'refused', 'lenient', 'message',
            'object', 'statement in markup', 'server script', 'soup accepted',
            'soup refused', 'structure inserted', 'handled errors', 'failed '
            'renderings', 'slot filled', 'statement element', 'translated',
            'with attributes', 'grown')

PROFILE = dict(structure=.85, content=.35, replace=.25, onerror=.12,
               metal=.15, error=.02, translate=.1, name=.3, domain=.1,
               repeat=.1, nothing=.03, default=.05, attributes=.25, pre=0,
               message=.2, script=.02, width=3)

TRAPS = {
    'tal': ('define', 'condition', 'content', 'replace', 'repeat',
            'attributes', 'on-error', 'omit-tag', 'script', 'nonsense'),
    'metal': ('define-macro', 'use-macro', 'extend-macro', 'define-slot',
              'fill-slot', 'nonsense'),
    'i18n': ('translate', 'domain', 'source', 'target', 'name', 'attributes',
             'data', 'ignore', 'ignore-attributes', 'nonsense'),
}
ARGS = ('x:V', 'bad:x', 'a bad:x', 'a x:V; b x:W', '', 'structure x:V', '1',
        'mac:m1', 's1', 'text/server-python', ';', 'x x')

JUNK = ('<', '>', '</b>', '<b', '&', '&amp;', '"', "'", '<br>', '<!--', '-->',
        '<p>', '</p>', ' tal:content="x:V"', '<p tal:replace="x:V">', 'x',
        ' ', '\n', 'é', '<script type="text/server-python">', '</script>',
        '<tal:b>', '${x}', '%', ']]>', '<![CDATA[', '\x00', '\r', '\x7f',
        '<?xml version="1.0"?>', '<metal:x use-macro="x:V"/>', '\U0001f600',
        '\t', '&nbsp;', '</br>', '中', '<b i18n:translate="">')

BADHTML = ('</zz>', '</b>', '<b><i></b></i>', '<br></br>', '</img>',
           '<h1>x<p>y</p></h1>', '<h2>x<div></div></h2>', '<b></b></b>',
           '<p>a</p></p>', '<table></td></table>', '<ul></li></ul>')
BADXML = ('<a>', '</a>', '<a></b>', '&', '& ', '<a b=c/>', '<!-- ', ']]>',
          '<a b="1" b="2"/>', '<', '\x01', '</foo><foo>', '</foo>', '<a ',
          '<a b="<"/>', '<?xml version="1.0"?>', '</foo><!-- x -->', '<>',
          '<a/><', '&;', '&x', '<![CDATA[', '<1/>', '<!DOCTYPE a>',
          '<a b/>', '<?x', '<!-- -- -->', '</foo><foo a="b">', '&#0;',
          '<a xmlns:p=""/>')


def traps(r, prefix, void):
    """Statements of one namespace: [(name, argument)]"""
    ns = r.choice(tuple(TRAPS))
    names = r.sample(TRAPS[ns], r.choice((1, 1, 2)))
    if void and 'content' in names:
        names.remove('content')
    p = prefix(ns) + ':'
    return ns, [(p + n, r.choice(ARGS)) for n in names]


class HTML(lexhtml.Lex):
    """HTML with statements; the expected output has none."""

    def __init__(self, r, obs):
        lexhtml.Lex.__init__(self, r)
        self.obs = obs
        self.budget = r.choice((2, 5, 12))
        self.void = False

    def element(self, tag, inner=None, close=True):
        r = self.r
        if tag in lexhtml.FREE and inner and r.random() < .04:
            # An element of a template namespace keeps its tags.
            ns = r.choice(tuple(TRAPS))
            name = ns + ':' + r.choice(('block', 'x'))
            self.src.append('<%s %s="x:V">' % (name, r.choice(TRAPS[ns])))
            self.out.append('<%s>' % name)
            inner()
            self.both('</%s>' % name)
            self.obs.count('statement element')
            return
        # a self-closing tag may be anything
        self.void = True
        lexhtml.Lex.element(self, tag, inner, close)

    def attrs(self):
        src, out = lexhtml.Lex.attrs(self)
        r = self.r
        if r.random() < .3:
            decl = ''

            def prefix(ns):
                nonlocal decl
                if r.random() < .7:
                    return ns
                p = r.choice(('t', 'zope', 'metal' if ns == 'tal' else 'x'))
                decl = ' xmlns:%s="%s"' % (p, NS[ns])
                return p
            ns, items = traps(r, prefix, self.void)
            s = ''.join(' %s=%s' % (k, lexhtml.attr_source(v, r))
                        if v or r.random() < .5 else ' ' + k
                        for k, v in items)
            if items:
                self.obs.count('statement in markup')
                if s.endswith(('"', "'")):
                    s = r.choice((s + decl, decl + s))
                else:
                    s += decl + ' '
                src += s
        return src, out


class XML(lexxml.Lex):
    def __init__(self, r, obs):
        lexxml.Lex.__init__(self, r, budget=r.choice((2, 5, 12)))
        self.obs = obs

    def statements(self):
        r = self.r
        if r.random() > .3:
            return []
        p = r.choice(('t_', 'T.', 'zope'))
        ns, items = traps(r, lambda ns: p, False)
        self.obs.count('statement in markup')
        return [(k, '"%s"' % v) for k, v in items] + [
            ('xmlns:' + p, '"%s"' % NS[ns])]


def xml_ok(text):
    p = expat.ParserCreate()
    try:
        p.Parse('<!DOCTYPE foo PUBLIC "foo" "bar"><foo>', False)
        p.Parse(text, False)
        p.Parse('</foo>', True)
    except expat.ExpatError:
        return False
    return True


class Gen24(gen.Gen):
    """Registers literal fragments besides those built from nodes."""

    def __init__(self, r, xml, obs, lenient):
        gen.Gen.__init__(self, r, xml=xml, prof=gen.profile(**PROFILE))
        self.obs = obs
        self.lenient = lenient
        self.literal = {}

    def lexed(self):
        if self.xml:
            lx = XML(self.r, self.obs)
            lx.content({}, 0)
        else:
            lx = HTML(self.r, self.obs)
            lx.content(0)
            if self.r.random() < .1:
                code = self.r.choice(('x = 1', 'print("<b>")', ''))
                lx.src.append('<script type="text/server-python">%s</script>'
                              % code)
                lx.out.append('<script>%s</script>' % code)
                self.obs.count('server script')
        return ''.join(lx.src), ''.join(lx.out)

    def fragment(self, same=False):
        r = self.r
        x = r.random()
        if x < .25 or same:
            return gen.Gen.fragment(self, same)
        if self.lenient and x < .7:
            src = out = ''.join(r.choice(JUNK)
                                for i in range(r.randint(1, 8)))
        else:
            src, out = self.lexed()
            if x > .9:
                bad = self.r.choice(BADXML if self.xml else BADHTML)
                src += bad + self.r.choice(('', ' ', 'x', '\n'))
                out = 'bad'
                if self.xml and xml_ok(src):
                    raise Skip()
        tail = r.choice(('', '', '', '-same'))
        if out != 'bad':
            out += tail
        src += tail
        key = self.uid('L')
        self.literal[key] = tail
        value = src
        if r.random() < .1:
            value = Thing(src)
        elif tail and r.random() < .4:
            value = Message(src, r.choice((None, 'domM')))
        self.values[key] = value
        if out != 'bad':
            self.obs.count('markup')
        self.fragments[src] = out
        return key

    def elem(self, ctx, depth, define=False):
        e = gen.Gen.elem(self, ctx, depth, define)
        s = e.stm
        sub = s.get('tal:replace') or s.get('tal:content')
        if sub and sub[0] == 'structure' and sub[1].startswith('h:'):
            tail = self.literal.get(sub[1][2:])
            if tail is not None:
                if 'tal:replace' in s:
                    s.pop('tal:attributes', None)
                    s.pop('i18n:attributes', None)
                if tail and not e.selfclose and self.r.random() < .3 \
                        and not (e.tag in VOID and not self.xml):
                    s['i18n:translate'] = ''
                    s.pop('i18n:name', None)
                    self.obs.count('translated')
            elif 'tal:replace' in s and 'tal:attributes' in s:
                self.obs.count('with attributes')
        return e


def template(r, obs, i):
    xml = bool(i % 2)
    lenient = i % 8 >= 6
    g = Gen24(r, xml, obs, lenient)
    g.budget = r.choice((8, 20))
    n = r.choice((0, 0, 1, 1, 2))
    if n:
        case = gen.make_case(g, n, True)
    else:
        case = pair.Case(gen.make_doc(g, 'main.pt'), (), g.values,
                         g.fragments)
    build(case)
    obs.count('xml' if xml else 'html')
    mod, real = differential(
        obs, case, (0, 1, 4), errors=True,
        real_kw=dict(strictinsert=0 if lenient else 1),
        model_kw=dict(strict=not lenient))
    if lenient and mod.stats.get('structure inserted'):
        obs.count('lenient')
    if any(pair.norm_exc(k) == pair.STRUCT for k, p in mod.errors) or \
            pair.norm_exc(mod.exc) == pair.STRUCT:
        obs.count('refused')
    for v in g.values.values():
        if isinstance(v, Message):
            obs.count('message')
        elif isinstance(v, Thing):
            obs.count('object')
    bad = [x for x in real.engine.compiled
           if x.startswith(('x:', 'bad:', 'a bad', 'mac:'))]
    if bad:
        raise Violation('expression of inserted markup compiled',
                        expressions=bad, **case.describe())


MORE = ('<p>', '<p>', '</p>', '<li>', '<ul>', '</ul>', '<td>', '<tr>',
        '<table>', '</table>', '<h1>', '</h1>', '<div>', '</div>', '<dt>')
XSOUP = ('<b', '<b>', '</b>', '<i>', '</i>', '/>', '<x/>', ' a="b"', '>',
         '<y a="1">', '</y>', '&amp;', '&', '&x;', '&#65;', '<!-- c -->',
         '<?p i?>', '<![CDATA[', ']]>', 'x', ' ', '\n', 'é', '"', "'", '<',
         '</foo>', '<foo>', '</doc>', '<doc>', '<!DOCTYPE a>', '&nbsp;',
         '<z xmlns="urn:z"/>', '<p:q xmlns:p="urn:p"/>', '-->', '<u></u>',
         '<u> </u>', '<t a="&lt;&amp;&quot;"/>')


def soup(r, obs, i):
    """The string inserted, and the string as a template."""
    xml = bool(i % 2)
    if xml:
        text = ''.join(r.choice(XSOUP) for _ in range(r.randint(1, 7)))
        if not xml_ok(text):
            expected = None
        else:
            dt = '<!DOCTYPE foo PUBLIC "foo" "bar">'
            p, m = sut.compile_source(dt + '<foo>' + text + '</foo>', True)
            expected = sut.render(p, m, Engine())
            if expected.endswith('<foo/>'):
                expected = ''
            else:
                assert expected.startswith(dt + '<foo>'), expected
                expected = expected[len(dt) + 5:-6]
        source = '<doc xmlns:tal="%s">(%%s)</doc>' % NS['tal']
    else:
        text = ''.join(r.choice(r.choice((SOUP, MORE)))
                       for _ in range(r.randint(1, 12)))
        try:
            p, m = sut.compile_source(text)
        except Exception:
            expected = None
        else:
            expected = sut.render(p, m, Engine())
        source = '<b>(%s)</b>'
    how = r.choice((
        '<i tal:content="structure h:x">q</i>',
        '<i tal:replace="structure h:x">q</i>',
        '<i tal:content="structure h:x" tal:repeat="a q:1,2">q</i>',
        '<tal:b content="structure h:x">q</tal:b>',
        '<i tal:content="x:V" tal:on-error="structure h:x">q</i>',
        '<i tal:on-error="s:E"><b tal:content="structure h:x">q</b></i>'))
    program, macros = sut.compile_source(source % how, xml)
    engine = Engine(macros, {'x': text})
    obs.ev()
    try:
        out = sut.render(program, macros, engine)
    except Exception as exc:
        if expected is not None:
            raise Violation('well-formed structure refused', text=text,
                            template=source % how, error=repr(exc)[:300])
        obs.count('soup refused')
        return
    want = None
    if expected is not None:
        want = (source % {
            'i': '<i>%s</i>', 't': '%s'}['t' if 'replace' in how or 'tal:b '
                                         in how else 'i'])
        want = want.replace(' xmlns:tal="%s"' % NS['tal'], '')
        if 'repeat' in how:
            want = want.replace('<i>%s</i>', '<i>%s</i><i>%s</i>')
        if 'tal:on-error="s:E"' in how:
            want = want.replace('<i>%s</i>', '<i><b>%s</b></i>')
        want = want.replace('%s', expected)
    elif 'tal:on-error="s:E"' in how:
        want = source.replace(' xmlns:tal="%s"' % NS['tal'], '').replace(
            '%s', '<i>E</i>')
    if want is None:
        raise Violation('structure that is not well-formed accepted',
                        text=text, template=source % how, output=out)
    if xml:
        # empty elements are written in short form
        want = want.replace('<i></i>', '<i/>').replace('<b></b>', '<b/>') \
            if not expected else want
        out2 = out.replace('<i></i>', '<i/>').replace('<b></b>', '<b/>') \
            if not expected else out
    else:
        out2 = out
    same(want, out2, 'inserted differently from a template', text=text,
         template=source % how)
    obs.count('soup accepted' if expected is not None else 'soup refused')
    obs.seen(text, how)
    obs.sample(text=clip(text, 200), output=clip(out, 300))


FAMILIES = [('grown', grown(wide.long_structure, errors=True), 1600, 16000),
            ('template', template, 48000, 150000),
            ('soup', soup, 72000, 200000)]
