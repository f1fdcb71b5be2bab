"""Wrong templates are rejected with kind and position."""
from harness import gen
from harness import model
from harness import sut
from harness.gen import Ctx
from harness.obs import Violation
from harness.obs import clip
from harness.obs import say
from harness.tree import NS
from harness.tree import Doc
from harness.tree import Elem
from harness.tree import Text

from zope.tal import taldefs
from zope.tal.htmltalparser import HTMLParseError


ID = 'C18'
LEVEL = 'exploration'
RULE = ('One mistake out of a catalogue is planted at a random place of a '
        'generated correct template; compiling must raise the documented '
        'class with the line and column of the element that has the '
        'mistake.  The same templates without the mistake must compile, and '
        'statement soup may raise documented exceptions only, with a '
        'position inside the template.  Distinct by mistake and '
        'surroundings.')
REQUIRED = ('html', 'xml', 'accepted', 'soup', 'soup accepted',
            'soup rejected', 'TALError', 'METALError', 'I18NError', 'in unit',
            'in macro', 'in use', 'in filler', 'file', 'unclosed')

T, M, I = 'TALError', 'METALError', 'I18NError'

#: (expected class, statements, where it may stand)
#: where: '' anywhere; 'u' not inside a translation unit; 'm' only inside a
#: macro definition; '-m' only outside of one; 'f' only where METAL
#: statements count (not directly inside a macro use); 'i' only directly
#: inside a use; '-i' only outside; 'h' HTML only; 'x' XML only
MISTAKES = [
    # unknown statements
    (T, {'tal:nonsense': 'x'}, ''), (T, {'tal:Content': 's:x'}, 'x'),
    (T, {'tal:contents': 's:x'}, ''), (T, {'tal:on_error': 's:x'}, ''),
    (T, {'tal:translate': ''}, ''), (T, {'tal:tal': 'x'}, ''),
    (T, {'tal:define-macro': 'x'}, ''), (T, {'tal:omit': ''}, ''),
    (T, {'tal:repeats': 'a q:a'}, ''), (T, {'tal:attribute': 'a s:b'}, ''),
    (T, {'tal:use-macro': 'mac:x'}, ''), (T, {'tal:domain': 'x'}, ''),
    (M, {'metal:nonsense': 'x'}, ''), (M, {'metal:define': 'x'}, ''),
    (M, {'metal:macro': 'x'}, ''), (M, {'metal:content': 's:x'}, ''),
    (M, {'metal:use': 'x'}, ''), (M, {'metal:slot': 'x'}, ''),
    (M, {'metal:fill': 'x'}, ''), (M, {'metal:domain': 'x'}, ''),
    (I, {'i18n:nonsense': 'x'}, ''), (I, {'i18n:content': 'x'}, ''),
    (I, {'i18n:define': 'x'}, ''), (I, {'i18n:id': 'x'}, ''),
    (I, {'i18n:attribute': 'x'}, ''), (I, {'i18n:msgid': 'x'}, ''),
    (I, {'i18n:use-macro': 'x'}, ''),
    # missing arguments
    (T, {'tal:define': ''}, ''), (T, {'tal:condition': ''}, ''),
    (T, {'tal:repeat': ''}, ''), (T, {'tal:content': ''}, ''),
    (T, {'tal:replace': ''}, ''), (T, {'tal:attributes': ''}, ''),
    (T, {'tal:on-error': ''}, ''), (T, {'tal:script': ''}, ''),
    (T, {'metal:define-macro': ''}, ''), (T, {'metal:use-macro': ''}, ''),
    (T, {'metal:extend-macro': ''}, ''), (T, {'metal:define-slot': ''}, ''),
    (T, {'metal:fill-slot': ''}, ''),
    (I, {'i18n:attributes': ''}, ''), (I, {'i18n:data': ''}, ''),
    (I, {'i18n:name': ''}, ''),
    # malformed arguments
    (T, {'tal:define': 'a'}, ''), (T, {'tal:define': '1a s:x'}, ''),
    (T, {'tal:define': 'global'}, ''), (T, {'tal:define': 'local'}, ''),
    (T, {'tal:define': 'a s:x; b'}, ''), (T, {'tal:define': 'a.b s:x'}, ''),
    (T, {'tal:define': 'a s:x; ; b s:y'}, ''), (T, {'tal:define': ';'}, ''),
    (T, {'tal:define': '; a s:x'}, ''), (T, {'tal:define': '  '}, ''),
    (T, {'tal:define': 'a s:x; globl b s:y; -c s:z'}, ''),
    (T, {'tal:define': '$a s:x'}, ''), (T, {'tal:define': '(a, b) s:x'}, ''),
    (T, {'tal:repeat': 'a'}, ''), (T, {'tal:repeat': '1 q:a'}, ''),
    (T, {'tal:repeat': 'a.b q:a'}, ''), (T, {'tal:repeat': '-a q:a'}, ''),
    (T, {'tal:repeat': ' '}, ''), (T, {'tal:repeat': 'q:a,b'}, ''),
    (T, {'tal:attributes': 'a'}, ''), (T, {'tal:attributes': 'a s:x; b'}, ''),
    (T, {'tal:attributes': 'a s:x; a s:y'}, ''),
    (T, {'tal:attributes': 'a s:x; b s:z; A s:y'}, 'h'),
    (T, {'tal:attributes': '; a s:x'}, ''), (T, {'tal:attributes': ' '}, ''),
    (T, {'tal:attributes': 'a s:x;;b'}, '!'),
    (T, {'tal:attributes': 'a s:x; ; b s:y'}, ''),
    (T, {'i18n:attributes': 'a b c'}, ''),
    (T, {'i18n:attributes': 'a; b c d; e'}, ''),
    (T, {'i18n:attributes': 'a; b; a'}, ''),
    (T, {'i18n:attributes': 'a x; b; a y'}, ''),
    (T, {'i18n:attributes': 'a; A'}, 'h'),
    (M, {'metal:define-macro': '1x'}, 'f'),
    (M, {'metal:define-macro': 'a b'}, 'f'),
    (M, {'metal:define-macro': 'a.b'}, 'f'),
    (M, {'metal:define-macro': '-a'}, 'f'),
    (M, {'metal:define-macro': 'a/b'}, 'f'),
    (M, {'metal:define-macro': ' '}, 'f'),
    (M, {'metal:define-macro': 'a$'}, 'f'),
    (M, {'metal:define-slot': '1x'}, 'mf'),
    (M, {'metal:define-slot': 'a b'}, 'mf'),
    (M, {'metal:define-slot': 'a.b'}, 'mf'),
    (M, {'metal:define-slot': 'a$'}, 'mf'),
    (M, {'metal:define-slot': ' '}, 'mf'),
    (M, {'metal:fill-slot': '1x'}, 'i'), (M, {'metal:fill-slot': 'a b'}, 'i'),
    (M, {'metal:fill-slot': 'a.b'}, 'i'), (M, {'metal:fill-slot': ' '}, 'i'),
    (M, {'metal:fill-slot': '-'}, 'i'),
    # contradictory combinations
    (T, {'tal:content': 's:x', 'tal:replace': 's:y'}, ''),
    (I, {'tal:content': 's:x', 'i18n:translate': 'mid'}, ''),
    (I, {'tal:replace': 's:x', 'i18n:translate': 'mid'}, ''),
    (I, {'i18n:data': 'mp:a=b'}, ''),
    (I, {'i18n:translate': 'mid', 'i18n:data': 'structure mp:a=b'}, ''),
    (I, {'tal:attributes': 'a s:x', 'i18n:attributes': 'a mid'}, ''),
    (I, {'tal:attributes': 'b s:y; a s:x', 'i18n:attributes': 'b; a mid'},
     ''),
    (I, {'tal:attributes': 'aB s:x', 'i18n:attributes': 'Ab mid'}, 'h'),
    (M, {'metal:extend-macro': 'mac:x', 'metal:use-macro': 'mac:x'}, ''),
    (M, {'metal:extend-macro': 'mac:x'}, ''),
    (M, {'metal:extend-macro': 'mac:x', 'metal:use-macro': 'mac:x',
         'metal:define-macro': 'zz'}, ''),
    (M, {'metal:define-macro': 'zz', 'metal:use-macro': 'mac:x'}, ''),
    (M, {'metal:define-macro': 'zz', 'metal:define-slot': 's1'}, ''),
    (M, {'metal:define-macro': 'zz', 'metal:fill-slot': 's1'}, ''),
    (M, {'metal:use-macro': 'mac:x', 'metal:define-slot': 's1'}, ''),
    (M, {'metal:use-macro': 'mac:x', 'metal:fill-slot': 's1'}, ''),
    (M, {'metal:define-macro': 'zz', 'metal:extend-macro': 'mac:x',
         'metal:fill-slot': 's1'}, ''),
    (M, {'metal:define-macro': 'zz', 'metal:extend-macro': 'mac:x',
         'metal:define-slot': 's1'}, ''),
    # misplaced
    (M, {'metal:fill-slot': 's1'}, '-i'),
    (M, {'metal:define-slot': 's1'}, '-mf'),
    (I, {'i18n:name': 'n1'}, 'u'),
    (I, {'i18n:name': 'n1', 'i18n:translate': ''}, 'u'),
    (I, {'i18n:name': 'n1', 'i18n:translate': 'mid'}, 'u'),
    (T, {'i18n:name': '1n'}, 'U'), (T, {'i18n:name': 'a b'}, 'U'),
    (T, {'i18n:name': 'a.b'}, 'U'), (T, {'i18n:name': 'n1 '}, 'U'),
    (T, {'i18n:name': '${n}'}, 'U'),
    # refused expressions
    (T, {'tal:define': 'a bad:x'}, ''),
    (T, {'tal:define': 'a s:x; global b bad:x'}, ''),
    (T, {'tal:condition': 'bad:x'}, ''),
    (T, {'tal:repeat': 'a bad:x'}, ''), (T, {'tal:content': 'bad:x'}, ''),
    (T, {'tal:content': 'structure bad:x'}, ''),
    (T, {'tal:content': 'bad:x', 'i18n:translate': ''}, ''),
    (T, {'tal:replace': 'bad:x'}, ''),
    (T, {'tal:replace': 'text bad:x'}, ''),
    (T, {'tal:attributes': 'a bad:x'}, ''),
    (T, {'tal:attributes': 'a s:x; b bad:x'}, ''),
    (T, {'tal:on-error': 'bad:x'}, ''),
    (T, {'tal:on-error': 'structure bad:x'}, ''),
    (T, {'tal:omit-tag': 'bad:x'}, ''),
    (T, {'i18n:translate': 'mid', 'i18n:data': 'bad:x'}, ''),
    (T, {'metal:use-macro': 'bad:x'}, 'f'),
    (T, {'metal:define-macro': 'zz', 'metal:extend-macro': 'bad:x'}, 'f'),
]

CORRECT = [
    ({'tal:define': 'a s:x;'}, ''), ({'tal:define': ' a  s:x ; '}, ''),
    ({'tal:define': 'local a s:x; global b s:y'}, ''),
    ({'tal:define': 'local local s:x; global global s:y'}, ''),
    ({'tal:define': 'local s:x'}, ''), ({'tal:define': 'global s:x'}, ''),
    ({'tal:define': '_a-b9 s:x;;y;;; c n:'}, ''),
    ({'tal:define': 'a\n\n s:x;\n b s:y\n'}, ''),
    ({'tal:repeat': ' a  q:a'}, ''), ({'tal:repeat': 'a-b q:a;b'}, ''),
    ({'tal:attributes': 'a s:x;'}, ''), ({'tal:attributes': 'a s:x;;;b d:'},
                                         ''),
    ({'tal:attributes': 'x:y s:x; z-z n:'}, ''),
    ({'tal:attributes': '\na s:x;\n b s:y\n'}, ''),
    ({'tal:attributes': 'a s:x; A s:y'}, 'x'),
    ({'tal:content': 'text s:x'}, ''), ({'tal:content': ' structure n:'}, ''),
    ({'tal:content': 'structures:x'}, ''), ({'tal:content': 'texts:x'}, ''),
    ({'tal:content': 's:x', 'i18n:translate': ''}, ''),
    ({'tal:replace': 's:x', 'tal:omit-tag': ''}, ''),
    ({'tal:replace': 's:x', 'tal:attributes': 'a s:b'}, ''),
    ({'tal:omit-tag': ''}, ''), ({'tal:on-error': 'structure s:x'}, ''),
    ({'i18n:attributes': 'a; b mid; c;'}, ''),
    ({'i18n:attributes': 'a; '}, ''), ({'i18n:attributes': ' a  b '}, ''),
    ({'i18n:attributes': 'a;; b'}, ''), ({'i18n:attributes': 'a; A'}, 'x'),
    ({'i18n:attributes': 'a', 'tal:attributes': 'a s:x'}, ''),
    ({'i18n:translate': ''}, ''), ({'i18n:translate': 'some id'}, ''),
    ({'i18n:translate': 'some id', 'i18n:data': 'mp:a=b'}, ''),
    ({'i18n:domain': 'd', 'i18n:source': 'en', 'i18n:target': 'de'}, ''),
    ({'i18n:domain': ''}, ''), ({'i18n:ignore': ''}, ''),
    ({'i18n:ignore-attributes': 'a;b'}, ''),
    ({'i18n:name': '_n-1'}, 'U'), ({'i18n:name': 'N'}, 'U'),
    ({'metal:define-macro': ' zz '}, ''), ({'metal:define-macro': 'z_-9'},
                                           ''),
    ({'metal:define-slot': ' s-1\n'}, 'm'), ({'metal:define-slot': '_'}, 'm'),
    ({'metal:fill-slot': ' zz '}, 'i'),
    ({'metal:fill-slot': 'zz', 'metal:define-slot': 's1'}, 'im'),
    ({'metal:define-macro': 'zz', 'metal:extend-macro': 'mac:x'}, ''),
    ({'metal:use-macro': 'anything at all'}, ''),
    ({'tal:script': 'text/anything'}, ''),
]

#: harmless company of a mistake
COMPANY = ('tal:define', 'tal:condition', 'tal:repeat', 'tal:on-error',
           'tal:omit-tag', 'i18n:domain', 'tal:attributes')

PROFILE = dict(metal=.35, translate=.25, name=.3, i18nattrs=.15, domain=.1,
               onerror=.1, script=.03, fill=.7, extend=.3, void=.05, pre=0,
               nstag=.15)


class Place:
    """Where an element can be inserted, and what surrounds that place."""
    __slots__ = ('into', 'unit', 'macro', 'use', 'fills', 'filler')

    def __init__(self, into, unit, macro, use, fills, filler):
        self.into = into
        self.unit = unit
        self.macro = macro
        self.use = use
        self.fills = fills
        self.filler = filler


def places(nodes, out, unit=False, macro=False, use=False, fills=(),
           filler=False):
    out.append(Place(nodes, unit, macro, use, fills, filler))
    for n in nodes:
        if not isinstance(n, Elem):
            continue
        m, s = n.m, n.stm
        if n.selfclose or n.tag in model_void:
            continue
        if 'tal:script' in s or n.tag in ('p', 'h2', 'pre'):
            pass
        use2, fills2, filler2 = use, fills, filler
        if 'fill' in m:
            use2, filler2 = False, True
        if 'use' in m:
            use2, fills2 = True, set(m['fills'])
        places(n.children, out, unit or 'i18n:translate' in s,
               macro or 'def' in m, use2, fills2, filler2)


model_void = frozenset('base meta link hr br param img area input col '
                       'basefont isindex frame'.split())


def fits(where, p, xml):
    """Whether a catalogue entry makes sense at this place."""
    if 'h' in where and xml or 'x' in where and not xml:
        return False
    if 'u' in where and p.unit or 'U' in where and not p.unit:
        return False
    if '-m' in where:
        if p.macro:
            return False
    elif 'm' in where and not p.macro:
        return False
    if '-i' in where:
        if p.use:
            return False
    elif 'i' in where and not p.use:
        return False
    if 'f' in where and p.use:
        return False
    return True


def tree(r, xml):
    g = gen.Gen(r, xml=xml, prof=gen.profile(**PROFILE))
    g.budget = r.choice((4, 10, 25))
    g.macros = dict.fromkeys(('m1', 'm2'))
    if r.random() < .5:
        nodes = [g.elem_with(Ctx()), g.text()] + g.nodes(Ctx(), 0)
    else:
        nodes = g.nodes(Ctx(), 0)
    if xml:
        nodes = gen.xml_root(nodes, g)
    model.annotate(nodes)
    return g, nodes


def compiled(source, xml, file=None):
    """None, or the exception."""
    try:
        sut.compile_source(source, xml, file=file)
    except Exception as exc:
        return exc


def describe(exc):
    if exc is None:
        return 'accepted'
    return say(exc)


def judge(obs, doc, exc, cls, pos, mistake):
    if type(exc).__name__ != cls or not isinstance(exc, taldefs.TALError):
        raise Violation('mistake not rejected as documented', mistake=mistake,
                        expected=cls, observed=describe(exc),
                        source=doc.source)
    if (exc.lineno, exc.offset) != pos:
        raise Violation('rejected at the wrong position', mistake=mistake,
                        expected=pos, observed=(exc.lineno, exc.offset),
                        error=describe(exc), source=doc.source)
    try:
        text = str(exc)
    except Exception as e:
        raise Violation('error without text', mistake=mistake,
                        error=say(e), source=doc.source)
    if 'line %d' % pos[0] not in text or 'column %d' % (pos[1] + 1) \
            not in text:
        raise Violation('error text lacks the position', mistake=mistake,
                        error=describe(exc), source=doc.source)
    obs.ev()
    obs.count(cls)


def tracked(obs, p):
    obs.count('in unit', p.unit)
    obs.count('in macro', p.macro)
    obs.count('in use', p.use)
    obs.count('in filler', p.filler)


def new_elem(r, g, xml, stm, p):
    e = Elem(r.choice(('span', 'b', 'x-y')))
    e.style = r.randrange(1 << 30)
    ns = sorted({k.split(':')[0] for k in stm})
    if r.random() < .25:
        e.ns = r.choice(ns)
        e.tag = r.choice(('block', 'x'))
    elif r.random() < .6:
        e.attrs = g.plain_attrs()
    e.stm = dict(stm)
    e.rawstm = {k: None if not v and not xml and r.random() < .3 else v
                for k, v in stm.items()}
    if r.random() < .4:
        for k in r.sample(COMPANY, r.choice((1, 2, 3))):
            if k in stm or k == 'tal:attributes' and (
                    'i18n:attributes' in stm):
                continue
            e.stm[k] = ''
            e.rawstm[k] = {
                'tal:define': 'c s:x', 'tal:condition': 't:',
                'tal:repeat': 'k q:a,b', 'tal:on-error': 's:E',
                'tal:omit-tag': 'f:', 'i18n:domain': 'dd',
                'tal:attributes': 'qq s:x'}[k]
    x = r.random()
    if x < .3:
        e.children = [g.text()]
    elif x < .5:
        g.budget = 3
        e.children = g.nodes(Ctx(inline=True, unit=p.unit), 3)
        # fillers and slots would not be correct everywhere
        for c in gen.iter_elems(e.children):
            for k in list(c.stm):
                if k.startswith('metal:') or k == 'i18n:name':
                    del c.stm[k]
    elif x < .7:
        e.selfclose = True
    return e


def insert(r, p, e):
    at = r.randrange(len(p.into) + 1)
    p.into.insert(at, e)
    if r.random() < .5:
        p.into.insert(at, Text(r.choice(('\n', ' ', '\n  ', 'x\n\ty '))))
    if r.random() < .3:
        p.into.insert(0, Text(r.choice(('\n', '\r\n', '\n\n', 'caf\xe9 '))))


def planted(r, obs, i):
    xml = bool(i % 2)
    g, nodes = tree(r, xml)
    ps = []
    places(nodes[0].children if xml else nodes, ps,
           *((False,) * 3))
    cls, stm, where = MISTAKES[(i // 2) % len(MISTAKES)]
    if '!' in where:
        return
    fit = [p for p in ps if fits(where, p, xml)]
    if not fit:
        # make a place of the kind that is needed
        e = Elem('div' if not xml else 'doc')
        if 'U' in where:
            e.stm['i18n:translate'] = ''
        elif '-i' in where or 'f' in where and 'm' not in where:
            pass
        elif 'i' in where:
            e.stm['metal:use-macro'] = 'mac:x'
        elif 'm' in where:
            e.stm['metal:define-macro'] = 'outer'
        (nodes[0].children if xml else nodes).append(e)
        model.annotate(nodes)
        ps = []
        places(nodes[0].children if xml else nodes, ps)
        fit = [p for p in ps if fits(where, p, xml)]
        if not fit:
            return
    p = r.choice(fit)
    tracked(obs, p)
    e = new_elem(r, g, xml, stm, p)
    if 'U' in where and 'tal:on-error' in e.stm:
        del e.stm['tal:on-error']
    insert(r, p, e)
    d = Doc(nodes, xml)
    exc = compiled(d.source, xml, r.choice((None, 'f.pt')))
    judge(obs, d, exc, cls, e.pos, repr(stm))
    obs.count('xml' if xml else 'html')
    obs.seen(repr(stm), d.source)
    obs.sample(source=clip(d.source, 300), error=describe(exc))
    if i % 5 == 0:
        file(r, obs, d, exc)


def file(r, obs, d, exc):
    """The same through a file."""
    import os
    import tempfile

    from zope.tal.htmltalparser import HTMLTALParser
    from zope.tal.talgenerator import TALGenerator

    from harness.engine import Compiler
    if d.xml:
        return
    obs.count('file')
    fd, name = tempfile.mkstemp('.html')
    try:
        with os.fdopen(fd, 'w', newline='') as f:
            f.write(d.source)
        try:
            HTMLTALParser(TALGenerator(Compiler(), xml=0)).parseFile(name)
        except taldefs.TALError as e:
            got = e
        else:
            raise Violation('accepted from a file', source=d.source)
    finally:
        os.remove(name)
    if type(got) is not type(exc) or got.filename != name \
            or got.lineno != exc.lineno or name not in str(got):
        raise Violation('error does not name the file', source=d.source,
                        expected=describe(exc), observed=describe(got))
    obs.ev()


def twice(r, obs, i):
    """The second of two elements is the wrong one."""
    xml = bool(i % 2)
    g, nodes = tree(r, xml)
    top = nodes[0].children if xml else nodes
    what = r.choice(('macro', 'fill', 'attr'))
    if what == 'attr':
        key = r.choice(('tal:content', 'tal:define', 'tal:omit-tag',
                        'metal:use-macro', 'metal:define-macro',
                        'i18n:translate', 'i18n:domain', 'i18n:attributes'))
        if xml:
            # not well-formed at all: the XML error is the documented one
            src = Doc(nodes, xml).source
            tag = '<b %s="a s:x" %s="a s:x"/>' % (key, key)
            k = src.rindex('</')
            src = src[:k] + tag + src[k:]
            exc = compiled(src, xml)
            if type(exc).__name__ != 'ExpatError':
                raise Violation('duplicate attribute accepted', source=src,
                                observed=describe(exc))
            obs.ev()
            return
        src = Doc(nodes, xml).source + r.choice(('\n', ' ', '\n\n '))
        pos = src.count('\n') + 1, len(src) - src.rfind('\n') - 1
        form = r.choice((key, key.upper()))
        if r.random() < .3:
            ns, name = key.split(':')
            tag = '<%s:x %s="a s:x" %s="a s:y"/>' % (ns, name, form)
        else:
            tag = '<b %s="a s:x" class="c" %s="a s:y">x</b>' % (key, form)
        exc = compiled(src + tag, xml)
        d = Doc([Text(src + tag)])
        cls = {'tal': T, 'metal': M, 'i18n': I}[key.split(':')[0]]
        judge(obs, d, exc, cls, pos, 'duplicate ' + key)
    elif what == 'macro':
        a, b = Elem('b'), Elem('i')
        for e in a, b:
            e.stm['metal:define-macro'] = 'same'
            e.rawstm['metal:define-macro'] = r.choice(('same', ' same '))
            e.children = [g.text()]
        if r.random() < .3:
            # nothing but a copy
            b.tag = a.tag
            b.rawstm = dict(a.rawstm)
            a.children = a.children[:r.randrange(2)]
            b.children = list(a.children)
        if r.random() < .3:
            # the outer one ends last
            b.children.append(a)
            top.append(b)
        else:
            top.append(a)
            top.append(Text(r.choice(('', '\n', ' \n x'))))
            top.append(b)
        d = Doc(nodes, xml)
        judge(obs, d, compiled(d.source, xml), M, b.pos, 'same macro twice')
    else:
        u = Elem('div')
        u.stm['metal:use-macro'] = 'mac:x'
        a, b = Elem('b'), Elem('i')
        for e in a, b:
            e.stm['metal:fill-slot'] = 'same'
            e.rawstm['metal:fill-slot'] = r.choice(('same', 'same\t'))
            e.children = [g.text()]
        if r.random() < .3:
            b.tag = a.tag
            b.rawstm = dict(a.rawstm)
            a.children = a.children[:r.randrange(2)]
            b.children = list(a.children)
        wrap = Elem('em', children=[b])
        u.children = [g.text(), a, g.text(), r.choice((b, wrap))]
        top.append(u)
        d = Doc(nodes, xml)
        judge(obs, d, compiled(d.source, xml), M, b.pos, 'same filler twice')
    obs.count('xml' if xml else 'html')
    obs.seen(what, d.source)


def accepted(r, obs, i):
    xml = bool(i % 2)
    g, nodes = tree(r, xml)
    ps = []
    places(nodes[0].children if xml else nodes, ps)
    for _ in range(r.choice((0, 1, 2, 3))):
        stm, where = CORRECT[r.randrange(len(CORRECT))]
        if xml:
            stm = {k: v.replace('\n', ' ') for k, v in stm.items()}
        fit = [p for p in ps if fits(where, p, xml)]
        name = (stm.get('metal:fill-slot') or '').strip()
        if name:
            fit = [p for p in fit if name not in p.fills]
        if 'metal:define-macro' in stm:
            z = stm['metal:define-macro'].strip() + str(_)
            stm = dict(stm, **{'metal:define-macro': z})
        if not fit:
            continue
        p = r.choice(fit)
        tracked(obs, p)
        e = new_elem(r, g, xml, stm, p)
        for k in list(e.stm):
            if k == 'tal:omit-tag' and 'tal:replace' in e.stm:
                e.stm.setdefault(k, '')
        insert(r, p, e)
        if name:
            ps = []
            model.annotate(nodes)
            places(nodes[0].children if xml else nodes, ps)
    d = Doc(nodes, xml)
    exc = compiled(d.source, xml)
    obs.ev()
    obs.count('accepted')
    if exc is not None:
        raise Violation('correct template rejected', error=describe(exc),
                        source=d.source)
    obs.seen('accepted', d.source)


UNCLOSED = [
    (T, ' tal:content="s:x"'), (T, ' tal:define="a s:x"'),
    (T, ' tal:replace="s:x"'), (T, ' tal:repeat="k q:a"'),
    (T, ' tal:attributes="a s:x"'), (T, ' tal:omit-tag'),
    (T, ' tal:condition="t:"'), (T, ' tal:on-error="s:x"'),
    (T, ' i18n:translate'), (T, ' i18n:translate="mid"'),
    (T, ' i18n:domain="d"'), (T, ' i18n:attributes="title"'),
    (M, ' metal:define-macro="zz"'), (M, ' metal:use-macro="mac:x"'),
    (M, ' metal:define-macro="zz" metal:extend-macro="mac:x"'),
    (M, ' metal:use-macro="mac:x" tal:define="a s:x"'),
    (M, ' tal:condition="t:" metal:define-macro="zz"'),
    (M, ' metal:define-slot="s1"'), (M, ' metal:fill-slot="s1"'),
    (M, ' metal:fill-slot="s1" tal:content="s:x"'),
    (M, ' metal:define-slot="s1" i18n:domain="d"'),
]


def unclosed(r, obs, i):
    """An element with statements that has no end tag."""
    g, nodes = tree(r, False)
    before = Doc(nodes, False).source + r.choice(('', '\n', ' x\n\n '))
    cls, stm = UNCLOSED[i % len(UNCLOSED)]
    outer, tag, close = r.choice((
        ('div', 'b', '</div>'), ('div', 'x-y', '</div>'), ('div', 'p', '<p>'),
        ('div', 'p', '</div>'), ('ul', 'li', '<li>y'), ('ul', 'li', '</ul>'),
        ('tr', 'td', '<td>'), ('tr', 'td', '<tr>'), ('dl', 'dt', '<dd>'),
        ('select', 'option', '<option>'), ('div', 'b', ''),
        ('div', 'p', '<ul>'), ('div', 'p', '')))
    if close in ('<tr>', '<p>') and 'metal:fill' in stm:
        # would end the macro use as well
        close = '</%s>' % outer
    around = ''
    if 'define-slot' in stm:
        around = ' metal:define-macro="outer"'
    elif 'fill-slot' in stm:
        around = ' metal:use-macro="mac:x"'
    src = before + r.choice(('<table>', '')) * (outer == 'tr') + \
        '<%s%s>' % (outer, around) + r.choice(('', 'a ', '\n', '\t'))
    pos = src.count('\n') + 1, len(src) - src.rfind('\n') - 1
    src += '<%s%s>' % (tag, stm) + r.choice(('', 'text', ' \n', '<br>')) + \
        close
    exc = compiled(src, False, r.choice((None, 'f.pt')))
    judge(obs, Doc([Text(src)]), exc, cls, pos, 'no end tag' + stm)
    obs.count('unclosed')
    obs.seen('unclosed' + stm, src)


ARGS = ('', 'a', 'a s:x', ' ', 'a s:x; b s:y', ';', ';;', 'global a s:x',
        'structure s:x', 'text s:x', 'bad:x', 'a bad:x', 'zz', 's1', 'a b c',
        'a-b', '1', 'mac:x', 'structure', 'a; b', 'a; b c', 'n1', '-',
        'xml', 'a;b;c d e')
NAMES = tuple('tal:' + k for k in sorted(taldefs.KNOWN_TAL_ATTRIBUTES)
              if ' ' not in k) + tuple(
    'metal:' + k for k in sorted(taldefs.KNOWN_METAL_ATTRIBUTES)) + tuple(
    'i18n:' + k for k in sorted(taldefs.KNOWN_I18N_ATTRIBUTES)) + (
    'tal:x', 'metal:x', 'i18n:x', 'class', 'id', 'type')
TAGS = ('p', 'div', 'b', 'tal:x', 'metal:x', 'i18n:x', 'td', 'br', 'script',
        'li', 'h1', 'pre', 'title', 'option')


def soup(r, obs, i):
    """Anything goes, but only documented exceptions come out, at an
    existing element."""
    xml = bool(i % 2)
    out = []
    stack = []
    starts = set()
    text = ''
    if xml:
        out.append('<r %s>' % ' '.join('xmlns:%s="%s"' % x
                                       for x in NS.items()))
        stack.append('r')
    for _ in range(r.randint(1, 8)):
        if r.random() < .5:
            out.append(r.choice(('x', '\n', ' ', '\n  ', 'y\n', '&amp;')))
        x = r.random()
        text = ''.join(out)
        here = text.count('\n') + 1, len(text) - text.rfind('\n') - 1
        starts.add(here)
        if x < .7 or len(stack) < 1 + xml:
            tag = r.choice(TAGS)
            names = r.sample(NAMES, r.choice((0, 1, 1, 2, 2, 3)))
            atts = []
            for n in names:
                v = r.choice(ARGS)
                if tag.startswith(n.split(':')[0] + ':') and r.random() < .5:
                    n = n.split(':')[1]
                atts.append(' %s="%s"' % (n, v) if xml or r.random() < .95
                            else ' ' + n)
            if r.random() < .2:
                out.append('<%s%s/>' % (tag, ''.join(atts)))
            else:
                out.append('<%s%s>' % (tag, ''.join(atts)))
                if xml or tag not in model_void:
                    stack.append(tag)
        elif xml or r.random() < .9:
            out.append('</%s>' % stack.pop())
        else:
            out.append('</%s>' % r.choice(TAGS))
    while stack:
        if not xml and r.random() < .1:
            break
        text = ''.join(out)
        starts.add((text.count('\n') + 1, len(text) - text.rfind('\n') - 1))
        out.append('</%s>' % stack.pop())
    source = ''.join(out)
    starts.add((source.count('\n') + 1, len(source) - source.rfind('\n') - 1))
    exc = compiled(source, xml)
    obs.ev()
    obs.count('soup')
    if exc is None:
        obs.count('soup accepted')
        return
    ok = (taldefs.TALError,) if xml else (taldefs.TALError, HTMLParseError)
    if not isinstance(exc, ok):
        raise Violation('undocumented exception', error=describe(exc),
                        source=source)
    if (exc.lineno, exc.offset) not in starts:
        raise Violation('position is not that of an element',
                        error=describe(exc), source=source,
                        observed=(exc.lineno, exc.offset))
    obs.count('soup rejected')
    obs.seen(type(exc).__name__, source)


FAMILIES = [
    ('planted', planted, 64000, 300000),
    ('twice', twice, 12000, 50000),
    ('unclosed', unclosed, 12000, 60000),
    ('accepted', accepted, 32000, 150000),
    ('soup', soup, 80000, 400000),
]
