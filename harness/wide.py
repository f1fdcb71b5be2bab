"""Templates in which one thing is there very often, very deep or very long.

Random templates stay small; these grow in one direction at a time, so that
limits, caches and shortcuts that depend on a size are met.
"""
import re
import sys

from harness import gen
from harness.gen import STRINGS
from harness.gen import WORDS
from harness.tree import Elem
from harness.tree import Text

SIZES = (5, 9, 17, 33, 65, 129, 257, 513, 1025)


class Wide:
    def __init__(self, r, xml):
        self.r = r
        self.xml = xml
        self.values = {}
        self.fragments = {}
        self.libs = []
        self.k = 0

    def elem(self, tag=None, stm=None, children=(), attrs=(), ns=None):
        e = Elem(tag or self.r.choice(('b', 'em', 'a') if not self.xml else
                                      ('b', 'item', 'foo')),
                 attrs, stm, children, ns)
        e.style = self.r.randrange(1 << 30)
        return e

    def word(self):
        return Text(self.r.choice(WORDS) + self.r.choice(('', ' ', '\n')))

    def value(self, text):
        self.k += 1
        key = 'w%d' % self.k
        self.values[key] = text
        return 'h:' + key

    def size(self, most):
        r = self.r
        n = r.choice([s for s in SIZES if s <= most])
        return max(2, min(most, n + r.randrange(-3, 4)))


def loop(w):
    """Many rounds."""
    n = w.size(1025)
    inner = w.elem(stm={'tal:content': ('text', 'v:x')})
    if w.r.random() < .3:
        inner.stm['tal:condition'] = 'odd:x'
    kids = [inner]
    if n < 100 and w.r.random() < .4:
        kids.append(w.elem(stm={'tal:repeat': ('y', 'q:a,b')},
                           children=[w.word()]))
    return [w.elem('div', {'tal:repeat': ('x', 'r:%d' % n)}, kids)]


def loops(w):
    """Loops inside loops."""
    n = w.size(9)
    kids = [w.elem(stm={'tal:content': ('text', 'v:x0')})]
    for k in range(n):
        kids = [w.elem(stm={'tal:repeat': ('x%d' % k, 'q:a,b'
                                           if k < 5 else 'q:c')},
                       children=kids + [w.word()])]
    return kids


def defines(w):
    """Many variables in one statement."""
    n = w.size(129)
    defs = [(w.r.choice(('local', 'local', 'global')), 'v%d' % k,
             w.r.choice(('s:x%d' % k, 'g:v%d' % (k - 1), 's:a;b%d' % k,
                         's:;', 's:')))
            for k in range(n)]
    return [w.elem('div', {'tal:define': defs}, [
        w.elem(stm={'tal:content': ('text', 'v:v%d' % k)})
        for k in w.r.sample(range(n), min(n, 6)) + [n - 1]])]


def attributes(w):
    """Many dynamic and plain attributes."""
    n = w.size(129)
    names = ['data-%d' % k for k in range(n)]
    w.r.shuffle(names)
    dyn = names[:w.r.randrange(len(names) + 1)] or names
    plain = w.r.sample(names, w.r.randrange(len(names) + 1))
    return [w.elem(stm={'tal:attributes': [
        (k, w.r.choice(('s:' + w.r.choice(STRINGS).replace('\n', ' ').replace(
            '\t', ' ').strip(), 'n:', 'd:', 's:<"&;'))) for k in dyn]},
        attrs=[(k, 'p' + k) for k in plain], children=[w.word()])]


def i18nattributes(w):
    """Many translated attributes."""
    n = w.size(65)
    names = ['data-%d' % k for k in range(n)]
    plain = w.r.sample(names, w.r.randrange(1, len(names) + 1))
    return [w.elem(stm={'i18n:attributes': [
        (k, w.r.choice((None, None, 'id-' + k))) for k in names]},
        attrs=[(k, 'p' + k) for k in plain], children=[w.word()])]


def names(w):
    """Many variables in one message."""
    n = w.size(129)
    kids = []
    for k in range(n):
        kids.append(w.word())
        kids.append(w.elem(stm={
            'i18n:name': w.r.choice(('n%d', 'long-name_%d')) % k,
            'tal:content': ('text', 's:value%d' % k)}))
    return [w.elem('div', {'i18n:translate': w.r.choice(('', '', 'mid'))},
                   kids)]


def units(w):
    """Messages inside messages."""
    kids = [w.word()]
    for k in range(w.size(33)):
        e = w.elem(stm={'i18n:translate': ''}, children=kids)
        if w.r.random() < .8:
            e.stm['i18n:name'] = w.r.choice(('n1', 'n%d' % k))
        kids = [w.word(), e, w.word()]
    e.stm.pop('i18n:name', None)
    return kids


def domains(w):
    """Domains inside domains."""
    kids = [w.elem(stm={'i18n:translate': ''}, children=[Text('msg')])]
    for k in range(w.size(65)):
        e = w.elem(children=kids + [w.elem(
            stm={'i18n:translate': ''}, children=[Text('m%d' % k)])])
        if w.r.random() < .7:
            e.stm['i18n:domain'] = w.r.choice(('domA', 'dom%d' % k))
        kids = [e]
    return kids


def nest(w):
    """Elements with statements, very deep."""
    kids = [w.elem(stm={'tal:content': ('text', 'g:v1')})]
    for k in range(w.size(65)):
        e = w.elem(children=kids)
        what = w.r.randrange(6)
        if what == 0:
            e.stm['tal:define'] = [(w.r.choice(('local', 'local', 'global')),
                                    'v%d' % (k % 5), 's:%d' % k)]
        elif what == 1:
            e.stm['tal:condition'] = 't:'
        elif what == 2:
            e.stm['tal:omit-tag'] = w.r.choice(('', 'f:', 't:'))
        elif what == 3:
            e.stm['tal:attributes'] = [('title', 's:t%d' % k)]
        elif what == 4:
            e.stm['tal:repeat'] = ('v%d' % (k % 5), 'q:%d' % k)
        kids = [e, w.elem(stm={'tal:content': ('text', 'g:v%d' % (k % 5))})]
    return kids


def siblings(w):
    """A long row of elements."""
    out = []
    for k in range(w.size(513)):
        what = w.r.randrange(5)
        if what == 0:
            out.append(w.elem(stm={'tal:content': ('text', 'u:k')}))
        elif what == 1:
            out.append(w.elem(stm={'tal:condition': w.r.choice(('t:', 'f:'))},
                              children=[w.word()]))
        elif what == 2:
            out.append(w.elem(stm={'tal:replace': ('text', 's:r%d' % k)}))
        elif what == 3:
            out.append(w.elem(attrs=[('title', 'x')], children=[w.word()]))
        else:
            out.append(w.elem(stm={'tal:define': [('global', 'v%d' % (k % 9),
                                                   's:%d' % k)]}))
        out.append(w.word())
    return out


def slots(w):
    """Many slots."""
    n = w.size(65)
    ks = list(range(n))
    w.r.shuffle(ks)
    w.libs.append([w.elem('div', {'metal:define-macro': 'M'}, [
        w.elem(stm={'metal:define-slot': 's%d' % k}, children=[w.word()])
        for k in ks])])
    ks = w.r.sample(ks, w.r.randrange(1, n + 1))
    return [w.elem('div', {'metal:use-macro': 'mac:M'}, [
        w.elem(stm={'metal:fill-slot': 's%d' % k}, children=[
            Text('filled %d' % k)]) for k in ks])]


def chain(w):
    """Macros that extend one another."""
    n = w.size(17)
    some = ('s1', 's2', 's3', 's4')

    def slot(kind, name, k):
        return w.elem(stm={kind: name}, children=[Text('%s at %d' % (name,
                                                                     k))])

    w.libs.append([w.elem('div', {'metal:define-macro': 'M0'}, [
        slot('metal:define-slot', s, 0) for s in some])])
    for k in range(1, n):
        kids = []
        for s in some:
            if w.r.random() < .3:
                kids.append(slot('metal:fill-slot', s, k))
                if w.r.random() < .4:
                    kids[-1].children.append(slot('metal:define-slot',
                                                  w.r.choice(some), k))
        w.libs[0].append(w.elem('div', {
            'metal:define-macro': 'M%d' % k,
            'metal:extend-macro': 'mac:M%d' % (k - 1)}, kids))
    return [w.elem('div', {'metal:use-macro': 'mac:M%d' % (n - 1)}, [
        slot('metal:fill-slot', s, n) for s in some if w.r.random() < .4])]


def uses(w):
    """Macros that use one another."""
    n = w.size(65)
    w.libs.append([w.elem('div', {'metal:define-macro': 'M0'}, [
        w.elem(stm={'metal:define-slot': 's1'}, children=[Text('M0')])])])
    for k in range(1, n):
        kids = []
        if w.r.random() < .5:
            kids = [w.elem(stm={'metal:fill-slot': 's1'}, children=[
                Text('M%d' % k), w.elem(stm={'metal:define-slot': 's1'},
                                        children=[w.word()])])]
        w.libs[0].append(w.elem('div', {'metal:define-macro': 'M%d' % k}, [
            w.elem(stm={'metal:use-macro': 'mac:M%d' % (k - 1)},
                   children=kids),
            w.elem(stm={'tal:content': ('text', 'mn:')})]))
    return [w.elem('div', {'metal:use-macro': 'mac:M%d' % (n - 1)}, [
        w.elem(stm={'metal:fill-slot': 's1'}, children=[w.word()])])]


def handlers(w):
    """Error handlers inside error handlers, far from the error."""
    kids = [w.word(), w.elem(stm={'tal:content': ('text', 'x:V')})]
    for k in range(w.size(33)):
        e = w.elem(children=kids)
        what = w.r.randrange(5)
        if what == 0:
            e.stm['tal:on-error'] = ('text', w.r.choice(('err:', 'x:K',
                                                         'v:missing')))
        elif what == 1:
            e.stm['tal:define'] = [('local', 'v%d' % (k % 3), 's:%d' % k)]
        elif what == 2:
            e.stm['i18n:domain'] = 'dom%d' % k
        elif what == 3:
            e.stm['tal:repeat'] = ('v%d' % (k % 3), 'q:a')
        kids = [w.word(), e]
    return [w.elem('div', {'tal:on-error': ('text', 'err:'),
                           'tal:define': [('local', 'v0', 's:outer')]}, kids),
            w.elem(stm={'tal:content': ('text', 'g:v0')})]


def long_values(w):
    """Long texts, with many characters that have to be escaped."""
    n = w.size(1025)
    text = ''.join(w.r.choice(('<', '>', '&', '"', "'", '&lt;', 'x', ' ',
                               '\n', 'word')) for _ in range(n * 8))
    e = w.value(text)
    return [w.elem(stm={'tal:content': ('text', e)}),
            w.elem(stm={'tal:replace': ('text', e)}),
            w.elem(stm={'tal:attributes': [('title', e)]},
                   children=[w.word()])]


def long_structure(w):
    """A long piece of markup."""
    n = w.size(257)
    nodes = []
    for k in range(n):
        nodes.append(w.elem(attrs=[('title', 'a & b%d' % k)],
                            children=[w.word()]))
        nodes.append(Text(w.r.choice(('&amp; ', '&lt;', '\n', 'text'))))
    if w.r.random() < .3:
        nodes[0].stm['tal:condition'] = 'x:V'
        if w.xml:
            nodes[0].decls = [('tal', gen.NS['tal'])]
    from harness.tree import Doc
    d = Doc(nodes, w.xml)
    w.fragments[d.source] = nodes
    e = w.value(d.source)
    return [w.elem('div', {w.r.choice(('tal:content', 'tal:replace')):
                           ('structure', e)})]


def long_text(w):
    """Long plain text, far down and far to the right."""
    n = w.size(1025)
    return [Text(w.r.choice(('\n', ' ', 'line of text\n', 'word ', ' \n',
                             '<!-- %s -->' % ('c ' * 9))) * n),
            w.elem(stm={'tal:content': ('text', 'u:k')}),
            Text(w.r.choice(('x', '\n', '\n\n ')) * n),
            w.elem('div', {'tal:condition': 't:'}, [
                Text('<!-- %s -->' % ('c\n' * n)),
                w.elem(stm={'tal:content': ('text', 'u:k')})])]


def indent(w):
    """Loops behind much white space."""
    n = w.size(257)
    return [w.elem('div', {}, [
        Text(w.r.choice(('', 'x', '\n\n')) + '\n'
             + w.r.choice((' ', '\t', ' \t')) * n),
        w.elem(stm={'tal:repeat': ('x', 'q:a,b,c')}, children=[
            Text('\n' + ' ' * n),
            w.elem(stm={'tal:content': ('text', 'v:x')})]),
        Text('\n' + ' ' * w.r.choice((0, n)))])]


def long_names(w):
    """Very long names."""
    n = w.size(257)
    name = w.r.choice(('n', 'ab', 'x_')) * n
    w.libs.append([w.elem('div', {'metal:define-macro': name}, [
        w.elem(stm={'metal:define-slot': name}, children=[w.word()])])])
    return [w.elem('div', {'tal:define': [('local', name, 's:value')]}, [
        w.elem(stm={'tal:content': ('text', 'v:' + name)}),
        w.elem('div', {'i18n:translate': '', 'i18n:domain': name}, [
            w.word(), w.elem(stm={'i18n:name': name}, children=[Text('v')])]),
        w.elem('div', {'i18n:translate': name}, [w.word()]),
        w.elem('div', {'metal:use-macro': 'mac:' + name}, [
            w.elem(stm={'metal:fill-slot': name}, children=[w.word()])]),
        w.elem(stm={'tal:attributes': [('data-' + name, 's:v')],
                    'i18n:attributes': [('data-%sx' % name, None)]},
               attrs=[('data-%sx' % name, name)])])]


def deep_recursion(func):
    def run(*args):
        old = sys.getrecursionlimit()
        sys.setrecursionlimit(8000)
        try:
            return func(*args)
        finally:
            sys.setrecursionlimit(old)
    return run


def static(r, xml):
    """Plain markup, written as it will come out."""
    n = r.choice(SIZES) + r.randrange(-3, 4)
    m = r.choice((n, n, 4100, 8200, 16400, 33000, 66000, 132000))
    value = ''.join(r.choice(('&amp;', '&lt;', '&gt;', '&quot;', 'x', ' ',
                              'word', "'", ';', '\xe9')) for _ in range(n))
    # What looks like a reference is written without &amp; in HTML.
    value = re.sub(r'&amp;(?=\w+;)', '&amp; ', value)
    some = ['long text %d\n' % n * n,
            r.choice(('x', 'x ', '&amp;', '&#65;', ' ', '\n')) * m,
            '<!-- %s -->' % (r.choice(('c\n ', 'c', ' ', '\n', '<b>')) * m),
            '<?pi %s?>' % (r.choice(('x ', 'x', 'x\n')) * m),
            '<b title="%s">x</b>' % (r.choice(('y', ' ', '&amp;', '"'))
                                     * m).replace('"', '&quot;'),
            '<b title="%s">x</b>' % value,
            '<b %s>x</b>' % ' '.join('a%d="%s"' % (k, k)
                                     for k in range(n)),
            '<b>' * n + 'x' + '</b>' * n,
            '<b title="x">y</b>\n' * n,
            '<%s>x</%s>' % ('b' * n, 'b' * n),
            '<b %s="1">x</b>' % ('b' * n),
            ' ' * n + '\n' * n + '\t' * n + 'x',
            '\U0001f600\xe9' * n]
    if xml:
        some += ['<![CDATA[%s]]>' % (r.choice(('<&> ]', 'x', '\n')) * m), '<b/>' * n,
                 ''.join('<p%d:b xmlns:p%d="urn:%d">' % (k % 7, k % 7, k)
                         for k in range(n)) + 'x' + ''.join(
                     '</p%d:b>' % (k % 7) for k in reversed(range(n)))]
    else:
        some += ['<script>%s</script>' % ('if (a < b && c) "</b>";\n' * m),
                 '<style>%s</style>' % ('a > b {}\n' * n),
                 '<br />' * n, '<ul><li>' * n + 'x' + '</li></ul>' * n]
    r.shuffle(some)
    out = ''.join(some[:r.choice((1, 1, 2, 4))])
    return '<doc>%s</doc>' % out if xml else out
