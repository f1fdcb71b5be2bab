"""Templates as trees, and their serialisation to source text.

The generators build trees; `Doc.source` is the text given to the code under
test, while the reference model walks the tree itself and never sees the
text.  Serialising also records the line and column of every element.
"""

TAL_NS = 'http://xml.zope.org/namespaces/tal'
METAL_NS = 'http://xml.zope.org/namespaces/metal'
I18N_NS = 'http://xml.zope.org/namespaces/i18n'
NS = {'tal': TAL_NS, 'metal': METAL_NS, 'i18n': I18N_NS}

VOID = frozenset('base meta link hr br param img area input col basefont '
                 'isindex frame'.split())


class Text:
    """Raw source text (text, references, comments, instructions)."""
    __slots__ = ('raw',)

    def __init__(self, raw):
        self.raw = raw

    def clone(self):
        return Text(self.raw)


class Elem:
    """An element.

    attrs: ordered plain attributes [name, decoded value or None]
    stm:   statements, e.g. {'tal:content': ('text', expr)}; see Doc._stmt
    ns:    'tal', 'metal' or 'i18n' for elements in a template namespace
    """
    __slots__ = ('tag', 'attrs', 'stm', 'children', 'ns', 'selfclose', 'pos',
                 'file', 'style', 'order', 'decls', 'm', 'lex', 'endpos',
                 'rawstm', 'shout', 'allattrs', 'names')

    def __init__(self, tag, attrs=(), stm=None, children=(), ns=None,
                 selfclose=False):
        self.tag = tag
        self.attrs = list(attrs)
        self.stm = dict(stm or {})
        self.children = list(children)
        self.ns = ns
        self.selfclose = selfclose
        self.pos = None
        self.endpos = None
        self.file = None
        self.style = 0          # seed for lexical variation
        self.order = None       # permutation seed for the attributes
        self.decls = []         # [(prefix or '', uri)] namespace declarations
        self.m = None           # METAL roles as compiled (see model.annotate)
        self.lex = None         # lexical domain
        self.rawstm = {}        # statement -> literal argument text
        self.shout = False      # HTML: write names in upper case
        self.allattrs = {}      # all attributes as written
        self.names = None       # statement -> name as written ('' for tag)

    @property
    def name(self):
        return self.tag

    def walk(self):
        yield self
        for c in self.children:
            if isinstance(c, Elem):
                yield from c.walk()


def walk(nodes):
    for n in nodes:
        if isinstance(n, Elem):
            yield from n.walk()


def expr_escape(expr):
    return expr.replace(';', ';;')


def stmt_text(key, val, rng):
    """The argument text of a statement."""
    if isinstance(val, str):
        return val
    if key == 'tal:define':
        parts = []
        for scope, name, expr in val:
            if scope == 'global':
                pre = 'global '
            else:
                pre = rng.choice(('', '', 'local '))
            parts.append('%s%s %s' % (pre, name, expr_escape(expr)))
        return rng.choice(('; ', ';', ';\n  ' if rng.nl else ';   ')).join(
            parts) + rng.choice(('', '', ';'))
    if key == 'tal:attributes':
        parts = ['%s %s' % (n, expr_escape(e)) for n, e in val]
        return rng.choice(('; ', ';', ';  ')).join(parts) + rng.choice(
            ('', '', '; '))
    if key == 'tal:repeat':
        return '%s %s' % val
    if key in ('tal:content', 'tal:replace', 'tal:on-error'):
        kind, expr = val
        if kind == 'structure':
            return 'structure ' + expr
        return rng.choice(('', '', 'text ')) + expr
    if key == 'i18n:attributes':
        return rng.choice(('; ', ';')).join(
            n if m is None else '%s %s' % (n, m) for n, m in val)
    raise ValueError(key)


def quote_attr(value, rng, xml):
    """Source form of an attribute value."""
    q = rng.choice('"""\'')
    out = []
    for ch in value:
        if ch == '&':
            out.append('&amp;')
        elif ch == '<':
            out.append('&lt;')
        elif ch == q:
            out.append('&quot;' if q == '"' else '&#39;')
        elif ch == '>' and rng.random() < .5:
            out.append('&gt;')
        elif xml and ch in '\n\t\r':
            out.append('&#%d;' % ord(ch))
        else:
            out.append(ch)
    return q + ''.join(out) + q


class _Style:
    """Lexical choices of one element, reproducible from a number."""

    def __init__(self, seed, nl):
        import random
        self._r = random.Random(seed)
        self.choice = self._r.choice
        self.random = self._r.random
        self.shuffle = self._r.shuffle
        self.nl = nl


class Doc:
    """One template file."""

    def __init__(self, nodes, xml=False, file=None, prefixes=None,
                 plain_style=False):
        self.nodes = nodes
        self.xml = xml
        self.file = file
        self.prefixes = prefixes or {}
        self.plain_style = plain_style
        self.source = None
        self.serialize()

    def prefix(self, ns):
        return self.prefixes.get(ns, ns)

    def serialize(self):
        self._out = []
        self._line = 1
        self._col = 0
        for n in self.nodes:
            self._node(n)
        self.source = ''.join(self._out)
        return self.source

    def _w(self, s):
        self._out.append(s)
        if self.xml:
            # expat: CR, LF and CRLF all end a line
            s = s.replace('\r\n', '\n').replace('\r', '\n')
        n = s.count('\n')
        if n:
            self._line += n
            self._col = len(s) - s.rfind('\n') - 1
        else:
            self._col += len(s)

    def _node(self, n):
        if isinstance(n, Text):
            self._w(n.raw)
            return
        n.pos = (self._line, self._col)
        n.file = self.file
        xml = self.xml
        st = _Style(n.style, not xml)
        fancy = not self.plain_style and st.random() < .3
        tag = n.tag
        if n.names is not None:
            tag = n.names.get('', tag)
        elif n.ns:
            tag = '%s:%s' % (self.prefix(n.ns), tag)
        otag = tag
        if not xml and n.shout:
            otag = tag.upper()
        items = []
        for prefix, uri in n.decls:
            items.append(('xmlns:' + prefix if prefix else 'xmlns', uri))
        decls = list(items)
        items = [(a[0], a[1]) for a in n.attrs]
        stm = []
        for key, val in n.stm.items():
            ns, name = key.split(':', 1)
            if key in n.rawstm:
                text = n.rawstm[key]
            else:
                text = stmt_text(key, val, st)
                if text == '' and not xml and st.random() < .3:
                    text = None         # minimised attribute
            if n.names is not None:
                stm.append((n.names[key], text))
            elif n.ns == ns and st.random() < .7:
                stm.append((name, text))
            else:
                stm.append(('%s:%s' % (self.prefix(ns), name), text))
        st.shuffle(stm)
        # interleave, keeping the order of the plain attributes
        for s in stm:
            items.insert(int(st.random() * (len(items) + 1)), s)
        n.allattrs = dict(decls + items)
        self._w('<' + otag)
        for name, value in decls + items:
            sep = ' '
            if fancy:
                sep = st.choice((' ', '  ', '\n', '\n   ', '\t', ' \n '))
            if not xml and n.shout and st.random() < .6:
                name = name.upper()
            self._w(sep + name)
            if value is None:
                continue
            eq = '='
            if fancy and st.random() < .3:
                eq = st.choice((' = ', '= ', ' ='))
            self._w(eq + quote_attr(value, st, xml))
        if n.selfclose:
            self._w(st.choice(('/>', ' />')))
            n.endpos = n.pos
            return
        self._w('>' if not fancy else st.choice(('>', ' >', '\n>')))
        if not xml and tag in VOID:
            n.endpos = n.pos
            return
        for c in n.children:
            self._node(c)
        n.endpos = (self._line, self._col)
        self._w('</%s>' % otag)
