"""XML at token level: random documents together with the output expected
for markup without template statements."""
from xml.parsers import expat

from harness.model import dyn_attr

NAMES = ('a', 'b', 'doc', 'item', 'x-y', 'A.b', '_u', 'été', '名', 'tal',
         'block', 'content')
ATTRS = ('id', 'Class', 'title', 'href', 'x-y', 'a.b', '_', 'été', 'checked',
         'content', 'define', 'xmlish', 'metal')
URIS = ('urn:a', 'urn:b', 'http://x/y?z&w', 'http://example.org/é',
        'http://xml.zope.org/namespaces/talx', 'http://www.w3.org/1999/xhtml')
PREFIXES = ('p', 'q', 'tal', 'metal', 'i18n', 'x.y', 'é')
CHARS = ('foo', 'x', ' ', '  ', '\n', '\n  ', '\t', 'caf\xe9', '日本',
         '\U0001f600', '"', "'", '>', '/>', ']', ']]', '%', '${x}', '$', '=',
         ';', '-->', '\x85', '\xa0', '﻿', '?>', '�', '{', '--')
REFS = ('&amp;', '&lt;', '&gt;', '&quot;', '&apos;', '&#65;', '&#x41;',
        '&#10;', '&#13;', '&#9;', '&#xe9;', '&#x1F600;', ']]&gt;', '&#60;',
        '&#38;')
VALUES = ('v', 'a b', '', ' ', '&', '<', '>', '"', "'", '&lt;', '&amp;',
          '&copy;', '\n', '\t', '\r', 'caf\xe9', '日', '\U0001f600', '%', ';',
          ']]>', '-->', '${x}', '  ', 'x=y', '&#65;', '&#')


class Lex:
    """charset: restrict to characters of this encoding."""

    def __init__(self, r, charset=None, doctype=.3, decl=None, budget=None,
                 crlf=False):
        self.r = r
        self.charset = charset
        self.src = []
        self.out = []
        self.kinds = set()
        self.budget = budget or r.choice((4, 10, 25))
        self.entities = []
        self.doctype = doctype
        self.decl = decl
        self.nl = '\r\n' if crlf else '\n'

    def ok(self, s):
        if self.charset is None:
            return True
        try:
            s.encode(self.charset)
        except UnicodeError:
            return False
        return True

    def pick(self, seq):
        while True:
            s = self.r.choice(seq)
            if self.ok(s):
                return s

    def both(self, s, kind=None):
        s = s.replace('\n', self.nl)
        self.src.append(s)
        self.out.append(s)
        if kind:
            self.kinds.add(kind)

    def ws(self):
        return self.r.choice((' ', ' ', ' ', '  ', '\n', '\t', '\n  '))

    def misc(self):
        r = self.r
        body = ''.join(self.pick(('x', ' ', '\n', '<b>', '</b>', '-', 'caf\xe9',
                                 '&amp;', '&', '"', 'tal:x', '=', '<', '[',
                                 ']', ' tal:content="x"', '日', '&zz;', ']]>'))
                       for _ in range(r.randrange(6)))
        if r.random() < .5:
            while '--' in body:
                body = body.replace('--', '-')
            if body.endswith('-'):
                body += ' '
            self.both('<!--%s-->' % body, 'comment')
        else:
            self.both(self.pick(('<?p?>', '<?php echo ?>', '<?x-y %s?>'
                                 % body.replace('?', ''),
                                 '<?xml-stylesheet href="a&b"?>',
                                 '<?tal content?>')), 'instruction')

    def text(self):
        r = self.r
        for _ in range(r.choice((1, 1, 2, 4))):
            x = r.random()
            if x < .55:
                s = self.pick(CHARS)
                # "]]>" must not arise from pieces
                if s.startswith((']', '>')) and \
                        ''.join(self.src[-3:]).endswith(']'):
                    s = ' ' + s
                self.both(s)
            elif x < .75:
                self.both(r.choice(REFS), 'reference')
            elif x < .85:
                body = ''.join(self.pick(('<b>', '&', '&amp;', ' ', 'x', ']',
                                          '\n', '"', 'caf\xe9', '>', '</a>',
                                          '<!--', '<![CDATA['))
                               for _ in range(r.randrange(6)))
                while ']]>' in body:
                    body = body.replace(']]>', '')
                self.both('<![CDATA[%s]]>' % body, 'cdata')
            elif x < .9 and self.entities:
                self.both('&%s;' % r.choice(self.entities)[0], 'entity')
            else:
                self.misc()

    def value(self):
        """(source, decoded value) of an attribute."""
        r = self.r
        q = r.choice('"\'')
        src, val = [], []
        for _ in range(r.choice((0, 1, 1, 2, 4))):
            if self.entities and r.random() < .1:
                name, text = r.choice(self.entities)
                if text is not None:
                    src.append('&%s;' % name)
                    val.append(text)
                    self.kinds.add('entity in attribute')
                    continue
            for ch in r.choice(VALUES):
                x = r.random()
                if ch == '&':
                    s = '&amp;' if x < .8 else '&#38;'
                elif ch == '<':
                    s = '&lt;' if x < .8 else '&#x3C;'
                elif ch == q:
                    s = {'"': '&quot;', "'": '&apos;'}[q] if x < .7 else \
                        '&#%d;' % ord(q)
                elif ch in '\t\n\r':
                    if x < .5:
                        s = '&#%d;' % ord(ch)
                        self.kinds.add('white space reference')
                    else:
                        s, ch = ('\n' if ch == '\r' else ch), ' '
                        s = s.replace('\n', self.nl)
                elif x < .05 or not self.ok(ch):
                    s = '&#x%x;' % ord(ch)
                elif ch == '>' and x < .5:
                    s = '&gt;'
                else:
                    s = ch
                src.append(s)
                val.append(ch)
        return q + ''.join(src) + q, ''.join(val)

    def statements(self):
        """More attributes, as written, which leave nothing in the output."""
        return []

    def element(self, scope, depth):
        r = self.r
        self.budget -= 1
        decls = []                  # (prefix or '', uri)
        scope = dict(scope)
        if r.random() < (.4 if depth == 0 else .12):
            for p in r.sample(('', '') + PREFIXES, r.choice((1, 1, 2, 3))):
                if not self.ok(p) or any(d[0] == p for d in decls):
                    continue
                uri = self.pick(URIS)
                if not p and r.random() < .3:
                    uri = ''
                    self.kinds.add('namespace undeclared')
                decls.append((p, uri))
                scope[p] = uri
                self.kinds.add('namespace')
        known = [p for p in scope if p]
        used = set()
        attrs = []
        for _ in range(r.choice((0, 0, 1, 1, 2, 3, 5))):
            name = self.pick(ATTRS)
            key = ('', name)
            x = r.random()
            if known and x < .3:
                p = r.choice(known)
                key = (scope[p], name)
                name = p + ':' + name
                self.kinds.add('prefixed attribute')
            elif x < .4:
                name = r.choice(('xml:lang', 'xml:space', 'xml:id'))
                key = ('xml', name)
                # expat insists on nothing about their values
            if key in used:
                continue
            used.add(key)
            attrs.append((name,) + self.value())
        tag = self.pick(NAMES)
        if known and r.random() < .3:
            tag = r.choice(known) + ':' + tag
            self.kinds.add('prefixed element')
        written = [(n, s) for n, s, v in attrs]
        for p, uri in decls:
            src = uri.replace('&', '&amp;')
            q = r.choice('"\'')
            pair = ('xmlns:' + p if p else 'xmlns', q + src + q)
            # keep the declarations in order among themselves
            written.append(pair)
        written += self.statements()
        names = [w[0] for w in written]
        if r.random() < .5:
            # mix the declarations between the attributes
            a = [w for w in written if not w[0].startswith('xmlns')]
            d = [w for w in written if w[0].startswith('xmlns')]
            written = []
            while a or d:
                src = a if a and (not d or r.random() < .5) else d
                written.append(src.pop(0))
        assert len(names) == len(written)
        eq = ('=', '=', '=', ' = ', '\n=', '= ')
        s = '<' + tag + ''.join(self.ws() + n + r.choice(eq) + v
                                for n, v in written)
        o = '<' + tag
        for p, uri in decls:
            o += ' ' + dyn_attr('xmlns:' + p if p else 'xmlns', uri, True)
        for n, _, v in attrs:
            o += ' ' + dyn_attr(n, v, True)
        self.src.append(s.replace('\r\n', '\n').replace('\n', self.nl)
                        + r.choice(('', '', ' ', self.nl)))
        self.out.append(o)
        x = r.random()
        if x < .15:
            self.src.append('/>')
            self.out.append('/>')
            self.kinds.add('empty element')
            return
        self.src.append('>')
        mark = len(self.out)
        self.out.append('>')
        if x > .25:
            self.content(scope, depth + 1)
        end = '</' + tag + r.choice(('', '', ' ', self.nl)) + '>'
        self.src.append(end)
        if len(self.out) == mark + 1:
            self.out[mark] = '/>'
            self.kinds.add('minimised')
        else:
            self.out.append('</' + tag + '>')

    def content(self, scope, depth):
        r = self.r
        for _ in range(r.randint(0, 4)):
            x = r.random()
            if self.budget < 0 or x < .4 or depth > 6:
                self.text()
            elif x < .5:
                self.misc()
            else:
                self.element(scope, depth)

    def doctype_decl(self):
        r = self.r
        x = r.random()
        if x < .2:
            ext = ''
        elif x < .5:
            ext = ' SYSTEM "http://x/y.dtd"'
        else:
            ext = ' PUBLIC "-//X//Y" \'y.dtd\''
        subset = ''
        if not ext or r.random() < .6:
            parts = []
            for _ in range(r.randint(1, 5)):
                x = r.random()
                if x < .5:
                    # (declared text, value in an attribute)
                    text, value = r.choice((
                        ('bar', 'bar'), ('a &#38;lt; b', 'a < b'),
                        ('é', 'é'), ('&#38;amp;', '&'), ("it's", "it's"),
                        ('<i>x</i>', None), ('a &#34; b', 'a " b')
                    ) if self.ok('é') else (('bar', 'bar'),))
                    name = 'e%d' % len(self.entities)
                    self.entities.append((name, value))
                    parts.append('<!ENTITY %s "%s">' % (name, text))
                elif x < .6:
                    parts.append('<!ELEMENT a ANY>')
                elif x < .7:
                    parts.append('<!-- <a> -->')
                elif x < .8:
                    parts.append('<?pi?>')
                elif x < .9:
                    parts.append('<!NOTATION n SYSTEM "n">')
                else:
                    parts.append('<!ATTLIST b zz CDATA #IMPLIED>')
            subset = r.choice((' [', '[', '\n[\n')) + r.choice(
                ('', ' ', '\n')).join(parts) + r.choice((']', '\n]\n', '] '))
            self.kinds.add('internal subset')
        self.both('<!DOCTYPE doc%s%s>' % (ext, subset), 'doctype')

    def document(self):
        r = self.r
        if self.decl is not None:
            self.both(self.decl, 'declaration')
        elif r.random() < .4:
            self.both(r.choice((
                '<?xml version="1.0"?>', "<?xml version='1.0' ?>",
                '<?xml version="1.0" encoding="utf-8"?>',
                '<?xml version="1.0" encoding="ISO-8859-1"?>',
                '<?xml\nversion = "1.0" encoding="UTF-16"\nstandalone="yes"?>',
            )), 'declaration')
        sep = ('', '\n', '\n\n ')
        self.both(r.choice(sep) if self.out else '')
        if r.random() < .3:
            self.misc()
            self.both(r.choice(sep))
        if r.random() < self.doctype:
            self.doctype_decl()
            self.both(r.choice(sep))
            if r.random() < .3:
                self.misc()
        self.element({}, 0)
        for _ in range(r.choice((0, 0, 1, 2))):
            self.both(r.choice(sep))
            self.misc()
        self.both(r.choice(sep))
        return ''.join(self.src), ''.join(self.out)


def events(source):
    """What a second reader sees: names with namespaces, decoded values."""
    out = []

    def chars(s):
        if out and out[-1][0] == 'text':
            s = out.pop()[1] + s
        out.append(('text', s))

    p = expat.ParserCreate(None, ' ')
    p.ordered_attributes = True
    p.namespace_prefixes = True
    p.buffer_text = True
    p.StartElementHandler = lambda n, a: out.append(
        ('start', n, list(zip(a[::2], a[1::2]))))
    p.EndElementHandler = lambda n: out.append(('end', n))
    p.CharacterDataHandler = chars
    p.CommentHandler = lambda s: out.append(('comment', s))
    p.ProcessingInstructionHandler = lambda t, d: out.append(('pi', t, d))
    p.StartNamespaceDeclHandler = lambda q, u: out.append(('ns', q, u))
    p.StartCdataSectionHandler = lambda: out.append(('cdata',))
    p.EndCdataSectionHandler = lambda: out.append(('end cdata',))
    p.EntityDeclHandler = lambda *a: out.append(('entity',) + a)
    p.StartDoctypeDeclHandler = lambda *a: out.append(('doctype',) + a)
    p.XmlDeclHandler = lambda *a: out.append(('xml',) + a)
    p.SkippedEntityHandler = lambda *a: out.append(('skipped',) + a)
    p.Parse(source, True)
    return out
