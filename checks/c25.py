"""One XML document, delivered in every way."""
import io
import os
import re
import shutil
import tempfile
from xml.parsers import expat

from harness import gen
from harness import lexxml
from harness.engine import Compiler
from harness.obs import Skip
from harness.obs import Violation
from harness.obs import clip
from harness.obs import say
from zope.tal.taldefs import TALError
from zope.tal.talgenerator import TALGenerator
from zope.tal.talparser import TALParser

ID = 'C25'
LEVEL = 'exploration'
RULE = ('One document (with or without statements, well-formed or damaged) '
        'is delivered as text, bytes in several encodings, file, stream with '
        'pieces of random size, URL and fragments; each delivery must give '
        'the same compiled program and macros, or the same error at the same '
        'line.  Non-trivial: every document; distinct by compiled program or '
        'error.')
REQUIRED = ('text', 'bytes', 'bom', 'file', 'stream', 'url', 'fragments',
            'text fragments', 'override', 'utf-16', 'single byte', 'refused',
            'template error', 'statements', 'long')


class Pieces:
    """A stream that returns its data in pieces."""

    def __init__(self, data, r):
        self.f = io.BytesIO(data)
        self.r = r
        self.small = r.random() < .5
        self.out = []

    def read(self, n=-1):
        if n is None or n < 0:
            n = 2048
        self.out.append(self.f.read(min(n, self.r.choice(
            (1, 1, 2, 3, 5) if self.small else (1, 7, 64, 1000)))))
        return self.out[-1]


def parser(encoding=None):
    if encoding:
        return TALParser(TALGenerator(Compiler(), xml=1), encoding)
    return TALParser(TALGenerator(Compiler(), xml=1))


def text(code):
    return re.sub(r' at 0x[0-9a-f]+', '', repr(code))


def outcome(do, encoding=None):
    p = parser(encoding)
    try:
        do(p)
        program, macros = p.getCode()
        return 'code', text(program), text(sorted(macros.items()))
    except expat.ExpatError as exc:
        return 'XML', exc.lineno
    except TALError as exc:
        return type(exc).__name__, say(exc), exc.lineno, exc.offset


def split(data, r):
    out = []
    n = r.choice((1, 2, 5, 10, 50))
    while data:
        k = r.randint(1, n)
        out.append(data[:k])
        data = data[k:]
    return out or [data]


def fragments(pieces):
    def do(p):
        for s in pieces[:-1]:
            p.parseFragment(s)
        p.parseFragment(pieces[-1], 1)
    return do


def bare(pieces):
    """The line at which expat itself refuses the pieces, or None."""
    p = expat.ParserCreate(None, ' ')
    try:
        for s in pieces:
            p.Parse(s, 0)
        p.Parse(b'', 1)
    except expat.ExpatError as exc:
        return exc.lineno


def damage(source, r):
    i = r.randrange(len(source) + 1)
    x = r.random()
    if x < .4:
        return source[:i] + source[i + r.randint(1, 4):]
    if x < .8:
        return source[:i] + r.choice((
            '<', '>', '&', '</a>', '<b>', '"', ']]>', '<!--', '&nosuch;',
            '<?xml version="1.0"?>', '\x01', ' a="1" a="1"', '<q:r/>')) \
            + source[i:]
    return source[:i]


DECL = re.compile(r'\A(<\?xml\s+version\s*=\s*["\']1.0["\'])'
                  r'(\s+encoding\s*=\s*["\'][^"\']*["\'])?')


FIRST = re.compile(DECL.pattern + r'\s*\?>')


def declared(source, encoding):
    """The document with a declaration of *encoding*."""
    return DECL.sub(lambda m: '%s encoding="%s"' % (m.group(1), encoding),
                    source)


def compare(obs, want, got, how, source, **kw):
    obs.ev()
    obs.count(how)
    if want != got:
        raise Violation('delivery matters: ' + how, source=source,
                        expected=clip(repr(want)), observed=clip(repr(got)),
                        **kw)


ENCODINGS = ('utf-8', 'UTF-8', 'us-ascii', 'iso-8859-1', 'ISO-8859-1',
             'utf-16', 'iso-8859-15', 'windows-1252', 'koi8-r', 'cp850')


def deliver(r, obs, i):
    encoding = r.choice(ENCODINGS)
    statements = False
    if r.random() < .5:
        charset = None if encoding.lower().startswith('utf') else encoding
        lx = lexxml.Lex(r, charset=charset,
                        decl='<?xml version="1.0" encoding="%s"?>' % encoding,
                        crlf=r.random() < .15)
        source = lx.document()[0]
    else:
        g = gen.Gen(r, xml=True, prof=gen.profile(
            define=.2, condition=.2, repeat=.3, content=.3, attributes=.3,
            macro=.2, slot=.2, width=4, crlf=.2))
        g.budget = 15
        doc = gen.make_doc(g)
        source = doc.source
        if source.startswith('<?xml'):
            source = source[source.index('?>') + 2:]
        source = '<?xml version="1.0" encoding="%s"?>' % encoding + source
        if not encoding.lower().startswith('utf'):
            source = source.encode(encoding, 'replace').decode(encoding)
        statements = True
    if r.random() < .004:
        obs.count('long')
        source += '\n<!-- %s -->' % ('filling ' * 12) * r.choice((300, 900))
        if r.random() < .5:
            k = source.rindex('</') if '</' in source else len(source)
            source = source[:k] + '<z>some text</z>\n' * 5000 + source[k:]
    if r.random() < .35:
        source = damage(source, r).rstrip('\r')
        if not encoding.lower().startswith('utf'):
            source = source.encode(encoding, 'replace').decode(encoding)
    m = FIRST.match(source)
    if not m and source.startswith('<?xm'):
        raise Skip()        # the declaration itself is damaged
    if not m:
        encoding = 'utf-8'
    else:
        # a byte order mark counts as a column of the first line
        source = m.group() + '\n' + source[m.end():]
    source = declared(source, encoding)
    want = outcome(lambda p: p.parseString(source))
    obs.seen(repr(want))
    if want[0] == 'XML':
        obs.count('refused')
    elif want[0] != 'code':
        obs.count('template error')
    elif statements:
        obs.count('statements')
    obs.sample(source=clip(source, 300), outcome=clip(repr(want), 200))

    def check(do, how, pieces=None):
        got = outcome(do)
        if pieces and got != want and got[0] == want[0] == 'XML' and (
                bare(pieces) == got[1] and bare([source]) == want[1]):
            # after the root element expat's own line depends on the pieces
            obs.ev()
            obs.count('line from expat')
            return
        compare(obs, want, got, how, source, encoding=encoding)

    check(lambda p: p.parseString(source), 'text')
    # expat counts a line end twice if it is split between its characters
    whole = '\r' in source
    if not whole:
        parts = split(source, r)
        check(fragments(parts), 'text fragments', parts)
    try:
        data = source.encode(encoding)
    except UnicodeError:
        return
    check(lambda p: p.parseString(data), 'bytes')
    if not whole:
        stream = Pieces(data, r)
        check(lambda p: p.parseStream(stream), 'stream', stream.out)
        parts = split(data, r)
        check(fragments(parts), 'fragments', parts)
    if encoding == 'utf-16':
        obs.count('utf-16')
    elif encoding.lower() == 'utf-8' and m:
        check(lambda p: p.parseString(b'\xef\xbb\xbf' + data), 'bom')
    else:
        obs.count('single byte')
    # the same with the encoding given to the parser
    if encoding in ('utf-8', 'iso-8859-1', 'us-ascii'):
        plain = source
        if plain.startswith('<?xml') and want[0] == 'code':
            plain = plain[plain.index('?>') + 2:]
            w = outcome(lambda p: p.parseString(plain))
            g = outcome(lambda p: p.parseString(plain.encode(encoding)),
                        encoding)
            compare(obs, w, g, 'override', plain, encoding=encoding)
    if i % 8 == 0:
        d = tempfile.mkdtemp(prefix='c25-')
        try:
            path = os.path.join(d, 'doc.xml')
            with open(path, 'wb') as f:
                f.write(data)
            check(lambda p: p.parseFile(path), 'file')
            check(lambda p: p.parseURL('file://' + path), 'url')
        finally:
            shutil.rmtree(d)


FAMILIES = [
    ('deliver', deliver, 48000, 200000),
]
