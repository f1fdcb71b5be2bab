"""Static HTML comes out as it went in."""
import os
import shutil
import tempfile

from checks.common import standard
from harness import lexhtml
from harness import sut
from harness import wide
from harness.engine import Compiler
from harness.engine import Engine
from harness.obs import Skip
from harness.obs import Violation
from harness.obs import clip
from harness.obs import say
from harness.obs import same
from zope.tal.htmltalparser import HTMLTALParser
from zope.tal.talgenerator import TALGenerator

ID = 'C01'
LEVEL = 'exploration'
RULE = ('Random HTML is written token by token, together with the expected '
        'form of each token, and rendered under random renderer settings; '
        'random soup is read by a second tokenizer for the expectation; '
        'templates with few statements are compared with the reference model.'
        ' Non-trivial: at least one tag or special token; distinct by '
        'output.')
REQUIRED = ('reference', 'open reference', 'comment', 'declaration',
            'instruction', 'section', 'void', 'self-closing', 'raw text',
            'rcdata', 'lonely', 'soup accepted', 'soup refused', 'html',
            'from file', 'grown', 'large')


def settings(r):
    return dict(wrap=r.choice((0, 20, 1023)), tal=r.choice((1, 1, 0)),
                metal=r.choice((1, 1, 0)), showtal=r.choice((-1, 0, 1)),
                strictinsert=r.choice((0, 1)),
                i18nInterpolate=r.choice((0, 1)))


def render(program, macros, kw):
    eng = Engine()
    out = sut.render(program, macros, eng, **kw)
    if eng.trace:
        raise Violation('engine called for markup without statements',
                        calls=clip(repr(eng.trace)))
    return out


def static(r, obs, i):
    lx = lexhtml.Lex(r)
    source, expected = lx.document()
    kw = settings(r)
    try:
        program, macros = sut.compile_source(source)
    except Exception as exc:
        raise Violation('static markup refused', source=source,
                        error=say(exc))
    out = render(program, macros, kw)
    obs.ev()
    for k in lx.kinds:
        obs.count(k)
    same(expected, out, 'static markup changed', source=source, settings=kw)
    if len(lx.out) > 2:
        obs.seen(out)
        obs.sample(source=clip(source, 300), output=clip(out, 300))


def from_file(r, obs, i):
    lx = lexhtml.Lex(r)
    source, expected = lx.document()
    source, expected = [s.replace('\r', '') for s in (source, expected)]
    d = tempfile.mkdtemp(prefix='c01-')
    try:
        path = os.path.join(d, 'x.html')
        with open(path, 'w', encoding='utf-8') as f:
            f.write(source)
        with open(path) as f:       # what the locale makes of it
            if f.read() != source:
                raise Skip()
        p = HTMLTALParser(TALGenerator(Compiler(), xml=0))
        p.parseFile(path)
        out = render(*p.getCode(), kw=settings(r))
    finally:
        shutil.rmtree(d)
    obs.ev()
    obs.count('from file')
    same(expected, out, 'static markup of a file changed', source=source)


SOUP = ('<', '>', '</', '/>', '<b', '<b>', '</b>', '<i', '</i>', '<br>',
        '<br', '</br>', '<a href=', '"', "'", '=', ' ', '\n', 'x', 'y z', '&',
        ';', '&amp', '&#65', '&lt;', '<!--', '-->', '--', '!', '<!', '<?', '?>',
        '<![CDATA[', ']]>', '<![if x]>', '<script>', '</script>', '<style>',
        '</style>', '<em class=a>', '</em>', '<x-y ', 'checked', ' k=v',
        ' k="v"', " k='v'", '/', '-', '[', ']', '<!DOCTYPE html>', '<3',
        'caf\xe9', '\U0001f600', '\t', '#', '<B>', '</B>', '<textarea>',
        '</textarea>', '<a', '</a>', '<title>', '</title>', '<svg/>',
        '<img src=x>', '</ b>', '</>', '<>', '&copy', '&copy=1', '%')


def soup(r, obs, i):
    source = ''.join(r.choice(SOUP) for _ in range(r.randint(1, 25)))
    echo = lexhtml.Echo()
    try:
        expected = echo.run(source)
    except Exception:
        raise Skip()
    try:
        program, macros = sut.compile_source(source)
    except Exception as exc:
        name = type(exc).__name__
        if not echo.refused:
            raise Violation('static markup refused', source=source,
                            error=say(exc))
        if name not in ('NestingError', 'EmptyTagError', 'OpenTagError',
                        'HTMLParseError'):
            raise Violation('refused with an unrelated error', source=source,
                            error=say(exc))
        obs.ev()
        obs.count('soup refused')
        return
    if echo.refused:
        raise Violation('wrong nesting accepted', source=source)
    out = render(program, macros, settings(r))
    obs.ev()
    obs.count('soup accepted')
    same(expected, out, 'markup changed', source=source)
    if echo.tags:
        obs.seen(out)


FEW = dict(define=.03, condition=.03, repeat=.02, content=.03, replace=.01,
           attributes=.04, omit=.03, nstag=.03, width=4, crlf=.2, deep=.6)


def mixed(r, obs, i, run=standard(FEW, libs=(0,))):
    return run(r, obs, 0)


def grown(r, obs, i, xml=False):
    """Long, deep and wide markup."""
    source = wide.static(r, xml)
    try:
        program, macros = sut.compile_source(source, xml)
        out = render(program, macros, settings(r))
    except Exception as exc:
        raise Violation('large static markup failed', source=clip(source),
                        error=say(exc))
    obs.ev()
    obs.count('grown')
    obs.count('large', len(source) > 1000)
    same(source, out, 'large static markup changed', source=clip(source, 900))
    obs.seen(out)


FAMILIES = [
    ('grown', grown, 3000, 30000),
    ('static', static, 210000, 500000),
    ('soup', soup, 300000, 800000),
    ('file', from_file, 1200, 4000),
    ('mixed', mixed, 18000, 50000),
]
