"""Static XML comes out as it went in."""
from xml.parsers import expat

from checks.c01 import grown
from checks.c01 import render
from checks.c01 import settings
from checks.common import standard
from harness import lexxml
from harness import sut
from harness.obs import Violation
from harness.obs import clip
from harness.obs import say
from harness.obs import same

ID = 'C02'
LEVEL = 'exploration'
RULE = ('Random well-formed XML is written token by token, together with the '
        'expected form of each token, and rendered under random renderer '
        'settings; the output is also read back by a plain XML parser and '
        'compared event by event with the source; templates with few '
        'statements are compared with the reference model.  Non-trivial: '
        'more than one element or special token; distinct by output.')
REQUIRED = ('comment', 'instruction', 'reference', 'cdata', 'entity',
            'entity in attribute', 'namespace', 'namespace undeclared',
            'prefixed attribute', 'prefixed element', 'empty element',
            'minimised', 'doctype', 'internal subset', 'declaration',
            'white space reference', 'xml', 'line ends', 'grown', 'large')


def static(r, obs, i):
    crlf = r.random() < .15
    lx = lexxml.Lex(r, crlf=crlf)
    source, expected = lx.document()
    kw = settings(r)
    try:
        program, macros = sut.compile_source(source, True)
    except Exception as exc:
        try:
            lexxml.events(source)
        except expat.ExpatError:
            raise AssertionError('generator wrote bad XML: %r' % source)
        raise Violation('static document refused', source=source,
                        error=say(exc))
    out = render(program, macros, kw)
    obs.ev()
    for k in lx.kinds:
        obs.count(k)
    if crlf:
        obs.count('line ends')
    same(expected, out, 'static document changed', source=source,
         settings=kw)
    try:
        after = lexxml.events(out)
    except expat.ExpatError as exc:
        raise Violation('output is not well-formed', source=source,
                        output=out, error=say(exc))
    same(lexxml.events(source), after, 'read back differently',
         source=source, output=out)
    if len(lx.out) > 3:
        obs.seen(out)
        obs.sample(source=clip(source, 300), output=clip(out, 300))


FEW = dict(define=.03, condition=.03, repeat=.02, content=.03, replace=.01,
           attributes=.04, omit=.03, nstag=.03, width=4, crlf=.2, deep=.6)


def mixed(r, obs, i, run=standard(FEW, libs=(0,))):
    return run(r, obs, 1)


def grown_xml(r, obs, i):
    grown(r, obs, i, True)


FAMILIES = [
    ('grown', grown_xml, 3000, 30000),
    ('static', static, 300000, 800000),
    ('mixed', mixed, 30000, 50000),
]
