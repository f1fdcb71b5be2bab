from harness import sut
from harness import wide
from harness.engine import Engine
from harness.obs import Violation
from harness.obs import say

from checks.common import TRACE
from checks.common import grown
from checks.common import standard

ID = 'C13'
LEVEL = 'exploration'
RULE = TRACE + ('A case is non-trivial if it recorded more than one engine '
                'event; distinct by output and event sequence.')
REQUIRED = ('html', 'xml', 'units', 'named', 'use', 'handled errors', 'loops',
            'preformatted', 'preformatted parts', 'grown', 'large')

UNITS = dict(define=.1, condition=.1, repeat=.1, content=.12, replace=.06,
             attributes=.1, omit=.12, translate=.45, name=.55, data=.4,
             i18nattrs=.08, domain=.05, message=.15, nstag=.15, deep=.7,
             comment=.1, crlf=.1)

SPACE = ('a  b', ' x', 'y ', 'one\n  two', '\n', '\t', '  ', 'word', '\n\n z')


def preformatted(r, obs, i):
    """White space counts in preformatted text, and only there."""
    default = source = ''
    mapping = {}
    values = {}
    tag = r.choice(('div', 'pre', 'blockquote', 'pre', 'td'))
    if tag != 'pre':
        for k in range(r.choice((1, 1, 2, 3))):
            t = r.choice(SPACE)
            default += t
            source += t
            name = 'n%d' % k
            t = r.choice(SPACE) + r.choice(SPACE)
            pre = r.random() < .7
            inner = 'pre' if pre else r.choice(('p', 'div', 'em'))
            if r.random() < .5:
                source += '<%s i18n:name="%s">%s</%s>' % (inner, name, t,
                                                          inner)
            else:
                values[name] = t
                source += '<%s i18n:name="%s" tal:content="v:%s">o</%s>' % (
                    inner, name, name, inner)
            t = '<%s>%s</%s>' % (inner, t, inner)
            mapping[name] = t if pre else ' '.join(t.split())
            obs.count('preformatted parts', pre)
            default += '${%s}' % name
    t = r.choice(SPACE)
    default += t
    source += t
    given = r.choice(('', '', 'id'))
    want = given or (default if tag == 'pre' else ' '.join(default.split()))
    source = '<%s i18n:translate="%s">%s</%s>' % (tag, given, source, tag)
    e = Engine()
    e.globals.update(values)
    s = sut.Stream()
    try:
        program, macros = sut.compile_source(source, False, file='p.pt')
        sut.render(program, macros, e, s)
    except Exception as exc:
        raise Violation('template with preformatted text failed',
                        source=source, error=say(exc))
    obs.ev()
    obs.count('preformatted')
    got = [(ev[1][1], ev[7], ev[8]) for ev in e.trace
           if ev[0] == 'translate']
    expected = [(want, tuple(sorted(mapping.items())), default)]
    if want and got != expected:
        raise Violation('translation request not as expected', source=source,
                        expected=repr(expected), observed=repr(got))
    obs.seen(source)


FAMILIES = [
    ('preformatted', preformatted, 2000, 20000),
    ('units', standard(UNITS, fields=(0, 1, 2)), 32000, 160000),
    ('macros', standard(dict(UNITS, metal=.3, pre=0), libs=(1, 2)),
     16000, 80000),
    ('errors', standard(dict(UNITS, metal=.1, onerror=.2, error=.06, pre=0),
                        libs=(0, 1)), 16000, 80000),
    ('grown', grown(wide.names, wide.units, wide.long_names,
                    fields=(0, 1, 2)), 1600, 16000),
]
