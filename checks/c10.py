from harness import wide

from checks.common import TRACE
from checks.common import grown
from checks.common import standard

ID = 'C10'
LEVEL = 'exploration'
RULE = TRACE + ('A case is non-trivial if it recorded more than one engine '
                'event; distinct by output and event sequence.')
REQUIRED = ('html', 'xml', 'loops', 'items', 'use', 'grown', 'large')

LOOPS = dict(define=.1, condition=.1, repeat=.55, content=.15, replace=.08,
             attributes=.15, omit=.15, uniq=.15, nstag=.15, crlf=.15, deep=.65)

FAMILIES = [
    ('tal', standard(LOOPS, fields=(0, 1, 4), budget=(8, 15, 25)),
     25000, 100000),
    ('macros', standard(dict(LOOPS, repeat=.4, metal=.3, onerror=.1,
                             error=.02), libs=(1, 2), fields=(0, 1, 4),
                        budget=(8, 15)), 12500, 50000),
    ('i18n', standard(dict(LOOPS, repeat=.4, translate=.2, name=.4,
                           i18nattrs=.1, pre=0), fields=(0, 1, 4),
                      budget=(8, 15, 25)), 12500, 50000),
    ('grown', grown(wide.loop, wide.loops, wide.indent, fields=(0, 1, 4)),
     1600, 16000),
]
