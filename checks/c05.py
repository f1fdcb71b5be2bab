from harness import wide

from checks.common import TRACE
from checks.common import grown
from checks.common import standard

ID = 'C05'
LEVEL = 'exploration'
RULE = TRACE + ('A case is non-trivial if it recorded more than one engine '
                'event; distinct by output and event sequence.')
REQUIRED = ('html', 'xml', 'loops', 'items', 'condition false', 'use',
            'default kept', 'structure inserted', 'text inserted', 'grown',
            'large')

TAL = dict(define=.4, condition=.3, repeat=.25, content=.2, replace=.12,
           attributes=.35, omit=.25, default=.2, uniq=.3, structure=.3,
           width=3)

FAMILIES = [
    ('tal', standard(TAL), 30000, 120000),
    ('macros', standard(dict(TAL, metal=.3), libs=(1, 2)), 12500, 50000),
    ('errors', standard(dict(TAL, onerror=.2, error=.06, metal=.1),
                        libs=(0, 1)), 12500, 50000),
    ('all', standard(dict(TAL, onerror=.1, error=.03, metal=.15, pre=0,
                          translate=.12, name=.4, i18nattrs=.1, domain=.1,
                          data=.3), libs=(0, 1, 2)), 10000, 40000),
    ('texts', standard(dict(TAL, texttag=.5, metal=.1, translate=.1, name=.4),
                       libs=(0, 1)), 4000, 20000),
    ('grown', grown(wide.loop, wide.defines, wide.nest, wide.siblings,
                    wide.loops), 1600, 16000),
]
