from harness import wide

from checks.common import TRACE
from checks.common import grown
from checks.common import standard

ID = 'C06'
LEVEL = 'exploration'
RULE = TRACE + ('A case is non-trivial if it recorded more than one engine '
                'event; distinct by output and event sequence.')
REQUIRED = ('html', 'xml', 'loops', 'use', 'slot filled', 'handled errors',
            'grown', 'large')

VARS = dict(define=.45, condition=.1, repeat=.25, content=.15, replace=.05,
            attributes=.15, omit=.1, glob=.3, uniq=.4, width=3, deep=.7,
            nstag=.15)

# Besides kind and text of each event: all visible variables and the
# attributes of the current element.
ENV = (0, 1, 4, 5)

FAMILIES = [
    ('tal', standard(VARS, fields=ENV), 18000, 120000),
    ('macros', standard(dict(VARS, metal=.35), libs=(1, 2), fields=ENV),
     12000, 80000),
    ('errors', standard(dict(VARS, onerror=.3, error=.1, metal=.15),
                        libs=(0, 1), fields=ENV, errors=True), 15000, 100000),
    ('all', standard(dict(VARS, onerror=.15, error=.04, metal=.15, pre=0,
                          translate=.15, name=.4, i18nattrs=.1, domain=.1,
                          data=.3, script=.03), libs=(0, 1, 2), fields=ENV),
     9000, 60000),
    ('grown', grown(wide.defines, wide.nest, wide.loops, wide.handlers,
                    wide.uses, fields=ENV), 1600, 16000),
]
