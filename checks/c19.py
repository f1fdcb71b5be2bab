from harness import wide

from checks.common import TRACE
from checks.common import grown
from checks.common import standard

ID = 'C19'
LEVEL = 'exploration'
RULE = TRACE + ('A case is non-trivial if it recorded more than one engine '
                'event; distinct by output and event sequence.')
REQUIRED = ('html', 'xml', 'use', 'slot filled', 'extending',
            'handled errors', 'loops', 'units', 'attr translated', 'grown',
            'large')

ANY = dict(define=.2, condition=.15, repeat=.2, content=.15, replace=.08,
           attributes=.2, omit=.12, translate=.12, name=.4, domain=.08,
           i18nattrs=.1, data=.3, pre=0, crlf=.1)
# position and file announced to the engine at each event, and the
# position reported for each handled error
POS = (0, 1, 2, 3)

FAMILIES = [
    ('one file', standard(dict(ANY, onerror=.1, error=.03), fields=POS,
                          errors=True), 16000, 80000),
    ('files', standard(dict(ANY, metal=.35), libs=(1, 2, 3), fields=POS,
                       errors=True), 20000, 100000),
    ('errors', standard(dict(ANY, metal=.3, onerror=.25, error=.08),
                        libs=(1, 2), fields=POS, errors=True), 20000, 100000),
    ('nameless', standard(dict(ANY, metal=.35, fill=0, onerror=.15,
                               error=.03), libs=(1, 2), fields=POS,
                          errors=True, file='macros'), 6000, 30000),
    ('scripts', standard(dict(ANY, metal=.1, script=.08), libs=(0, 1),
                         fields=POS), 6000, 20000),
    ('grown', grown(wide.long_text, wide.siblings, wide.nest, wide.uses,
                    wide.chain, fields=POS), 1600, 16000),
]
