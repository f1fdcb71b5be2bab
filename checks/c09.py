from harness import wide

from checks.common import TRACE
from checks.common import grown
from checks.common import standard

ID = 'C09'
LEVEL = 'exploration'
RULE = TRACE + ('A case is non-trivial if it recorded more than one engine '
                'event; distinct by output and event sequence.')
REQUIRED = ('html', 'xml', 'text inserted', 'structure inserted', 'nothing',
            'default kept', 'condition false', 'grown', 'large')

CONTENT = dict(define=.15, condition=.08, repeat=.08, content=.4, replace=.3,
               attributes=.15, omit=.35, default=.25, nothing=.2, uniq=.15,
               structure=.4, nstag=.2, message=.2, selfclose=.1, empty=.2,
               deep=.6)

FAMILIES = [
    ('tal', standard(CONTENT), 45000, 180000),
    ('i18n', standard(dict(CONTENT, translate=.2, name=.3, domain=.1, pre=0)),
     20000, 80000),
    ('macros', standard(dict(CONTENT, metal=.3, onerror=.15, error=.03),
                        libs=(1, 2)), 20000, 80000),
    ('grown', grown(wide.long_values, wide.long_structure, wide.siblings,
                    wide.long_text), 1600, 16000),
]
