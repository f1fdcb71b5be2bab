from harness import wide

from checks.common import TRACE
from checks.common import grown
from checks.common import standard

ID = 'C08'
LEVEL = 'exploration'
RULE = TRACE + ('A case is non-trivial if it recorded more than one engine '
                'event; distinct by output and event sequence.')
REQUIRED = ('html', 'xml', 'attr dynamic', 'attr dropped', 'attr translated',
            'structure inserted', 'grown', 'large')

HTML = ('id', 'class', 'title', 'href', 'alt', 'data-x', 'value', 'z', 'a',
        'checked', 'selected', 'disabled', 'compact', 'nowrap', 'ismap',
        'declare', 'noshade', 'readonly', 'multiple', 'noresize', 'defer',
        'xml:lang', 'src')
XML = ('id', 'Id', 'ID', 'title', 'value', 'x-y', 'checked', 'a.b', 'a', 'z',
       'disabled', 'xml:lang')

ATTRS = dict(define=.1, condition=.05, repeat=.1, content=.1, replace=.1,
             attributes=.8, omit=.1, default=.2, nothing=.2, uniq=.1,
             void=.2, selfclose=.15, plainattr=.85, structure=.6,
             mixcase=.4, hostile=.5, message=.1)


def fam(prof, **kw):
    html = standard(dict(prof, attrnames=HTML), **kw)
    xml = standard(dict(prof, attrnames=XML), **kw)

    def run(r, obs, i):
        (xml if i % 2 else html)(r, obs, i)
    return run


FAMILIES = [
    ('tal', fam(ATTRS, fields=(0, 1, 5)), 45000, 180000),
    ('i18n', fam(dict(ATTRS, i18nattrs=.4, domain=.1), fields=(0, 1)),
     20000, 80000),
    ('macros', fam(dict(ATTRS, metal=.3, onerror=.1, error=.02), libs=(1, 2)),
     15000, 60000),
    ('grown', grown(wide.attributes, wide.long_values, wide.long_names,
                    fields=(0, 1, 5)), 1600, 16000),
]
