from harness import lang
from harness import wide

from checks.common import TRACE
from checks.common import grown
from checks.common import standard

ID = 'C15'
LEVEL = 'exploration'
RULE = TRACE + ('A case is non-trivial if it recorded more than one engine '
                'event; distinct by output and event sequence.')
REQUIRED = ('html', 'xml', 'attr translated', 'attr dropped', 'use', 'grown',
            'large')

ATTRS = dict(define=.06, condition=.06, repeat=.1, content=.1, replace=.08,
             attributes=.5, omit=.08, translate=.1, name=.2, domain=.1,
             i18nattrs=.75, message=.15, default=.2, nothing=.2, void=.15,
             selfclose=.15, plainattr=.85, structure=.5, mixcase=.2)

# nothing but attributes asks for translations
ALONE = dict(ATTRS, content=0, replace=0, translate=0, name=0, metal=.2,
             message=.4)


def sparse(msgid, domain, mapping, default):
    """An engine that has no translation for some messages."""
    if len(str(msgid)) % 2:
        return None
    return lang.translation(msgid, domain, mapping, default)


HTML = ('id', 'class', 'title', 'href', 'alt', 'data-x', 'value', 'checked',
        'selected', 'disabled', 'ismap', 'z')


def fam(prof, **kw):
    html = standard(dict(prof, attrnames=HTML), **kw)
    xml = standard(prof, **kw)

    def run(r, obs, i):
        (xml if i % 2 else html)(r, obs, i)
    return run


FAMILIES = [
    ('attributes', fam(ATTRS), 45000, 180000),
    ('macros', fam(dict(ATTRS, metal=.3, onerror=.1, error=.03, pre=0),
                   libs=(1, 2)), 20000, 80000),
    ('sparse', fam(ALONE, libs=(0, 0, 1), real_kw={'translate': sparse},
                   model_kw={'translate': sparse}), 12000, 60000),
    ('grown', grown(wide.i18nattributes, wide.long_names), 1600, 16000),
]
