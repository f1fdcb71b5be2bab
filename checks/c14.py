from zope.tal.translationcontext import DEFAULT_DOMAIN
from zope.tal.translationcontext import TranslationContext

from harness import wide
from harness.obs import Violation

from checks.common import TRACE
from checks.common import grown
from checks.common import standard

ID = 'C14'
LEVEL = 'exploration'
RULE = TRACE + ('A case is non-trivial if it recorded more than one engine '
                'event; distinct by output and event sequence.')
REQUIRED = ('html', 'xml', 'units', 'attr translated', 'use', 'slot filled',
            'handled errors', 'text inserted', 'contexts', 'inherited',
            'set anew', 'grown', 'large')

DOMAINS = dict(define=.06, condition=.06, repeat=.1, content=.2, replace=.08,
               attributes=.2, omit=.1, translate=.3, name=.3, data=.1,
               i18nattrs=.3, domain=.4, message=.3, deep=.75, pre=0)
# translation requests (with domain, mapping and default) and output
REQ = dict(kinds=('translate',))

NAMES = ('domain', 'target', 'source')


def contexts(r, obs, i):
    """Chains of settings: what is not given comes from outside."""
    c = None
    want = dict.fromkeys(NAMES)
    chain = []
    for k in range(r.choice((1, 2, 3, 5, 8))):
        given = {n: r.choice((None, '', 'a', 'b.c', 'd-%d' % k))
                 for n in NAMES if r.random() < .5}
        chain.append(given)
        before = c
        if c is None:
            c = TranslationContext(**given)
            # a domain given as '' at the outermost place is kept
            want.update(given)
            if want['domain'] is None:
                want['domain'] = DEFAULT_DOMAIN
        else:
            kept = dict(want)
            c = TranslationContext(c, **given)
            for n in NAMES:
                if given.get(n):
                    want[n] = given[n]
                    obs.count('set anew')
                else:
                    obs.count('inherited')
            old = {n: getattr(before, n) for n in NAMES}
            if old != kept:
                raise Violation('outer settings changed', chain=chain,
                                expected=kept, observed=old)
        got = {n: getattr(c, n) for n in NAMES}
        obs.ev()
        if got != want or c.parent is not before:
            raise Violation('settings not as expected', chain=chain,
                            expected=want, observed=got)
    obs.count('contexts')
    obs.seen(chain)


FAMILIES = [
    ('contexts', contexts, 4000, 40000),
    ('nesting', standard(DOMAINS, **REQ), 18000, 120000),
    ('macros', standard(dict(DOMAINS, metal=.4), libs=(1, 2, 3), **REQ),
     15000, 100000),
    ('errors', standard(dict(DOMAINS, metal=.15, onerror=.25, error=.08),
                        libs=(0, 1), **REQ), 15000, 100000),
    ('grown', grown(wide.domains, wide.units, wide.long_names, **REQ),
     1600, 16000),
]
