"""Statements mean the same in any combination that is accepted."""
from harness import gen
from harness import pair
from harness import wide
from harness.disorder import disorder
from harness.obs import Skip
from harness.obs import Violation
from harness.obs import say
from harness.tree import walk

from zope.tal.htmltalparser import HTMLParseError
from zope.tal.taldefs import TALError

from checks.common import differential

ID = 'C39'
LEVEL = 'exploration'
RULE = ('Statements, tags and whole elements of generated templates and of '
        'their macros are moved, copied, exchanged and dropped at random, '
        'without regard to what is usual.  Templates that are refused must '
        'be so with a documented exception at one of their elements; all '
        'others are rendered under varying settings and with injected '
        'failures, and compared with an independent tree-walking reference: '
        'output, outcome, and every engine event with position, file and '
        'variables.  Distinct by output and events.')
REQUIRED = ('html', 'xml', 'moved', 'copied', 'exchanged', 'dropped', 'tags',
            'elements', 'refused', 'accepted', 'much changed', 'macros off',
            'translation off', 'shown', 'faults', 'handled errors',
            'failed renderings', 'use', 'slot filled', 'units', 'named',
            'loops', 'recursion', 'name without unit', 'text elements')

PROFILE = dict(metal=.3, onerror=.12, error=.02, translate=.2, name=.4,
               i18nattrs=.15, data=.2, attributes=.25, repeat=.15,
               structure=.3, script=.05, extend=.2, domain=.15, void=.1,
               selfclose=.15, nstag=.15, omit=.15, pre=0, mixcase=.05,
               texttag=.15)


def settings(r, obs):
    real, mod = {}, {}
    if r.random() < .15:
        real['metal'] = 0
        mod['metal'] = False
        obs.count('macros off')
    if r.random() < .15:
        real['i18nInterpolate'] = 0
        mod['interpolate'] = False
        obs.count('translation off')
    return real, mod


def refused(obs, case, exc):
    ok = (TALError,) if case.main.xml else (TALError, HTMLParseError)
    if not isinstance(exc, ok):
        raise Violation('undocumented exception', error=say(exc),
                        **case.describe())
    obs.ev()
    obs.count('refused')
    places = {p for d in case.docs() for e in walk(d.nodes)
              for p in (e.pos, e.endpos)}
    if (exc.lineno, exc.offset) not in places and isinstance(exc, TALError):
        raise Violation('position is not that of an element',
                        error=say(exc), observed=(exc.lineno, exc.offset),
                        **case.describe())


def shuffle(r, obs, xml, **prof):
    """Templates with their statements in disorder."""
    g = gen.Gen(r, xml=xml, prof=gen.profile(**dict(PROFILE, **prof)))
    g.budget = r.choice((6, 10, 20))
    n = r.choice((0, 1, 2))
    if n:
        docs = gen.make_case(g, n).docs()
    else:
        docs = [gen.make_doc(g, 'main.pt')]
    much = r.choice((1, 2, 4, 8, 16))
    docs = disorder(r, obs, docs, much)
    if docs is None:
        raise Skip('too small')
    obs.count('text elements', any(
        e.tag in gen.TEXT for d in docs for e in gen.iter_elems(d.nodes)))
    return g, docs, much


@wide.deep_recursion
def shuffled(r, obs, i):
    g, docs, much = shuffle(r, obs, bool(i % 2))
    case = pair.Case(docs[-1], docs[:-1], g.values, g.fragments)
    case.disordered = True
    try:
        case.compile()
    except Exception as exc:
        refused(obs, case, exc)
        return
    obs.count('accepted')
    obs.count('xml' if g.xml else 'html')
    obs.count('much changed', much > 4)
    real, mod = settings(r, obs)
    fault = ()
    if r.random() < .3:
        fault = (r.randint(0, r.choice((2, 6, 20))),)
        obs.count('faults')
    if 'metal' in real and r.random() < .5:
        real['showtal'] = 1
        mod['shown'] = True
        obs.count('shown')
    m, res = differential(obs, case, (0, 1, 2, 3, 4), errors=True,
                          fault=fault, real_kw=real, model_kw=mod,
                          settings=sorted(real))
    kinds = {e[0] for e in res.errors}
    kinds.add(res.exc)
    obs.count('recursion', 'METALError' in kinds)
    obs.count('name without unit', 'I18NError' in kinds)


FAMILIES = [
    ('shuffled', shuffled, 50000, 250000),
]
