from checks.common import TRACE
from checks.common import build
from checks.common import differential
from checks.common import grown
from harness import gen
from harness import pair
from harness import sut
from harness import wide
from harness.obs import Violation
from harness.obs import expect
from zope.tal import taldefs
import zope.tal

ID = 'C12'
LEVEL = 'exploration'
RULE = TRACE + ('Chains of macros that extend each other are used with '
                'fillers at every link; nesting limits and macros of the '
                'wrong kind are mixed in.  A case is non-trivial if it '
                'recorded more than one engine event; distinct by output and '
                'event sequence.')
REQUIRED = ('html', 'xml', 'use', 'extending', 'slot filled', 'slot default',
            'limit hit', 'wrong mode refused', 'wrong version refused',
            'limit not hit', 'grown', 'large')

CHAIN = dict(define=.05, condition=.03, repeat=.04, content=.04, replace=.01,
             attributes=.04, omit=.03, metal=.6, fill=.8, usedefault=.03,
             extend=.9, deep=.8, width=3)
ENV = (0, 1, 4)


def chain(prof, lo, hi):
    def run(r, obs, i):
        g = gen.Gen(r, xml=bool(i % 2), prof=gen.profile(**prof))
        case = gen.make_case(g, r.randint(lo, hi))
        build(case)
        obs.count('xml' if g.xml else 'html')
        differential(obs, case, ENV)
    return run


def limit(r, obs, i):
    g = gen.Gen(r, xml=bool(i % 2), prof=gen.profile(
        **dict(CHAIN, onerror=.08)))
    case = gen.make_case(g, r.randint(2, 4))
    build(case)
    free = pair.run_model(case)
    n = r.choice((0, 1, 1, 2, 2, 3, 4, 5, 8))
    mod, real = differential(obs, case, (0, 1), errors=True,
                             real_kw={'stackLimit': n},
                             model_kw={'limit': n}, limit=n)
    hit = mod.exc == 'METALError' or any(e[0] == 'METALError'
                                         for e in mod.errors)
    obs.count('limit hit' if hit else 'limit not hit')
    if mod.exc == 'METALError':
        expect(isinstance(real.error, taldefs.METALError),
               'limit not reported as a macro error',
               observed=repr(real.error), **case.describe())


def other_version(source, xml):
    """Compile as another version of the language would."""
    mods = [m for m in vars(zope.tal).values()
            if hasattr(m, 'TAL_VERSION')]
    old = taldefs.TAL_VERSION
    try:
        for m in mods:
            m.TAL_VERSION = '0.9'
        return sut.compile_source(source, xml)
    finally:
        for m in mods:
            m.TAL_VERSION = old


def wrong(r, obs, i):
    """Unusable macros at every place where a macro is used."""
    xml = bool(i % 2)
    g = gen.Gen(r, xml=xml, prof=gen.profile(**dict(CHAIN, onerror=.15)))
    case = gen.make_case(g, r.randint(1, 2))
    kind = r.choice(('mode', 'version'))
    uses = [e for d in case.docs() for e in gen.iter_elems(d.nodes)
            if 'use' in e.m]
    if not uses:
        return
    e = r.choice(uses)
    key = ('metal:use-macro' if 'metal:use-macro' in e.stm
           else 'metal:extend-macro')
    extra = {}
    src = ('<x xmlns:metal="http://xml.zope.org/namespaces/metal">'
           '<b metal:define-macro="W">WRONG<i metal:define-slot="s1">x</i>'
           '</b></x>')
    if kind == 'mode':
        e.stm[key] = 'mac:W'
        extra = sut.compile_source(src, not xml)[1]
    elif kind == 'version':
        e.stm[key] = 'mac:W'
        extra = other_version(src, xml)[1]
        if taldefs.isCurrentVersion(extra['W']):
            return              # cannot be simulated here
    for d in case.docs():
        d.serialize()
    case = pair.Case(case.main, case.libs, case.values, case.fragments)
    build(case)
    case.rmacros.update(extra)
    case.mmacros.update(dict.fromkeys(extra, 'unusable'))
    mod, real = differential(obs, case, (0, 1), errors=True, kind=kind)
    hit = mod.exc == 'METALError' or any(x[0] == 'METALError'
                                         for x in mod.errors)
    if not hit:
        return
    obs.count({'mode': 'wrong mode refused',
               'version': 'wrong version refused'}[kind])
    if mod.exc == 'METALError':
        if not isinstance(real.error, taldefs.METALError):
            raise Violation('refusal is not a macro error',
                            observed=repr(real.error), **case.describe())
        name = e.stm[key]
        expect(name in str(real.error), 'refusal does not name the macro',
               name=name, observed=str(real.error), **case.describe())
        expect('WRONG' not in real.out, 'unusable macro partly rendered',
               output=real.out, **case.describe())


FAMILIES = [
    ('chains', chain(CHAIN, 2, 6), 15000, 100000),
    ('statements', chain(dict(CHAIN, define=.2, condition=.1, repeat=.1,
                              content=.1, onerror=.1, error=.02), 2, 4),
     9000, 60000),
    ('limit', limit, 9000, 60000),
    ('wrong', wrong, 9000, 60000),
    ('grown', grown(wide.chain, wide.uses), 1600, 16000),
]
