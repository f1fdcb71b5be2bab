"""Processing steps can be switched off one by one."""
import contextlib
import io
import re

from harness import disorder
from harness import gen
from harness import pair
from harness.obs import Violation
from harness.obs import clip

from checks.common import build
from checks.common import differential

ID = 'C31'
LEVEL = 'exploration'
RULE = ('The real renderer runs generated templates with translation off, '
        'macro processing off, statements shown and debugging on, one by '
        'one and together, against a recording engine; an independent '
        'tree-walking reference with the same step left out predicts the '
        'output and every engine event, positions and variables included.  '
        'With debugging the trace must go to standard error only.  '
        'Non-trivial: more than one engine event; distinct by output and '
        'events.')
REQUIRED = ('html', 'xml', 'translation off', 'macros off', 'shown', 'debug',
            'unit ids', 'macro statements', 'statements shown',
            'handled errors', 'several', 'trace lines', 'attr translated',
            'failed renderings',
            'in disorder')

PROFILE = dict(translate=.2, name=.4, data=.3, i18nattrs=.2, domain=.15,
               attributes=.3, repeat=.15, structure=.3, script=.05, pre=0,
               onerror=.12, error=.03, message=.2, void=.1, selfclose=.1,
               mixcase=.1, omit=.12, nstag=.15)
MACROS = dict(PROFILE, metal=.4, fill=.6, extend=.4, usedefault=.1)

FIELDS = (0, 1, 2, 3, 4)


def make(r, obs, i, prof, libs):
    g = gen.Gen(r, xml=bool(i % 2), prof=gen.profile(**prof))
    g.budget = r.choice((10, 20, 40))
    n = r.choice(libs)
    if n:
        case = gen.make_case(g, n)
    else:
        case = pair.Case(gen.make_doc(g, 'main.pt'), (), g.values,
                         g.fragments)
    return disorder.perhaps(r, obs, case)


def judge(obs, case, off=(), fields=FIELDS, **kw):
    real, mod = {}, {}
    if 'i18n' in off:
        real['i18nInterpolate'] = 0
        mod['interpolate'] = False
        obs.count('translation off')
    if 'metal' in off:
        real['metal'] = 0
        mod['metal'] = False
        obs.count('macros off')
        obs.count('macro statements', case.main.source.count('metal:'))
    if 'shown' in off:
        real['showtal'] = 1
        mod['shown'] = True
        obs.count('shown')
    obs.count('several', len(off) > 1)
    obs.count('xml' if case.main.xml else 'html')
    m, res = differential(obs, case, fields, errors=True, real_kw=real,
                          model_kw=mod, settings=sorted(off), **kw)
    kinds = {e[0] for e in res.trace}
    if 'i18n' in off and 'translate' in kinds:
        raise Violation('translation requested though switched off',
                        **case.describe())
    if 'metal' in off and 'macro' in kinds:
        raise Violation('macro looked up though switched off',
                        **case.describe())
    obs.count('unit ids', m.stats.get('units', 0) if 'i18n' in off else 0)
    if 'shown' in off and not res.exc:
        obs.count('statements shown', res.out.count('tal:'))


def untranslated(r, obs, i):
    case = build(make(r, obs, i, MACROS, (0, 1, 2)))
    judge(obs, case, ('i18n',))


def unexpanded(r, obs, i):
    case = build(make(r, obs, i, MACROS, (1, 2)))
    judge(obs, case, ('metal', 'i18n') if r.random() < .2 else ('metal',))


def shown(r, obs, i):
    off = {'shown'}
    prof = PROFILE
    libs = (0,)
    if r.random() < .4:
        off.add('metal')
        prof = MACROS
        libs = (1, 2)
    if r.random() < .3:
        off.add('i18n')
    case = build(make(r, obs, i, prof, libs))
    judge(obs, case, off)


LINE = re.compile(r' *do_[A-Za-z0-9]+\(')


def debug(r, obs, i):
    """A trace on standard error, and nothing else."""
    case = build(make(r, obs, i, MACROS, (0, 1)))
    kw = r.choice(({}, {}, {'tal': 0}, {'metal': 0}, {'i18nInterpolate': 0},
                   {'showtal': 1}, {'sourceAnnotations': 1}))
    plain = pair.run_real(case, **dict(kw))
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stderr(err), contextlib.redirect_stdout(out):
        res = pair.run_real(case, debug=1, **dict(kw))
    obs.ev()
    obs.count('debug')
    detail = dict(case.describe(), settings=kw)
    for what, x, y in (('outcome', plain.exc, res.exc),
                       ('output', plain.out, res.out),
                       ('engine calls', plain.trace, res.trace),
                       ('handled errors', plain.errors, res.errors)):
        if repr(x) != repr(y):
            n = pair.first_diff(x or '', y or '') or 0
            raise Violation('%s different with debugging' % what,
                            expected=clip(repr((x or '')[n:])),
                            observed=clip(repr((y or '')[n:])), **detail)
    if out.getvalue():
        raise Violation('debugging writes to standard output',
                        written=clip(out.getvalue()), **detail)
    lines = err.getvalue().count('\n')
    if not LINE.match(err.getvalue()):
        raise Violation('no trace of instructions',
                        written=clip(err.getvalue()), **detail)
    obs.count('trace lines', lines)
    obs.seen(res.out, len(res.trace))


FAMILIES = [
    ('untranslated', untranslated, 12000, 80000),
    ('unexpanded', unexpanded, 12000, 80000),
    ('shown', shown, 12000, 80000),
    ('debug', debug, 3000, 20000),
]
