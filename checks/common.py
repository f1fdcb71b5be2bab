"""Differential monitoring: the code under test and the reference model run
the same templates; the recorded engine events and the output must agree."""
from harness import gen
from harness import pair
from harness import wide
from harness.obs import Violation
from harness.obs import clip
from harness.obs import say

TRACE = ('The real renderer runs against a recording engine; an independent '
         'tree-walking reference runs the same templates; output and the '
         'sequence of engine events are compared. ')


def build(case, what='correct template refused'):
    """Compile the real side of a case; refusal is a violation."""
    try:
        case.compile()
    except Exception as exc:
        raise Violation(what, error=say(exc),
                        **case.describe())
    return case


def differ(diffs, case, real, mod, **more):
    """Raise for the first difference found."""
    if not diffs:
        return
    kind, text = diffs[0]
    raise Violation('%s not as expected' % kind, differences=[
        '%s: %s' % d for d in diffs], expected_output=clip(mod.out),
        observed_output=clip(real.out), expected_exception=mod.exc,
        observed_exception=real.exc, **case.describe(), **more)


def differential(obs, case, fields=(0, 1), kinds=None, errors=False,
                 output=True, fault=(), real_kw=None, model_kw=None, **more):
    mod = pair.run_model(case, fault=fault, **(model_kw or {}))
    real = pair.run_real(case, fault=fault, **(real_kw or {}))
    obs.ev()
    for k, v in mod.stats.items():
        obs.count(k, v)
    obs.count('events', len(real.trace))
    obs.count('handled errors', len(real.errors))
    if mod.exc:
        obs.count('failed renderings')
    differ(pair.compare(real, mod, fields, kinds, output, errors), case,
           real, mod, fault=sorted(fault), **more)
    if len(real.trace) > 1:
        obs.seen(real.out, [e[:2] for e in real.trace], real.exc)
        if len(real.trace) > 3:
            obs.sample(template=clip(case.main.source, 500),
                       output=clip(real.out, 400),
                       events=len(real.trace), exception=real.exc,
                       first_events=[clip(repr(e[:4]), 120)
                                     for e in real.trace[:4]])
    return mod, real


def standard(prof, libs=(0,), fields=(0, 1), budget=(15, 40), file=True,
             **kw):
    """A family of differential cases: HTML and XML alternate."""

    def run(r, obs, i):
        g = gen.Gen(r, xml=bool(i % 2),
                    prof=gen.profile(**dict({'big': .02}, **prof)))
        g.budget = r.choice(budget)
        obs.count('big', g.big)
        n = r.choice(libs)
        if n:
            case = gen.make_case(g, n, file)
        else:
            doc = gen.make_doc(g, 'main.pt' if file else None)
            case = pair.Case(doc, (), g.values, g.fragments)
        build(case)
        obs.count('xml' if g.xml else 'html')
        differential(obs, case, fields, **kw)
    return run


def grown(*features, fields=(0, 1), **kw):
    """A family of templates that are large in one of the given ways."""

    @wide.deep_recursion
    def run(r, obs, i):
        feature = r.choice(features)
        w = wide.Wide(r, xml=bool(i % 2))
        nodes = feature(w)
        libs = [gen.make_doc(w, 'lib.pt', nodes=n) for n in w.libs]
        main = gen.make_doc(w, 'main.pt', nodes=nodes)
        case = pair.Case(main, libs, w.values, w.fragments)
        build(case)
        obs.count('grown')
        obs.count('large', sum(len(d.source) for d in case.docs()) > 1000)
        differential(obs, case, fields, **kw)
    return run
