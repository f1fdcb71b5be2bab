"""Statements are recognised by namespace, whatever prefix is used."""
from harness import disorder
from harness import gen
from harness import pair
from harness import wide
from harness.tree import NS
from harness.tree import Doc
from harness.tree import Elem

from checks.common import TRACE
from checks.common import build
from checks.common import differential

ID = 'C23'
LEVEL = 'exploration'
RULE = (TRACE + 'Each case writes the templates with prefixes chosen at '
        'random for every element: redeclared on inner elements, several '
        'prefixes for one namespace, the usual prefixes bound elsewhere, '
        'near-miss namespaces, statements without prefix, default '
        'namespaces, and ordinary attributes and elements whose prefix is '
        'bound elsewhere.  The reference never sees a prefix.  Non-trivial: '
        'more than one event; distinct by output and events.')
REQUIRED = ('html', 'xml', 'declared inside', 'rebound', 'odd prefix',
            'unprefixed', 'ordinary attribute', 'ordinary element',
            'near miss', 'default namespace', 'unused declaration', 'use',
            'slot filled', 'several prefixes', 'unbound prefix', 'grown',
            'in disorder')

PROFILE = dict(metal=.25, onerror=.05, error=.02, translate=.12, name=.3,
               i18nattrs=.15, domain=.15, attributes=.3, repeat=.12,
               nstag=.25, script=.03, pre=0, void=.08)

POOL = ('tal', 'metal', 'i18n', 't', 'm', 'i', 'x', 'zope', 'a.b', 'n-s',
        'u_1')
TEMPLATE = {v: k for k, v in NS.items()}
OTHER = ('http://other.example/a', 'urn:b', NS['tal'] + '2', NS['tal'] + '/',
         NS['metal'].upper(), NS['tal'].replace('tal', 'TAL'), 'tal', 'i18n',
         NS['i18n'][:-1], 'http://xml.zope.org/namespaces/meld')
LOCAL = ('x', 'define', 'content', 'use-macro', 'translate', 'domain',
         'replace', 'omit-tag', 'nonsense', 'define-slot', 'name')


class Assign:
    """Chooses the prefixes of one document."""

    def __init__(self, r, xml, obs):
        self.r = r
        self.xml = xml
        self.obs = obs

    def run(self, nodes):
        env = {} if self.xml else dict(NS)
        for n in nodes:
            if isinstance(n, Elem):
                self.elem(n, env, 0)

    def elem(self, e, env, depth):
        r, xml, note = self.r, self.xml, self.obs.count
        env = dict(env)
        decls = []
        fixed = set()       # prefixes that this element declares or uses

        def declare(prefix, uri):
            if prefix in fixed:
                return False
            fixed.add(prefix)
            env[prefix] = uri
            decls.insert(r.randint(0, len(decls)), (prefix, uri))
            return True

        def prefix(ns):
            have = sorted(p for p, u in env.items() if p and u == NS[ns])
            p = None
            if not have or r.random() < .15:
                while p is None or not declare(p, NS[ns]):
                    p = r.choice(POOL) if r.random() < .7 else ns
                note('declared inside', bool(depth))
                note('several prefixes', bool(have))
            else:
                p = r.choice(have)
            note('odd prefix', p != ns)
            fixed.add(p)
            return p

        # ordinary declarations
        if r.random() < .15:
            p, u = r.choice(POOL), r.choice(OTHER)
            declare(p, u)
            note('rebound', p in NS)
            note('near miss', u.lower().startswith('http://xml.zope'))
        if xml and r.random() < .06 and not e.ns:
            declare('', r.choice(OTHER))
        names = {}
        kids = any(isinstance(c, Elem) for c in e.children)
        # the element itself
        if e.ns and xml and not kids and r.random() < .25:
            declare('', NS[e.ns])
            names[''] = e.tag
            note('default namespace')
        elif e.ns:
            names[''] = '%s:%s' % (prefix(e.ns), e.tag)
        for key in e.stm:
            ns, local = key.split(':', 1)
            if ns == e.ns and r.random() < .6:
                names[key] = local
                note('unprefixed')
            else:
                names[key] = '%s:%s' % (prefix(ns), local)
        # declarations nobody needs
        if r.random() < .08 and declare(r.choice(POOL),
                                        NS[r.choice(sorted(NS))]):
            note('unused declaration')
        # ordinary things with a prefix
        free = sorted(p for p, u in env.items() if p and u not in TEMPLATE)
        if not xml:
            free += [p for p in POOL if p not in env]
        if not e.ns and free and r.random() < .4:
            p = r.choice(free)
            for local in r.sample(LOCAL, r.choice((1, 1, 2))):
                e.attrs.insert(r.randint(0, len(e.attrs)),
                               ('%s:%s' % (p, local), 'x:V'))
                note('ordinary attribute' if p in env else 'unbound prefix')
        if r.random() < .1 and not e.ns:
            e.attrs.append(('xml:lang', r.choice(('de', 'en'))))
        if not e.ns and free and r.random() < .08 and (
                xml or e.tag in ('b', 'i', 'em', 'span', 'a', 'font')):
            e.tag = '%s:%s' % (r.choice(free), r.choice(
                ('block', 'x', 'item')))
            note('ordinary element')
        e.decls = decls
        e.names = names
        for c in e.children:
            if isinstance(c, Elem):
                self.elem(c, env, depth + 1)


def variant(r, obs, i):
    xml = bool(i % 2)
    prof = dict(PROFILE)
    g = gen.Gen(r, xml=xml, prof=gen.profile(**prof))
    g.budget = r.choice((8, 15, 30))
    case = gen.make_case(g, r.choice((0, 1, 1, 2)))
    case = disorder.perhaps(r, obs, case)
    obs.count('xml' if xml else 'html')
    docs, mixed = [], case.disordered
    for d in case.docs():
        Assign(r, xml, obs).run(d.nodes)
        docs.append(Doc(d.nodes, xml, d.file))
    case = pair.Case(docs[-1], docs[:-1], g.values, g.fragments)
    case.disordered = mixed
    build(case)
    differential(obs, case, (0, 1, 4, 5))


@wide.deep_recursion
def grown(r, obs, i):
    """Declarations very deep inside one another."""
    w = wide.Wide(r, xml=bool(i % 2))
    nodes = r.choice((wide.nest, wide.nest, wide.siblings, wide.domains,
                      wide.handlers))(w)
    d = gen.make_doc(w, 'main.pt', nodes=nodes)
    Assign(r, w.xml, obs).run(d.nodes)
    case = pair.Case(Doc(d.nodes, w.xml, d.file), (), w.values, w.fragments)
    build(case)
    obs.count('grown')
    differential(obs, case, (0, 1, 4, 5))


FAMILIES = [
    ('grown', grown, 1600, 16000),
    ('variant', variant, 48000, 120000),
]
