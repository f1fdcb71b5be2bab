from checks.common import TRACE
from checks.common import build
from checks.common import differential
from checks.common import grown
from checks.common import standard
from harness import gen
from harness import pair
from harness import wide
from harness.tree import Elem
from harness.tree import Text

ID = 'C11'
LEVEL = 'exploration'
RULE = TRACE + ('Macros, slots and fillers are spread over several files.  A '
                'case is non-trivial if it recorded more than one engine '
                'event; distinct by output and event sequence.')
REQUIRED = ('html', 'xml', 'use', 'slot filled', 'slot default',
            'use default', 'recursive', 'handled errors', 'in place', 'grown',
            'large')

METAL = dict(define=.15, condition=.1, repeat=.1, content=.1, replace=.05,
             attributes=.1, omit=.08, metal=.6, fill=.7, usedefault=.08,
             uniq=.3, deep=.75, turn=.15)
PLAIN = dict(METAL, define=.05, condition=.02, repeat=.03, content=.03,
             replace=.01, attributes=.03, omit=.02)
ENV = (0, 1, 4)


def recursive(r, obs, i):
    """A macro that uses itself, passing its slots on in various ways."""
    xml = bool(i % 2)
    g = gen.Gen(r, xml=xml, prof=gen.profile(**dict(PLAIN, metal=0)))
    g.budget = 4

    def span(tag, stm, children=()):
        e = Elem('b' if xml else 'span', stm=stm, children=children)
        e.style = r.randrange(1 << 30)
        if r.random() < .4:
            e.ns, e.tag = 'tal', 'block'
        return e

    def slot(name, depth=0):
        kids = [Text('{%s%d}' % (name, depth))]
        if depth < 1 and r.random() < .4:
            kids.append(slot(r.choice(gen.SLOTS), depth + 1))
        return span('b', {'metal:define-slot': name}, kids)

    fills = []
    names = [n for n in gen.SLOTS if r.random() < .7]
    for n in names:
        kids = [Text('(%s:' % n)]
        x = r.random()
        if x < .5:
            kids.append(slot(r.choice(gen.SLOTS)))
        elif x < .8:
            kids.append(span('b', {'tal:content': ('text', 'v:n')}))
        kids.append(Text(')'))
        fill = span('b', {'metal:fill-slot': n}, kids)
        if r.random() < .2:
            fill.stm['metal:define-slot'] = r.choice(gen.SLOTS)
        fills.append(fill)
    r.shuffle(fills)
    use = span('b', {'metal:use-macro': 'mac:R'}, fills)
    inner = span('b', {'tal:define': [('local', 'n', 'dec:n')]}, [use])
    body = [slot(n) for n in gen.SLOTS if r.random() < .8]
    body.insert(r.randrange(len(body) + 1), inner)
    root = span('b', {'metal:define-macro': 'R', 'tal:condition': 'b:n'},
                [Text('<!-- r -->')] + body)
    start = []
    for n in gen.SLOTS:
        if r.random() < .6:
            start.append(span('b', {'metal:fill-slot': n},
                              g.nodes(gen.Ctx(['n'], inline=True), 1)))
    top = span('b', {'metal:use-macro': 'mac:R'}, start)
    main = [span('b', {'tal:define': [('local', 'n',
                                       'i:%d' % r.randrange(1, 5))]}, [top])]
    if r.random() < .5:
        docs = [gen.make_doc(g, 'lib.pt', nodes=[root])]
    else:
        docs = []
        main.insert(r.randrange(2), root)
    case = pair.Case(gen.make_doc(g, 'main.pt', nodes=main), docs, g.values,
                     g.fragments)
    build(case)
    mod, real = differential(obs, case, ENV)
    if mod.stats.get('use', 0) > 1:
        obs.count('recursive')


def in_place(r, obs, i):
    """A template that defines macros and slots renders as if it did not."""
    xml = bool(i % 2)
    g = gen.Gen(r, xml=xml, prof=gen.profile(**dict(METAL, fill=0)))
    g.budget = 25
    doc = gen.make_doc(g, None)
    case = pair.Case(doc, (), g.values, g.fragments)
    build(case)
    mod, real = differential(obs, case, ENV)
    obs.count('in place')


FAMILIES = [
    ('structure', standard(PLAIN, libs=(1, 2, 3), fields=ENV), 18000, 120000),
    ('statements', standard(METAL, libs=(1, 2, 3), fields=ENV), 12000, 80000),
    ('i18n', standard(dict(METAL, translate=.2, name=.4, domain=.15,
                           i18nattrs=.1, pre=0), libs=(1, 2), fields=ENV),
     6000, 40000),
    ('errors', standard(dict(METAL, onerror=.25, error=.06), libs=(1, 2),
                        fields=ENV, errors=True), 9000, 60000),
    ('recursive', recursive, 9000, 60000),
    ('in place', in_place, 4500, 20000),
    ('grown', grown(wide.slots, wide.uses, wide.long_names, fields=ENV),
     1600, 16000),
]
