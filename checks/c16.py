"""Message extraction."""
import warnings

from harness import gen
from harness import model
from harness import sut
from harness.lang import CE
from harness.obs import Violation
from harness.obs import clip
from harness.pair import Case
from zope.tal.htmltalparser import HTMLParseError
from zope.tal.taldefs import TALError
from zope.tal.talgettext import POEngine
from zope.tal.talgettext import POTALInterpreter

from checks import c39

ID = 'C16'
LEVEL = 'exploration'
RULE = ('Generated templates with translated elements and attributes under '
        'all other statements are extracted by the real extractor; the '
        'catalog must equal, domain by domain and place by place, the '
        'requests a reference model makes when every expression gives a '
        'marker, every condition holds and every loop runs once.  Hand-made '
        'sets of messages with known ids and lines are checked without the '
        'model.  Non-trivial: at least one message; distinct by catalog.')
REQUIRED = ('html', 'xml', 'messages', 'domains', 'with default',
            'several places', 'different defaults', 'attributes',
            'inside macro use', 'inside loop', 'inside condition', 'planted',
            'data', 'scripts', 'grown',
            'shuffled')

DYNAMIC = '${DYNAMIC_CONTENT}'


class Sealed(CE):
    """A compiled expression that extraction must not look into."""
    __slots__ = ()

    def touched(self, *args):
        raise Violation('expression evaluated during extraction')

    __str__ = __call__ = __iter__ = __len__ = __getitem__ = touched

    def startswith(self, *args):
        self.touched()


class SealedCompiler:
    def getCompilerError(self):
        return ValueError

    def compile(self, expr):
        return Sealed(expr)


class POModel(model.Model):
    """Every expression gives the marker; all is shown once."""

    def ev(self, kind, expr, e):
        self.event(kind, expr, e)
        if kind == 'bool':
            return True
        if kind == 'repeat':
            return (0,)
        if kind not in ('text', 'structure', 'value', 'any'):
            raise model.ModelBug(kind)
        return DYNAMIC

    def macro_root(self, n, ws):
        self.body(n, ws)

    def children(self, n):
        if 'tal:script' in n.stm:
            self.capture(self.nodes, n.children)
            self.w(DYNAMIC)
        else:
            self.nodes(n.children)

    def unit(self, n):
        s = n.stm
        mapping = {}
        self.i18n.append(mapping)
        default = self.capture(self.children, n)
        self.i18n.pop()
        msgid = s['i18n:translate']
        if not msgid:
            msgid = default if (not self.xml and n.tag == 'pre'
                                ) else model.norm(default)
        self.w(self.translate(msgid, default, mapping, n))

    def translate(self, msgid, default, mapping, e):
        if default is None:
            default = str(msgid)
        self.requests.append((self.domain, msgid, default, e.pos))
        return 'x'


def extract(source, xml, file):
    program, macros = sut.compile_source(source, xml, SealedCompiler())
    engine = POEngine()
    engine.file = file
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter('always')
        POTALInterpreter(program, macros, engine, stream=sut.Stream(),
                         metal=False)()
    return engine.catalog, [str(w.message) for w in log]


def flat(catalog):
    return [(domain, [(str(m), m.default, places)
                      for m, places in msgs.items()])
            for domain, msgs in catalog.items()]


def expected(requests, file):
    """The catalog and the number of warnings for these requests."""
    out = {}
    warn = []
    for domain, msgid, default, pos in requests:
        default = model.norm(default)
        if default == msgid:
            default = None
        msgs = out.setdefault(domain, {})
        if msgid in msgs:
            if msgs[msgid][0] != default:
                warn.append(msgid)
        else:
            msgs[msgid] = [default, []]
        msgs[msgid][1].append((file, pos))
    return [(d, [(m, x[0], x[1]) for m, x in msgs.items()])
            for d, msgs in out.items()], warn


PROFILE = dict(translate=.4, name=.4, i18nattrs=.35, domain=.2, data=.4,
               define=.1, condition=.15, repeat=.15, content=.15, replace=.1,
               attributes=.25, omit=.1, nstag=.1, onerror=.1, metal=.3,
               fill=.4, structure=.2, script=.05, error=.1, width=3, pre=0,
               extend=.2)


def compare(obs, source, xml, file, want, warn, **detail):
    catalog, log = extract(source, xml, file)
    got = flat(catalog)
    obs.ev()
    if got != want:
        raise Violation('catalog not as expected', source=source,
                        expected=clip(repr(want)), observed=clip(repr(got)),
                        **detail)
    if len(log) != len(warn):
        raise Violation('different defaults not reported', source=source,
                        expected=warn, observed=log, **detail)
    for msgid, text in zip(warn, log):
        if repr(msgid.encode('utf-8')) not in text:
            raise Violation('warning does not name the message',
                            source=source, warning=text, message=msgid)
    obs.count('domains', len(got) > 1)
    obs.count('different defaults', len(warn))
    for d, msgs in got:
        for m, default, places in msgs:
            obs.count('messages')
            if default:
                obs.count('with default')
            if len(places) > 1:
                obs.count('several places')
    if got:
        obs.seen(got)
        obs.sample(source=clip(source, 300), catalog=clip(repr(got), 300))


def modelled(r, obs, i):
    xml = bool(i % 2)
    g = gen.Gen(r, xml=xml, prof=gen.profile(**PROFILE))
    g.budget = r.choice((10, 25, 40))
    n = r.choice((0, 0, 1))
    if n:
        case = gen.make_case(g, n)
    else:
        case = Case(gen.make_doc(g, 'main.pt'), (), g.values, g.fragments)
    for doc in case.docs():
        m = POModel(xml=xml)
        m.requests = []
        m.render(doc.nodes)
        want, warn = expected(m.requests, 'some/file.pt')
        compare(obs, doc.source, xml, 'some/file.pt', want, warn)
        obs.count('xml' if xml else 'html')
        for e in gen.iter_elems(doc.nodes):
            if 'i18n:attributes' in e.stm:
                obs.count('attributes')
            if 'i18n:data' in e.stm:
                obs.count('data')
            if 'tal:script' in e.stm:
                obs.count('scripts')


def shuffled(r, obs, i):
    """Statements in combinations nobody would write."""
    xml = bool(i % 2)
    g, docs, much = c39.shuffle(r, obs, xml, translate=.4, name=.4,
                                i18nattrs=.35, data=.3, domain=.2)
    for doc in docs:
        try:
            sut.compile_source(doc.source, xml, SealedCompiler())
        except (TALError, HTMLParseError):
            continue
        model.annotate(doc.nodes)
        m = POModel(xml=xml)
        m.requests = []
        m.render(doc.nodes)
        want, warn = expected(m.requests, 'some/file.pt')
        compare(obs, doc.source, xml, 'some/file.pt', want, warn)
        obs.count('shuffled')


def planted(r, obs, i):
    """Known messages under arbitrary surroundings, without the model."""
    xml = bool(i % 2)
    lines = ['<root xmlns:tal="http://xml.zope.org/namespaces/tal" '
             'xmlns:metal="http://xml.zope.org/namespaces/metal" '
             'xmlns:i18n="http://xml.zope.org/namespaces/i18n">'
             if xml else '<div>']
    want = {}
    stack = [('</root>' if xml else '</div>', 'default', False)]
    n = r.randint(2, 12)
    if r.random() < .01:
        n = r.choice((50, 150, 400))
        obs.count('grown')
    for k in range(n):
        x = r.random()
        domain = stack[-1][1]
        where = (len(lines) + 1, 0)
        d = ''
        if r.random() < .2:
            domain = r.choice(('da', 'db'))
            d = ' i18n:domain="%s"' % domain
        if x < .4 and len(stack) < 6:
            s, key = r.choice((
                ('tal:condition="x/y"', 'condition'),
                ('tal:repeat="a x/y"', 'loop'),
                ('tal:define="a x/y; global b z"', None),
                ('metal:use-macro="m/n"', 'macro use'),
                ('metal:define-macro="m%d"' % k, None),
                ('tal:omit-tag="x"', None), ('tal:omit-tag=""', None),
                ('tal:on-error="x"', None),
                ('tal:attributes="a b; c d"', None),
                ('class="y"', None)))
            inuse = stack[-1][2]
            if 'use-macro' in s:
                if inuse:
                    continue
                inuse = True
            if 'define-macro' in s and inuse:
                continue
            if inuse and r.random() < .3 and 'metal' not in s:
                s += ' metal:fill-slot="s%d"' % k
                inuse = False
            if key:
                obs.count('inside ' + key)
            lines.append('<em %s%s>' % (s, d))
            stack.append(('</em>', domain, inuse))
        elif x < .55 and len(stack) > 1:
            lines.append(stack.pop()[0])
        elif x < .7:
            t = 'word ' * r.choice((0, 0, 0, 0, 1, 20, 60))
            want.setdefault((domain, t + 'text %d' % k, None), []
                            ).append(where)
            lines.append('<b i18n:translate=""%s>  %stext\t%d </b>' % (d, t,
                                                                       k))
        elif x < .8:
            k = r.randrange(3) * 100 + k
            want.setdefault((domain, 'id%d' % k, 'body %d' % k), []
                            ).append(where)
            lines.append('<b%s i18n:translate="id%d">body %d</b>'
                         % (d, k, k))
        elif x < .9:
            want.setdefault((domain, 'title %d' % k, None), []).append(where)
            want.setdefault((domain, 'aid%d' % k, 'alt %d' % k), []
                            ).append(where)
            lines.append('<b title="title %d" alt="alt %d" '
                         'i18n:attributes="title; alt aid%d"%s/>'
                         % (k, k, k, d))
        else:
            want.setdefault((domain, 'a${n} b', None), []).append(where)
            want.setdefault((domain, 'in', None), []).append(where)
            lines.append('<b i18n:translate=""%s>a<i i18n:name="n"><u '
                         'i18n:translate="">in</u></i> b</b>' % d)
            # the inner one stands further right on the same line
            col = lines[-1].index('<u')
            want[domain, 'in', None][-1] = (where[0], col)
    while stack:
        lines.append(stack.pop()[0])
    source = '\n'.join(lines)
    catalog, log = extract(source, xml, 'p.pt')
    obs.ev()
    obs.count('planted')
    got = {(d, str(m), m.default): [p for f, p in places]
           for d, msgs in catalog.items() for m, places in msgs.items()}
    if got != want or log:
        raise Violation('planted messages not found as they are',
                        source=source, expected=clip(repr(want)),
                        observed=clip(repr(got)), warnings=log)
    files = {f for msgs in catalog.values() for places in msgs.values()
             for f, p in places}
    if files - {'p.pt'}:
        raise Violation('wrong file recorded', source=source,
                        observed=repr(files))
    if got:
        obs.seen(sorted(got.items(), key=repr))


def conflicts(r, obs, i):
    """The same ids again and again, some with other defaults."""
    xml = bool(i % 2)
    ids = ['id', 'a${b}', 'Id', ' id', 'k' * r.choice((50, 130, 400, 1030)),
           'word ' * r.choice((9, 40, 90)) + 'end', 'id.x', 'caf\xe9']
    lines = ['<div xmlns:i18n="http://xml.zope.org/namespaces/i18n">'
             if xml else '<div>']
    requests = []
    for k in range(r.choice((2, 4, 9, 30))):
        msgid = r.choice(ids)
        text = r.choice(('one', 'two', '  one', 'one\t', 'two  words',
                         'two words', 'd' * 150, 'd' * 149 + 'e', msgid))
        domain = r.choice(('default', 'default', 'da', 'db'))
        requests.append((domain, msgid, text, (k + 2, 0)))
        lines.append('<b i18n:translate="%s"%s>%s</b>' % (
            msgid, '' if domain == 'default' else
            ' i18n:domain="%s"' % domain, text))
    want, warn = expected(requests, 'c.pt')
    compare(obs, '\n'.join(lines + ['</div>']), xml, 'c.pt', want, warn)
    obs.count('conflicts')


FAMILIES = [
    ('shuffled', shuffled, 20000, 100000),
    ('conflicts', conflicts, 8000, 40000),
    ('modelled', modelled, 56000, 250000),
    ('planted', planted, 40000, 150000),
]
