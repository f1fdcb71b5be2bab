"""Expanding macros first and rendering later gives the same result."""
import re
from xml.parsers import expat

from harness import gen
from harness import lexhtml
from harness import lexxml
from harness import pair
from harness import sut
from harness.model import Model
from harness.model import static_attr
from harness.obs import Skip
from harness.obs import Violation
from harness.obs import clip
from harness.obs import say
from harness.tree import VOID

from checks.common import build

ID = 'C22'
LEVEL = 'exploration'
RULE = ('Each case expands the macros of a generated set of templates with '
        'template processing switched off.  Monitors: the engine may see '
        'macro uses only, in the order a tree-walking expander predicts; '
        'the expansion must consist of the tags, attributes, statements and '
        'text this expander puts together, the macro statements included; '
        'a second expansion must not '
        'change it; and rendering it as a template must give the output, '
        'the exception and the engine events of rendering the original.  '
        'Non-trivial: the expansion differs from the source or holds '
        'statements; distinct by expansion.')
REQUIRED = ('html', 'xml', 'use', 'slot filled', 'slot default',
            'use default', 'rendered', 'expanded again', 'units', 'loops',
            'scripts', 'extended', 'failed renderings', 'no macros',
            'statements hidden', 'server scripts', 'other prefixes')
ASSUMPTIONS = ['Macros are chosen by expressions that do not depend on '
               'template variables.',
               'Rendering the expansion is required for macros whose slots '
               'have different names (a filler shown twice is refused) and '
               'for templates without translation domains on or around '
               'macros (the expansion of a macro puts its domain around the '
               'fillers).',
               'Rendering the expansion of macros that extend others is not '
               'required: a stored expansion in the test suite combines '
               'define-macro with use-macro, which is not a valid template.']

PROFILE = dict(metal=.35, onerror=.1, error=.03, translate=.12, name=.3,
               i18nattrs=.12, domain=.1, data=.3, attributes=.3, repeat=.12,
               structure=.3, script=.06, pre=.5, uniq=0, extend=0, crlf=.0)


METAL = ('define-macro', 'use-macro', 'extend-macro', 'define-slot',
         'fill-slot')


class Expand(Model):
    """Only macros, slots and fillers."""

    hide = False

    def shown_metal(self, name, local, value):
        """What becomes of a statement inside macros.

        The first one in the first macro, or in one that this extends, tells
        which macro was used; all others are gone."""
        frames = self.frames
        if frames:
            last = frames[-1]
            if last.entered or not all(f.extending for f in frames[1:]):
                return
            last.entered = True
            prefix = name[:len(name) - len(local)]
            if local == 'define-macro':
                if frames[0].defined:
                    yield static_attr(name, frames[0].defined, self.xml)
                name, value = prefix + 'use-macro', frames[0].name
            elif local == 'define-slot':
                name = prefix + 'fill-slot'
            elif local != 'fill-slot':
                return
        yield static_attr(name, value, self.xml)

    def body(self, n, ws=''):
        self.w(ws)
        if n.ns and self.hide:
            self.nodes(n.children)
            return
        tag = '%s:%s' % (n.ns, n.tag) if n.ns else n.tag
        if 'tal:script' in n.stm:
            self.count('scripts')
        if 'i18n:translate' in n.stm:
            self.count('units')
        if 'tal:repeat' in n.stm:
            self.count('loops')
        attrs = dict(n.attrs)
        parts = ['<' + tag]
        for name, value in n.allattrs.items():
            if self.hide and (name not in attrs
                              or (self.xml and name.startswith('xmlns'))):
                continue
            local = name.rsplit(':', 1)[-1]
            if local in METAL and (name.startswith('metal:')
                                   or n.ns == 'metal' and name == local):
                parts.extend(self.shown_metal(name, local, value))
                continue
            parts.append(static_attr(name, value, self.xml))
        self.w(' '.join(parts))
        if n.selfclose:
            self.w(' />')
            return
        self.w('>')
        if not self.xml and tag in VOID:
            return
        self.nodes(n.children)
        self.w('</%s>' % tag)


class Tokens(lexhtml.Reader):
    def __init__(self, source):
        lexhtml.Reader.__init__(self, convert_charrefs=False)
        self.out = []
        self.feed(source)
        self.close()

    def text(self, s):
        if self.out and self.out[-1][0] == 'text':
            s = self.out.pop()[1] + s
        self.out.append(('text', s))

    def handle_starttag(self, tag, attrs):
        self.out.append(('start', tag, attrs))

    def handle_startendtag(self, tag, attrs):
        self.out.append(('start', tag, attrs))
        self.out.append(('end', tag))

    def handle_endtag(self, tag):
        self.out.append(('end', tag))

    handle_data = text

    def handle_entityref(self, name):
        self.text('&%s;' % name)

    def handle_charref(self, name):
        self.text('&#%s;' % name)

    def handle_comment(self, data):
        self.text('<!--%s-->' % data)

    def handle_pi(self, data):
        self.text('<?%s>' % data)


def tokens(source, xml):
    if xml:
        # the namespaces are declared by the root of every template
        return [t for t in lexxml.events(source) if t[0] != 'ns']
    return Tokens(source).out


def expanded(case, program, macros, **kw):
    old = case.program, case.macros
    case.program, case.macros = program, macros
    try:
        return pair.run_real(case, tal=0, **kw)
    finally:
        case.program, case.macros = old


def expand_model(case, hide=False):
    m = Expand(case.mmacros, case.values, (), case.main.xml, case.fragments)
    m.hide = hide
    m.render(case.main.nodes)
    return m


def expansion(obs, case, hide=False):
    xml = case.main.xml
    res = expanded(case, case.program, case.macros,
                   **({'showtal': 0} if hide else {}))
    obs.ev()
    if res.exc:
        raise Violation('expanding the macros fails', error=repr(res.error),
                        **case.describe())
    mod = expand_model(case, hide)
    for k, v in mod.stats.items():
        obs.count(k, v)
    for e in res.trace:
        if e[0] != 'macro':
            raise Violation('%s asked for while expanding macros' % e[0],
                            event=clip(repr(e)), **case.describe())
    want = [e[:2] for e in mod.trace]
    got = [e[:2] for e in res.trace]
    if want != got:
        raise Violation('macros looked up not as expected', expected=want,
                        observed=got, **case.describe())
    a = tokens(''.join(mod.out), xml)
    try:
        b = tokens(res.out, xml)
    except expat.ExpatError as exc:
        raise Violation('expansion is not well-formed', error=repr(exc),
                        expansion=res.out, **case.describe())
    if a != b:
        i = pair.first_diff(a, b)
        raise Violation('expansion not as expected',
                        expected=clip(repr(a[i:i + 3])),
                        observed=clip(repr(b[i:i + 3])), expansion=res.out,
                        **case.describe())
    return res


def loops_over_macros(case):
    """White space before a repeated element belongs to the loop.  If the
    element is a macro or a filler the expansion takes the white space in
    front of it into a loop that is moved or replaced later."""
    return any('tal:repeat' in e.stm and ('metal:define-macro' in e.stm or
                                          'metal:fill-slot' in e.stm)
               for d in case.docs() for e in gen.iter_elems(d.nodes))


def here(s, loose=False):
    """Positions of errors are those of the expansion, and the number of
    engine calls so far is another one if a macro use gave the default."""
    if loose:
        s = re.sub(r'\{.{0,16}:[0-9]+&<\}', '', s, flags=re.S)
        s = re.sub(r'\s|\\[nrt]', '', s)
    return re.sub(r'@\(.*?\)|#[0-9]+|:[0-9]+&<\}', '', s)


def bare(trace, loose=False):
    # the expansion uses no macros any more
    return here(repr([(e[0], e[1], [v for v in e[4] if v[0] != 'macroname'])
                      + e[6:] for e in trace if e[0] != 'macro']), loose)


def again(obs, case, res):
    """Expanding the expansion; rendering the expansion."""
    xml = case.main.xml
    direct = pair.run_real(case)
    try:
        program, macros = sut.compile_source(res.out, xml,
                                             file=case.main.file)
    except Exception as exc:
        raise Violation('expansion refused as a template',
                        error=say(exc),
                        expansion=res.out, **case.describe())
    second = expanded(case, program, macros)
    obs.ev()
    obs.count('expanded again')
    loose = loops_over_macros(case)
    if second.exc or here(second.out, loose) != here(res.out, loose):
        raise Violation('second expansion differs', first=res.out,
                        second=second.out, error=second.exc,
                        **case.describe())
    if any(e[0] != 'macro' for e in second.trace):
        raise Violation('expressions evaluated by the second expansion',
                        first=res.out, **case.describe())
    old = case.program, case.macros, case.rmacros
    case.program, case.macros = program, macros
    case.rmacros = dict(case.rmacros, **macros)
    later = pair.run_real(case)
    case.program, case.macros, case.rmacros = old
    obs.ev()
    obs.count('rendered')
    obs.count('failed renderings', bool(direct.exc))
    for what, x, y in (('exception', direct.exc, later.exc),
                       ('output', here(direct.out, loose),
                        here(later.out, loose)),
                       ('events', bare(direct.trace, loose),
                        bare(later.trace, loose)),
                       ('handled errors', [e[0] for e in direct.errors],
                        [e[0] for e in later.errors])):
        if what == 'output' and direct.exc:
            continue
        if x != y:
            i = pair.first_diff(x, y) if x and y else 0
            raise Violation('%s of rendering the expansion differ' % what,
                            direct=clip(repr(x[max(i - 40, 0):i + 80]
                                             if x else x)),
                            later=clip(repr(y[max(i - 40, 0):i + 80]
                                            if y else y)),
                            expansion=res.out, **case.describe())
    obs.seen(res.out)
    if len(direct.trace) > 3:
        obs.sample(template=clip(case.main.source, 400),
                   expansion=clip(res.out, 400), output=clip(direct.out, 200))


def make(r, i, once=False, **kw):
    prof = dict(PROFILE, **kw)
    g = gen.Gen(r, xml=bool(i % 2), prof=gen.profile(**prof))
    g.budget = r.choice((10, 20, 40))
    n = r.choice((1, 1, 2, 3)) if prof['metal'] else 0
    if n:
        case = gen.make_case(g, n, file=r.random() < .7)
        # macros may be used anywhere, so that no element may depend on
        # where it is used
        for doc in case.docs():
            slots = set()
            for e in gen.iter_elems(doc.nodes):
                if once and e.stm.get('metal:use-macro') == 'd:':
                    # the default would fill its own slots
                    for x in e.walk():
                        x.stm.pop('metal:define-slot', None)
                name = e.stm.get('metal:define-slot')
                if once and name:
                    if name in slots:
                        name = e.stm['metal:define-slot'] = g.uid('t')
                    slots.add(name)
                if not g.xml and e.tag in (
                        'p', 'h2', 'pre', 'div', 'section', 'center'):
                    e.tag = r.choice(('b', 'span', 'em'))
            doc.serialize()
        return pair.Case(case.main, case.libs, g.values, g.fragments)
    return pair.Case(gen.make_doc(g, 'main.pt'), (), g.values, g.fragments)


def macros(r, obs, i):
    case = make(r, i, once=True, domain=0)
    build(case)
    obs.count('xml' if case.main.xml else 'html')
    res = expansion(obs, case)
    again(obs, case, res)


def plain(r, obs, i):
    """No macros at all: nothing happens."""
    case = make(r, i, metal=0)
    build(case)
    obs.count('no macros')
    res = expansion(obs, case)
    if res.trace:
        raise Violation('expressions evaluated without macros',
                        **case.describe())
    again(obs, case, res)


def hidden(r, obs, i):
    """Expansion without the statements."""
    case = make(r, i, extend=r.choice((0, .5)))
    build(case)
    res = expansion(obs, case, hide=True)
    obs.count('statements hidden')
    obs.seen(res.out)


def extended(r, obs, i):
    case = make(r, i, extend=.6, metal=r.choice((.35, .6)))
    build(case)
    res = expansion(obs, case)
    obs.count('extended', any('metal:extend-macro' in e.stm
                              for d in case.docs()
                              for e in gen.iter_elems(d.nodes)))
    obs.seen(res.out)


def script(r, obs, i):
    """Script elements that hold server code."""
    code = r.choice(('print(1)', 'x < 1', 'foo', ' a\nb '))
    lang = r.choice(('text/server-python', 'text/server-x'))
    extra = r.choice(('', ' id="x"', ' tal:condition="t:"'))
    source = '<div>a<script type="%s"%s>%s</script>b</div>' % (lang, extra,
                                                              code)
    case = pair.Case(gen.Doc([], file='main.pt'))
    case.main.source = source
    build(case)
    direct = pair.run_real(case)
    res = expanded(case, case.program, case.macros)
    obs.ev()
    obs.count('server scripts')
    if res.trace:
        raise Violation('server code run while expanding macros',
                        source=source, events=repr(res.trace))
    if code not in res.out:
        raise Violation('server code lost while expanding macros',
                        source=source, expansion=res.out)
    program, macros = sut.compile_source(res.out, False)
    case.program, case.macros = program, macros
    later = pair.run_real(case)
    obs.seen(res.out)
    if (direct.out, bare(direct.trace)) != (later.out, bare(later.trace)):
        raise Violation('server script is an ordinary script after expansion',
                        source=source, expansion=res.out)


def prefixed(r, obs, i):
    """The namespaces under other prefixes; the usual ones are taken."""
    case = make(r, i, once=True, domain=0)
    names = dict(zip(gen.NS, r.sample(('t', 'm', 'i', 'zope', 'x-y'), 3)))
    decls = [(p, gen.NS[ns]) for ns, p in names.items()]
    if r.random() < .7:
        decls += [(ns, 'urn:' + ns) for ns in r.sample(sorted(names), 2)]
    for doc in case.docs():
        doc.prefixes = names
        if not doc.xml:
            doc.nodes = [gen.Elem('div', children=doc.nodes)]
        for e in doc.nodes:
            if isinstance(e, gen.Elem):
                e.decls = decls
        doc.serialize()
    build(case)
    res = expanded(case, case.program, case.macros)
    obs.ev()
    obs.count('other prefixes')
    if res.exc:
        raise Violation('expanding the macros fails', error=repr(res.error),
                        **case.describe())
    again(obs, case, res)


FAMILIES = [
    ('prefixed', prefixed, 4000, 20000),
    ('macros', macros, 16000, 80000),
    ('plain', plain, 8000, 30000),
    ('hidden', hidden, 4000, 20000),
    ('extended', extended, 6000, 30000),
    ('script', script, 40, 400),
]
