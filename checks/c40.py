"""The output is well-formed and free of statements."""
import html
import re
from xml.parsers import expat

from harness import engine as engines
from harness import lang
from harness import lexhtml
from harness import pair
from harness import sut
from harness import wide
from harness.obs import Skip
from harness.obs import Violation
from harness.obs import clip
from harness.obs import say
from harness.tree import VOID

from zope.tal.htmltalparser import HTMLParseError
from zope.tal.taldefs import I18NError
from zope.tal.taldefs import METALError

from checks.c39 import shuffle

ID = 'C40'
LEVEL = 'exploration'
RULE = ('Templates whose statements, tags and elements have been put into '
        'disorder, and their macros, are rendered with harmless values '
        'under random settings.  Rendering must succeed, but for macros '
        'that use themselves and named parts outside of a unit.  XML output '
        'must be accepted by expat, tags of HTML output must be properly '
        'nested, no attribute may appear twice, and no statement or element '
        'of the template namespaces may be left unless statements are to be '
        'shown.  Scopes of the engine must be balanced.  The output must be a '
        'template that renders to itself.  Distinct by output and settings.')
REQUIRED = ('html', 'xml', 'wrapped', 'annotated', 'checked structure',
            'macros off', 'translation off', 'statements off', 'shown',
            'structure', 'translations', 'scripts', 'loops', 'macros',
            'handled errors', 'recursion', 'failed expressions',
            'elements', 'attributes', 'rendered again',
            'text elements')

FRAGMENTS = ('<i class="s">x &amp; y</i>', 'plain', '', '<b><u>1</u></b>&lt;',
             '<!-- c --><em title="a &lt; b">z</em>t', '<a href="#"></a>')
LIMIT = 3000
SPACES = ('tal', 'metal', 'i18n')


EMPTY = re.compile(r'<([^<>]*[^<>/])></[^<>]*>')


class TooMuch(Exception):
    pass


class Engine(engines.Engine):
    """Everything has a value of the kind that is asked for."""

    def event(self, kind, what, *more):
        if len(self.trace) >= LIMIT:
            # and stay so: handlers of errors fail as well
            raise TooMuch
        engines.Engine.event(self, kind, what, *more)

    def _expr(self, ce, kind):
        try:
            return engines.Engine._expr(self, ce, kind)
        except BaseException as exc:
            self.raised.append(exc)
            raise

    def lookup(self, name):
        found, value = engines.Engine.lookup(self, name)
        if not found and name not in ('attrs', 'error', 'macroname'):
            return True, 'unset'
        return found, value

    def macro(self, name):
        return self.macros.get(name.strip(), self.default)

    def evaluate(self, ce):
        value = engines.Engine.evaluate(self, ce)
        return {k: 'v' for k in value} if isinstance(value, dict) else {}

    def evaluateStructure(self, ce):
        value = engines.Engine.evaluateStructure(self, ce)
        if value is None or value is self.default:
            return value
        return FRAGMENTS[len(str(value)) % len(FRAGMENTS)]

    def evaluateMacro(self, ce):
        value = engines.Engine.evaluateMacro(self, ce)
        return value if isinstance(value, list) else self.default

    def setRepeat(self, name, ce):
        seq = self._expr(ce, 'repeat')
        if not isinstance(seq, (list, str)):
            seq = ()
        return engines.Iterator(self, name, seq, ce.expr)

    def translate(self, msgid, domain=None, mapping=None, default=None):
        self.event('translate', str(msgid))
        text = str(msgid if default is None else default)
        # shown statements may have references to variables
        return text if self.shown else lang.interpolate(text, mapping)

    def evaluateCode(self, language, code):
        self.event('code', code)
        return FRAGMENTS[len(code) % len(FRAGMENTS)]


class Reader:
    """Reads output and finds what must not be in there."""

    def __init__(self, shown):
        self.shown = shown
        self.open = []
        self.problem = None
        self.elements = self.attributes = 0

    def fail(self, what):
        self.problem = self.problem or what

    def start(self, tag, names):
        self.elements += 1
        self.attributes += len(names)
        if len(set(names)) < len(names):
            self.fail('attribute given twice in <%s>' % tag)
        if not self.shown:
            for n in [tag] + names:
                prefix, colon, name = n.partition(':')
                if colon and prefix in SPACES:
                    self.fail('%s is left over' % n)

    def end(self, tag):
        if not self.open or self.open.pop() != tag:
            self.fail('</%s> does not match' % tag)


class HTML(lexhtml.Reader):
    def __init__(self, reader):
        lexhtml.Reader.__init__(self, convert_charrefs=False)
        self.reader = reader

    def handle_starttag(self, tag, attrs):
        self.reader.start(tag, [n for n, v in attrs])
        if tag not in VOID:
            self.reader.open.append(tag)

    def handle_startendtag(self, tag, attrs):
        self.reader.start(tag, [n for n, v in attrs])

    def handle_endtag(self, tag):
        self.reader.end(tag)


def read(out, xml, shown):
    reader = Reader(shown)
    if not xml:
        p = HTML(reader)
        p.feed(out)
        p.close()
        if reader.open:
            reader.fail('<%s> is never closed' % reader.open[-1])
        return reader
    p = expat.ParserCreate()
    p.ordered_attributes = True
    p.StartElementHandler = lambda tag, a: reader.start(tag, a[::2])
    try:
        p.Parse('<w>%s</w>' % out, True)
    except expat.ExpatError as exc:
        reader.fail(say(exc))
    return reader


def settings(r, obs):
    kw = {}
    for key, what, choices in (
            ('wrap', 'wrapped', (20, 40, 60)),
            ('sourceAnnotations', 'annotated', (1,)),
            ('strictinsert', 'checked structure', (1,)),
            ('metal', 'macros off', (0,)),
            ('i18nInterpolate', 'translation off', (0,)),
            ('tal', 'statements off', (0,)),
            ('showtal', 'shown', (1,))):
        if r.random() < .2:
            kw[key] = r.choice(choices)
            obs.count(what)
    return kw


def nameless(s):
    """References to entities that do not exist, in one way of two."""
    def one(m):
        name = '&%s;' % m.group(1)
        return name if html.unescape(name) == name else m.group()
    return re.sub('&amp;([A-Za-z][A-Za-z0-9]*);', one, s)


def again(obs, out, xml, detail):
    """Output is a template that renders to itself."""
    source = '<w>%s</w>' % out if xml else out
    eng = engines.Engine()
    try:
        program, macros = sut.compile_source(source, xml)
        second = sut.render(program, macros, eng)
    except HTMLParseError:
        # elements may end up where HTML does not let them be
        obs.count('nested otherwise')
        return
    except Exception as exc:
        raise Violation('output not accepted as template', error=say(exc),
                        **detail)
    if xml:
        source = EMPTY.sub(r'<\1/>', source)
        second = EMPTY.sub(r'<\1/>', second)
    elif second.count('</') != source.count('</'):
        obs.count('nested otherwise')
        return
    else:
        # no such entity: both mean the same
        source, second = nameless(source), nameless(second)
    if second != source or eng.trace:
        k = pair.first_diff(second, source)
        raise Violation('output changes when it is rendered',
                        expected=clip(source[max(0, k - 60):k + 60]),
                        observed=clip(second[max(0, k - 60):k + 60]),
                        **detail)
    obs.count('rendered again')


@wide.deep_recursion
def rendered(r, obs, i):
    g, docs, much = shuffle(r, obs, bool(i % 2))
    case = pair.Case(docs[-1], docs[:-1], g.values, g.fragments)
    try:
        case.compile()
    except Exception:
        raise Skip('refused')
    kw = settings(r, obs)
    shown = bool(kw.get('showtal', not kw.get('tal', 1))
                 or not kw.get('tal', 1) or not kw.get('metal', 1))
    eng = Engine(case.rmacros, case.values)
    eng.shown = shown
    stream = sut.Stream()
    detail = dict(case.describe(), settings=kw)
    obs.ev()
    obs.count('xml' if g.xml else 'html')
    try:
        sut.render(case.program, case.macros, eng, stream, **kw)
    except BaseException as exc:
        if isinstance(exc, KeyboardInterrupt):
            raise
        if any(exc is e for e in eng.raised):
            obs.count('failed expressions')
            return
        if len(eng.trace) >= LIMIT:
            raise Skip('too many events')
        text = say(exc)
        if isinstance(exc, METALError) and 'nesting' in text:
            obs.count('recursion')
        elif isinstance(exc, I18NError) and 'i18n:name' in text:
            obs.count('name without unit')
        else:
            raise Violation('rendering fails', error=text, **detail)
        return
    if len(eng.trace) >= LIMIT:
        raise Skip('too many events')
    out = stream.getvalue()
    detail['output'] = clip(out)
    if eng.problems or len(eng.scopes) != 1:
        raise Violation('scopes not balanced', problems=eng.problems,
                        **detail)
    reader = read(out, g.xml, shown)
    if reader.problem:
        raise Violation('output not well-formed', problem=reader.problem,
                        **detail)
    if not shown and 'wrap' not in kw:
        again(obs, out, g.xml, detail)
    obs.count('elements', reader.elements)
    obs.count('attributes', reader.attributes)
    kinds = [e[0] for e in eng.trace]
    for kind, what in (('structure', 'structure'), ('code', 'scripts'),
                       ('translate', 'translations'), ('next', 'loops'),
                       ('macro', 'macros')):
        obs.count(what, kind in kinds)
    obs.count('handled errors', len(eng.errors))
    obs.seen(out, sorted(kw))


FAMILIES = [
    ('rendered', rendered, 50000, 250000),
]
