"""Source annotations."""
import re

from zope.tal.talinterpreter import TALInterpreter

from harness import disorder
from harness import gen
from harness import pair
from harness.obs import Violation
from harness.obs import clip
from harness.tree import Elem
from harness.tree import Text

from checks.common import build

ID = 'C20'
LEVEL = 'exploration'
RULE = ('Every text and start tag of the generated templates carries a '
        'unique word, so that each piece of output can be traced to its '
        'file, line and macro or filler.  Rendered with and without '
        'annotations: output without the comments and engine events must be '
        'equal, the last comment before each word must name the file of the '
        'word and a line between the start of its macro, filler or template '
        'and the word, and no comment may stand before the XML declaration. '
        'A subclass with another format of its own must change the comments '
        'and nothing else.  '
        'Distinct by annotated output with at least one comment.')
REQUIRED = ('html', 'xml', 'comments', 'words', 'files changed', 'fillers',
            'xml declaration', 'no file', 'handled errors', 'translations',
            'scripts', 'first', 'lines', 'other formats',
            'in disorder')

SEP = '=' * 78
COMMENT = re.compile(r'<!--\n%s\n(.*?)(?: \(line (\d+)\))?\n%s\n-->'
                     % (SEP, SEP))
CODE = re.compile(r'\{.{0,8}?:\d+&<\}', re.S)
#: nothing but the start of a tag between comment and word
DIRECT = re.compile(r'\s*(<[\w:.-]+( [^<>]*)?)?')
WORD = re.compile(r'Q(\d+)Q')


class WordGen(gen.Gen):
    """Every text and every start tag can be recognised in the output."""
    words = 0

    def word(self):
        self.words += 1
        return 'Q%dQ' % self.words

    def text(self):
        t = gen.Gen.text(self)
        if self.r.random() < .75:
            if '<?' in t.raw or '&' in t.raw or self.r.random() < .5:
                t.raw = self.word() + t.raw
            else:
                k = self.r.randrange(len(t.raw) + 1)
                if '<!' in t.raw:
                    k = 0
                t.raw = t.raw[:k] + self.word() + t.raw[k:]
        elif self.r.random() < .3:
            t.raw = self.r.choice(('\n', ' ', '\n  ', ''))
        return t

    def plain_attrs(self, n=None):
        out = [a for a in gen.Gen.plain_attrs(self, n)]
        out.append(('data-q' if not self.xml else 'q.q', self.word()))
        self.r.shuffle(out)
        return out

    reuse = 0

    def fragment(self, same=False):
        n = self.words
        key = gen.Gen.fragment(self, same)
        if self.words != n:
            # not from the template: no word of it may count
            self.values[key] = WORD.sub('', self.values[key])
            self.fragments = {}
        return key


PROFILE = dict(metal=.35, fill=.6, onerror=.12, error=.04, translate=.1,
               name=.3, domain=.05, data=.2, repeat=.12, condition=.12,
               structure=.2, script=.04, extend=.3, width=3, comment=.05,
               nstag=.12, empty=.2, attributes=.15, default=.1, pre=0,
               usedefault=.1, turn=.1)


def translate(msgid, domain, mapping, default):
    return '[tr]'


def index(doc, out):
    """word number -> (file, line, first line of its region, in main)"""
    def walk(nodes, first):
        for n in nodes:
            if isinstance(n, Elem):
                f = first
                if 'def' in n.m or 'fill' in n.m:
                    f = n.pos[0]
                for name, value in n.attrs:
                    if value and WORD.fullmatch(value):
                        regions[int(value[1:-1])] = f
                walk(n.children, f)
            else:
                for m in WORD.finditer(n.raw):
                    regions[int(m.group(1))] = first
    regions = {}
    walk(doc.nodes, 1)
    for m in WORD.finditer(doc.source):
        k = int(m.group(1))
        line = doc.source.count('\n', 0, m.start()) + 1
        out[k] = (doc.file, line, regions[k])


def make(r, obs, i):
    xml = bool(i % 2)
    g = WordGen(r, xml=xml, prof=gen.profile(**PROFILE))
    g.budget = r.choice((10, 25))
    case = gen.make_case(g, r.choice((0, 1, 1, 2)))
    return xml, g, disorder.perhaps(r, obs, case)


def remade(doc, nodes, file):
    from harness.tree import Doc
    return Doc(nodes, doc.xml, file)


def short(file, line):
    return '' if file is None else '[%s|%s]' % (file, line)


def formatted(r, obs, i):
    """A subclass with another format changes the comments and nothing else"""
    xml, g, case = make(r, obs, i)
    build(case)
    form = r.choice((short, short, lambda *a: '', lambda *a: '<!--\n-->\n'))
    made = []

    class Other(TALInterpreter):

        def formatSourceAnnotation(self):
            made.append((self.sourceFile, self.position[0]))
            return form(*made[-1])

    on = pair.run_real(case, translate=translate, sourceAnnotations=1)
    want = COMMENT.sub(lambda m: form(m.group(1), m.group(2)), on.out)
    other = pair.run_real(case, translate=translate, sourceAnnotations=1,
                          interpreter=Other)
    off = pair.run_real(case, translate=translate, sourceAnnotations=0,
                        interpreter=Other)
    obs.ev()
    obs.count('other formats', len(made))
    detail = dict(case.describe(), output=clip(other.out))
    if other.exc != on.exc or other.trace != on.trace or other.problems:
        raise Violation('the format of annotations changes the engine calls',
                        **detail)
    if other.out != want:
        raise Violation('output with another format of annotations',
                        expected=want, **detail)
    if off.out != COMMENT.sub('', on.out):
        raise Violation('annotations where none were asked for', **detail)


def annotated(r, obs, i):
    xml, g, case = make(r, obs, i)
    docs = case.docs()
    mixed = r.random() < .1
    decl = r.random() < .3
    new = []
    for d in docs:
        nodes = d.nodes
        if decl:
            pre = r.choice(('<?xml version="1.0" ?>', '<?xml version="1.0"?>'
                            '<!DOCTYPE root>\n', '<?xml version="1.0"?>\n'))
            if not xml:
                pre = r.choice(('', '\n', ' \n')) + pre
            nodes = [Text(pre)] + nodes
        new.append(remade(d, nodes, None if mixed and r.random() < .5
                          else d.file))
    case = pair.Case(new[-1], new[:-1], g.values, g.fragments)
    build(case)
    words = {}
    for d in new:
        index(d, words)
    fault = ()
    plain = pair.run_real(case, translate=translate)
    if r.random() < .3 and plain.trace:
        fault = (r.randrange(len(plain.trace)),)
        plain = pair.run_real(case, fault, translate=translate)
    on = pair.run_real(case, fault, translate=translate,
                       sourceAnnotations=r.choice((1, True)))
    detail = dict(case.describe(), fault=fault, output=clip(on.out))
    obs.ev()
    obs.count('xml' if xml else 'html')
    if on.exc != plain.exc or on.trace != plain.trace \
            or on.errors != plain.errors or on.problems:
        raise Violation('annotations change the engine calls', **detail)
    if COMMENT.sub('', on.out) != plain.out:
        raise Violation('annotations change the output', plain=plain.out,
                        **detail)
    for e in plain.trace:
        if e[0] == 'translate':
            obs.count('translations')
        elif e[0] == 'code':
            obs.count('scripts')
    obs.count('handled errors', len(plain.errors))
    k = on.out.find('<?xml version')
    if k >= 0:
        obs.count('xml declaration')
        if on.out[:k].strip():
            raise Violation('something before the XML declaration', **detail)
    files = {d.file for d in new}
    if mixed and None in files:
        obs.count('no file')
        files.discard(None)
        for m in COMMENT.finditer(on.out):
            if m.group(1) not in files:
                raise Violation('comment names no template', **detail)
        return
    text = CODE.sub('{}', on.out)
    last = None
    previous = None
    n = 0
    for m in re.finditer('%s|%s' % (COMMENT.pattern, WORD.pattern), text):
        if m.group(3) is None:
            n += 1
            obs.count('comments')
            last = m
            used = False
            if m.group(1) not in files:
                raise Violation('comment names no template', **detail)
            continue
        file, line, first = words[int(m.group(3))]
        obs.count('words')
        if last is None:
            raise Violation('no comment at the start of the output',
                            word=m.group(), **detail)
        if last.group(1) != file:
            raise Violation('text under the name of another file',
                            word=m.group(), expected=file,
                            observed=last.group(1), **detail)
        if previous is not None and previous != file:
            obs.count('files changed')
        if not used and last.group(2) and DIRECT.fullmatch(
                text, last.end(), m.start()):
            obs.count('lines')
            at = int(last.group(2))
            if not first <= at <= line:
                raise Violation('comment names the wrong line',
                                word=m.group(), expected=(first, line),
                                observed=at, **detail)
        previous = file
        used = True
    first = COMMENT.match(on.out.lstrip())
    if first:
        obs.count('first')
    elif plain.out.strip() and not decl:
        raise Violation('no comment at the start of the output', **detail)
    for d in new:
        for e in gen.iter_elems(d.nodes):
            if 'fill' in e.m:
                obs.count('fillers')
    if n:
        obs.seen(on.out)
        obs.sample(output=clip(on.out.replace(SEP, '=='), 500))


FAMILIES = [
    ('annotated', annotated, 64000, 300000),
    ('formatted', formatted, 8000, 40000),
]
