"""Wrapping of long start tags."""
import re

from harness import gen
from harness import lang
from harness import pair
from harness.engine import Engine
from harness.obs import Violation
from harness.obs import clip

from checks.common import build

ID = 'C21'
LEVEL = 'exploration'
RULE = ('Each case is rendered without wrapping and with several wrap '
        'widths.  A lock-step comparison allows only a space that became a '
        'line break and spaces, inside a start tag before an attribute; '
        'every start tag that carries a statement (recognised by a unique '
        'attribute) is laid out again by an independent rule from the '
        'column at which it stands in the output and must be equal.  Engine '
        'events must not change.  Distinct by wrapped output with at least '
        'one break.')
REQUIRED = ('html', 'xml', 'breaks', 'tags', 'aligned', 'column four',
            'unbroken', 'no breaks', 'statements shown', 'translations',
            'handled errors', 'long names', 'scripts')

NAME = r'[A-Za-z][\w:.-]*'
ATTR = r'''[^\s"'<>/=]+(?:="[^"]*")?'''
TAG = re.compile(r'<(%s)((?:\s+%s)*)(\s*/?)>' % (NAME, ATTR))
ITEM = re.compile(r'\s+(%s)' % ATTR)

PROFILE = dict(metal=.15, onerror=.08, error=.03, translate=.1, name=.3,
               i18nattrs=.1, attributes=.5, plainattr=.9, repeat=.12,
               structure=.2, script=.06, void=.1, selfclose=.1, shout=.05,
               default=.15, comment=.05, pre=0, replace=.03, omit=.05,
               domain=.05)


class TagGen(gen.Gen):
    tags = 0
    frag = 0

    def elem(self, ctx, depth, define=False):
        e = gen.Gen.elem(self, ctx, depth, define)
        self.tags += 1
        kind = 's'
        if e.stm or e.ns:
            kind = 'd'
        if self.frag:
            kind = 'f'
        if e.ns is None or self.r.random() < .3:
            if e.ns is None:
                e.attrs.insert(self.r.randrange(len(e.attrs) + 1),
                               ('q', '%s%d' % (kind, self.tags)))
        if e.ns is None and e.tag == 'x-y' and self.r.random() < .5:
            e.tag = 'x-' + 'y' * self.r.randrange(30)
        return e

    def fragment(self, same=False):
        self.frag += 1
        try:
            return gen.Gen.fragment(self, same)
        finally:
            self.frag -= 1


def lockstep(plain, out, detail, obs):
    """Only spaces before attributes may have become breaks."""
    i = j = 0
    breaks = []
    while i < len(plain) and j < len(out):
        if plain[i] == out[j]:
            i += 1
            j += 1
            continue
        if plain[i] == ' ' and out[j] == '\n':
            at = j
            j += 1
            while j < len(out) and out[j] == ' ':
                j += 1
            i += 1
            breaks.append((i, at, j - at - 1))
            continue
        break
    if i < len(plain) or j < len(out):
        raise Violation('wrapping changed more than white space',
                        expected=clip(plain[max(0, i - 40):i + 80]),
                        observed=clip(out[max(0, j - 40):j + 80]), **detail)
    inside = set()
    for m in TAG.finditer(plain):
        for a in ITEM.finditer(plain, m.start(2), m.end(2)):
            inside.add(a.start(1))
    for i, at, n in breaks:
        if i not in inside:
            raise Violation('line break that is not before an attribute',
                            there=clip(out[max(0, at - 60):at + 40]),
                            **detail)
    return len(breaks)


def layout(col, name, items, end, wrap):
    """A start tag standing at column col, wrapped as specified."""
    out = '<' + name
    col += len(out)
    align = col + 1
    four = align >= wrap / 2
    if four:
        align = 4
    broken = 0
    for s in items:
        if col + 1 + len(s) > wrap and col >= align:
            out += '\n' + ' ' * align + s
            col = align + len(s)
            broken += 1
        else:
            out += ' ' + s
            col += 1 + len(s)
    return out + end + '>', broken, four


def judge(out, wrap, detail, obs, exact):
    for m in TAG.finditer(out):
        items = ITEM.findall(m.group(2))
        q = [s for s in items if s.startswith('q="')]
        if not q:
            continue
        kind = q[0][3]
        if any('\n' in s for s in items):
            continue
        if kind == 's':
            if '\n' in m.group():
                raise Violation('tag without statements wrapped',
                                tag=m.group(), **detail)
            continue
        if kind != 'd' or not exact:
            continue
        col = m.start() - out.rfind('\n', 0, m.start()) - 1
        want, broken, four = layout(col, m.group(1), items, m.group(3), wrap)
        obs.count('tags')
        if want != m.group():
            raise Violation('start tag not laid out as specified', column=col,
                            expected=want, observed=m.group(), **detail)
        if broken:
            obs.count('column four' if four else 'aligned')
            if len(m.group(1)) > 9:
                obs.count('long names')
        else:
            obs.count('unbroken')


def dropped(msgid, domain, mapping, default):
    return r'[tr]'


def lines(msgid, domain, mapping, default):
    return 'several\nlines of translation'


class Script(Engine):
    answer = '{code}'

    def evaluateCode(self, language, code):
        self.event('code', language)
        return self.answer


class ScriptLines(Script):
    answer = 'several\nlines'


def wrapped(r, obs, i):
    xml = bool(i % 2)
    g = TagGen(r, xml=xml, prof=gen.profile(**PROFILE))
    g.budget = r.choice((5, 15, 30))
    n = r.choice((0, 0, 1))
    if n:
        case = gen.make_case(g, n)
    else:
        case = pair.Case(gen.make_doc(g, 'main.pt'), (), g.values,
                         g.fragments)
    build(case)
    kw = r.choice(({}, {}, {}, {'tal': 0}, {'showtal': 1},
                   {'strictinsert': 0}))
    # shown statements are text to a translation around them
    translate = r.choice((dropped, lines) if kw.get('showtal') or 'tal' in kw
                         else (lang.translation, dropped, lines))
    exact = translate is not lang.translation
    # the body of a script is text for the engine
    kw['engine'] = r.choice((Script, ScriptLines))
    plain = pair.run_real(case, translate=translate, **dict(kw))
    if plain.exc:
        obs.count('failed')
        return
    obs.count('handled errors', len(plain.errors))
    obs.count('translations',
              sum(e[0] == 'translate' for e in plain.trace) if exact else 0)
    if kw.get('showtal') or 'tal' in kw:
        obs.count('statements shown')
    for w in r.sample((1, 5, 10, 16, 20, 24, 30, 40, 50, 60, 72, 79, 100,
                       200, 1023), 3):
        res = pair.run_real(case, translate=translate, wrap=w, **dict(kw))
        obs.ev()
        obs.count('xml' if xml else 'html')
        detail = dict(case.describe(), wrap=w, settings=repr(kw),
                      output=clip(res.out))
        if res.exc:
            raise Violation('failed with a wrap width', error=repr(res.error),
                            **detail)
        if exact and [e[:2] for e in res.trace if e[0] != 'code'
                      and e[0] != 'translate'] != [
                e[:2] for e in plain.trace if e[0] != 'code'
                and e[0] != 'translate']:
            raise Violation('wrapping changed the engine calls', **detail)
        obs.count('scripts', any(e[0] == 'code' for e in plain.trace))
        k = lockstep(plain.out, res.out, detail, obs)
        obs.count('breaks', k)
        obs.count('no breaks', not k)
        judge(res.out, w, detail, obs, exact)
        if k:
            obs.seen(res.out)
            obs.sample(wrap=w, output=clip(res.out, 400))


FAMILIES = [
    ('wrapped', wrapped, 54000, 160000),
]
