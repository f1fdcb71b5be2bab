"""Omitted end tags are supplied; wrong nesting is refused."""
from harness import sut
from harness.engine import Engine
from harness.obs import Violation
from harness.obs import clip
from harness.obs import say
from harness.obs import same

ID = 'C03'
LEVEL = 'exploration'
RULE = ('Sequences of start tags, end tags and text are given to the real '
        'parser and to a separately written automaton of the content model; '
        'accepted ones must render to the completed text, refused ones must '
        'raise the expected error at the expected line and column.  Short '
        'sequences over the tags with special rules are enumerated, longer '
        'ones are random.  Non-trivial: an end tag was supplied or the text '
        'refused; distinct by source.')
REQUIRED = ('supplied', 'supplied at the end', 'moved before white space',
            'NestingError', 'EmptyTagError', 'OpenTagError', 'TALError',
            'METALError', 'unchanged', 'void', 'statements accepted', 'grown')

VOID = set('base meta link hr br param img area input col basefont isindex '
           'frame'.split())
HEADINGS = set('h1 h2 h3 h4 h5 h6'.split())
# an item or cell, and the open ones that it ends
ENDS = {'tr': {'tr', 'td', 'th'}, 'td': {'td', 'th'}, 'th': {'td', 'th'},
        'li': {'li'}, 'dd': {'dd', 'dt'}, 'dt': {'dd', 'dt'}}
BLOCKS = set('blockquote table tr th td thead tfoot tbody noframe ul ol li dl '
             'dt dd div nav'.split())
TIGHT = HEADINGS | {'p'} | set(ENDS)
PLAIN = ('b', 'i', 'span', 'a', 'form', 'center', 'pre', 'body', 'html',
         'section', 'font', 'address', 'caption', 'x-y', 'h7', 'option')
MARK = ''     # output here is not plain text of the template


class Refused(Exception):
    def __init__(self, kind, pos):
        self.kind = kind
        self.pos = pos


class Automaton:
    def __init__(self):
        self.out = ''
        self.open = []      # [tag, position, statement kind, shown name]
        self.seen = set()

    def supply(self):
        tag, pos, kind = self.open[-1]
        if kind:
            raise Refused(kind, pos)
        self.open.pop()
        white = ''
        if tag in TIGHT:
            rest = self.out.rstrip(' \t\r\n')
            white = self.out[len(rest):]
            self.out = rest
            if white:
                self.seen.add('moved before white space')
        self.out += '</%s>' % tag + white

    def before(self, tag, pos):
        if tag in VOID:
            return
        tags = [t[0] for t in self.open]
        if tag in ENDS:
            start = 0
            for i, t in enumerate(tags):
                if t in BLOCKS and t not in ENDS[tag]:
                    start = i + 1
            first = [i for i in range(start, len(tags))
                     if tags[i] in ENDS[tag]]
        elif tag in BLOCKS or tag in HEADINGS or tag == 'p':
            start = 0
            for i, t in enumerate(tags):
                if t in BLOCKS:
                    start = i + 1
            if any(t in HEADINGS for t in tags[start:]):
                raise Refused('OpenTagError', pos)
            first = [i for i in range(start, len(tags)) if tags[i] == 'p']
        else:
            return
        if first:
            while len(self.open) > first[0]:
                self.supply()
                self.seen.add('supplied')

    def start(self, tag, pos, kind=None, selfclose=False):
        self.before(tag, pos)
        if tag in VOID:
            self.seen.add('void')
            self.out += '<%s%s>' % (tag, ' /' if selfclose else '')
            if kind:
                self.out += MARK
        elif selfclose:
            if tag.startswith('tal:'):
                self.out += MARK
            else:
                self.out += '<%s />' % tag + (MARK if kind else '')
        else:
            self.open.append((tag, pos, kind))
            self.out += (MARK if kind else '') + (
                '' if tag.startswith('tal:') else '<%s>' % tag)
            if tag.startswith('tal:'):
                self.out += MARK

    def end(self, tag, pos):
        if tag in VOID:
            raise Refused('EmptyTagError', pos)
        if tag not in [t[0] for t in self.open]:
            raise Refused('NestingError', pos)
        while self.open[-1][0] != tag:
            self.supply()
            self.seen.add('supplied')
        kind = self.open.pop()[2]
        self.out += ('' if tag.startswith('tal:') else '</%s>' % tag) + (
            MARK if kind else '')
        if kind:
            self.seen.add('statements accepted')

    def finish(self):
        while self.open:
            self.supply()
            self.seen.add('supplied at the end')


def judge(obs, tokens):
    """tokens: (source, method, *args) without position."""
    auto = Automaton()
    source = ''.join(t[0] for t in tokens)
    error = None
    line, col = 1, 0
    try:
        for s, method, *args in tokens:
            if method is None:
                auto.out += s
            else:
                getattr(auto, method)(args[0], (line, col), *args[1:])
            if '\n' in s:
                line += s.count('\n')
                col = len(s) - s.rindex('\n') - 1
            else:
                col += len(s)
        auto.finish()
    except Refused as exc:
        error = exc
    obs.ev()
    try:
        program, macros = sut.compile_source(source)
    except Exception as exc:
        name = type(exc).__name__
        if error is None:
            raise Violation('correct nesting refused', source=source,
                            error=say(exc),
                            expected=auto.out.replace(MARK, ''))
        got = (name, (getattr(exc, 'lineno', None),
                      getattr(exc, 'offset', None)))
        same((error.kind, error.pos), got, 'refused differently',
             source=source, error=say(exc))
        shown = 'at line %d, column %d' % (error.pos[0], error.pos[1] + 1)
        if shown not in say(exc):
            raise Violation('position not in the message', source=source,
                            error=say(exc), expected=shown)
        obs.count(name)
        obs.seen(source)
        return
    if error:
        raise Violation('wrong nesting accepted', source=source,
                        expected='%s at %r' % (error.kind, error.pos))
    out = sut.render(program, macros, Engine())
    expected = auto.out.replace(MARK, '')
    same(expected, out, 'end tags not as expected', source=source)
    for k in auto.seen:
        obs.count(k)
    if expected == source:
        obs.count('unchanged')
    else:
        obs.seen(source)
        obs.sample(source=clip(source, 300), output=clip(out, 300))


ALPHABET = [('<%s>' % t, 'start', t) for t in (
    'p', 'h1', 'b', 'ul', 'li', 'dt', 'dd', 'table', 'tr', 'td', 'th', 'div',
    'tbody')] + [('</%s>' % t, 'end', t) for t in (
        'p', 'h1', 'b', 'ul', 'li', 'dd', 'table', 'tr', 'td', 'div')] + [
    (' ', None)]


def enum(n):
    def run(r, obs, i):
        # each case is one prefix with all continuations
        tokens = []
        for _ in range(n - 1):
            i, k = divmod(i, len(ALPHABET))
            tokens.append(ALPHABET[k])
        for t in ALPHABET:
            judge(obs, tokens + [t])
    return run


def shallow(r, obs, i):
    judge(obs, [ALPHABET[i]])


def words(r):
    return r.choice(('x', ' ', 'x ', '\n', 'x\n  ', ' \n y', '&amp;',
                     '&#65; ', '<!-- c -->', '<!-- c --> \n', '<?p ?>', 'ab',
                     ' \t', 'x y\n', '\n\n'))


def random(r, obs, i):
    tokens = []
    stack = []          # only a guess, to end something sensible
    macros = 0
    some = r.sample(sorted(BLOCKS), 3) + r.sample(PLAIN, 2) + \
        r.sample(sorted(ENDS), 2) + ['p', r.choice(sorted(HEADINGS))]
    if r.random() < .4:
        some = ['table', 'tr', 'td', 'th', 'tbody', 'p', 'ul', 'li', 'b']
    elif r.random() < .3:
        some = ['dl', 'dt', 'dd', 'p', 'div', 'ul', 'li', 'i', 'h2']
    pstm = r.choice((0, 0, .1))
    for _ in range(r.choice((4, 8, 15, 30))):
        x = r.random()
        if x < .3:
            tokens.append((words(r), None))
            continue
        kind, stm = None, ''
        if r.random() < pstm:
            if r.random() < .2:
                macros += 1
                kind, stm = 'METALError', ' metal:define-macro="m%d"' % macros
            else:
                kind = 'TALError'
                stm = r.choice((' tal:define="a s:x"', ' i18n:domain="d"',
                                ' tal:condition="t:"',
                                '\ntal:on-error="s:x"'))
        name = r.choice(some)
        if x < .62:
            tag = name
            if r.random() < pstm:
                tag, kind, stm = 'tal:block', 'TALError', ''
            shown = tag.upper() if r.random() < .1 else tag
            # a macro with only implied ends stays plain
            end = r.choice(('>', '>', '>', ' >'))
            tokens.append(('<%s%s%s' % (shown, stm, end), 'start', tag, kind))
            stack.append(tag)
        elif x < .9:
            if stack and r.random() < .85:
                k = len(stack) - 1 if r.random() < .7 else \
                    r.randrange(len(stack))
                tag = stack[k]
                del stack[k:]
            else:
                tag = r.choice(some + list(PLAIN))
            if r.random() < .02:
                tag = r.choice(sorted(VOID))
            tokens.append(('</%s>' % (tag.upper() if r.random() < .1
                                      else tag), 'end', tag))
        elif x < .96:
            tag = r.choice(sorted(VOID))
            selfclose = r.random() < .4
            if 'on-error' in stm or macros and kind == 'METALError':
                kind, stm = None, ''
            tokens.append(('<%s%s%s>' % (tag, stm, ' /' if selfclose else ''),
                           'start', tag, kind, selfclose))
        else:
            if 'on-error' in stm or kind == 'METALError':
                kind, stm = None, ''
            tokens.append(('<%s%s/>' % (name, stm), 'start', name, kind, True))
    if r.random() < .5:
        for t in reversed(stack):
            if r.random() < .7:
                tokens.append(('</%s>' % t, 'end', t))
    judge(obs, tokens)


def grown(r, obs, i):
    """Many elements left open, and many left out of account."""
    n = max(2, r.choice((5, 9, 17, 33, 65, 129, 257)) + r.randrange(-2, 3))
    some = r.sample(sorted(BLOCKS), 2) + r.sample(PLAIN, 3) + ['p', 'li']
    if r.random() < .5:
        # all of them inside one paragraph, item or cell
        some = r.sample([t for t in PLAIN], 3)
    first = r.choice(('p', 'p', 'li', 'td', 'dd', 'div', 'h1', 'tr'))
    tags = [first] + [r.choice(some) for _ in range(n)]
    tokens = []
    for t in tags:
        tokens.append(('<%s>' % t, 'start', t))
        if r.random() < .2:
            tokens.append((words(r), None))
    last = r.choice(('start', 'start', 'end', None))
    if last == 'start':
        t = r.choice((first, 'p', 'li', 'td', 'dt', 'ul', 'div', 'h2'))
        tokens.append(('<%s>' % t, 'start', t))
    elif last == 'end':
        t = r.choice((first, r.choice(tags), 'table'))
        tokens.append(('</%s>' % t, 'end', t))
    tokens.append((words(r), None))
    obs.count('grown')
    judge(obs, tokens)


N = len(ALPHABET)
FAMILIES = [
    ('1 token', shallow, N, N),
    ('2 tokens', enum(2), N, N),
    ('3 tokens', enum(3), N ** 2, N ** 2),
    ('4 tokens', enum(4), N ** 3, N ** 3),
    ('5 tokens', enum(5), 0, N ** 4),
    ('grown', grown, 4000, 30000),
    ('random', random, 300000, 800000),
]
