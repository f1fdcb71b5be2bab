"""Inserted text stays text."""
from xml.parsers import expat

from harness import gen
from harness import lexhtml
from harness import lexxml
from harness import pair
from harness.lang import Thing
from harness.obs import Violation
from harness.obs import clip
from harness.obs import say
from harness.tree import Elem

from checks.common import build

ID = 'C04'
LEVEL = 'exploration'
RULE = ('Every case is rendered with harmless unique words and again with '
        'hostile strings in their place; both outputs are read by an '
        'independent parser; the second must show the events of the first '
        'with each word replaced by the hostile string.  Non-trivial: at '
        'least one word reached the output; distinct by hostile output.')
REQUIRED = ('html', 'xml', 'in text', 'in attribute', 'control', 'quote',
            'markup', 'reference', 'handled errors', 'translated', 'macros',
            'grown')

PIECES = ('<', '>', '&', '"', "'", '</b>', '<b>', '<!--', '-->', '--!>',
          ']]>', '<![CDATA[', '<?x', '?>', '&lt;', '&amp;', '&#60;', '&lt',
          '&copy', '&notit;', '&#x3c', '&;', '&#', '%s', '\n', '\t', '\r\n',
          ' ', '  ', '</span>', '<script>', '</script>', ' tal:content="x"',
          '{', '}', '\\', '`', '=', '/>', ';', ';;', 'x', 'word', '\xe9', '日',
          '\U0001f600', '\x7f', '\x85', '\xa0', '﻿', '\xad',
          '</title>', '<br/>', '<!DOCTYPE x>', 'a\nb', '<tal:x/>',
          'javascript:', '&quot;', '&#39;', '&apos;', '“', '�', '|',
          '<a href="x">', '" onclick="x', "' x='", '\r', '-', '--')
DOLLAR = ('$', '${n1}', '${x}', '$n1', '$$')
CONTROL = ('\x00', '\x01', '\x08', '\x0b', '\x0c', '\x1b', '￾', '\ud800',
           '\x1f')


class Reader(lexhtml.Reader):
    def __init__(self):
        lexhtml.Reader.__init__(self, convert_charrefs=True)
        self.events = []

    def add(self, *e):
        if e[0] == 'text' and self.events and self.events[-1][0] == 'text':
            e = 'text', self.events.pop()[1] + e[1]
        self.events.append(e)

    def handle_starttag(self, tag, attrs):
        self.add('start', tag, attrs)

    def handle_startendtag(self, tag, attrs):
        self.add('empty', tag, attrs)

    def handle_endtag(self, tag):
        self.add('end', tag)

    def handle_data(self, data):
        self.add('text', data)

    def handle_comment(self, data):
        self.add('comment', data)

    def handle_decl(self, data):
        self.add('decl', data)

    def handle_pi(self, data):
        self.add('pi', data)

    def unknown_decl(self, data):
        self.add('unknown', data)


def read(out, xml):
    if xml:
        return lexxml.events(out)
    p = Reader()
    p.feed(out)
    p.close()
    return p.events


class HGen(gen.Gen):
    """All values come from the registry."""

    def fresh(self):
        k = self.uid('k')
        self.values[k] = None
        return 'h:' + k

    def value_expr(self, ctx, text=True):
        x = self.r.random()
        if x < self.p['error']:
            return 'x:V'
        if x > .8 and ctx.vars:
            return 'v:' + self.r.choice(ctx.vars)
        return self.fresh()

    def bool_expr(self, ctx):
        return self.r.choice(('t:', 't:', 'f:', 'not:f:'))

    def seq_expr(self, ctx):
        if self.r.random() < .5:
            k = self.uid('l')
            self.values[k] = [None] * self.r.choice((1, 2, 3))
            return 'h:' + k
        return 'r:%d' % self.r.randrange(4)

    def elem(self, ctx, depth, define=False):
        e = gen.Gen.elem(self, ctx, depth, define)
        if 'tal:on-error' in e.stm:
            e.stm['tal:on-error'] = ('text', self.fresh())
        if isinstance(e, Elem) and e.stm.get('i18n:data'):
            del e.stm['i18n:data']
        return e


def identity(msgid, domain, mapping, default):
    """A translation that changes nothing."""
    text = default if default is not None else msgid
    for k, v in (mapping or {}).items():
        text = text.replace('${%s}' % k, v)
    return text


def hostile(r, xml, dollar):
    while True:
        parts = [r.choice(PIECES) for _ in range(r.choice((1, 1, 2, 3, 6)))]
        if r.random() < .02:
            parts *= r.choice((20, 70, 300))
        if dollar and r.random() < .2:
            parts.append(r.choice(DOLLAR))
        if not xml and r.random() < .15:
            parts.append(r.choice(CONTROL))
        s = ''.join(parts)
        if not dollar:
            # white space of named parts is normalised
            s = ' '.join(s.split())
        if s.strip():
            return s


PROFILE = dict(define=.25, condition=.1, repeat=.2, content=.4, replace=.2,
               attributes=.4, omit=.1, nstag=.1, onerror=.15, error=.05,
               structure=0, nothing=.05, default=.05, message=0, uniq=0,
               width=3, comment=.1, glob=.2)


def run(libs=(0,), i18n=False):
    prof = dict(PROFILE)
    if i18n:
        prof.update(translate=.3, name=.4, i18nattrs=.3, pre=0, error=.03)
    if libs != (0,):
        prof.update(metal=.4, fill=.5, pre=0)

    def case(r, obs, i):
        xml = bool(i % 2)
        g = HGen(r, xml=xml, prof=gen.profile(**prof))
        g.budget = r.choice((8, 20))
        n = r.choice(libs)
        if n:
            c = gen.make_case(g, n)
        else:
            c = pair.Case(gen.make_doc(g, 'main.pt'), (), g.values,
                          g.fragments)
        build(c)
        table = {}

        def name(wrap=True):
            w = 'qw%dqw' % len(table)
            s = hostile(r, xml, not i18n)
            table[w] = Thing(s) if wrap and r.random() < .1 else s
            return w

        harmless, nasty = {}, {}
        for k, v in g.values.items():
            if v is None:
                harmless[k] = name()
                nasty[k] = table[harmless[k]]
            elif isinstance(v, list):
                harmless[k] = [name() for _ in v]
                nasty[k] = [table[w] for w in harmless[k]]
            else:
                harmless[k] = nasty[k] = v
        kw = dict(wrap=r.choice((0, 40, 1023)), translate=identity)
        c.values = harmless
        a = pair.run_real(c, **kw)
        c.values = nasty
        b = pair.run_real(c, **kw)
        c.values = {k: repr(v) for k, v in nasty.items()}
        obs.ev()
        obs.count('xml' if xml else 'html')
        obs.count('handled errors', len(b.errors))
        detail = dict(c.describe(), harmless=clip(a.out), output=clip(b.out))
        if a.exc != b.exc or a.exc not in (None, 'Boom', 'Lookup'):
            raise Violation('rendering fails for some values', a=a.exc,
                            b=b.exc, error=repr(b.error), **detail)
        if a.exc:
            return
        try:
            ea = read(a.out, xml)
        except expat.ExpatError as exc:
            raise Violation('output does not parse', error=say(exc),
                            **detail)
        try:
            eb = read(b.out, xml)
        except expat.ExpatError as exc:
            raise Violation('hostile output does not parse', error=say(exc),
                            **detail)
        used = set()

        def put(s, attr=False):
            if not isinstance(s, str) or 'qw' not in s:
                return s
            parts = s.split('qw')
            for k in range(1, len(parts), 2):
                w = 'qw%sqw' % parts[k]
                v = str(table[w])
                used.add(v)
                obs.count('in attribute' if attr else 'in text')
                parts[k] = v
            s = ''.join(parts)
            if xml and not attr:
                # line ends are what an XML reader makes of them
                s = s.replace('\r\n', '\n').replace('\r', '\n')
            return s

        want = []
        for e in ea:
            if e[0] in ('start', 'empty'):
                e = e[:2] + ([(n, put(v, True)) for n, v in e[2]],)
            elif e[0] == 'text':
                e = 'text', put(e[1])
            want.append(e)
        if want != eb:
            j = pair.first_diff(want, eb)
            raise Violation('hostile values change what is read back',
                            expected=repr(want[j:j + 1]),
                            observed=repr(eb[j:j + 1]), **detail)
        for v in used:
            obs.count('grown', len(v) > 200)
            if set(v) & set(CONTROL):
                obs.count('control')
            if '"' in v or "'" in v:
                obs.count('quote')
            if '<' in v:
                obs.count('markup')
            if '&' in v:
                obs.count('reference')
        if i18n:
            obs.count('translated', len([e for e in b.trace
                                         if e[0] == 'translate']))
        if n:
            obs.count('macros')
        if used:
            obs.seen(b.out)
            obs.sample(template=clip(c.main.source, 300),
                       output=clip(b.out, 300))
    return case


FAMILIES = [
    ('plain', run(), 32000, 150000),
    ('metal', run(libs=(1, 2)), 20000, 80000),
    ('i18n', run(i18n=True), 24000, 100000),
]
