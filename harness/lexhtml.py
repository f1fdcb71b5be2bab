"""HTML at token level: random source together with the output expected for
markup without template statements."""
from html.parser import HTMLParser

from harness.model import static_attr
from harness.tree import VOID

FREE = ('span', 'b', 'i', 'em', 'strong', 'a', 'font', 'code', 'form',
        'center', 'section', 'article', 'fieldset', 'label', 'x-y', 'svg',
        'foo:bar', 'body', 'html', 'head', 'select', 'option', 'button',
        'h7', 'q', 'tt', 'object', 'applet', 'noscript', 'math', 'a1',
        'frameset', 'img2', 'colgroup', 'caption', 'main')
BLOCKS = ('div', 'blockquote', 'table', 'ul', 'ol', 'dl', 'nav', 'thead',
          'tbody', 'noframe')
PARAS = ('p', 'h1', 'h2', 'h3', 'h6')
ITEMS = ('li', 'dd', 'dt', 'td', 'th', 'tr')
VOIDS = tuple(sorted(VOID))
RAW = ('script', 'style')
RCDATA = ('textarea', 'title')

WORDS = ('foo', 'bar', 'Hello', 'x', 'caf\xe9', '日本', 'a.b', 'Z', '42',
         '\U0001f600', 'w-w', ' ', '  ', '\n', '\n  ', '\t', '\r\n', '.', ',',
         '%', '%s', '$', '${x}', '"', "'", '=', ';', ']]>', '-->', '>', '/>',
         '\xa0', ' ', '[', ']', '{', '}', '\\', '`', '?>', '|', '\x0b',
         '\x85', '﻿', '​')
LONELY = ('a < b', '<3', '< b>', '<=', '<,', '<" ', 'x< ', '& ', '&&& ', '&;',
          '&= ', '& amp;', '&\n')
NAMES = ('id', 'class', 'title', 'href', 'alt', 'value', 'checked', 'disabled',
         'data-x', 'xml:lang', 'on_click', 'style', 'foo:bar', 'a1', 'lang',
         'v-on:x', '@click', ':href', '[x]', '(y)', '#r', 'x.y', 'xlink:href',
         'xmlns', 'xmlns:xlink', 'selected', 'ismap', 'compact', 'tal', 'metal',
         'i18n', 'talx:content', 'content', 'define', 'repeat', 'replace')
ATTRTEXT = WORDS + ('<', '<b>', '& ', 'a=b', '?a=1', '& b', "it's", '"q"',
                    '<!--', 'http://x/y?z', '#', '50%', 'x&y ', '&', '1<2', '&lt;', '&copy;',
                    '&zz;', '&#65;', '&#x', '&copy', '&amp;amp;', '&#1;')


def attr_source(value, r):
    """One way of writing *value*; must read back as exactly that."""
    forms = ['"', "'"]
    if value and not set(value) & set(' \t\n\r\x0b\x0c"\'=<>`/\xa0\x85 '
                                      '﻿') \
            and not value.endswith('/'):
        forms.append('')
    q = r.choice(forms)
    out = []
    for ch in value:
        x = r.random()
        if ch == q or ch == '&':
            out.append({'"': '&quot;', "'": '&#39;', '&': '&amp;'}[ch]
                       if x < .7 else '&#%d;' % ord(ch))
        elif ch == '<' or ch == '>':
            out.append(ch if x < .4 and q else
                       {'<': '&lt;', '>': '&gt;'}[ch])
        elif ch == '\xe9' and x < .3:
            out.append('&eacute;')
        elif x < .03 and ch >= ' ' and not '\x7f' <= ch <= '\xa0':
            out.append('&#x%x;' % ord(ch))
        else:
            out.append(ch)
    return q + ''.join(out) + q


class Lex:
    def __init__(self, r):
        self.r = r
        self.src = []
        self.out = []
        self.kinds = set()
        self.budget = r.choice((5, 12, 25, 40))

    def both(self, s, kind=None):
        self.src.append(s)
        self.out.append(s)
        if kind:
            self.kinds.add(kind)

    def text(self):
        r = self.r
        for _ in range(r.choice((1, 1, 2, 4))):
            x = r.random()
            if x < .6:
                self.both(r.choice(WORDS))
            elif x < .8:
                self.both(r.choice((
                    '&amp;', '&lt;', '&gt;', '&quot;', '&nbsp;', '&eacute;',
                    '&#65;', '&#x41;', '&#X3c;', '&#0;', '&#1114112;',
                    '&nosuch;', '&Auml;', '&frac12;', '&A1b2;', '&apos;',
                    '&not;', '&notin;')), 'reference')
            elif x < .86:
                name = r.choice(('&amp', '&lt', '&copy', '&T', '&#65', '&#x41',
                                 '&nosuch'))
                after = r.choice((' ', ' x', '\n', '=1 ', ',', '<b></b>',
                                  '/'))
                self.src.append(name + after)
                self.out.append(name + ';' + after)
                self.kinds.add('open reference')
            elif x < .93:
                self.both(r.choice(LONELY))
                self.both(r.choice((' ', 'x ', '. ')))
                self.kinds.add('lonely')
            else:
                self.misc()

    def misc(self):
        r = self.r
        x = r.random()
        body = ''.join(r.choice(('x', ' ', '\n', '<b>', '</b>', '-', 'caf\xe9',
                                 '&amp;', '&', '"', "'", 'tal:x', '=', '<',
                                 '[', ']', ' tal:content="x"'))
                       for _ in range(r.randrange(6)))
        if x < .4:
            if body.startswith(('>', '->')):
                body = ' ' + body
            while '--' in body:
                body = body.replace('--', '-x')
            if body.endswith('-'):
                body += ' '
            self.both('<!--%s-->' % body, 'comment')
        elif x < .6:
            self.both(r.choice((
                '<!DOCTYPE html>', '<!doctype HTML>',
                '<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN" '
                '"http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd">',
                '<!DOCTYPE\n  html\n>', "<!DOCTYPE html SYSTEM 'a&b'>")),
                'declaration')
        elif x < .8:
            body = body.replace('>', '')
            self.both(r.choice(('<?xml version="1.0"?>', '<?php echo 1 ?>',
                                '<?x>', '<??>', '<?pi %s?>' % body,
                                '<?pi %s>' % body)), 'instruction')
        else:
            body = body.replace('>', '').replace(']', '').replace('<', '')
            self.both(r.choice(('<![CDATA[%s]]>' % body, '<![if IE]>',
                                '<![endif]>', '<![CDATA[]]>')), 'section')

    def attrs(self):
        """(source, output) of the attributes of a tag."""
        r = self.r
        names = r.sample(NAMES, r.choice((0, 0, 1, 1, 2, 3, 6)))
        if names and r.random() < .1:
            names.append(r.choice(names))
        src, out = [], []
        for name in names:
            if r.random() < .15:
                value = None
                if name.startswith('xmlns:'):
                    value = 'urn:z'
            elif name == 'xmlns:xlink':
                value = 'http://www.w3.org/1999/xlink'
            else:
                value = ''.join(r.choice(ATTRTEXT)
                                for _ in range(r.choice((0, 1, 1, 2, 4))))
            shown = name
            if r.random() < .2:
                shown = name.upper()
            elif r.random() < .1:
                shown = name.title()
            s = r.choice((' ', ' ', ' ', '  ', '\n', '\t', ' \n  ')) + shown
            if value is not None:
                s += r.choice(('=', '=', '=', ' = ', '= ', ' =', '\n=\n'))
                s += attr_source(value, r)
            src.append(s)
            out.append(' ' + static_attr(name, value))
        return ''.join(src), ''.join(out)

    def case(self, tag):
        x = self.r.random()
        return tag.upper() if x < .15 else tag.title() if x < .2 else tag

    def element(self, tag, inner=None, close=True):
        r = self.r
        a, b = self.attrs()
        x = r.random()
        if tag in VOID:
            if x < .4:
                end = r.choice((' />', '/>', '\n/>'))
                if a and not a.endswith(('"', "'")) and end == '/>':
                    end = ' />'
                self.src.append('<' + self.case(tag) + a + end)
                self.out.append('<' + tag + b + ' />')
            else:
                self.src.append('<' + self.case(tag) + a + r.choice(
                    ('>', ' >', '\n>') if a.endswith(('"', "'")) or not a
                    else ('>', ' >')))
                self.out.append('<' + tag + b + '>')
            self.kinds.add('void')
            return
        if x < .06 and tag not in RAW + RCDATA:
            self.src.append('<' + self.case(tag) + a + r.choice((' />',
                                                                '\n/>')))
            self.out.append('<' + tag + b + ' />')
            self.kinds.add('self-closing')
            return
        self.src.append('<' + self.case(tag) + a + r.choice(('>', '>', ' >',
                                                            '\n >')))
        self.out.append('<' + tag + b + '>')
        if inner:
            inner()
        if close:
            self.src.append('</' + self.case(tag) + r.choice(
                ('>', '>', '>', ' >', '\n>')))
            self.out.append('</%s>' % tag)

    def rawtext(self):
        r = self.r
        tag = r.choice(RAW)
        body = ''.join(r.choice((
            'x', ' ', '\n', '<b>', '</b>', 'if (a<b && c>d)', '&amp;', '&',
            '<!--', '-->', '"', "'", '<br/>', '<span tal:content="x">',
            '</span>', '//', '<![CDATA[', ']]>', '</', '</scrip', '${x}',
            '%', '\\', 'caf\xe9', '<?php ?>', '&#65;'))
            for _ in range(r.randrange(8)))
        if '<!--' in body:
            # what a comment inside a script means differs between Python
            # versions
            body = body.replace('<!--', '<!-')
        if body.endswith(('</', '</scrip')):
            body += ' '
        self.element(tag, lambda: self.both(body, 'raw text'))

    def rcdata(self):
        r = self.r
        tag = r.choice(RCDATA)
        body = ''.join(r.choice(('x', ' ', '\n', '&amp;', '&lt;b&gt;',
                                 'caf\xe9', '"', '&#65;', 'a > b', '&nbsp;'))
                       for _ in range(r.randrange(6)))
        self.element(tag, lambda: self.both(body, 'rcdata'))

    def content(self, depth, inpara=False):
        r = self.r
        for _ in range(r.randint(0 if depth else 1, 4)):
            self.budget -= 1
            x = r.random()
            if self.budget < 0 or x < .35 or depth > 6:
                self.text()
            elif x < .42:
                self.misc()
            elif x < .5:
                self.element(r.choice(VOIDS))
            elif x < .55:
                self.rawtext()
            elif x < .58:
                self.rcdata()
            elif x < .66 and not inpara:
                self.element(r.choice(PARAS),
                             lambda: self.content(depth + 1, True))
            elif x < .76 and not inpara:
                self.element(r.choice(BLOCKS),
                             lambda: self.content(depth + 1))
            else:
                self.element(r.choice(FREE),
                             lambda: self.content(depth + 1, inpara))

    def document(self):
        if self.r.random() < .3:
            self.misc()
        self.content(0)
        return ''.join(self.src), ''.join(self.out)


class Reader(HTMLParser):
    """Elements may be anywhere but in scripts and styles."""
    CDATA_CONTENT_ELEMENTS = RAW
    RCDATA_CONTENT_ELEMENTS = ()


class Echo(Reader):
    """Second reader of arbitrary soup: what the same tokens should give.

    Sets `refused` if the nesting is wrong.  Only for tags without implied
    end tags.
    """

    def __init__(self):
        HTMLParser.__init__(self, convert_charrefs=False)
        self.out = []
        self.stack = []
        self.refused = False
        self.tags = 0

    def run(self, source):
        self.feed(source)
        self.close()
        while self.stack:
            self.out.append('</%s>' % self.stack.pop())
        return ''.join(self.out)

    def start(self, tag, attrs, end):
        self.tags += 1
        parts = ['<' + tag]
        for name, value in attrs:
            parts.append(static_attr(name, value))
        self.out.append(' '.join(parts) + end)

    def handle_starttag(self, tag, attrs):
        self.start(tag, attrs, '>')
        if tag not in VOID:
            self.stack.append(tag)

    def handle_startendtag(self, tag, attrs):
        self.start(tag, attrs, ' />')

    def handle_endtag(self, tag):
        if self.stack and self.stack[-1] == 'script' and tag != 'script':
            self.out.append('</%s>' % tag)
            return
        if tag in VOID or tag not in self.stack:
            self.refused = True
            return
        while True:
            t = self.stack.pop()
            self.out.append('</%s>' % t)
            if t == tag:
                break

    def handle_data(self, data):
        self.out.append(data)

    def handle_entityref(self, name):
        self.out.append('&%s;' % name)

    def handle_charref(self, name):
        self.out.append('&#%s;' % name)

    def handle_comment(self, data):
        self.out.append('<!--%s-->' % data)

    def handle_decl(self, data):
        self.out.append('<!%s>' % data)

    def handle_pi(self, data):
        self.out.append('<?%s>' % data)

    def unknown_decl(self, data):
        self.out.append('<![%s]>' % (data + ']' if data.startswith('CDATA[')
                                     else data))
