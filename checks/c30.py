"""Inline server scripts are run once with their exact source."""
import re

from checks.common import TRACE
from checks.common import standard
from harness import sut
from harness.engine import Engine
from harness.obs import Violation
from harness.obs import clip
from harness.obs import say

ID = 'C30'
LEVEL = 'exploration'
RULE = ('Templates are composed of server scripts with hostile texts, script '
        'statements, other scripts and elements with conditions, loops, '
        'definitions, error handlers, macros and slots; each part carries '
        'its own expectation of the code handed to the engine, with '
        'language and visible variables, and of the output.  The calls and '
        'the output of the real renderer are compared. ' + TRACE +
        'Non-trivial: at least one script ran; distinct by code and output.')
REQUIRED = ('html', 'xml', 'server scripts run', 'script statements run',
            'other scripts', 'in loops', 'not reached', 'failed', 'handled',
            'on-error on script', 'repeat on script', 'condition on script',
            'define on script', 'in macro', 'in slot', 'markup in code',
            'end tag in code', 'comment in code', 'entity in code',
            'line break in code', 'empty code', 'hostile output')
CPU = 60

NS = ('xmlns:tal="http://xml.zope.org/namespaces/tal" '
      'xmlns:metal="http://xml.zope.org/namespaces/metal" '
      'xmlns:i18n="http://xml.zope.org/namespaces/i18n"')

TYPES = ('text/server-python', 'text/server-x', 'text/server-',
         'text/server-python;v=1', 'text/server-a.b', 'text/server-PY')
LANGS = TYPES + ('python', 'text/javascript', 'x', 'a b')
OTHER = ('', ' type="text/javascript"', ' type="text/server"',
         ' type="module"', ' type=""', ' type', ' src="a.js"',
         ' type="text/python-server-"', ' type="application/server-python"',
         ' language="text/server-python"', ' data-type="text/server-x"',
         ' type="text/servers-python"', ' type="text/serve"')
RAW = ('a', 'x = 1', ' ', '  ', '\t', '\n', '\n', '\n  ', '<', '>', '&', ';',
       '&&', '"', "'", '"""', '</', '</scr', '</b>', '</div>', '</p>',
       '<b>', '<br/>', '<p tal:content="v:q">', '<tal:block replace="v:q"/>',
       'if a < b:', 'a<b', '<!--', '-->', '<!-- c -->', '<?pi?>', '<?', '?>',
       '<![CDATA[', ']]>', ']]', '&amp;', '&lt;', '&#65;', '&x', '&amp',
       '${a}', '%(a)s', '%s', '\\', '\\n', 'é', '☃', '\U0001f600',
       '\xa0', '<!DOCTYPE x>', '<a href="', '$', '{', '#', '# c',
       '</style>', '</body>', '</html>', '<img>', '</img>', '</br>')
HTEXT = ('a', 'x = 1', ' ', '\n', '\n  ', '  ', '&amp;', '&lt;', '&#65;',
         '<b>c</b>', '<!-- c -->', '"', "'", ';', 'print', '${a}', '%s',
         'é', '☃', '<i class="z">n<b>m</b></i>', '&gt;', '<br>', '=',
         '\t', '\\', '<b id="1"></b>', '\xa0')
XTEXT = tuple(x for x in HTEXT if x not in ('<br>', '<b id="1"></b>')) + (
    '<![CDATA[a<b && c]]>', '<?pi x?>', '<br/>', '<Z>q</Z>', '&quot;')
OUTPUTS = ('', 'out', '<b>o</b>', 'a & b < c > d "e"', '</div>', '<!--',
           '&amp;', ' \n lead', 'é☃', '${a}', '\\1', '%s',
           '<script type="text/server-x">no</script>', '\n')


class ScriptError(Exception):
    pass


class Engine30(Engine):
    outputs = ()

    def evaluateCode(self, language, code):
        self.event('code', (language, code))
        n = sum(e[0] == 'code' for e in self.trace) - 1
        if 'BOOM' in code:
            raise ScriptError(code)
        return self.outputs[n % len(self.outputs)]


class Want:
    """What is expected to happen."""

    def __init__(self, outputs, obs):
        self.outputs = outputs
        self.obs = obs
        self.code = []
        self.out = []
        self.handled = 0
        self.loops = 0
        self.where = []

    def run(self, language, code, env):
        self.code.append((language, code, dict(env)))
        n = len(self.code) - 1
        if self.loops:
            self.obs.count('in loops')
        for w in self.where:
            self.obs.count(w)
        if 'BOOM' in code:
            self.obs.count('failed')
            raise ScriptError(code)
        o = self.outputs[n % len(self.outputs)]
        if '<' in o:
            self.obs.count('hostile output')
        self.out.append(o)


class Make:
    def __init__(self, r, obs, xml):
        self.r = r
        self.obs = obs
        self.xml = xml
        self.n = 0
        self.left = r.choice((4, 8, 14))
        self.macros = []
        self.inmacro = False

    def q(self, value):
        """Quote an attribute value as it may be written."""
        r = self.r
        if self.xml or r.random() < .6:
            return '"%s"' % value
        if r.random() < .5 or not re.match(r'[-\w./:#]+$', value):
            return "'%s'" % value
        return value

    def body(self, pieces):
        r = self.r
        n = r.choice((0, 1, 1, 2, 3, 5, 9))
        while True:
            s = ''.join(r.choice(pieces) for _ in range(n))
            if r.random() < .12:
                k = r.randrange(len(s) + 1) if pieces is RAW else 0
                s = s[:k] + 'BOOM' + s[k:]
            if pieces is not RAW or self.raw_ok(s):
                break
        self.note(s)
        return s

    @staticmethod
    def raw_ok(s):
        low = s.lower()
        return '</script' not in low and '<script' not in low

    def note(self, s):
        o = self.obs
        if not s:
            o.count('empty code')
        for k, what in (('<b', 'markup in code'), ('</', 'end tag in code'),
                        ('<!--', 'comment in code'),
                        ('&', 'entity in code'), ('\n', 'line break in code')):
            if k in s:
                o.count(what)

    # each returns (source, function(want, env))
    def text(self):
        r = self.r
        t = r.choice(('t', 'u', '\n.', ' w', 'x;y', '\n  "', 'é'))
        return t, lambda w, env: w.out.append(t)

    def other(self):
        if self.xml:
            s = '<script type="%s">%s</script>' % (
                self.r.choice(TYPES), self.r.choice(('a', 'b &lt; c')))
        else:
            s = '<script%s>%s</script>' % (self.r.choice(OTHER),
                                           self.body(RAW))
        self.obs.count('other scripts')
        return s, lambda w, env: w.out.append(s)

    def statements(self, what):
        """Some statements for an element, and what they do around inner().

        tag(text) writes the element with other contents."""
        r = self.r
        stm = []
        self.n += 1
        name = 'v%d' % (self.n % 4)
        define = condition = repeat = handler = None
        if r.random() < .3:
            define = 'd%d' % self.n
            stm.append('tal:define="%s s:%s"' % (name, define))
            if what:
                self.obs.count('define on ' + what)
        if r.random() < .3:
            condition = r.choice((True, True, False))
            stm.append('tal:condition="%s:"' % 'ft'[condition])
            if what:
                self.obs.count('condition on ' + what)
        if r.random() < .25:
            k = r.choice((0, 1, 2, 3))
            repeat = ['%d%s' % (self.n, c) for c in 'xyz'[:k]]
            stm.append('tal:repeat="%s q:%s"' % (name, ','.join(repeat)))
            if what:
                self.obs.count('repeat on ' + what)
        if r.random() < .25:
            handler = 'h%d' % self.n
            stm.append('tal:on-error="s:%s"' % handler)
            if what:
                self.obs.count('on-error on ' + what)

        def around(w, env, inner, tag):
            start = len(w.out)
            try:
                e = dict(env)
                if define is not None:
                    e[name] = define
                if condition is False:
                    w.obs.count('not reached')
                    return
                if repeat is None:
                    inner(w, e)
                    return
                w.loops += 1
                try:
                    for item in repeat:
                        e[name] = item
                        inner(w, e)
                finally:
                    w.loops -= 1
            except ScriptError:
                if handler is None:
                    raise
                del w.out[start:]
                w.handled += 1
                w.obs.count('handled')
                w.out.append(tag(handler))
        return stm, around

    def attrs(self):
        r = self.r
        return r.sample(('id="i"', 'class="c d"', 'title="1 &lt; 2"',
                         'lang="en"'), r.choice((0, 0, 0, 1, 2)))

    def server(self):
        """<script type="text/server-..."> (HTML only)"""
        r = self.r
        language = r.choice(TYPES)
        code = self.body(RAW)
        stm, around = self.statements('script')
        own = self.attrs()
        key = r.choice(('type', 'type', 'type', 'TYPE', 'Type'))
        all_ = stm + own
        all_.insert(r.randrange(len(all_) + 1),
                    '%s=%s' % (key, self.q(language)))
        if r.random() < .15:
            all_.append(r.choice(('tal:omit-tag=""', 'defer',
                                  'src="text/server-x"')))
            if not all_[-1].startswith('tal'):
                own = own + [all_[-1]]
        own = sorted(own, key=all_.index)
        tag = r.choice(('script', 'script', 'script', 'SCRIPT', 'Script'))
        sep = r.choice((' ', ' ', '\n ', '  '))
        s = '<%s%s%s>%s</%s>' % (
            tag, sep, sep.join(all_), code,
            r.choice((tag, tag, 'script', 'SCRIPT')))

        def inner(w, env):
            w.run(language, code, env)
            w.obs.count('server scripts run')

        def tagged(text):
            return '<%s>%s</script>' % (' '.join(['script'] + own), text)
        return s, lambda w, env: around(w, env, inner, tagged)

    def statement(self):
        """An element with a script statement."""
        r = self.r
        language = r.choice(LANGS)
        tag = r.choice(('div', 'b', 'span', 'foo', 'tal:block'))
        if not self.xml and r.random() < .2:
            tag = r.choice(('script', 'style'))
        pieces = XTEXT if self.xml else HTEXT
        code = self.body(RAW if tag == 'script' else
                         ('a', 'b\n', ' ', 'é') if tag == 'style'
                         else pieces)
        stm, around = self.statements('script')
        if tag == 'tal:block':
            own = []
            if r.random() < .5:
                stm = [x[4:] for x in stm]
                stm.append('script="%s"' % language)
            else:
                stm.append('tal:script="%s"' % language)
        else:
            own = self.attrs()
            stm.append('tal:script=%s' % self.q(language))
            if r.random() < .2:
                stm.append('tal:omit-tag=""')
        all_ = stm + own
        r.shuffle(all_)
        own = sorted(own, key=all_.index)
        bare = tag == 'tal:block' or 'tal:omit-tag=""' in stm
        s = '<%s %s>%s</%s>' % (tag, ' '.join(all_), code, tag)
        start = '<%s>' % ' '.join([tag] + own)

        def inner(w, env):
            if not bare:
                w.out.append(start)
            w.run(language, code, env)
            w.obs.count('script statements run')
            if not bare:
                w.out.append('</%s>' % tag)

        def tagged(text):
            if tag == 'tal:block':
                return text
            return '%s%s</%s>' % (start, text, tag)
        return s, lambda w, env: around(w, env, inner, tagged)

    def element(self):
        r = self.r
        stm, around = self.statements(None)
        own = self.attrs()
        all_ = stm + own
        r.shuffle(all_)
        own = sorted(own, key=all_.index)
        tag = r.choice(('div', 'em', 'foo'))
        if tag != 'div':
            src, run = self.nodes(False)
        else:
            src, run = self.nodes()
        s = '<%s>%s</%s>' % (' '.join([tag] + all_), src, tag)
        start = '<%s>' % ' '.join([tag] + own)

        def inner(w, env):
            w.out.append(start)
            run(w, env)
            w.out.append('</%s>' % tag)

        def tagged(text):
            return '<%s>%s</%s>' % (' '.join([tag] + own), text, tag)
        return s, lambda w, env: around(w, env, inner, tagged)

    def use(self):
        """A macro with a slot, used and filled."""
        r = self.r
        if not self.macros:
            return self.element()
        name, head, run0, slot, tail, run1 = r.choice(self.macros)
        fill = r.random() < .6
        outer, self.inmacro = self.inmacro, True
        src, run = self.nodes()
        self.inmacro = outer
        if fill:
            s = ('<div metal:use-macro="mac:%s">a<i metal:fill-slot="s">%s'
                 '</i></div>' % (name, src))
        else:
            s = '<div metal:use-macro="mac:%s">%s</div>' % (name, src)

        def go(w, env):
            w.where.append('in macro')
            env = dict(env, macroname='mac:' + name)
            try:
                w.out.append('<u>' + head)
                run0(w, env)
                if fill:
                    w.where.append('in slot')
                    try:
                        w.out.append('<i>')
                        run(w, env)
                        w.out.append('</i>')
                    finally:
                        w.where.pop()
                else:
                    w.out.append('<s>d</s>')
                w.out.append(tail)
                run1(w, env)
                w.out.append('</u>')
            finally:
                w.where.pop()
        return s, go

    def nodes(self, blocks=True):
        r = self.r
        parts = [('x', lambda w, env: w.out.append('x'))]
        for _ in range(r.choice((1, 1, 2, 3))):
            if self.left <= 0:
                break
            self.left -= 1
            k = r.random()
            if k < .15:
                p = self.text()
            elif k < .27:
                p = self.other()
            elif k < .52:
                p = self.statement() if self.xml else self.server()
            elif k < .67:
                p = self.statement()
            elif k < .78 and not self.inmacro and blocks:
                p = self.use()
            else:
                p = self.element()
            parts.append(p)
        src = ''.join(p[0] for p in parts)

        def run(w, env):
            for p in parts:
                p[1](w, env)
        return src, run

    def library(self):
        out = []
        for k in range(self.r.choice((0, 1, 2))):
            self.inmacro = True
            name = 'm%d' % k
            s0, run0 = self.nodes(False)
            s1, run1 = self.nodes(False)
            self.inmacro = False
            self.macros.append((name, '1', run0, 's', '2', run1))
            out.append('<u metal:define-macro="%s">1%s<s metal:define-slot='
                       '"s">d</s>2%s</u>' % (name, s0, s1))
        return ''.join(out)


def direct(r, obs, i):
    xml = i % 3 == 2
    m = Make(r, obs, xml)
    lib = m.library()
    m.left = max(m.left, 4)
    src, run = m.nodes()
    outputs = [r.choice(OUTPUTS) for _ in range(r.choice((1, 3)))]
    if xml:
        src = '<root %s>%s</root>' % (NS, src)
        lib = '<root %s>%s</root>' % (NS, lib)
    want = Want(outputs, obs)
    failed = False
    try:
        run(want, {})
    except ScriptError:
        failed = True
    expected = ''.join(want.out)
    if xml:
        expected = '<root>%s</root>' % expected
    detail = {'template': src, 'library': lib, 'xml': xml}
    try:
        _, macros = sut.compile_source(lib, xml, file='lib.pt')
        program, own = sut.compile_source(
            src, xml, file=r.choice((None, 'main.pt')))
    except Exception as exc:
        raise Violation('correct template refused', error=say(exc), **detail)
    obs.count('xml' if xml else 'html')
    engine = Engine30(macros)
    engine.outputs = outputs
    stream = sut.Stream()
    error = None
    try:
        sut.render(program, own, engine, stream,
                   strictinsert=r.randrange(2))
    except ScriptError:
        error = 'ScriptError'
    except Exception as exc:
        raise Violation('rendering fails', error=say(exc), **detail)
    obs.ev()
    got = [e[1] + (dict(e[4]),) for e in engine.trace if e[0] == 'code']
    code = [(a, b, {k: repr(v) for k, v in c.items()})
            for a, b, c in want.code]
    if got != code:
        n = 0
        while n < min(len(got), len(code)) and got[n] == code[n]:
            n += 1
        raise Violation('code handed to the engine not as expected',
                        at=n, expected=code[n:n + 1], observed=got[n:n + 1],
                        expected_calls=len(code), observed_calls=len(got),
                        **detail)
    if (error is not None) != failed:
        raise Violation('outcome not as expected', expected_failure=failed,
                        observed=error, **detail)
    if len(engine.errors) != want.handled:
        raise Violation('handled errors not as expected',
                        expected=want.handled, observed=engine.errors,
                        **detail)
    if engine.problems or not failed and len(engine.scopes) != 1:
        raise Violation('engine left unbalanced', problems=engine.problems,
                        **detail)
    out = stream.getvalue()
    if xml:
        out = re.sub(r'^<root( xmlns:\w+="[^"]*")+>', '<root>', out)
    if not failed and out != expected:
        raise Violation('output not as expected', expected=clip(expected),
                        observed=clip(out), **detail)
    if code:
        obs.seen(code, out)
        obs.sample(template=clip(src, 400), output=clip(out, 300),
                   code=[clip(repr(c[:2]), 100) for c in code[:4]])


PROFILE = dict(define=.2, condition=.2, repeat=.2, content=.08, replace=.04,
               attributes=.15, omit=.15, translate=.06, name=.3, domain=.05,
               metal=.2, onerror=.15, error=.04, script=.3, pre=0)

FAMILIES = [
    ('texts', direct, 120000, 300000),
    ('programs', standard(PROFILE, libs=(0, 1), fields=(0, 1, 4)),
     24000, 60000),
]
