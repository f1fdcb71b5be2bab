"""Statement arguments are split and read correctly."""
from html import escape

from harness import lang
from harness import sut
from harness.engine import Engine
from harness.obs import Violation
from harness.obs import clip
from harness.obs import say

ID = 'C27'
LEVEL = 'exploration'
RULE = ('Statements are written from lists of (keyword, name, expression) '
        'with random separators, white space and expression texts; a '
        'recording compiler collects the expressions it is given, and a '
        'recording engine the names and scopes that are set, the attributes '
        'and insertions seen in the output.  Non-trivial: an expression '
        'that is not a plain word, or more than one part; distinct by '
        'template.')
REQUIRED = ('define', 'attributes', 'repeat', 'content', 'replace',
            'condition', 'omit-tag', 'on-error handled', 'i18n:data',
            'i18n:attributes', 'use-macro', 'literal semicolon',
            'trailing semicolon', 'line break', 'keyword inside', 'html',
            'xml', 'structure', 'global', 'statement element',
            'keyword as name', 'near keyword', 'grown')

WORDS = ('a', 'x/y', 'python:1', 'text', 'structure', 'global', 'local', ';',
         ';', ';;', '"', "'", '<', '>', '&', '&amp;', '&#59;', '|', '${x}',
         '$x', '\\', 'é', '中', '#', ':', '=', '%s', '{', ')', '-->',
         'string:', 'not', '/', '?', '*', ' ', 'text:', '.', ',', '0',
         '_', '�', '\U0001f600', ']]>', '&lt;', '@')
NEAR = ('textual', 'structured', 'Structure', 'TEXT', 'globals', 'localx',
        'text:', 'structure;', 'text/x', 'structure|y', 'global', 'local',
        'global:', 'text-', 'structure_', 'tex', 'struct', 'structure-x')
NAMES = ('a', 'Name', '_x', 'a-b', 'x9', 'text', 'structure', 'globals',
         'local-', 'LOCAL', 'Global', 'define', 'not', '__', 'a_B-9',
         'localname', 'global_')
MORE = tuple('more%d' % i for i in range(90))
ATTRS = ('href', 'x', 'a-b', 'data.y', 'text', 'structure', 'global', 'xml:q',
         'z1', '_u', 'title', 'class', 'local')
SPACE = ('', '', '', ' ', '  ', '\n', '\t', ' \n  ')
GAP = (' ', ' ', ' ', '  ', '\n', '\t', ' \n\t ')


class Engine27(Engine):
    def __init__(self, table, macros):
        Engine.__init__(self, macros)
        self.table = table
        self.seen = []
        self.sets = []

    def _expr(self, ce, kind):
        key = ce.expr.strip()
        self.seen.append(key)
        if key not in self.table:
            raise Violation('unexpected expression evaluated', expression=key)
        value = self.table[key]
        if isinstance(value, Exception):
            raise value
        return value

    def setLocal(self, name, value, quiet=False):
        if name not in ('attrs', 'error', 'macroname'):
            self.sets.append(('local', name, value))
        Engine.setLocal(self, name, value, quiet)

    def setGlobal(self, name, value):
        self.sets.append(('global', name, value))
        Engine.setGlobal(self, name, value)


class Recorder:
    def __init__(self):
        self.compiled = []

    def __len__(self):
        # so that it is false until it is used
        return len(self.compiled)

    def getCompilerError(self):
        return lang.BadExpression

    def compile(self, expr):
        self.compiled.append(expr)
        return lang.CE(expr)


class Writer:
    def __init__(self, r, xml, obs):
        self.r = r
        self.xml = xml
        self.obs = obs
        self.n = 0
        self.table = {}

    def expr(self, value, first=()):
        """An expression text not used before; evaluates to value."""
        r = self.r
        self.n += 1
        words = [r.choice(WORDS) for i in range(
            r.choice((0, 0, 1, 2, 4, 9, 9 + 60 * (r.random() < .03))))]
        words.insert(r.randint(0, len(words)), 'k%d_' % self.n)
        text = ''
        for w in words:
            text += w + (r.choice(GAP) if r.random() < .4 else '')
        if r.random() < .05:
            text = text.replace(' ', '\0', 1) if not self.xml else text
        text = text.strip()
        w = text.split(None, 1)
        if len(w) > 1 and w[0] in ('text', 'structure'):
            text = 'q' + text
        if r.random() < .15:
            near = r.choice(NEAR)
            if near not in ('text', 'structure', 'global', 'local'):
                text = near + ' ' + text
                self.obs.count('near keyword')
        if '\n' in text:
            self.obs.count('line break')
        if any(k in text[1:] for k in ('text', 'structure', 'global')):
            self.obs.count('keyword inside')
        self.table[text] = value
        return text

    def value(self):
        return 'V%d.' % self.n

    def double(self, text):
        if ';' in text:
            self.obs.count('literal semicolon')
        return text.replace(';', ';;')

    def pad(self, s):
        return self.r.choice(SPACE) + s + self.r.choice(SPACE)

    def join(self, parts):
        r = self.r
        s = ''
        for i, p in enumerate(parts):
            if i:
                s += ';'
            s += r.choice(SPACE) + p + r.choice(SPACE)
        if r.random() < .3:
            self.obs.count('trailing semicolon')
            s += ';' + r.choice(SPACE)
        return s

    def attr(self, name, value):
        q = self.r.choice('"\'') if not self.xml or '"' in value else '"'
        s = escape(value, quote=False)
        s = s.replace(q, '&quot;' if q == '"' else '&#39;')
        if self.xml:
            s = s.replace('\n', '&#10;').replace('\t', '&#9;')
        elif self.r.random() < .2:
            s = s.replace(';', '&#59;').replace('&lt&#59;', '&lt;').replace(
                '&gt&#59;', '&gt;').replace('&amp&#59;', '&amp;').replace(
                '&quot&#59;', '&quot;').replace('&#39&#59;', '&#39;')
        return ' %s=%s%s%s' % (name, q, s, q)

    def defines(self, n):
        r = self.r
        parts, sets = [], []
        for name in r.sample(NAMES + MORE * (n > 3), n):
            kw = r.choice(('', '', 'local', 'global'))
            if kw:
                if r.random() < .15:
                    name = r.choice(('global', 'local'))
                    self.obs.count('keyword as name')
                if kw == 'global':
                    self.obs.count('global')
            value = 'D%d.' % self.n
            e = self.expr(value)
            parts.append((kw + r.choice(GAP) if kw else '') + name
                         + r.choice(GAP) + self.double(e))
            sets.append((kw or 'local', name, value))
        return self.join(parts), sets

    def attributes(self, n):
        r = self.r
        parts, out = [], []
        for name in r.sample(ATTRS, n):
            value = 'A%d.' % self.n
            e = self.expr(value)
            if not self.xml and r.random() < .2:
                parts.append(name.upper() + r.choice(GAP) + self.double(e))
            else:
                parts.append(name + r.choice(GAP) + self.double(e))
            out.append(' %s="%s"' % (name, value))
        return self.join(parts), out

    def subst(self, e):
        """(written argument, is structure)"""
        kw = self.r.choice(('', '', 'text', 'structure', 'structure'))
        if kw == 'structure':
            self.obs.count('structure')
        return self.pad((kw + self.r.choice(GAP) if kw else '') + e), \
            kw == 'structure'


def shown(value, structure):
    return value if structure else escape(value, quote=False)


def run(source, w, obs, sets, out, compiled, forbidden=(), macro=None):
    table = w.table
    rec = Recorder()
    detail = dict(source=source, xml=w.xml)
    try:
        program, macros = sut.compile_source(source, w.xml, rec)
    except Exception as exc:
        raise Violation('correct statements refused', error=say(exc),
                        **detail)
    got = sorted({e.strip() for e in rec.compiled})
    want = sorted(compiled)
    if got != want:
        raise Violation('expressions handed to the compiler not as written',
                        expected=want, observed=got, **detail)
    for e in rec.compiled:
        if e[:1] in ' \t\n' and e.strip() in w.strip_left:
            raise Violation('expression with leading white space',
                            observed=e, **detail)
    if macro:
        table[macro] = macros['m']
    eng = Engine27(table, macros)
    try:
        text = sut.render(program, macros, eng)
    except Violation as v:
        v.detail.update(detail)
        raise
    obs.ev()
    if eng.sets != sets:
        raise Violation('variables not set as written', expected=sets,
                        observed=eng.sets, **detail)
    for o in out:
        if o not in text:
            raise Violation('expected part missing in output', part=o,
                            output=clip(text), **detail)
    for o in forbidden:
        if o in text:
            raise Violation('unexpected part in output', part=o,
                            output=clip(text), **detail)
    obs.seen(source)
    obs.sample(template=clip(source, 400), output=clip(text, 200),
               expressions=[clip(e, 80) for e in rec.compiled[:4]])
    return eng, text


def statements(r, obs, i):
    xml = bool(i % 2)
    obs.count('xml' if xml else 'html')
    w = Writer(r, xml, obs)
    w.strip_left = set()
    stm, sets, out, forbidden = [], [], [], []
    handled = r.random() < .2
    element = r.random() < .2
    pre = '' if element else 'tal:'
    if element:
        obs.count('statement element')
    if r.random() < .6:
        n = r.choice((1, 1, 2, 3))
        if r.random() < .02:
            n = r.choice((12, 30, 70))
            obs.count('grown')
        s, d = w.defines(n)
        w.strip_left.update(w.table)
        stm.append((pre + 'define', s))
        sets += d
        obs.count('define')
    if r.random() < .3:
        e = w.expr(True)
        stm.append((pre + 'condition', w.pad(e)))
        obs.count('condition')
    if r.random() < .3:
        name = r.choice(NAMES + ('global', 'local'))
        e = w.expr(['i0.', 'i1.'][:r.randint(1, 2)])
        w.strip_left.add(e)
        stm.append((pre + 'repeat', r.choice(SPACE) + name + r.choice(GAP)
                    + e + r.choice(SPACE)))
        sets += [('local', name, v) for v in w.table[e]]
        obs.count('repeat')
    which = 'replace' if not element and r.random() < .25 else 'content'
    value = '<i>C%d.</i>' % w.n
    e = w.expr(lang.Boom('x') if handled else value)
    s, structure = w.subst(e)
    w.strip_left.add(e)
    stm.append((pre + which, s))
    obs.count(which)
    if not handled:
        out.append(shown(value, structure))
    if which == 'content' and not element:
        if r.random() < .6:
            s, o = w.attributes(r.choice((1, 1, 2, 3)))
            w.strip_left.update(k for k, v in w.table.items()
                                if isinstance(v, str) and v[0] == 'A')
            stm.append(('tal:attributes', s))
            if not handled:
                out += o
            obs.count('attributes')
        if r.random() < .2:
            e = w.expr(False)
            stm.append(('tal:omit-tag', w.pad(e)))
            obs.count('omit-tag')
    if handled or r.random() < .2:
        value = '<i>E%d.</i>' % w.n
        e = w.expr(value)
        s, structure = w.subst(e)
        w.strip_left.add(e)
        stm.append((pre + 'on-error', s))
        if handled:
            out.append(shown(value, structure))
            obs.count('on-error handled')
    r.shuffle(stm)
    compiled = list(w.table)
    if handled:
        # The first item of a loop fails.
        n = [v for v in w.table.values() if isinstance(v, list)]
        if n:
            sets = sets[:len(sets) - len(n[0]) + 1]
    attrs = ''.join(w.attr(k, v) for k, v in stm)
    if element:
        doc = '<tal:b%s>body</tal:b>' % attrs
    else:
        doc = '<p%s>body</p>' % attrs
    if xml:
        doc = '<r xmlns:tal="http://xml.zope.org/namespaces/tal">%s</r>' % doc
    forbidden.append('body')
    run(doc, w, obs, sets, out, compiled, forbidden)


def i18n(r, obs, i):
    """i18n:attributes, i18n:data and use-macro."""
    xml = bool(i % 2)
    w = Writer(r, xml, obs)
    w.strip_left = set()
    ids = ['m%d' % k + r.choice(('', '.x', '&', '"', '/', 'é', ':', '#',
                                 '$')) for k in range(4)]
    names = r.sample(ATTRS, r.choice((1, 2, 3)))
    parts, out = [], []
    static = ''
    for name, mid in zip(names, ids):
        value = 'value%d' % len(out)
        static += ' %s="%s"' % (name, value)
        spelt = name.upper() if not xml and r.random() < .2 else name
        if r.random() < .6:
            parts.append(spelt + r.choice(GAP) + mid)
            out.append((name, mid))
        else:
            parts.append(spelt)
            out.append((name, value))
    obs.count('i18n:attributes')
    args = w.attr('i18n:attributes', w.join(parts))
    data = None
    if r.random() < .5:
        data = w.expr({'k': 'v'})
        kw = r.choice(('', '', 'text' + r.choice(GAP)))
        args += w.attr('i18n:translate', 'msg%d' % i)
        args += w.attr('i18n:data', w.pad(kw + data))
        obs.count('i18n:data')
    compiled = list(w.table)
    macro = None
    doc = '<p%s%s>body</p>' % (static, args)
    if r.random() < .4:
        macro = w.expr(None)
        obs.count('use-macro')
        compiled.append(macro)
        doc += '<b metal:use-macro=""/>'.replace(
            ' metal:use-macro=""', w.attr('metal:use-macro', w.pad(macro))
        ).replace('/>', '></b>')
        doc += '<u metal:define-macro="m">shown</u>'
    if xml:
        doc = ('<r xmlns:tal="http://xml.zope.org/namespaces/tal" '
               'xmlns:metal="http://xml.zope.org/namespaces/metal" '
               'xmlns:i18n="http://xml.zope.org/namespaces/i18n">%s</r>'
               % doc)
    eng, text = run(doc, w, obs, [], [], compiled, macro=macro)
    asked = [e[1][1] for e in eng.trace if e[0] == 'translate']
    want = [m for n, m in out] + (['msg%d' % i] if data else [])
    if asked != want:
        raise Violation('translations not asked as written', expected=want,
                        observed=asked, source=doc)
    if data:
        m = [e for e in eng.trace if e[0] == 'translate'][-1]
        if m[7] != (('k', 'v'),) or data not in eng.seen:
            raise Violation('i18n:data not handed over', source=doc,
                            observed=repr(m))
    for n, m in out:
        t = ' %s="%s"' % (n, escape('[default|%s]' % m.swapcase()))
        if t not in text:
            raise Violation('translated attribute missing', part=t,
                            output=clip(text), source=doc)
    if macro and text.count('shown') != 2:
        raise Violation('macro not used', output=clip(text), source=doc)


FAMILIES = [('statements', statements, 180000, 900000),
            ('i18n', i18n, 80000, 400000)]
