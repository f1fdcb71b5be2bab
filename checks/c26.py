"""The bundled engine evaluates, scopes, repeats and translates."""
import os
import shutil
import sys
import tempfile

from zope.i18nmessageid import Message
from zope.tal.dummyengine import DummyEngine
from zope.tal.dummyengine import MultipleDomainsDummyEngine
from zope.tal.htmltalparser import HTMLTALParser
from zope.tal.taldefs import TALExpressionError
from zope.tal.talgenerator import TALGenerator

from harness import sut
from harness.obs import Violation
from harness.obs import clip

ID = 'C26'
LEVEL = 'exploration'
RULE = ('Random histories of calls on the bundled engine (scopes, variables, '
        'expressions of every type, several loop iterators at once, '
        'translations, code, macros, positions) run next to a separately '
        'written model; every answer and every exception is compared.  '
        'Non-trivial: a history with more than ten calls; distinct by its '
        'calls and answers.')
REQUIRED = ('string', 'path', 'not', 'exists', 'python', 'position',
            'unknown type', 'unknown variable', 'python failed', 'local',
            'global', 'shadowed', 'scope closed', 'next', 'exhausted',
            'translated', 'placeholder', 'message', 'string method',
            'recorded', 'code', 'code failed', 'macro', 'file macro',
            'macro missing', 'rendered', 'text of object', 'other domain',
            'unknown message', 'error information', 'code sees variables')

UNKNOWN = object()
DEFAULT = object()
NAMES = ('a', 'b', 'c', 'nothing', 'default', 'x-y', 'A', 'a_1')
FIRST = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_')
REST = FIRST | set('0123456789-')


class Obj:
    def __init__(self, n):
        self.n = n

    def __str__(self):
        return 'obj<%d>' % self.n

    def __repr__(self):
        return 'Obj(%d)' % self.n


class Seq:
    """A sequence with nothing but indexing."""

    def __init__(self, items):
        self.items = items

    def __getitem__(self, i):
        return self.items[i]

    def __repr__(self):
        return 'Seq(%r)' % (self.items,)


class Broken(Seq):
    """Fails after its last item."""

    def __getitem__(self, i):
        if i >= len(self.items):
            raise (KeyError, LookupError, StopIteration)[i % 3](i)
        return self.items[i]


class Expr(Exception):
    """The model expects the engine's expression error."""


class Model:
    def __init__(self):
        self.scopes = [{}]
        self.globals = {'nothing': None, 'default': DEFAULT}
        self.pos = None
        self.file = None
        self.asked = {}

    def find(self, name):
        for s in reversed(self.scopes):
            if name in s:
                return s[name]
        return self.globals.get(name, UNKNOWN)

    def evaluate(self, text, obs):
        head, sep, rest = text.partition(':')
        if not (sep and head and head[0] in FIRST and set(head) <= REST):
            head, rest = 'path', text
        if head in ('string', 'str'):
            obs.count('string')
            return rest
        if head in ('path', 'var', 'global', 'local'):
            v = self.find(rest.strip())
            if v is UNKNOWN:
                obs.count('unknown variable')
                raise Expr()
            obs.count('path')
            return v
        if head == 'not':
            obs.count('not')
            return not self.evaluate(rest, obs)
        if head == 'exists':
            obs.count('exists')
            return self.find(rest) is not UNKNOWN
        if head == 'python':
            env = {k: v for k, v in self.globals.items()}
            for s in self.scopes:
                env.update(s)
            try:
                v = eval(rest, {}, env)
            except BaseException:
                obs.count('python failed')
                raise Expr()
            obs.count('python')
            return v
        if head == 'position':
            obs.count('position')
            line, col = self.pos or (None, None)
            return '%s (%s,%s)' % (self.file, line, col)
        obs.count('unknown type')
        raise Expr()

    def translate(self, obs, msgid, domain, mapping, default, multi):
        if multi and domain == LONG and not isinstance(msgid, Message):
            obs.count('other domain')
            domain = 'lower'
        if isinstance(msgid, Message):
            obs.count('message')
            domain, mapping = msgid.domain, msgid.mapping
            default = msgid.default
            if default is None:
                default = msgid
        text = str(msgid)
        if text == "don't translate me":
            obs.count('unknown message')
            text = str(default)
        elif domain in METHODS:
            text = getattr(text, domain)()
            obs.count('string method')
        else:
            domain = 'default'
            text = text.upper()
        self.asked.setdefault(domain, []).append((str(msgid), mapping))
        out = ''
        i = 0
        while i < len(text):
            if text[i] != '$':
                out += text[i]
                i += 1
                continue
            j = i + 1
            brace = text[j:j + 1] == '{'
            j += brace
            k = j
            if text[k:k + 1] in FIRST and text[k:k + 1]:
                k += 1
                while k < len(text) and (text[k] in '-_'
                                         or text[k].isalnum()):
                    k += 1
            if k == j or (brace and text[k:k + 1] != '}'):
                out += '$'
                i += 1
                continue
            out += str(mapping[text[j:k].lower()])
            obs.count('placeholder')
            i = k + brace
        return out


METHODS = ('upper', 'lower', 'title', 'capitalize', 'swapcase', 'strip',
           'casefold')
LONG = ('a_very_explicit_domain_setup_by_template_developer_that_wont_be_'
        'taken_into_account_by_the_ZPT_engine')
LONGNAME = 'a-b_' * 20
MSGS = ('hello', 'Hello World', '${a}', 'x $b y', '${a}${b}', '$a-b', '${a',
        '$', '$$a', '${A} and $B', '', 'é ß ${c}', '$1', '${1}', '$ {a}',
        "don't translate me", '${a} ${a}', '{a}', ' pad ', '%s %(a)s', '\\1',
        '$a.', '${a}}',
        'x\n${b}\ny', '$_x', 'ſ ﬁ', '${%s} x' % LONGNAME, 'a $b ' * 90,
        '$' + LONGNAME)
MAPS = ({'a': 'V1', 'b': 2, 'c': None, 'a-b': 'AB', '_x': '$a'},
        {'a': '${b}', 'b': '<b>', 'c': 'é', 'a-b': '\\1', '_x': ''},
        {'a': '', 'b': Obj(3), 'c': 'c', 'a-b': [1], '_x': 'u', 'zz': 1},
        {'a': 'x' * 300, 'b': 'y', 'c': 'z', 'a-b': 'd', '_x': 'e'})
for i in range(len(MAPS)):
    MAPS[i][LONGNAME] = 'L%d' % i
PYTHON = ('a', 'a + b', '1', '[1, 2]', 'len(a)', 'nothing', '1/0', 'zz', '(',
          'a == b', 'not a', "'x' + a", ' b', 'default', '{}', 'sum([1,2])',
          "exec('raise KeyError')", 'a\n+ b')
CODE = (('print("x")', 'x\n', {}), ('v = 1\nprint(v)', '1\n', {'v': 1}),
        ('', '', {}), ('  print("<b>&")', '<b>&\n', {}),
        ('<!-- print(2) -->', None, {}), ('b = "new"', '', {'b': 'new'}),
        ('<!--\nprint(3)\n-->', '3\n', {}),
        ('\n\n  a = 5\n\n  print(a * 2)\n', '10\n', {'a': 5}),
        ('for i in (1, 2):\n  print(i, end="")', '12', {'i': 2}),
        ('\tprint("t")\n', 't\n', {}),
        ('import sys; sys.stdout.write("w")', 'w', {'sys': sys}))
BADCODE = ('1/0', 'print("lost"); raise KeyError', 'x y', 'zzz')


class Run:
    def __init__(self, r, obs):
        self.r = r
        self.obs = obs
        self.multi = r.random() < .3
        self.macros = {'m1': ['one'], 'm2': ['two']}
        cls = MultipleDomainsDummyEngine if self.multi else DummyEngine
        self.engine = cls(self.macros)
        self.model = Model()
        self.log = []
        self.iters = []
        self.default = self.engine.getDefault()
        self.count = 0

    def value(self):
        r = self.r
        self.count += 1
        return r.choice((None, '', 0, 1, 'text%d' % self.count, 'é<',
                         ['i1', 'i2'], (), ('x',), Obj(self.count),
                         Message('mid', 'dom'), True, False, 2.5,
                         Seq(['s1', None, 0]), {}, 'abc'))

    def same(self, what, want, got):
        if want is DEFAULT:
            want = self.default
        if not (want is got or (type(want) is type(got) and want == got)):
            raise Violation('%s not as specified' % what, calls=self.log,
                            expected=repr(want), observed=repr(got))

    def call(self, what, want, f, *args, **kw):
        """Compare one call; want() is the model's answer."""
        self.log.append('%s%r%s' % (what, args, kw or ''))
        try:
            w = want()
        except Expr:
            try:
                got = f(*args, **kw)
            except TALExpressionError:
                self.log.append('-> expression error')
                return
            except Exception as exc:
                raise Violation('%s raised another error' % what,
                                calls=self.log, observed=repr(exc))
            raise Violation('%s did not raise the expression error' % what,
                            calls=self.log, observed=repr(got))
        try:
            got = f(*args, **kw)
        except Exception as exc:
            raise Violation('%s failed' % what, calls=self.log,
                            expected=repr(w), observed=repr(exc))
        if what == 'evaluateBoolean' and w is not DEFAULT:
            w, got = bool(w), bool(got)
        self.same(what, w, got)
        self.log.append('-> %r' % (got,))

    def expr(self, depth=0):
        r = self.r
        x = r.random()
        name = r.choice(NAMES + ('unknown', 'zz', ''))
        if x < .3:
            return r.choice(('', 'path:', 'var:', 'global:', 'local:')) + \
                r.choice(('', '', ' ', '\n')) + name + r.choice(('', '', ' '))
        if x < .45:
            return r.choice(('string:', 'str:')) + r.choice(
                ('', 'x', ' x ', 'a:b', '$a', '${a}', 'é\n<', '$', "'"))
        if x < .6 and depth < 3:
            return 'not:' + self.expr(depth + 1)
        if x < .7:
            return 'exists:' + name
        if x < .88:
            return 'python:' + r.choice(PYTHON)
        if x < .93:
            return 'position:' + r.choice(('', 'x'))
        return r.choice(('zz:a', 'String:x', 'nocall:a', 'a:b', 'x-y:z',
                         '1:a', ' string:x', 'a b', '-a:x', 'string',
                         'not', ':a', '_:', 'Path:a'))

    def step(self):
        r, e, m, obs = self.r, self.engine, self.model, self.obs
        x = r.random()
        if x < .12:
            e.beginScope()
            m.scopes.append({})
            self.log.append('beginScope')
        elif x < .22:
            if len(m.scopes) > 1:
                e.endScope()
                m.scopes.pop()
                obs.count('scope closed')
                self.log.append('endScope')
        elif x < .34:
            name, v = r.choice(NAMES), self.value()
            e.setLocal(name, v)
            m.scopes[-1][name] = v
            obs.count('local')
            if name in m.globals:
                obs.count('shadowed')
            self.log.append('setLocal(%r, %r)' % (name, v))
        elif x < .42:
            name, v = r.choice(NAMES), self.value()
            e.setGlobal(name, v)
            m.globals[name] = v
            obs.count('global')
            self.log.append('setGlobal(%r, %r)' % (name, v))
        elif x < .66:
            text = self.expr()
            ce = e.compile(text)
            how = r.choice(('', 'Value', 'Boolean', 'Structure', 'Sequence'))
            if r.random() < .3:
                self.call('evaluateText', lambda: self.text(text),
                          e.evaluateText, ce)
            else:
                self.call('evaluate' + how,
                          lambda: m.evaluate(text, obs),
                          getattr(e, 'evaluate' + how), ce)
        elif x < .72:
            name = r.choice(NAMES + ('zz',))
            v = m.find(name)
            d = r.choice((None, 'dflt', 1))
            if r.random() < .5:
                self.call('getValue', lambda: d if v is UNKNOWN else v,
                          e.getValue, name, d)
            else:
                self.call('getValue', lambda: None if v is UNKNOWN else v,
                          e.getValue, name)
        elif x < .76:
            m.pos = r.choice((None, (1, 0), (12, 34)))
            e.setPosition(m.pos)
            m.file = r.choice((None, 'f.pt', 'a/b'))
            e.setSourceFile(m.file)
        elif x < .8:
            self.repeat()
        elif x < .88:
            self.advance()
        elif x < .95:
            self.translate()
        elif x < .965:
            self.code()
        elif x < .97:
            self.error()
        elif x < .98:
            self.inside()
        else:
            self.macro()

    def text(self, text):
        v = self.model.evaluate(text, self.obs)
        if v is None or v is DEFAULT or isinstance(v, str):
            return v
        self.obs.count('text of object')
        return str(v)

    def repeat(self):
        r = self.r
        items = [self.value() for i in range(r.choice((0, 1, 2, 3, 40)))]
        seq = r.choice((list, tuple, Seq, list, tuple, Broken))(items)
        self.engine.setGlobal('seq', seq)
        self.model.globals['seq'] = seq
        name = r.choice(NAMES)
        it = self.engine.setRepeat(name, self.engine.compile('seq'))
        self.log.append('setRepeat(%r, %r)' % (name, seq))
        self.iters.append([it, name, items, 0, type(seq) is Broken])

    def advance(self):
        if not self.iters:
            return
        k = self.r.choice(self.iters[-3:])
        it, name, items, i, broken = k
        if broken and i == len(items):
            try:
                got = next(it)
            except (LookupError, StopIteration):
                self.obs.count('failing sequence')
                return
            raise Violation('failing sequence ends the loop quietly',
                            calls=self.log, items=repr(items))
        got = next(it)
        self.log.append('next -> %r' % (got,))
        if bool(got) != (i < len(items)):
            raise Violation('loop does not end with its items',
                            calls=self.log, items=repr(items), index=i)
        if got:
            self.model.scopes[-1][name] = items[i]
            k[3] += 1
            self.obs.count('next')
            self.same('loop variable', items[i],
                      self.engine.getValue(name, UNKNOWN))
        else:
            self.obs.count('exhausted')

    def translate(self):
        r = self.r
        msgid = r.choice(MSGS)
        mapping = r.choice(MAPS)
        domain = r.choice((None, '', 'default', 'other', LONG) + METHODS)
        default = r.choice(('the default', 'dflt ${a}'))
        if r.random() < .3:
            # Its attributes win over the arguments.
            msgid = Message(msgid, r.choice(('domM', 'lower', 'title', None,
                                             LONG)),
                            r.choice((None, 'mdef', 'm ${b}', '')), mapping)
            mapping = r.choice((None, {'a': 'wrong', 'b': 'wrong'}))
            default = r.choice((None, 'wrong'))
            domain = r.choice((domain, 'upper', 'wrong'))
        self.call('translate', lambda: self.model.translate(
            self.obs, msgid, domain, mapping, default, self.multi),
            self.engine.translate, msgid, domain, mapping, default)
        self.obs.count('translated')
        for d, v in self.model.asked.items():
            got = self.engine.translationDomain.getMsgids(d)
            got = [(str(a), b) for a, b in got]
            if got != v:
                raise Violation('asked messages not recorded',
                                calls=self.log, domain=d, expected=repr(v),
                                observed=repr(got))
        self.obs.count('recorded')
        if r.random() < .05:
            self.engine.translationDomain.clearMsgids()
            self.model.asked = {}

    def code(self):
        r = self.r
        out = sys.stdout
        if r.random() < .3:
            code = r.choice(BADCODE)
            try:
                self.engine.evaluateCode('text/server-python', code)
            except Exception:
                self.obs.count('code failed')
            else:
                raise Violation('failing code did not fail', code=code)
        else:
            code, want, sets = r.choice(CODE)
            self.log.append('evaluateCode(%r)' % code)
            if want is None:
                want = '2\n'
            got = self.engine.evaluateCode('text/server-python', code)
            self.same('output of code', want, got)
            for k, v in sets.items():
                self.same('variable set by code', v,
                          self.engine.getValue(k, UNKNOWN))
            self.obs.count('code')
            # How far such variables reach is not specified.
            for k in sets:
                self.engine.setLocal(k, 0)
                for s in self.model.scopes:
                    s[k] = 0
            self.rebuild(sets)
        if sys.stdout is not out:
            sys.stdout = out
            raise Violation('standard output not restored', code=code)

    def inside(self):
        """Code may see the variables, if the engine is told so."""
        name = self.r.choice(('a', 'b', 'c', 'A', 'a_1', 'zz', 'nothing'))
        v = self.model.find(name)
        e = self.engine
        self.log.append('evaluateCode(print(%s))' % name)
        e.useEngineAttrDicts = True
        try:
            got = e.evaluateCode('text/server-python',
                                 'print(repr(%s), end="")' % name)
        except NameError:
            got = None
        finally:
            e.useEngineAttrDicts = False
        self.obs.count('code sees variables')
        self.same('variable inside code', None if v is UNKNOWN else repr(v),
                  got)

    def error(self):
        exc = self.r.choice((KeyError('k'), TALExpressionError('x'),
                             SystemExit(3), ZeroDivisionError()))
        pos = self.r.choice(((1, 0), (12, 34), (None, None)))
        info = self.engine.createErrorInfo(exc, pos)
        self.log.append('createErrorInfo(%r, %r)' % (exc, pos))
        self.same('exception told', exc, info.value)
        self.same('type of exception told', type(exc), info.type)
        self.same('position told', pos, (info.lineno, info.offset))
        self.obs.count('error information')

    def rebuild(self, names):
        """Close all scopes and set the variables everywhere."""
        e, m = self.engine, self.model
        while len(m.scopes) > 1:
            e.endScope()
            m.scopes.pop()
        for k in names:
            e.setLocal(k, 0)
            m.scopes[0][k] = 0

    def macro(self):
        r, e = self.r, self.engine
        name = r.choice(('m1', 'm2', 'zz', ''))
        self.log.append('evaluateMacro(%r)' % name)
        if name in self.macros:
            self.same('macro', self.macros[name],
                      e.evaluateMacro(e.compile(name)))
            self.obs.count('macro')
            return
        try:
            got = e.evaluateMacro(e.compile(name))
        except (TALExpressionError, KeyError) as exc:
            if not name and isinstance(exc, KeyError):
                raise Violation('empty macro name looked up',
                                calls=self.log)
            self.obs.count('macro missing')
        else:
            raise Violation('unknown macro found', calls=self.log,
                            observed=repr(got))


def history(r, obs, i):
    run = Run(r, obs)
    n = r.choice((10, 30, 80))
    for k in range(n):
        run.step()
        obs.ev()
    while len(run.model.scopes) > 1:
        run.engine.endScope()
        run.model.scopes.pop()
    for name in NAMES:
        run.call('getValue', lambda: (
            None if run.model.find(name) is UNKNOWN
            else run.model.find(name)), run.engine.getValue, name)
    if n > 10:
        obs.seen(run.log)
        obs.sample(calls=[clip(x, 60) for x in run.log[:30]])


FILEMACRO = '<b metal:define-macro="%s">%s</b>'


def files(r, obs, i):
    """Macros of other files, and templates rendered by the engine."""
    d = tempfile.mkdtemp(prefix='c26-')
    try:
        ext = r.choice(('html', 'htm', 'HTML'))
        path = os.path.join(d, 'lib.' + ext)
        text = r.choice(('x', 'é', 'a b', '42'))
        src = '<p>%s</p>' % (FILEMACRO % ('m', text))
        with open(path, 'w', encoding='utf-8') as f:
            f.write(src)
        local = r.random() < .3
        name = r.choice(('m', 'm', 'm', 'other'))
        main = '%s<i metal:use-macro="%s">q</i>' % (
            FILEMACRO % ('loc', 'L'), 'loc' if local
            else path + '/' + name)
        gen = TALGenerator(DummyEngine(), xml=0)
        p = HTMLTALParser(gen)
        p.parseString(main)
        program, macros = p.getCode()
        engine = DummyEngine(macros)
        obs.ev()
        try:
            out = sut.render(program, macros, engine)
        except TALExpressionError:
            if local or name == 'm':
                raise Violation('macro of a file not found', main=main,
                                library=src)
            obs.count('macro missing')
            return
    finally:
        shutil.rmtree(d)
    if not local and name != 'm':
        raise Violation('unknown macro of a file found', main=main,
                        output=out)
    want = '<b>L</b>' + ('<b>L</b>' if local else '<b>%s</b>' % text)
    if out != want:
        raise Violation('macro of a file not rendered', main=main,
                        library=src, expected=want, output=out)
    obs.count('file macro')
    obs.seen(main, src)


TEMPLATES = (
    ('<p tal:define="a string:x; global b python:[1, 2]" tal:repeat="i b" '
     'tal:content="i">q</p>', '<p>1</p><p>2</p>'),
    ('<p tal:condition="not:nothing">y</p>', '<p>y</p>'),
    ('<p tal:condition="not:string:x">y</p>', ''),
    ('<p tal:condition="exists:a" tal:define="a nothing">y</p>', '<p>y</p>'),
    ('<p tal:condition="exists:zz">y</p>', ''),
    ('<p tal:content="default">y</p>', '<p>y</p>'),
    ('<p tal:content="nothing">y</p>', '<p></p>'),
    ('<p tal:content="zz" tal:on-error="string:bad">y</p>', '<p>bad</p>'),
    ('<p tal:content="zz:x" tal:on-error="string:bad">y</p>', '<p>bad</p>'),
    ('<p tal:content="python:error.type.__name__" tal:on-error="python:'
     'error.type.__name__">y</p>', '<p>TALExpressionError</p>'),
    ('\n <p tal:content="position:">y</p>', '\n <p>None (2,1)</p>'),
    ('<p i18n:translate="">hello <b i18n:name="n" tal:content="string:W">q'
     '</b></p>', '<p>HELLO <b>W</b></p>'),
    ('<p i18n:domain="lower" i18n:translate="">HEllo</p>', '<p>hello</p>'),
    ('<b tal:define="a string:1"><i tal:define="a string:2" '
     'tal:content="a"/><u tal:content="a"/></b>',
     '<b><i>2</i><u>1</u></b>'),
    ('<b tal:define="global a string:1; local a string:2"><u '
     'tal:content="a"/></b><u tal:content="a"/>',
     '<b><u>2</u></b><u>1</u>'),
    ('<b tal:content="python:1 + 1"/>', '<b>2</b>'),
    ('<b tal:attributes="x string:a;;b; y nothing; z default" z="k"/>',
     '<b z="k" x="a;b" />'),
    ('<script type="text/server-python">print("<b>", end="")</script>',
     '<b>'),
    ('<b tal:repeat="i string:xyz"><u tal:replace="i"/></b>',
     '<b>x</b><b>y</b><b>z</b>'),
)


def templates(r, obs, i):
    """Whole templates: a random sequence of known pieces."""
    src, want = '', ''
    for k in range(r.randint(1, 6)):
        a, b = r.choice(TEMPLATES)
        if b is None or a.startswith('\n') and src:
            continue
        src += a
        want += b
    gen = TALGenerator(DummyEngine(), xml=0)
    p = HTMLTALParser(gen)
    p.parseString(src)
    program, macros = p.getCode()
    engine = DummyEngine(macros)
    out = sut.render(program, macros, engine)
    obs.ev()
    if out != want:
        raise Violation('template rendered differently with the bundled '
                        'engine', source=src, expected=want, output=out)
    obs.count('rendered')
    obs.seen(src)


FAMILIES = [('history', history, 108000, 500000),
            ('files', files, 4800, 24000),
            ('templates', templates, 36000, 200000)]
