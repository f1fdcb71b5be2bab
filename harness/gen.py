"""Random template trees, steered by a profile of statement weights."""
from harness.model import BOOLEAN
from harness.tree import NS
from harness.tree import VOID
from harness.tree import Doc
from harness.tree import Elem
from harness.tree import Text

INLINE = ('span', 'b', 'i', 'em', 'a', 'font', 'x-y')
BLOCK = ('div', 'section', 'form', 'center', 'span', 'b', 'em', 'a', 'x-y')
#: text only for browsers, elements like others for templates
TEXT = ('textarea', 'title', 'iframe', 'xmp', 'noembed', 'noframes')
LEAFBLOCK = ('p', 'h2', 'td', 'li', 'pre')
XMLTAGS = ('doc', 'item', 'b', 'para', 'x-y', 'A.b', 'foo', 'pre', 'br', 'p',
           'script', 'li', 'Pre')
WORDS = ('foo', 'bar', 'Hello', 'x', 'one two', 'caf\xe9', '日本',
         'a.b', 'Z', '42', '\U0001f600', 'w-w')
HTMLATTRS = ('id', 'class', 'title', 'href', 'lang', 'alt', 'data-x', 'style',
             'checked', 'selected', 'disabled', 'value')
XMLATTRS = ('id', 'Class', 'title', 'href', 'value', 'x-y', 'checked', 'a.b')
VALUES = ('v', 'a b', '', 'x&y', '<tag>', '"q"', "it's", 'caf\xe9', '50%',
          'a;b', '&', '&lt;', '&zz;', '&copy;=', 'x > y', '$', '${n}',
          '  two  spaces ', '日')
STRINGS = VALUES + ('&amp;', '&lt;b&gt;', '<b>bold</b>', ']]>', '-->',
                    'line\nbreak', 'text x', 'structure y', '\U0001f600',
                    '&#65;', 'tab\there', 'two\nlines')
VARS = ('a', 'b', 'c', 'd', 'e')

#: probability of each statement on a generated element
BASE = dict(define=.2, condition=.15, repeat=.12, content=.12, replace=.06,
            attributes=.2, omit=.08, onerror=.0, translate=.0, name=.0,
            i18nattrs=.0, domain=.0, nstag=.1, metal=.0, data=.0,
            error=.0, fill=.5, usedefault=.05, message=.03, comment=.15,
            plainattr=.6, glob=.2, void=.08, selfclose=.06, shout=.1,
            structure=.25, default=.12, nothing=.12, script=.0, crlf=.0,
            deep=.5, width=3, uniq=.15, hostile=.3, empty=.1, source=.0,
            extend=.4, pre=1, attrnames=None, mixcase=.0,
            turn=.0, big=.0, ignore=.03, texttag=.0)


def profile(**kw):
    p = dict(BASE)
    p.update(kw)
    return p


class Ctx:
    __slots__ = ('vars', 'unit', 'macro', 'inline', 'use', 'domain')

    def __init__(self, vars=(), unit=False, macro=False, inline=False,
                 use=None):
        self.vars = list(vars)
        self.unit = unit
        self.macro = macro
        self.inline = inline
        self.use = use          # set of filled names when inside a use

    def sub(self, **kw):
        c = Ctx(self.vars, self.unit, self.macro, self.inline, self.use)
        for k, v in kw.items():
            setattr(c, k, v)
        return c


class Gen:
    reuse = .25                 # the same structure in several places

    def __init__(self, rng, xml=False, prof=None):
        self.r = rng
        self.xml = xml
        self.p = prof or profile()
        self.values = {}            # registry for h:
        self.fragments = {}         # structure text -> nodes
        self.macros = {}            # visible macro name -> slots
        self.n = 0
        self.budget = 40
        self.macro_names = set()
        #: now and then everything is longer, wider and deeper
        self.big = rng.random() < self.p['big']
        self.long_loops = 2
        self.boolean = rng.choice(sorted(BOOLEAN - set(HTMLATTRS)))
        self.again = {}             # fragments, for use in other places
        if self.big:
            self.p = dict(self.p, deep=.85, width=self.p['width'] + 1)

    def attrnames(self):
        if self.p['attrnames']:
            return self.p['attrnames']
        if self.xml:
            return XMLATTRS
        return HTMLATTRS + (self.boolean,)

    def chance(self, key):
        return self.r.random() < self.p[key]

    def uid(self, pre):
        self.n += 1
        return '%s%d' % (pre, self.n)

    # -- expressions
    def var(self, ctx):
        return self.r.choice(ctx.vars) if ctx.vars else self.r.choice(VARS)

    def value_expr(self, ctx, text=True):
        r = self.r
        if self.big and r.random() < .05:
            return self.longish()
        x = r.random()
        if x < self.p['error']:
            return r.choice(('x:V', 'x:K', 'x:B', 'v:missing', 'x:T'))
        x = r.random()
        if x < self.p['uniq']:
            return 'u:' + r.choice(('k', 'z', '<'))
        x = r.random()
        if x < .3 and ctx.vars:
            return 'v:' + r.choice(ctx.vars)
        if x < .45:
            return 'g:' + r.choice(VARS)
        if x < .52:
            return r.choice(('i:%d' % r.randrange(-3, 100), 'i:0', 'f:', 't:',
                             'q:', 's:', 'q:a,b', 'i:1'))
        if x < .57:
            return 'o:' + r.choice(('thing', '<thing>', 'th&ng'))
        if x < .62:
            return 'a:' + r.choice(self.attrnames())
        if x < .62 + self.p['message']:
            return self.message()
        if x > 1 - self.p['hostile'] * .5:
            return self.hostile()
        return 's:' + r.choice(WORDS)

    def hostile(self):
        r = self.r
        s = r.choice(STRINGS)
        if r.random() < .3:
            s += r.choice(STRINGS)
        if '\n' in s or '\t' in s or r.random() < .3:
            k = self.uid('h')
            self.values[k] = s
            return 'h:' + k
        return 's:' + s

    def longish(self):
        r = self.r
        k = self.uid('h')
        self.values[k] = ''.join(r.choice(STRINGS + WORDS) + ' '
                                 for _ in range(r.choice((30, 200))))
        return 'h:' + k

    def message(self):
        r = self.r
        return 'm:%s|%s|%s' % (r.choice(('msg', 'msg-one', 'm <b>&amp;',
                                         'x-default', 'y-same')),
                               r.choice(('', 'dm', 'other')),
                               r.choice(('', 'dflt', 'd < e')))

    def text_expr(self, ctx):
        x = self.r.random()
        if x < self.p['nothing']:
            return 'n:'
        if x < self.p['nothing'] + self.p['default']:
            return 'd:'
        return self.value_expr(ctx)

    def bool_expr(self, ctx):
        r = self.r
        if r.random() < self.p['error']:
            return r.choice(('x:V', 'v:missing'))
        return r.choice(('t:', 't:', 'f:', 'b:' + self.var(ctx),
                         'odd:' + self.var(ctx), 'not:f:', 's:yes', 's:',
                         'not:odd:' + self.var(ctx), 'i:0', 'i:7', 'n:'))

    def seq_expr(self, ctx):
        r = self.r
        if r.random() < self.p['error']:
            return r.choice(('x:V', 'v:missing'))
        if self.big and self.long_loops and r.random() < .3:
            self.long_loops -= 1
            return r.choice(('r:11', 'r:17', 'q:' + ','.join(
                'v%d' % n for n in range(30))))
        return r.choice(('q:', 'q:a', 'q:a,b', 'q:xx,y,zzz', 'r:2', 'r:3',
                         'q:<,&', 'r:1', 'r:0', 'q:a,a'))

    def struct_expr(self, ctx):
        r = self.r
        x = r.random()
        if x < self.p['error']:
            return 'x:V'
        if x < .1:
            return 'n:'
        if x < .2:
            return 'd:'
        if x < .2 + self.p['message'] * .5:
            m = r.choice(('smsg', 'sm<b>y</b>'))
            # answered by the engine as [domain|SWAPCASED]; plain text is
            # always a valid fragment
            return 'm:%s-same' % m if m == 'smsg' else 'm:sm-same'
        if x > .9:
            # plain values: their text is the markup
            return r.choice(('i:0', 'i:7', 'f:', 't:', 'q:', 's:', 'o:thing',
                             's:plain', 's:a > "b"', 'i:-1'))
        return 'h:' + self.fragment()

    def fragment(self, same=False):
        """Register a well-formed piece of markup, return its key."""
        r = self.r
        if self.again.get(same) and r.random() < self.reuse:
            return r.choice(self.again[same])
        saved = self.p
        self.p = profile(define=0, condition=0, repeat=0, content=0,
                         replace=0, attributes=0, omit=0, nstag=0,
                         message=0, shout=0, width=2, deep=.4, ignore=0)
        budget, self.budget = self.budget, r.choice((1, 3, 6))
        nodes = self.nodes(Ctx(inline=True), 0, top=True)
        self.budget = budget
        self.p = saved
        if r.random() < .3:
            for e in list(iter_elems(nodes))[:2]:
                # statements that must not be carried out
                k = r.choice(('tal:condition', 'tal:replace',
                              'metal:use-macro', 'tal:define', 'tal:repeat',
                              'i18n:translate', 'tal:nonsense',
                              'tal:omit-tag', 'metal:define-slot',
                              'i18n:name', 'tal:attributes', 'tal:content'))
                if k == 'tal:content' and (e.selfclose or e.tag in VOID):
                    continue
                e.stm[k] = 'x:V'
                if self.xml:
                    p = k.split(':')[0]
                    e.decls = [(p, NS[p])]
        if same:                # the engine leaves it as it is
            nodes = nodes + [Text('w-same')]
        d = Doc(nodes, self.xml)
        key = self.uid('f')
        self.values[key] = d.source
        self.fragments[d.source] = nodes
        self.again.setdefault(same, []).append(key)
        return key

    # -- text
    def text(self):
        r = self.r
        out = []
        for _ in range(r.choice((1, 1, 1, 2, 3))):
            x = r.random()
            if x < .35:
                out.append(r.choice(WORDS))
            elif x < .5:
                out.append(r.choice(('\n', '\n  ', '\n\t', ' ', '  ', '\n\n ',
                                     '\n \n    ', ' \n')))
            elif x < .62:
                out.append(r.choice(('&amp;', '&lt;', '&#65;', '&gt;',
                                     '&quot;', '&#x41;')))
            elif x < .62 + self.p['comment'] * .5:
                out.append(r.choice(('<!-- c -->', '<!--\n  x -->',
                                     '<!---->', '<?pi x?>')))
            elif x < .8:
                out.append(r.choice(('. ', ', ', '>', '"', "'", '=', ';',
                                     '$', '}', '%s')))
            else:
                out.append(r.choice(WORDS) + ' ')
        if self.big and r.random() < .05:
            out.append(r.choice(('long ', 'x', 'line\n', '  \n')) *
                       r.choice((70, 300, 1100)))
        s = ''.join(out)
        if self.chance('crlf'):
            s = s.replace('\n', '\r\n')
        return Text(s)

    # -- elements
    def plain_attrs(self, n=None):
        r = self.r
        names = list(self.attrnames())
        r.shuffle(names)
        out = []
        for name in names[:r.choice((1, 1, 2, 3, 5)) if n is None else n]:
            if not self.xml and name.lower() in BOOLEAN:
                out.append((name, r.choice((None, name))))
            else:
                out.append((name, r.choice(VALUES)))
        if self.big and r.random() < .2:
            for k in r.sample(range(30), r.choice((6, 12, 25))):
                out.append(('data-%d' % k, r.choice(VALUES)))
            if r.random() < .3:
                out.append(('data-long', 'long value ' * r.choice((30, 120))))
        return out

    def nodes(self, ctx, depth, top=False, width=None):
        r = self.r
        out = []
        n = r.randint(1, (width or self.p['width']) + (1 if depth < 2 else 0))
        for _ in range(n):
            if self.budget <= 0 or (depth > 0 and r.random() < .35):
                out.append(self.text())
            else:
                if r.random() < .5:
                    t = self.text()
                    if r.random() < .5:
                        t.raw += r.choice(('\n', '\n  ', '\n\t ', '  '))
                    out.append(t)
                out.append(self.elem(ctx, depth))
        if r.random() < .4:
            out.append(self.text())
        return out

    def elem_with(self, ctx):
        """An element that defines a macro, possibly extending another."""
        return self.elem(ctx, 1, define=True)

    def elem(self, ctx, depth, define=False):
        r = self.r
        p = self.p
        if not self.big or r.random() < .5:
            self.budget -= 1
        e = Elem('x')
        e.style = r.randrange(1 << 30)
        s = e.stm
        ctx = ctx.sub()
        ctx.vars = list(ctx.vars)
        html = not self.xml
        if self.chance('nstag'):
            e.ns = r.choice(('tal', 'tal', 'metal', 'i18n'))
            e.tag = r.choice(('block', 'x', 'span'))
        elif html:
            e.shout = self.chance('shout')
            if self.chance('void'):
                e.tag = r.choice(('br', 'img', 'input', 'hr'))
            elif ctx.inline:
                e.tag = r.choice(INLINE)
            elif r.random() < .25:
                e.tag = r.choice(LEAFBLOCK[:2] + ('pre',))
                if e.tag == 'pre' and (ctx.unit or not p['pre']):
                    e.tag = 'p'
                ctx.inline = True
            else:
                e.tag = r.choice(BLOCK)
                if p['texttag'] and self.chance('texttag'):
                    e.tag = r.choice(TEXT)
        else:
            e.tag = r.choice(XMLTAGS)
        void = html and e.tag in VOID and not e.ns
        if not e.ns and self.chance('plainattr'):
            e.attrs = self.plain_attrs()
        if self.chance('selfclose'):
            e.selfclose = True
        bare = void

        # METAL
        if define and not bare:
            self.define(e, ctx, self.macro_expr() if self.macros
                        and self.chance('extend') else None)
        elif p['metal'] and not bare and self.chance('metal'):
            self.metal(e, ctx)
        # TAL
        if self.chance('onerror') and not bare:
            s['tal:on-error'] = (('structure', 'h:' + self.fragment())
                                 if r.random() < .15 else
                                 ('text', r.choice((
                                     's:ERR', 'err:', 'n:', 'd:', 'v:missing',
                                     'err:', 'g:a', 'g:b', 'u:H', 'err:'))))
        if self.chance('define'):
            defs = []
            for _ in range(r.choice((1, 1, 2, 3, 12 if self.big else 2))):
                name = r.choice(VARS)
                scope = 'global' if self.chance('glob') else 'local'
                defs.append((scope, name, self.value_expr(ctx)))
                ctx.vars.append(name)
            s['tal:define'] = defs
        if self.chance('condition'):
            s['tal:condition'] = self.bool_expr(ctx)
        if self.chance('repeat'):
            name = r.choice(VARS)
            s['tal:repeat'] = (name, self.seq_expr(ctx))
            ctx.vars.append(name)
        i18n = ''
        if p['translate'] and not bare and self.chance('translate'):
            i18n = 'unit'
        if ctx.unit and self.chance('name'):
            s['i18n:name'] = r.choice(('n1', 'n2', 'na-me', 'n_3'))
        if self.chance('content') and not void:
            s['tal:content'] = self.subst(ctx)
        elif self.chance('replace'):
            s['tal:replace'] = self.subst(ctx)
        sub = s.get('tal:content') or s.get('tal:replace')
        if i18n:
            if sub:
                if sub[0] == 'structure' and sub[1] != 'd:':
                    if sub[1][:2] == 'h:':
                        sub = (sub[0], 'h:' + self.fragment(same=True))
                        s['tal:content' if 'tal:content' in s
                          else 'tal:replace'] = sub
                    s['i18n:translate'] = ''
                elif sub[1] == 'd:':
                    i18n = ''
                else:
                    s['i18n:translate'] = ''
            else:
                s['i18n:translate'] = r.choice(('', '', 'mid', 'my ${n1} id',
                                                'x-default', ' a  b '))
                if s['i18n:translate'] and self.chance('data'):
                    s['i18n:data'] = r.choice(('mp:', 'mp:n1=DATA',
                                               'mp:k=v,n2=<D>', 'n:'))
                ctx.unit = True
        if 'metal:use-macro' in s or 'metal:extend-macro' in s:
            ctx.unit = False    # what is inside moves somewhere else
        if self.chance('omit') and not (void and 'tal:replace' in s):
            s['tal:omit-tag'] = r.choice(('', '', self.bool_expr(ctx)))
        names = self.attrnames()
        if self.chance('attributes') and not e.ns:
            k = r.choice((1, 1, 2, 3, 4))
            pick = r.sample(names, k)
            if self.big and r.random() < .2:
                pick += ['data-%d' % k for k in r.sample(range(30), 9)]
            if self.chance('mixcase') and not self.xml:
                pick = [r.choice((n, n.upper(), n.capitalize()))
                        for n in pick]
            s['tal:attributes'] = [(n, self.text_expr(ctx)) for n in pick]
            if 'tal:replace' in s:
                # evaluated for the inserted element, whose attributes are
                # not modelled
                s['tal:attributes'] = [
                    (n, 's:Z' if x.startswith('a:') else x)
                    for n, x in s['tal:attributes']]
        if p['i18nattrs'] and self.chance('i18nattrs') and not e.ns:
            dyn = [n.lower() if not self.xml else n
                   for n, _ in s.get('tal:attributes', ())]
            pick = r.sample(names, r.choice((1, 1, 2, 3)))
            if e.attrs and r.random() < .6:
                pick[0] = r.choice(e.attrs)[0]
            pick = list(dict.fromkeys(pick))
            s['i18n:attributes'] = [
                (n, r.choice((None, None, 'mid-' + n, n, n.upper(), 'mid',
                              r.choice(names)))
                 if n not in dyn else None) for n in pick]
            if self.chance('mixcase') and not self.xml:
                s['i18n:attributes'] = [(r.choice((n, n.upper())), m)
                                        for n, m in s['i18n:attributes']]
        if self.chance('domain'):
            s['i18n:domain'] = r.choice(('domA', 'domB', 'domC', 'default',
                                         'domA', 'domB', ''))
        if self.chance('ignore'):
            # for other tools; has no effect
            s[r.choice(('i18n:ignore', 'i18n:ignore-attributes'))] = r.choice(
                ('', 'title', 'title;alt', 'x:V'))
        if 'tal:script' not in s and p['script'] and not bare \
                and self.chance('script') and not i18n:
            s['tal:script'] = r.choice(('text/server-python',
                                        'text/server-x'))
        # children
        if not bare and not (e.selfclose):
            if not self.chance('empty'):
                if self.budget > 0 and r.random() < p['deep'] + (
                        .5 if depth < 1 else 0):
                    e.children = self.nodes(ctx, depth + 1)
                else:
                    e.children = [self.text()]
        if 'tal:script' in s and not self.xml:
            pass
        return e

    def subst(self, ctx):
        if self.chance('structure'):
            return ('structure', self.struct_expr(ctx))
        return ('text', self.text_expr(ctx))

    def metal(self, e, ctx):
        r = self.r
        s = e.stm
        choices = []
        if ctx.use is not None and self.chance('fill'):
            free = [n for n in SLOTS if n not in ctx.use]
            if free:
                name = r.choice(free)
                ctx.use.add(name)
                s['metal:fill-slot'] = name
                ctx.use = None
                ctx.unit = False
                if r.random() < .15 and ctx.macro:
                    s['metal:define-slot'] = r.choice(SLOTS)
                return
        if ctx.use is None:
            if self.macros:
                choices += ['use'] * 3
            if ctx.macro:
                choices += ['slot'] * 3
            choices.append('def')
        if not choices:
            return
        what = r.choice(choices)
        if what == 'use':
            s['metal:use-macro'] = self.macro_expr()
            ctx.use = set()
        elif what == 'slot':
            s['metal:define-slot'] = r.choice(SLOTS)
        else:
            self.define(e, ctx, self.macro_expr() if self.macros
                        and self.chance('extend') and r.random() < .5
                        else None)

    def macro_expr(self):
        if self.chance('usedefault'):
            return 'd:'
        if self.chance('turn'):
            return 'mc:' + ','.join(self.r.choice(sorted(self.macros))
                                    for _ in range(2))
        return 'mac:' + self.r.choice(sorted(self.macros)) + self.r.choice(
            ('',) * 6 + ('#&', '#"', "#'", '#<', '#>', '#&lt;', '#a b', '#;',
                         '#x/y', '#x/y/z', '#/'))

    def define(self, e, ctx, extend=None):
        name = self.uid('M')
        e.stm['metal:define-macro'] = name
        self.macro_names.add(name)
        ctx.macro = True
        ctx.unit = False
        if extend:
            e.stm['metal:extend-macro'] = extend
            ctx.use = set()
        return name


SLOTS = ('s1', 's2', 's3')


def iter_elems(nodes):
    for n in nodes:
        if isinstance(n, Elem):
            yield from n.walk()


def xml_root(nodes, gen, tag='root'):
    """Wrap XML content in a root that declares the namespaces."""
    root = Elem(tag, children=nodes)
    root.decls = [(k, v) for k, v in NS.items()]
    root.style = gen.r.randrange(1 << 30)
    return [root]


def make_doc(gen, file=None, ctx=None, nodes=None):
    if nodes is None:
        nodes = gen.nodes(ctx or Ctx(), 0, top=True)
    if gen.xml:
        nodes = xml_root(nodes, gen)
    return Doc(nodes, gen.xml, file=file)


def make_case(gen, nlibs=2, file=True):
    """Libraries of macros, each using the ones before, and a main template
    using them all.  All have files, or none, or the macros only."""
    from harness.pair import Case
    r = gen.r
    libs = []
    for i in range(nlibs):
        nodes = []
        gen.budget = r.choice((8, 14, 20))
        for _ in range(r.choice((1, 2, 3))):
            ctx = Ctx()
            e = gen.elem_with(ctx)
            nodes.append(e)
            nodes.append(gen.text())
        libs.append(make_doc(gen, 'lib%d.pt' % i if file else None,
                             nodes=nodes))
        gen.macros.update(dict.fromkeys(gen.macro_names))
    gen.budget = 30
    main = make_doc(gen, 'main.pt' if file and file != 'macros' else None)
    return Case(main, libs, gen.values, gen.fragments)
