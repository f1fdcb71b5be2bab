"""Compiling is repeatable, and its result can be stored."""
import copy
import hashlib
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
import threading

from zope.tal import taldefs
from zope.tal.dummyengine import DummyEngine
from zope.tal.htmltalparser import HTMLTALParser
from zope.tal.talgenerator import TALGenerator
from zope.tal.talparser import TALParser

from harness import disorder
from harness import env
from harness import gen
from harness import pair
from harness import sut
from harness.engine import Compiler
from harness.engine import Engine
from harness.lang import CE
from harness.obs import Skip
from harness.obs import Violation
from harness.obs import clip
from harness.obs import say
from harness.tree import NS

from checks.c17 import Turns
from checks.common import build

ID = 'C32'
LEVEL = 'exploration'
RULE = ('Generated sets of templates are compiled several times, with other '
        'correct and broken templates compiled in between, from text and '
        'from a file; a structural description of the compiled form must be '
        'the same.  So must it when compilations run inside one another, '
        'or in threads that take turns at each expression.  Compiled forms '
        'go through pickling and copying and are rendered again against a '
        'recording engine: output and events must be those of the original.  Other processes with other hash seeds '
        'compile and render the same sources and must report the same '
        'digests.  Non-trivial: more than one engine event; distinct by '
        'compiled form.')
REQUIRED = ('html', 'xml', 'compiled again', 'from file', 'broken between',
            'pickled', 'copied', 'rendered', 'macros', 'processes',
            'templates in processes', 'refused alike', 'prefixes alike',
            'prefixes between', 'varied between', 'use', 'units',
            'attributes', 'usual generator',
            'in disorder', 'inside one another', 'in turns', 'switches')
CPU = 120

PROFILE = dict(metal=.3, onerror=.1, error=.02, translate=.2, name=.4,
               i18nattrs=.3, domain=.15, data=.3, attributes=.4, repeat=.15,
               structure=.3, script=.05, pre=0, extend=.3, void=.1,
               selfclose=.1, mixcase=.1)

BROKEN = ('<p tal:content="bad:x">', '<b tal:define="x">y</b>', '<i></b></i>',
          '<a metal:fill-slot="s1">x</a>', '<a i18n:name="n">x</a>',
          '<b metal:define-macro="M1">x<b metal:define-macro="M1">y</b></b>',
          '<b tal:content="n:" tal:replace="n:">x', '<b tal:nonsense="x"/>',
          '<p tal:attributes="a n:; a n:">x</p>', '</p>',
          '<b i18n:translate=""><i i18n:name="n1">x')
BROKENXML = tuple(s.replace('>', ' xmlns:tal="http://xml.zope.org/namespaces'
                            '/tal">', 1) for s in BROKEN) + ('<a', '<a>&b;')


def freeze(x):
    """A description of a compiled template; dictionaries by their keys."""
    if isinstance(x, CE):
        return ['CE', x.expr]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [freeze(y) for y in x]
    if isinstance(x, dict):
        return ['dict'] + sorted(
            ([repr(k), freeze(v)] for k, v in x.items()),
            key=lambda kv: kv[0])
    if isinstance(x, (str, int, float, type(None))):
        return [type(x).__name__, x]
    raise Violation('compiled template holds a %s' % type(x).__name__,
                    found=clip(repr(x)))


def compile_all(docs):
    """[frozen form of each template], or the error."""
    out = []
    for source, xml, file in docs:
        try:
            program, macros = sut.compile_source(source, xml, file=file)
        except Exception as exc:
            out.append(['error', type(exc).__name__, say(exc)])
        else:
            out.append([freeze(program), freeze(macros)])
    return out


def case_of(r, obs, i):
    g = gen.Gen(r, xml=bool(i % 2), prof=gen.profile(**PROFILE))
    g.budget = r.choice((10, 20, 40))
    n = r.choice((0, 1, 1, 2))
    if n:
        case = gen.make_case(g, n, file=r.random() < .8)
    else:
        case = pair.Case(gen.make_doc(g, 'main.pt'), (), g.values, g.fragments)
    return disorder.perhaps(r, obs, case)


def docs_of(case):
    return [(d.source, d.xml, d.file) for d in case.docs()]


def disturb(r, obs):
    """Other templates, most of them broken."""
    for k in range(r.randrange(3)):
        xml = r.random() < .5
        source = r.choice(BROKENXML if xml else BROKEN)
        try:
            sut.compile_source(source, xml, file=r.choice((None, 'zz.pt')))
        except Exception:
            obs.count('broken between')
    if r.random() < .3:
        other = case_of(r, obs, r.randrange(2))
        compile_all(docs_of(other))
    for k in range(r.randrange(3)):
        xml = r.random() < .5
        compile_all([(prefixed(r, xml), xml, None)])
        obs.count('prefixes between')


URIS = tuple(NS.values()) + ('http://example.com/x', 'tal', '')
PREFIXES = ('tal', 'metal', 'i18n', 'x', 'y', 't')
STATEMENTS = ('content="s:c"', 'define="a s:b"', 'define-macro="m"',
              'translate=""', 'domain="d"', 'title="w"', 'condition="t:"',
              'use-macro="mac:M1"', 'omit-tag=""', 'attributes="a"', '="z"')


def prefixed(r, xml):
    """A small template that declares prefixes and uses them, or others."""
    stack = []
    out = []
    some = r.sample(PREFIXES, 3)
    for _ in range(r.choice((1, 2, 3, 5))):
        tag = r.choice(('b', 'div', 'p', r.choice(some) + ':b'))
        atts = {}
        for _ in range(r.choice((0, 1, 2))):
            atts['xmlns:' + r.choice(some)] = '"%s"' % r.choice(URIS)
        for _ in range(r.choice((0, 1, 1, 2))):
            k, v = r.choice(STATEMENTS).split('=')
            atts[r.choice(some) + (':' + k if k else '')] = v
        out.append('<%s%s>x' % (tag, ''.join(
            ' %s=%s' % kv for kv in atts.items())))
        stack.append(tag)
        while stack and r.random() < .4:
            out.append('</%s>' % stack.pop())
            if xml and not stack:
                return ''.join(out)
    while stack:
        out.append('</%s>' % stack.pop())
    return ''.join(out)


def varied(r, docs):
    """The same sources under other names, modes and neighbours."""
    out = []
    for source, xml, file in docs:
        how = r.randrange(4)
        if how == 0:
            xml = not xml
        elif how == 1:
            file = r.choice((None, 'other.pt'))
        elif how == 2:
            source = source.replace('s:', 'n:').replace('tal:', 'i18n:', 1)
        else:
            source = source[:r.randrange(len(source) + 1)]
        out.append((source, xml, file))
    return out


def differ(what, a, b, case, **more):
    a, b = json.dumps(a), json.dumps(b)
    if a == b:
        return
    i = pair.first_diff(a, b)
    raise Violation(what, expected=clip(a[max(0, i - 60):i + 100]),
                    observed=clip(b[max(0, i - 60):i + 100]),
                    **case.describe(), **more)


def from_file(case, obs):
    """The main HTML template again, read from a file."""
    d = case.main
    if d.xml or not d.source.isascii() or '\r' in d.source:
        return
    tmp = tempfile.mkdtemp(prefix='c32-')
    try:
        path = os.path.join(tmp, 'main.html')
        with open(path, 'w', newline='') as f:
            f.write(d.source)
        g = TALGenerator(Compiler(), xml=0, source_file=d.file)
        p = HTMLTALParser(g)
        p.parseFile(path)
        program, macros = p.getCode()
    finally:
        shutil.rmtree(tmp)
    obs.count('from file')
    differ('compiled differently from a file',
           [freeze(case.program), freeze(case.macros)],
           [freeze(program), freeze(macros)], case)


def bare(case, obs):
    """Parsers that are given no generator make the usual one."""
    got = []
    for p in (TALParser() if case.main.xml else HTMLTALParser(),
              (TALParser if case.main.xml else HTMLTALParser)(
                  TALGenerator(DummyEngine(), xml=int(case.main.xml)))):
        try:
            p.parseString(case.main.source)
            got.append(p.getCode())
        except Exception as exc:
            got.append([type(exc).__name__, say(exc)])
    obs.count('usual generator')
    if repr(got[0]) != repr(got[1]):
        i = pair.first_diff(repr(got[1]), repr(got[0]))
        raise Violation('compiled differently without a generator',
                        expected=clip(repr(got[1])[max(0, i - 60):i + 100]),
                        observed=clip(repr(got[0])[max(0, i - 60):i + 100]),
                        **case.describe())


def again(r, obs, i):
    case = build(case_of(r, obs, i))
    docs = docs_of(case)
    for k in range(3):
        xml = r.random() < .5
        docs.append((prefixed(r, xml), xml, None))
    first = compile_all(docs)
    for k in range(3):
        disturb(r, obs)
        if r.random() < .5:
            compile_all(varied(r, docs))
            obs.count('varied between')
        order = list(range(len(docs)))
        if r.random() < .5:
            r.shuffle(order)
        got = compile_all([docs[j] for j in order])
        obs.ev()
        obs.count('compiled again')
        for j, x in zip(order, got):
            differ('compiled differently the second time', first[j], x, case)
    from_file(case, obs)
    bare(case, obs)
    obs.count('xml' if case.main.xml else 'html')
    obs.seen(first)


class Hooked(Compiler):
    """Something else happens at each expression."""

    def __init__(self, hook):
        Compiler.__init__(self)
        self.hook = hook

    def compile(self, expr):
        self.hook()
        return Compiler.compile(self, expr)


def compiled(doc, compiler=None):
    source, xml, file = doc
    try:
        program, macros = sut.compile_source(source, xml, compiler, file)
    except Exception as exc:
        return ['error', type(exc).__name__, say(exc)]
    return [freeze(program), freeze(macros)]


def atonce(r, obs, i):
    """Several compilations at once: one inside another, or in turns."""
    case = build(case_of(r, obs, i))
    docs = docs_of(case)
    for k in range(2):
        docs += docs_of(case_of(r, obs, r.randrange(2)))
    if r.random() < .3:
        xml = r.random() < .5
        docs.append((r.choice(BROKENXML if xml else BROKEN), xml, None))
    want = [compiled(d) for d in docs]
    if r.random() < .5:
        obs.count('inside one another')
        stack = []

        def hook():
            if len(stack) < 3 and len(got) < 12 and r.random() < .2:
                k = r.randrange(len(docs))
                stack.append(k)
                got.append((k, compiled(docs[k], Hooked(hook))))
                stack.pop()

        got = []
        for k in range(len(docs)):
            got.append((k, compiled(docs[k], Hooked(hook))))
    else:
        obs.count('in turns')
        turns = Turns(r, len(docs))
        got = [None] * len(docs)

        def run(k):
            turns.go[k].acquire()
            try:
                got[k] = k, compiled(docs[k], Hooked(lambda: turns.step(k)))
            finally:
                turns.finish(k)

        threads = [threading.Thread(target=run, args=(k,))
                   for k in range(len(docs))]
        for t in threads:
            t.start()
        turns.go[turns.pick()].release()
        for t in threads:
            t.join()
        obs.count('switches', turns.switches)
    obs.ev()
    for k, x in got:
        differ('compiled differently beside others', want[k], x, case,
               template=docs[k][0])
    obs.seen(want)


def loaded(x, r, obs):
    how = r.randrange(3)
    if how == 2:
        obs.count('copied')
        return copy.deepcopy(x)
    obs.count('pickled')
    return pickle.loads(pickle.dumps(x, r.choice((2, 3, 4, 5))))


def stored(r, obs, i):
    case = build(case_of(r, obs, i))
    want = pair.run_real(case)
    try:
        program = loaded(case.program, r, obs)
        macros = loaded(case.macros, r, obs)
        rmacros = {k: loaded(v, r, obs) if r.random() < .7 else v
                   for k, v in case.rmacros.items()}
    except Exception as exc:
        raise Violation('compiled template cannot be stored',
                        error=say(exc),
                        **case.describe())
    obs.count('macros', len(rmacros))
    differ('stored template reads differently', freeze(case.program),
           freeze(program), case)
    for p in [program] + list(macros.values()):
        mode = taldefs.getProgramMode(p)
        if not taldefs.isCurrentVersion(p) or mode != (
                'xml' if case.main.xml else 'html'):
            raise Violation('stored template not recognised',
                            start=clip(repr(p[:3])), **case.describe())
    case.program, case.macros, case.rmacros = program, macros, rmacros
    got = pair.run_real(case)
    obs.ev()
    obs.count('rendered')
    for what, x, y in (('outcome', want.exc, got.exc),
                       ('output', want.out, got.out),
                       ('engine calls', want.trace, got.trace),
                       ('handled errors', want.errors, got.errors)):
        if repr(x) != repr(y):
            raise Violation('%s of a stored template differ' % what,
                            expected=clip(repr(x)), observed=clip(repr(y)),
                            **case.describe())
    for e in want.trace:
        obs.count({'macro': 'use', 'translate': 'units'}.get(e[0], 'other'))
    obs.count('attributes', case.main.source.count('tal:attributes'))
    if len(want.trace) > 1:
        obs.seen(want.out, len(want.trace))


CHILD = '''
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, %r)
from harness import env
env.setup()
from checks import c32
c32.child()
'''


def digest(x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:16]


def report(jobs):
    """Digests of what is compiled and rendered for [docs, values]."""
    out = []
    for docs, values in jobs:
        frozen = compile_all(docs)
        row = [digest(x) for x in frozen]
        rendered = None
        if not any(x[0] == 'error' for x in frozen):
            rmacros = {}
            for source, xml, file in docs:
                program, macros = sut.compile_source(source, xml, file=file)
                rmacros.update(macros)
            e = Engine(rmacros, values)
            s = sut.Stream()
            try:
                sut.render(program, macros, e, s)
            except BaseException as exc:
                if isinstance(exc, (KeyboardInterrupt, MemoryError)):
                    raise
                rendered = type(exc).__name__
            rendered = (rendered, s.getvalue(), [ev[:4] for ev in e.trace])
        row.append(digest(rendered))
        out.append(row)
    return out


def child():
    jobs = json.load(sys.stdin)
    json.dump(report(jobs), sys.stdout)


def processes(r, obs, i):
    """The same work in processes with other hash seeds."""
    jobs = []
    cases = []
    for k in range(72):
        case = case_of(r, obs, k)
        docs = docs_of(case)
        if k % 6 == 5:
            docs = [(r.choice(BROKENXML), True, None) if r.random() < .5 else
                    (r.choice(BROKEN), False, 'b.pt')]
            obs.count('refused alike')
        elif k % 6 > 2:
            xml = r.random() < .4
            docs = [(prefixed(r, xml), xml, r.choice((None, 'p.pt')))]
            obs.count('prefixes alike')
        jobs.append([docs, case.values])
        cases.append(docs)
    want = report(json.loads(json.dumps(jobs)))
    for k in range(2):
        e = dict(os.environ, PYTHONHASHSEED=str(r.randrange(1, 1 << 31)))
        # another history, too
        order = list(range(len(jobs)))
        r.shuffle(order)
        if k:
            del order[20:]
        p = subprocess.run(
            [sys.executable, '-c', CHILD % env.VERIF],
            input=json.dumps([jobs[j] for j in order]), capture_output=True,
            text=True, env=e, timeout=300)
        if p.returncode:
            raise Skip('child failed: %s' % p.stderr[-300:])
        got = json.loads(p.stdout)
        obs.ev()
        obs.count('processes')
        for j, b in zip(order, got):
            docs, a = cases[j], want[j]
            obs.count('templates in processes')
            if a != b:
                raise Violation(
                    'rendered differently by another process'
                    if a[:-1] == b[:-1] else
                    'compiled differently by another process',
                    hash_seed=e['PYTHONHASHSEED'], expected=a, observed=b,
                    templates=[d[0] for d in docs])
    obs.seen(want)


FAMILIES = [
    ('again', again, 5000, 40000),
    ('atonce', atonce, 3000, 24000),
    ('stored', stored, 8000, 60000),
    ('processes', processes, 48, 400),
]
