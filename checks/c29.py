"""The command line tool prints what the library renders."""
import contextlib
import io
import os
import pprint
import shutil
import subprocess
import sys
import tempfile

import zope.tal
from zope.tal import driver
from zope.tal.dummyengine import DummyEngine
from zope.tal.htmltalparser import HTMLTALParser
from zope.tal.talgenerator import TALGenerator
from zope.tal.talinterpreter import TALInterpreter
from zope.tal.talparser import TALParser

from harness import env
from harness.obs import Skip
from harness.obs import Violation
from harness.obs import clip

ID = 'C29'
LEVEL = 'exploration'
RULE = ('Template files that show every setting are written to a scratch '
        'directory and run through the tool, in the process and as a '
        'program of its own, with random options in every spelling; standard '
        'output, exit status and kind of failure are compared with a '
        'rendering by the library that got the settings directly.  Wrong '
        'usage must be reported without a rendering.  Non-trivial: '
        'something was rendered; distinct by options and output.')
REQUIRED = ('html', 'xml', 'by ending', 'html told', 'xml told', 'lenient',
            'macro only', 'code shown', 'statements shown',
            'not interpolated', 'annotated', 'no option', 'failed',
            'lenient matters', 'macro only matters', 'statements matter',
            'interpolation matters', 'annotation matters', 'mode matters',
            'no file given', 'two files given', 'unknown option',
            'missing file', 'own process', 'stored file', 'package path',
            'special engine', 'macro of another file', 'own macro',
            'other encoding')
CPU = 120

NS = ('xmlns:tal="http://xml.zope.org/namespaces/tal" '
      'xmlns:metal="http://xml.zope.org/namespaces/metal" '
      'xmlns:i18n="http://xml.zope.org/namespaces/i18n"')
ENDINGS = ('.html', '.htm', '.HTML', '.Htm', '.xml', '.pt', '.txt', '.xhtml',
           '', '.html.xml', '.xml.html', '.htmlx', '.shtml', '.HTM', '.html~',
           '.XML')
STEMS = ('t', 'main', 'test23', 'test24', 'test26', 'test27', 'test28',
         'test29', 'test30', 'test31', 'test32', 'test25', 'a b', 'html',
         'dotted.name', '-x', 'é', 'x.html/t', '')
HTML_ENDINGS = ('.html', '.htm')
OPTIONS = {
    'html': ('-H', '--html', '--ht'),
    'xml': ('-x', '--xml', '--x'),
    'lenient': ('-l', '--lenient', '--len'),
    'macro': ('-m', '--macro-only', '--macro'),
    'code': ('-s', '--show-code', '--show-c'),
    'tal': ('-t', '--show-tal', '--show-t'),
    'i18n': ('-i', '--show-i18n', '--show-i'),
    'annotate': ('-a', '--annotate', '--ann'),
}
NAMES = {'html': 'html told', 'xml': 'xml told', 'lenient': 'lenient',
         'macro': 'macro only', 'code': 'code shown',
         'tal': 'statements shown', 'i18n': 'not interpolated',
         'annotate': 'annotated'}
MARK = 'RENDERED-MARK'
PREFIX = os.path.join(os.path.dirname(os.path.abspath(zope.tal.__file__)), '')


# -- templates

EXPR = ('string:s&lt;1>', 'string:plain', 'python:1+2', 'nothing', 'default',
        'not:nothing', 'python:"a&amp;b"', 'position:', 'string:$x',
        'python:[1,2]')
BAD = ('unknown_variable', 'python:1/0', 'odd:x')
STRUCT = ('string:&lt;b>ok&lt;/b>', 'string:plain',
          'string:&lt;I Class="c">ok&lt;/I>')
MALFORMED = ('string:&lt;b>&lt;/i>', 'string:a&lt;/p>')


class Template:
    def __init__(self, r, macros):
        self.r = r
        self.macros = macros
        self.left = r.choice((3, 6, 12))
        self.n = 0

    def item(self, depth=0):
        r = self.r
        self.left -= 1
        self.n += 1
        tag = r.choice(('Item', 'b', 'foo', 'span'))
        k = r.randrange(15)
        inner = self.items(depth + 1) if r.random() < .6 else 'w'
        e = r.choice(EXPR)
        if r.random() < .03:
            e = r.choice(BAD)
        if k == 0:
            return '<%s tal:content="%s">%s</%s>' % (tag, e, inner, tag)
        if k == 1:
            return '<%s tal:replace="%s">%s</%s>' % (tag, e, inner, tag)
        if k == 2:
            v = r.choice(MALFORMED if r.random() < .4 else STRUCT)
            return '<%s tal:content="structure %s">%s</%s>' % (
                tag, v, inner, tag)
        if k == 3:
            return '<%s tal:condition="%s">%s</%s>' % (
                tag, r.choice(('nothing', 'not:nothing')), inner, tag)
        if k == 4:
            return '<%s tal:repeat="x python:[%s]">%s<i tal:content="x"/></%s>' % (
                tag, ','.join('123'[:r.randrange(4)]), inner, tag)
        if k == 5:
            return '<%s A="1" Class="c" tal:attributes="a %s; z %s">%s</%s>' \
                % (tag, e, r.choice(EXPR), inner, tag)
        if k == 6:
            return '<%s tal:define="x string:v">%s<i tal:content="x"/></%s>' \
                % (tag, inner, tag)
        if k == 7:
            return '<%s tal:omit-tag="">%s</%s>' % (tag, inner, tag)
        if k == 8:
            return ('<%s i18n:translate="" i18n:domain="%s">hello <b i18n:name'
                    '="n%d" tal:content="string:v">x</b> you</%s>' % (
                        tag, r.choice(('lower', 'd', 'upper')), self.n, tag))
        if k == 9:
            return '<%s title="t" i18n:attributes="title">%s</%s>' % (
                tag, inner, tag)
        if k == 10:
            return '<%s tal:on-error="string:err">%s<i tal:content="%s"/>' \
                '</%s>' % (tag, inner, r.choice(BAD), tag)
        if k == 11 and self.macros and depth < 2:
            return '<%s metal:use-macro="%s">u<i metal:fill-slot="s">%s' \
                '</i></%s>' % (tag, r.choice(self.macros), inner, tag)
        if k == 12:
            return '<BR Clear="all"/><hr/><Empty/>'
        if k == 13:
            return '<!-- c --><?pi x?>&lt;&amp;&#65;'
        return '<%s id="i">%s</%s>' % (tag, inner, tag)

    def items(self, depth=0):
        r = self.r
        out = [r.choice(('t', '\n  ', 'é ', ' '))]
        for _ in range(r.choice((1, 2, 3))):
            if self.left <= 0 or depth > 4:
                break
            out.append(self.item(depth))
            out.append(r.choice(('', 't', '\n', ' ')))
        return ''.join(out)


def macro(r, name):
    t = Template(r, ())
    t.left = 3
    return ('<Div metal:define-macro="%s">m<u metal:define-slot="s">d</u>%s'
            '</Div>' % (name, t.items(2)))


def page(r, obs, files):
    macros = []
    head = ''
    if r.random() < .4:
        head = macro(r, 'own')
        macros.append('own')
        obs.count('own macro')
    if r.random() < .4:
        name = r.choice(('lib.html', 'lib.xml', 'sub/lib.html'))
        files[name] = '<Lib %s>\n%s</Lib>' % (NS, macro(r, 'far'))
        macros.append(name + '/far')
        obs.count('macro of another file')
    t = Template(r, macros)
    body = t.items()
    decl = r.choice(('', '', '<?xml version="1.0"?>\n', '<!DOCTYPE Page>\n'))
    return '%s<Page %s>%s%s%s</Page>%s' % (
        decl, NS, MARK, head, body, r.choice(('', '\n')))


# -- the library side

def compile_file(path, html, name):
    gen = TALGenerator(source_file=name, xml=0 if html else 1)
    parser = HTMLTALParser(gen) if html else TALParser(gen)
    if html:
        with open(path, encoding='utf-8') as f:
            parser.parseString(f.read())
    else:
        with open(path, 'rb') as f:
            parser.parseString(f.read())
    return parser.getCode()


def library(path, name, html, opts, engine=None):
    """(output, failure) with the settings given directly."""
    out = io.StringIO()
    try:
        program, macros = compile_file(path, html, name)
        if 'code' in opts:
            pprint.pprint((program, macros), stream=out)
        else:
            TALInterpreter(
                program, macros, (engine or DummyEngine)(macros), out,
                wrap=0, tal=0 if 'macro' in opts else 1,
                showtal=1 if 'tal' in opts else -1,
                strictinsert=0 if 'lenient' in opts else 1,
                i18nInterpolate=0 if 'i18n' in opts else 1,
                sourceAnnotations=1 if 'annotate' in opts else 0)()
    except Exception as exc:
        return out.getvalue(), type(exc).__name__
    return out.getvalue(), None


# -- the tool

def inside(argv):
    """Run the tool in this process: output, failure, exit status."""
    out, err = io.StringIO(), io.StringIO()
    old = sys.argv
    sys.argv = ['driver.py'] + argv
    failure, status = None, 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                driver.main()
            except SystemExit as exc:
                status = exc.code or 0
            except Exception as exc:
                failure, status = type(exc).__name__, 1
    finally:
        sys.argv = old
    return out.getvalue(), failure, status, err.getvalue()


PROGRAM = ('import sys; sys.dont_write_bytecode = True; '
           'sys.path.insert(0, %r); from harness import env; env.setup(); '
           'sys.path.pop(0); import runpy; '
           'runpy.run_module("zope.tal.driver", run_name="__main__", '
           'alter_sys=True)')


def outside(argv):
    """Run the tool as a program of its own."""
    e = dict(os.environ, PYTHONUTF8='1', VERIF_REPO_SRC=env.REPO_SRC)
    p = subprocess.run([sys.executable, '-c', PROGRAM % env.VERIF] + argv,
                       stdin=subprocess.DEVNULL, capture_output=True, env=e,
                       timeout=100)
    err = p.stderr.decode('utf-8', 'replace')
    failure = None
    if p.returncode and 'Traceback (most recent' in err:
        last = [x for x in err.splitlines() if x and x[0] not in ' \t'][-1]
        failure = last.split(':')[0].split('.')[-1]
    return p.stdout.decode('utf-8'), failure, p.returncode, err


@contextlib.contextmanager
def scratch():
    here = os.getcwd()
    d = os.path.realpath(tempfile.mkdtemp(prefix='c29-'))
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


def choose(r):
    opts = []
    for k in OPTIONS:
        p = .12 if k in ('html', 'xml', 'code') else .3
        if r.random() < p:
            opts.append(k)
    if r.random() < .15:
        opts = []
    r.shuffle(opts)
    return opts


def spell(r, opts):
    """The options as written on the command line."""
    out = []
    short = []
    for k in opts:
        w = r.choice(OPTIONS[k])
        if len(w) == 2 and r.random() < .5:
            short.append(w[1])
            if r.random() < .5:
                out.append('-' + ''.join(short))
                short = []
        else:
            if short:
                out.append('-' + ''.join(short))
                short = []
            out.append(w)
    if short:
        out.append('-' + ''.join(short))
    return out


def mode_of(opts, name):
    told = [k for k in opts if k in ('html', 'xml')]
    if told:
        return told[-1] == 'html'
    # the ending is what follows the last dot of the last part of the name,
    # if there is something in front of it
    base = name.rsplit('/', 1)[-1]
    stem, dot, ending = base.rpartition('.')
    if not dot or not stem.strip('.'):
        return False
    return dot + ending.lower() in HTML_ENDINGS


def judge(obs, run, argv, want, detail, strip=None):
    out, failure, status, err = run(argv)
    obs.ev()
    expected, exc = want
    detail = dict(detail, arguments=argv, own_process=run is outside)
    if failure != exc:
        raise Violation('outcome not as expected', expected=exc,
                        observed=failure, status=status,
                        stderr=clip(err[-300:]), **detail)
    if bool(status) != (exc is not None):
        raise Violation('exit status not as expected', status=status,
                        stderr=clip(err[-300:]), **detail)
    if out != expected:
        raise Violation('output not what the library renders',
                        expected=clip(expected), observed=clip(out), **detail)
    if exc is None and err:
        raise Violation('unexpected messages', stderr=clip(err), **detail)
    return out


def note(obs, opts, html, told):
    obs.count('html' if html else 'xml')
    if not told:
        obs.count('by ending')
    for k in opts:
        obs.count(NAMES[k])
    if not opts:
        obs.count('no option')


MATTERS = {'lenient': 'lenient matters', 'macro': 'macro only matters',
           'tal': 'statements matter', 'i18n': 'interpolation matters',
           'annotate': 'annotation matters'}


def rendering(run):
    def case(r, obs, i):
        files = {}
        stem = r.choice(STEMS)
        name = stem + r.choice(ENDINGS[:5] if r.random() < .6 else ENDINGS)
        if not name:
            raise Skip('no name')
        files[name] = source = page(r, obs, files)
        opts = choose(r)
        html = mode_of(opts, name)
        if not html and r.random() < .1 and not source.startswith('<?'):
            files[name] = '<?xml version="1.0" encoding="iso-8859-1"?>' + \
                source
            obs.count('other encoding')
        with scratch() as d:
            os.mkdir('sub')
            os.mkdir('x.html')
            for k, v in files.items():
                code = 'latin-1' if '"iso-8859-1"?' in v else 'utf-8'
                with open(k, 'w', encoding=code, newline='') as f:
                    f.write(v)
            path = os.path.join(d, name)
            how = r.choice((name, './' + name, path, 'sub/../' + name,
                            'sub/../' + name))
            argv = spell(r, opts)
            if how.startswith('-'):
                argv += ['--', how]
            elif r.random() < .3:
                argv.insert(r.randrange(len(argv) + 1), how)
            else:
                argv.append(how)
            want = library(path, path, html, opts)
            detail = {'files': files}
            out = judge(obs, run, argv, want, detail)
            if stem.startswith('test2') or stem.startswith('test3'):
                obs.count('special engine')
            if run is outside:
                obs.count('own process')
            told = {'html', 'xml'} & set(opts)
            note(obs, opts, html, told)
            if want[1]:
                obs.count('failed')
            if 'code' not in opts:
                for k, what in MATTERS.items():
                    if k in opts and library(path, path, html, [
                            o for o in opts if o != k]) != want:
                        obs.count(what)
                if library(path, path, not html, opts) != want:
                    obs.count('mode matters')
        obs.seen(sorted(opts), name, out)
        obs.sample(arguments=argv, template=clip(source, 300),
                   output=clip(out, 300), failure=want[1])
    return case


def stored(r, obs, i):
    """The templates shipped with the package, named relative to it."""
    base = os.path.join(PREFIX, 'tests', 'input')
    names = sorted(n for n in os.listdir(base)
                   if n.endswith(('.html', '.xml', '.pt')))
    if not names:
        raise Skip('no stored files')
    name = names[i % len(names)]
    rel = 'tests/input/' + name
    opts = [k for k in choose(r) if k not in ('html', 'xml')]
    if i < len(names):
        opts = []
    engine = driver.ENGINES.get(name)
    with scratch():
        # where the macros of another file are looked for
        html = mode_of(opts, name)
        short = r.random() < .7
        path = os.path.join(PREFIX, 'tests', 'input', name)
        how = rel if short else path
        want = library(path, rel, html, opts, engine)
        argv = spell(r, opts)
        argv.insert(r.randrange(len(argv) + 1), how)
        out = judge(obs, inside, argv, want, {'file': name})
        obs.count('stored file')
        if short:
            obs.count('package path')
        if engine:
            obs.count('special engine')
    note(obs, opts, html, None)
    obs.seen(sorted(opts), name, out)


def usage(run):
    def case(r, obs, i):
        files = {}
        name = 't' + r.choice(ENDINGS[:5])
        files[name] = page(r, obs, files)
        opts = spell(r, choose(r))
        what = i % 4
        with scratch():
            os.mkdir('sub')
            for k, v in files.items():
                with open(k, 'w', encoding='utf-8', newline='') as f:
                    f.write(v)
            if what == 0:
                key, argv = 'no file given', opts
            elif what == 1:
                key = 'two files given'
                argv = opts + [name, r.choice((name, 'other.html', 'sub'))]
                r.shuffle(argv)
            elif what == 2:
                key = 'unknown option'
                argv = opts + [name]
                argv.insert(r.randrange(len(argv) + 1), r.choice((
                    '-z', '--nothing', '--html=1', '-q', '--show',
                    '--macro-only=no', '-Hz')))
            else:
                key = 'missing file'
                argv = opts + [r.choice(('no.html', 'no.xml', 'sub/t.pt'))]
            out, failure, status, err = run(argv)
            obs.ev()
            detail = {'arguments': argv, 'files': files, 'output': clip(out),
                      'stderr': clip(err), 'failure': failure,
                      'usage': key, 'own_process': run is outside}
            if not status:
                raise Violation('wrong usage not reported', **detail)
            if MARK in out:
                raise Violation('rendering in spite of wrong usage',
                                **detail)
            if what < 3:
                if failure:
                    raise Violation('wrong usage ends in a failure',
                                    **detail)
                if 'usage' not in (out + err).lower():
                    raise Violation('usage not explained', **detail)
                if what and out:
                    raise Violation('output in spite of wrong usage',
                                    **detail)
            elif failure not in ('FileNotFoundError', 'OSError'):
                raise Violation('missing file not reported', **detail)
            elif out:
                raise Violation('output for a missing file', **detail)
            obs.count(key)
            obs.seen(key, argv, name)
    return case


FAMILIES = [
    ('renderings', rendering(inside), 12000, 60000),
    ('stored files', stored, 1800, 6000),
    ('usage', usage(inside), 1200, 4000),
    ('program', rendering(outside), 240, 1200),
    ('program usage', usage(outside), 48, 200),
]
