"""The comparison and timing tools."""
import builtins
import contextlib
import difflib
import io
import os
import re
import shutil
import sys
import tempfile

from zope.tal import runtest

from harness.obs import Skip
from harness.obs import Violation
from harness.obs import clip
from harness.obs import say

from checks import c29

ID = 'C33'
LEVEL = 'exploration'
RULE = ('Generated template files are put beside expected files which are '
        'right, altered, missing or of another line end; some templates '
        'fail.  The report of the comparison tool for each file, its '
        'differences, its status and what it leaves behind are compared '
        'with what the command line tool prints for the file.  The timing '
        'tool must compile and render each file as often as asked and say '
        'so.  Non-trivial: at least one file; distinct by report.')
REQUIRED = ('right', 'altered', 'missing', 'failing', 'html', 'xml',
            'macro only', 'annotated', 'quiet', 'very quiet', 'verbose',
            'line ends', 'line ends ignored', 'line ends matter',
            'several files', 'all right', 'extra options', 'timed',
            'timed several', 'timing refused',
            'bundled', 'nothing to time')
CPU = 120


class Case:
    """One template and its expected file."""

    def __init__(self, r, obs, name):
        self.name = name
        self.path = 'input/' + name
        self.xml = not name.endswith('.html')
        files = {}
        if self.xml and r.random() < .3:
            # the only way to get such line ends from XML
            text = '<Page %s>a<?p x?>\n%s</Page>' % (
                c29.NS, r.choice(('b', '<i tal:content="python:\'x\\r\\ny\'"'
                                       '/>')))
        elif r.random() < .2:
            text = '<p %s>a<b tal:content="python:\'x\\r\\ny\'"/>\n</p>' % (
                c29.NS)
        else:
            text = c29.page(r, obs, files)
        if r.random() < .15:
            text = text.replace('</Page>', '<b tal:content="python:1/0"/>'
                                '</Page>')
        for k, v in files.items():
            os.makedirs(os.path.dirname(k) or '.', exist_ok=True)
            with open(k, 'w', encoding='utf-8') as f:
                f.write(v)
        with open(self.path, 'w', encoding='utf-8', newline='') as f:
            f.write(text)
        self.text = text

    def expect(self, r, obs, extra):
        """What the command line tool prints, and the expected file."""
        name = self.name
        argv = list(extra)
        if 'metal' in name:
            argv.append('-m')
            obs.count('macro only')
        if '_sa' in name:
            argv.append('-a')
            obs.count('annotated')
        self.out, self.failure, status, err = c29.inside(argv + [self.path])
        self.want = None
        self.kind = r.choice(('right', 'right', 'altered', 'missing', 'ends'))
        if self.failure:
            obs.count('failing')
        want = self.out
        if self.kind == 'missing':
            obs.count('missing')
            return
        if self.kind == 'altered':
            want = alter(r, want)
        elif self.kind == 'ends':
            obs.count('line ends')
            want = want.replace('\r\n', '\n').replace('\n', r.choice(
                ('\r\n', '\n', '\r\n')))
        obs.count('xml' if self.xml else 'html')
        with open('output/' + name, 'w', encoding='utf-8', newline='') as f:
            f.write(want)
        # a text file has one kind of line end
        self.want = want.replace('\r\n', '\n').replace('\r', '\n')

    def ignored(self, ignore):
        return ignore or '_sa' in self.name or self.name.endswith('.xml')

    def right(self, ignore, obs):
        if self.failure or self.want is None:
            return False
        got = self.out
        if self.ignored(ignore):
            got = got.replace('\r\n', '\n')
            obs.count('line ends ignored', got != self.out)
        else:
            obs.count('line ends matter', '\r' in got)
        return got == self.want


def alter(r, s):
    k = r.randrange(5)
    if k == 0 or not s:
        return s + r.choice(('\n', 'x', ' ', 'x\ny\n'))
    at = r.randrange(len(s))
    if k == 1:
        return s[:at] + s[at + 1:]
    if k == 2:
        return s[:at] + r.choice('x \n') + s[at:]
    if k == 3:
        return s[:-1]
    return s[:at]


def lines(s):
    """Lines as a text file gives them."""
    return io.StringIO(s).readlines()


@contextlib.contextmanager
def scratch():
    here = os.getcwd()
    d = os.path.realpath(tempfile.mkdtemp(prefix='c33-'))
    os.chdir(d)
    try:
        os.mkdir('input')
        os.mkdir('output')
        yield d
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


def run(argv):
    """Report, messages, and the status of the comparison tool."""
    out, other, err = io.StringIO(), io.StringIO(), io.StringIO()
    before = sys.argv
    with contextlib.redirect_stdout(other), contextlib.redirect_stderr(err):
        here = sys.stdout
        try:
            status = runtest.main(argv, out)
        except SystemExit as exc:
            status = exc.code
        kept = sys.stdout is here and sys.argv is before
    sys.argv = before
    return out.getvalue(), other.getvalue(), err.getvalue(), status, kept


def compare(r, obs, i):
    with scratch():
        extra = r.choice(((), (), (), ('-l',), ('-i',), ('-t',)))
        names = r.sample(('a.html', 'b.xml', 'metal1.html', 'metal2.xml',
                          'x_sa1.html', 'x_sa2.xml', 'test23.html', 'c.pt',
                          'metal_sa.html'), r.choice((1, 1, 2, 3)))
        obs.count('several files', len(names) > 1)
        obs.count('extra options', len(extra))
        cases = [Case(r, obs, n) for n in names]
        for c in cases:
            c.expect(r, obs, extra)
        if r.random() < .3:
            for c in cases:
                if c.failure or c.kind == 'altered' or c.want is None:
                    break
            else:
                obs.count('all right')
        how = r.choice(('', '-q', '-Q', '--quiet', '--very-quiet'))
        quiet, very = how in ('-q', '--quiet'), 'Q' in how or 'very' in how
        obs.count('quiet' if quiet else 'very quiet' if very else 'verbose')
        ignore = r.random() < .3
        argv = list(extra) + [how] * bool(how) + ignore * [
            r.choice(('-N', '--normalize-newlines'))]
        r.shuffle(argv)
        report, other, err, status, kept = run(argv + [c.path for c in cases])
    obs.ev()
    detail = dict(arguments=argv + names, report=clip(report, 1500),
                  templates=[c.text for c in cases],
                  outputs=[clip(c.out) for c in cases],
                  expected_files=[c.want and clip(c.want) for c in cases],
                  stderr=clip(err[-500:]))
    if not kept:
        raise Violation('output or arguments of the process not restored',
                        **detail)
    if other:
        raise Violation('printed elsewhere', observed=clip(other), **detail)
    verdicts = [c.right(ignore, obs) for c in cases]
    for c, v in zip(cases, verdicts):
        obs.count('right' if v else 'altered', not c.failure)
    if bool(status) != (not all(verdicts)):
        raise Violation('status not as expected', status=repr(status),
                        verdicts=verdicts, **detail)
    want = []
    for c, ok in zip(cases, verdicts):
        if not very:
            want.append(c.path + ' ')
        if c.failure:
            want.append(c.failure + '\n' if quiet else
                        '\n' if very else 'Failed:\n')
            continue
        if c.want is None:
            want.append('(missing file output/%s) ' % c.name)
        if ok:
            want.append('' if very else 'OK\n')
            continue
        want.append('\n' if very else 'not OK\n')
        if not quiet and c.want is not None:
            got = c.out
            if c.ignored(ignore):
                got = got.replace('\r\n', '\n')
            want.append(Diff(lines(c.want), lines(got)))
    judge_report(report, want, detail)
    for c in cases:
        if c.failure and not quiet and c.failure not in err:
            raise Violation('failure not shown', expected=c.failure, **detail)
    if err and not any(c.failure for c in cases):
        raise Violation('unexpected messages', **detail)
    obs.seen(report)


class Diff:
    def __init__(self, a, b):
        self.a = a
        self.b = b


def judge_report(report, want, detail):
    """Compare part by part; a difference must give back both sides."""
    pos = 0
    for k, w in enumerate(want):
        if isinstance(w, str):
            if not report.startswith(w, pos):
                raise Violation('report not as expected', expected=clip(w),
                                observed=clip(report[pos:pos + 200]),
                                **detail)
            pos += len(w)
            continue
        rest = ''.join(difflib.ndiff(w.a, w.b)) + '\n'
        if report.startswith(rest, pos):
            pos += len(rest)
            continue
        raise Violation('difference not shown', expected=clip(rest),
                        observed=clip(report[pos:pos + 400]), **detail)
    if pos != len(report):
        raise Violation('report goes on', observed=clip(report[pos:]),
                        **detail)


def bundled(r, obs, i):
    """Without files, the bundled ones are compared, XML first."""
    d = os.path.join(os.path.dirname(runtest.__file__), 'tests', 'input')
    names = sorted(n for n in os.listdir(d) if n.startswith('test'))
    names = ([n for n in names if n.endswith('.xml')]
             + [n for n in names if n.endswith('.html')])
    if not names:
        raise Skip('no bundled files')
    argv = r.choice(([], ['-q'], ['-Q'], ['-N'], ['-q', '-N'], ['-l'], ['-i'],
                     ['-q', '-t'], ['-Q', '-l']))
    want = run(argv + [os.path.join(d, n) for n in names])
    got = run(argv)
    obs.ev()
    obs.count('bundled')
    if got != want:
        for what, a, b in zip(('report', 'output', 'messages', 'status',
                               'process'), want, got):
            if a != b:
                raise Violation('%s for bundled files not as expected' % what,
                                arguments=argv, expected=clip(repr(a), 900),
                                observed=clip(repr(b), 900))
    if '-Q' not in argv:
        seen = re.findall(r'(?m)^\S*/tests/input/(\S+) ', got[0])
        if seen != names:
            raise Violation('bundled files left out', expected=names,
                            observed=seen)
    obs.seen(got[0])


def timing(r, obs, i):
    """Each file is compiled and rendered as often as asked."""
    try:
        from zope.tal import timer
    except Exception as exc:
        raise Violation('timing tool cannot be started',
                        error=say(exc))
    counts = {}
    builtins.c33 = counts
    old = sys.argv
    with scratch():
        names = ['input/%s' % n for n in r.sample(
            ('a.html', 'b.xml', 'c.pt', 'd.htm'), r.choice((1, 2, 3)))]
        for n in names:
            with open(n, 'w') as f:
                f.write('<p %s><b tal:content="python:c33.__setitem__(%r, '
                        'c33.get(%r, 0) + 1)">x</b></p>' % (c29.NS, n, n))
        n = r.choice((None, 1, 2, 7))
        argv = ([] if n is None else r.choice((['-n', str(n)],
                                               ['-n%d' % n])))
        wrong = r.random() < .1
        if r.random() < .05:
            names = []
        out, err = io.StringIO(), io.StringIO()
        status = None
        sys.argv = ['timer.py'] + (['-z'] if wrong else argv) + names
        try:
            with contextlib.redirect_stdout(out), \
                    contextlib.redirect_stderr(err):
                try:
                    timer.main()
                except SystemExit as exc:
                    status = exc.code
                except ValueError as exc:
                    if names:
                        raise
                    status = say(exc)
        finally:
            sys.argv = old
            del builtins.c33
    obs.ev()
    detail = dict(arguments=argv + names, stdout=clip(out.getvalue()),
                  stderr=clip(err.getvalue()), status=status)
    if wrong or not names:
        obs.count('timing refused' if wrong else 'nothing to time')
        if not status or counts:
            raise Violation('wrong usage accepted', **detail)
        return
    n = n or 10
    obs.count('timed')
    obs.count('timed several', len(names) > 1)
    if counts != dict.fromkeys(names, n):
        raise Violation('not rendered as often as asked', counts=counts,
                        **detail)
    if out.getvalue().split() != names:
        raise Violation('files not named', **detail)
    rows = re.findall(r'(?m)^(\w+) *: +\d+\.\d+ secs for (\d+) calls, i\.e\. '
                      r'+\d+ msecs per call$', err.getvalue())
    if rows != [('compilefile', str(n)), ('interpretit', str(n))] * len(
            names):
        raise Violation('times not reported', rows=rows, **detail)
    obs.seen(tuple(names), n)


FAMILIES = [
    ('compare', compare, 24000, 200000),
    ('bundled', bundled, 32, 200),
    ('timing', timing, 1600, 12000),
]
