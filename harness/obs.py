"""What a run observed, and how it reports a violation."""
import collections
import hashlib


class Violation(Exception):
    """The monitored execution broke the property.

    what:   short, stable description of the mechanism (used as a key)
    detail: JSON-able description of the input and of what was observed
    """

    def __init__(self, what, **detail):
        Exception.__init__(self, what)
        self.what = what
        self.detail = detail


def say(exc):
    """An exception as text, whatever its own text is like."""
    if exc is None:
        return 'none'
    try:
        text = str(exc)
    except Exception as e:
        text = 'cannot be shown (%s: %s)' % (type(e).__name__, e)
    return '%s: %s' % (type(exc).__name__, text)


class Skip(Exception):
    """The generated case is outside the property; count and go on."""


def digest(x):
    if not isinstance(x, (bytes, str)):
        x = repr(x)
    if isinstance(x, str):
        x = x.encode('utf-8', 'surrogatepass')
    return hashlib.blake2b(x, digest_size=8).digest()


class Obs:
    MAXSAMPLES = 2

    def __init__(self):
        self.n = collections.Counter()
        self.distinct = set()
        self.evaluations = 0
        self.samples = []
        self.family = None
        self.index = None

    def count(self, key, n=1):
        if n:
            self.n[key] += n

    def ev(self, n=1):
        """n executions were judged by a monitor."""
        self.evaluations += n

    def seen(self, *what):
        """A non-trivial observation; counted once per distinct value."""
        self.distinct.add(digest(what))

    def sample(self, **kw):
        if len(self.samples) < self.MAXSAMPLES:
            kw['family'] = self.family
            kw['case'] = self.index
            self.samples.append(kw)


def fail(what, **detail):
    raise Violation(what, **detail)


def expect(cond, what, **detail):
    if not cond:
        raise Violation(what, **detail)


def same(want, got, what, **detail):
    """Report the first difference of two values."""
    if want != got:
        detail['expected'] = clip(want)
        detail['observed'] = clip(got)
        if isinstance(want, str) and isinstance(got, str):
            i = 0
            while i < min(len(want), len(got)) and want[i] == got[i]:
                i += 1
            detail['first difference at'] = i
            detail['expected there'] = want[max(0, i - 30):i + 60]
            detail['observed there'] = got[max(0, i - 30):i + 60]
        raise Violation(what, **detail)


def clip(x, n=3000):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...'
