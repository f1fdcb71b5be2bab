"""Where the code under test comes from, seeds, tiers and file locations.

The checks import zope.tal straight from the working tree of /repo (pure
Python, nothing to build).  VERIF_REPO_SRC is only used while developing the
machinery, to point a check at a scratch copy with a planted change.
"""
import os
import random
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO_SRC = os.environ.get('VERIF_REPO_SRC') or '/repo/src'
EVIDENCE = os.environ.get('VERIF_EVIDENCE_DIR') or os.path.join(
    VERIF, 'evidence')
REPLAYS = os.environ.get('VERIF_REPLAY_DIR') or os.path.join(
    VERIF, 'replays')
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')

sys.dont_write_bytecode = True


def setup():
    """Make ``import zope.tal`` resolve to the tree under test."""
    src = os.path.realpath(REPO_SRC)
    import zope
    path = os.path.join(src, 'zope')
    zope.__path__ = [path] + [p for p in zope.__path__
                              if os.path.realpath(p) != path]
    import zope.tal
    got = os.path.realpath(os.path.dirname(zope.tal.__file__))
    if got != os.path.join(path, 'tal'):
        raise SystemExit('harness error: zope.tal comes from %s' % got)


def seed():
    try:
        return int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        return 1


def tier():
    t = os.environ.get('VERIF_TIER', 'quick')
    return t if t in ('quick', 'thorough') else 'quick'


def rng(*parts):
    return random.Random(':'.join(str(p) for p in parts))
