"""Setup: nothing to build (pure Python); make sure the pieces are there."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True

from harness import env  # noqa: E402

env.setup()
from harness import pair  # noqa: E402
from harness import gen  # noqa: E402

g = gen.Gen(env.rng('selftest'), prof=gen.profile())
case = pair.Case(gen.make_doc(g), (), g.values, g.fragments)
pair.run_model(case)
print('ready: %s, code under test from %s' % (
    sys.version.split()[0], env.REPO_SRC))
