"""Which checks notice which planted bug: written into DESIGN.md.

Development tool.  Each patch under seeded/ is applied to a scratch copy of
the source, and every check runs against it with some of its cases (the
check of the bug's own property with all of them).
"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = '/opt/venv/bin/python'
MARK = '<!-- table -->'


def run(check, src, scratch, scale):
    env = dict(os.environ, VERIF_REPO_SRC=src, VERIF_SCALE=scale,
               VERIF_EVIDENCE_DIR=scratch, VERIF_REPLAY_DIR=scratch,
               VERIF_WORKERS='2')
    return subprocess.run([PYTHON, os.path.join(VERIF, 'run.py'), check],
                          env=env, capture_output=True).returncode == 1


def bug(name, checks):
    d = os.path.join(VERIF, 'seeded', name)
    with open(os.path.join(d, 'meta.json')) as f:
        meta = json.load(f)
    scratch = tempfile.mkdtemp()
    try:
        shutil.copytree('/repo/src', scratch + '/src')
        subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')],
                       cwd=scratch, check=True)
        src = scratch + '/src'
        own = run(meta['property'], src, scratch, '1')
        others = [c for c in checks if c != meta['property']
                  and run(c, src, scratch, '0.04')]
    finally:
        shutil.rmtree(scratch)
    print(name, meta['property'], own, others, flush=True)
    return '| %s | %s | %s | %s | %s |' % (
        name, meta['property'], meta['what_it_breaks'],
        'yes' if own else 'no', ' '.join(others))


def main():
    names = sorted(os.listdir(os.path.join(VERIF, 'seeded')))
    checks = sorted(n[:-3].upper()
                    for n in os.listdir(os.path.join(VERIF, 'checks'))
                    if n.startswith('c') and n[1:3].isdigit())
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        rows = list(ex.map(lambda n: bug(n, checks), names))
    path = os.path.join(VERIF, 'DESIGN.md')
    with open(path) as f:
        head = f.read().split(MARK)[0]
    with open(path, 'w') as f:
        f.write('\n'.join([
            head + MARK,
            '| bug | property | what it breaks | own check | others that '
            'notice it |', '|---|---|---|---|---|'] + rows) + '\n')


if __name__ == '__main__':
    sys.exit(main())
