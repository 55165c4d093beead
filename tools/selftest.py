"""setup: the tools are there and the engine distinguishes a true from a false contract"""
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vc import load, sym, harness                     # noqa: E402
load.install()


def good(h):
    p, q = h.point('p'), h.point('q')
    h.prove('sym', h.Iff(p == q, q == p))


def bad(h):
    p, q = h.point('p'), h.point('q')
    h.prove('differ', h.Not(p == q))


for fn, want in ((good, 'proved'), (bad, 'refuted')):
    e = sym.Explorer(fn)
    e.run(harness.SymHarness())
    assert not e.error, e.error
    assert any(o.status == want for o in e.obls), (fn, [(o.name, o.status) for o in e.obls])
py = os.environ.get('VERIF_PYPY', '/opt/pypyvenv/bin/python')
assert subprocess.run([py, '-c', 'pass']).returncode == 0
print('self test ok')
