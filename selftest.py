#!/opt/venv/bin/python
"""setup_cmd: nothing to build; checks that the tools import and that the engine refutes what it must."""
import os, sys
os.environ.setdefault('XDG_CONFIG_HOME', '/opt/vp/astropy-config')
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
from pyvc import engine as E
from pyvc import npshim
E.REGISTRY.clear()


@E.contract('S', 'good', [])
def good(c):
    n, m = c.dim('n'), c.dim('m')
    xp = npshim.SHIM if c.symbolic else np
    a, b = c.array('a', (n, m), complex), c.array('b', (m,), float, nonzero=True)
    o = a / b
    o[:, 0] = 5
    s = xp.sum(o.conj(), axis=0)
    c.check_array('s', s, (m,), lambda ix: c.conj(c.sum(n, lambda i: c.ite(c.eq(ix[0], 0), 5, c.at(a, (i, ix[0])) / c.at(b, ix)))))


@E.contract('S', 'bad', [])
def bad(c):
    n, m = c.dim('n'), c.dim('m')
    a, f = c.array('a', (n, m), float), c.array('f', (n, m), bool)
    o = a.copy()
    o[1:][f[1:]] = 0     # misses row 0
    c.check_array('masked', o, (n, m), lambda ix: c.ite(c.at(f, ix), 0.0, c.at(a, ix)))


r = E.run_symbolic(E.REGISTRY[0], 60)
assert r['status'] == 'ok' and all(o.status == 'proved' for o in r['obls']) and r['obls'], r
r = E.run_symbolic(E.REGISTRY[1], 60)
ref = [o for o in r['obls'] if o.status == 'refuted']
assert ref, r
print('selftest ok')
