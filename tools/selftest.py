"""Checks that the framework can run: the code under test imports, the generators work, the reference tokenizer reads what is
rendered, and all check modules load.  Nothing is built; the code under test is pure Python."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from harness import core, specs, sut, sx          # noqa: E402

sut.load()
for name, f in specs.SPECS.items():
    for i in range(20):
        g = core.Gen(core.case_rng('selftest', name, i))
        g.set_density()
        m = f(g)
        t = m.tree('w')
        if sx.diff(t, sx.tokenize_one(sx.render(t))):
            sys.exit(f'selftest: {name} is not read as rendered')
with open(os.path.join(ROOT, 'MANIFEST.json'), encoding='utf-8') as h:
    for c in json.load(h)['checks']:
        mod = importlib.import_module('checks.' + c['property'].lower())
        assert mod.STREAMS and mod.TITLE and mod.RULE
print(f'selftest passed: {len(specs.SPECS)} specs')
