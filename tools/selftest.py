#!/usr/bin/env python3
""" setup_cmd: nothing to build; make sure everything imports and the reference
    codec agrees with itself. """
import importlib
import random
import sys
from pathlib import Path

sys.dont_write_bytecode = True
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
from vlib import gen, mon, obs, ref  # noqa

for p in sorted((V / 'checks').glob('c*.py')):
    importlib.import_module('checks.' + p.stem)
for i in range(20):
    rng = random.Random(i)
    m = gen.gen_schema(rng)
    r = gen.gen_layout(rng, m)
    assert ref.tree_equals(ref.parse(gen.to_bytes(r), m), r)
(V / 'evidence').mkdir(exist_ok=True)
print('ok')
