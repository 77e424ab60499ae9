#!/usr/bin/env python3
""" Confirm planted changes and see which checks catch them. Works in scratch copies of /repo.

seed.py new FILE.py      FILE.py defines SEEDS: a list of dicts id, property, edits [(file, old, new)], demo (Python source), needs, breaks;
                         writes /verif/seeded/<id>/ for those that build, pass the stable tests, and whose demo tells them apart
seed.py try FILE.py      the same for any change, also of lines added by fixes; writes nothing
seed.py quiet FILE.py    EDITS: changes that keep the behaviour; all checks have to stay quiet
seed.py run [ID ...]     run the property's check (all checks with --all) against planted changes
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess as sp
import sys
import tempfile
from pathlib import Path

V = Path(__file__).resolve().parent.parent
TRY = sys.argv[1:2] == ['try']
SEEDED = Path(tempfile.mkdtemp()) if TRY else V / 'seeded'
PY = '/opt/venv/bin/python'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
BASE = sp.run(['git', 'rev-list', '--max-parents=0', 'HEAD'], cwd='/repo', capture_output=True, text=True).stdout.strip()
DEMO_SH = '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec %s "$(dirname "$0")/demo.py"\n' % PY


def copy():
    d = Path(tempfile.mkdtemp(prefix='seed-', dir='/tmp'))
    sp.run(['git', 'clone', '-q', '/repo', str(d / 'r')], check=True)
    return d, d / 'r'


def env(r):
    e = dict(os.environ, PYTHONPATH=str(r), PATH='/opt/venv/bin:' + os.environ['PATH'], PYTHONDONTWRITEBYTECODE='1', GITHUB_ACTIONS='true', PYTHONHASHSEED='0')
    return e


def tests(r):
    """ The stable tests that fail. """
    x = r.parent / 'out.xml'
    sp.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--junitxml', str(x), 'tests'], cwd=r, env=env(r),
           stdout=sp.DEVNULL, stderr=sp.DEVNULL, timeout=900)
    import xml.etree.ElementTree as ET
    ok = set()
    for c in ET.parse(x).iter('testcase'):
        if not len([k for k in c if k.tag in ('failure', 'error', 'skipped')]):
            ok.add('%s::%s' % (c.get('classname'), c.get('name')))
    return STABLE - ok


def demo(d, r):
    p = sp.run(['bash', str(d / 'demo.sh')], cwd=r, env={k: v for k, v in os.environ.items() if k != 'PYTHONPATH'},
               capture_output=True, text=True, timeout=300)
    return p.returncode, (p.stdout + p.stderr)[-600:]


def check(r, c, seed='1', tier='quick'):
    with tempfile.TemporaryDirectory() as rp:
        e = dict(env(r), VERIF_REPO=str(r), VERIF_TIER=tier, VERIF_SEED=seed, VERIF_REPLAYS=rp, VERIF_EVIDENCE=rp)
        e.pop('PYTHONPATH')
        p = sp.run([sys.executable, 'run.py', c], cwd=V, env=e, capture_output=True, text=True, timeout=1800)
    return p.returncode, (p.stdout + p.stderr).strip().splitlines()


def new_one(s):
    d, r = copy()
    out = []
    try:
        for f, old, new in s['edits']:
            p = r / f
            t = p.read_text()
            if t.count(old) != 1:
                return s['id'], 'BAD: %r occurs %d times in %s' % (old[:60], t.count(old), f)
            p.write_text(t.replace(old, new))
        diff = sp.run(['git', 'diff'], cwd=r, capture_output=True, text=True).stdout
        gone = [l[1:].strip() for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        base = ''.join(sp.run(['git', 'show', '%s:%s' % (BASE, f)], cwd=r, capture_output=True, text=True).stdout for f, _o, _n in s['edits'])
        mine = [g for g in gone if g not in [b.strip() for b in base.splitlines()]]
        if len(mine) == len(gone) and not TRY:
            return s['id'], 'BAD: changes no original line'
        t = SEEDED / s['id']
        shutil.rmtree(t, ignore_errors=True)
        t.mkdir(parents=True)
        (t / 'demo.sh').write_text(DEMO_SH)
        (t / 'demo.py').write_text(s['demo'].strip() + '\n')
        sp.run(['git', 'checkout', '-q', '.'], cwd=r)
        rc, o = demo(t, r)
        if rc:
            shutil.rmtree(t)
            return s['id'], 'BAD: demo fails on the unchanged tree: ' + o
        sp.run(['git', 'apply'], cwd=r, input=diff, text=True, check=True)
        rc, o = demo(t, r)
        if not rc:
            shutil.rmtree(t)
            return s['id'], 'BAD: demo passes with the change'
        failed = tests(r)
        if failed:
            shutil.rmtree(t)
            return s['id'], 'BAD: tests fail: %s' % sorted(failed)[:4]
        (t / 'patch.diff').write_text(diff)
        if TRY:
            shutil.rmtree(t)
            rc, o = check(r, s['property'])
            return s['id'], 'tried: %s %s rc=%d %s' % ('caught' if rc == 1 else 'MISSED', s['property'], rc, ' | '.join(o)[:300])
        (t / 'meta.json').write_text(json.dumps({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, indent=1) + '\n')
        rc, o = check(r, s['property'])
        return s['id'], '%s %s rc=%d %s' % ('caught' if rc == 1 else 'MISSED', s['property'], rc, ' | '.join(o)[:300])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_one(i, every=False, seed='1'):
    d, r = copy()
    try:
        t = SEEDED / i
        sp.run(['git', 'apply', str(t / 'patch.diff')], cwd=r, check=True)
        prop = json.load(open(t / 'meta.json'))['property']
        cs = [json.loads(l)['id'] for l in open(V / 'properties.jsonl')] if every else [prop]
        res = {c: check(r, c, seed)[0] for c in cs}
        hit = [c for c in cs if res[c] == 1]
        odd = [c for c in cs if res[c] not in (0, 1)]
        return i, '%s %s: %s%s' % ('caught' if res[prop] == 1 else 'MISSED', prop, ' '.join(hit), ' odd: %s' % odd if odd else '')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def quiet_one(name, edits):
    """ A change that keeps the behaviour: the tests must pass and every check be quiet. """
    d, r = copy()
    try:
        for f, old, new in edits:
            p = r / f
            t = p.read_text()
            for o, n in ([(old, new)] if old is not None else new):
                if o not in t or (old is not None and t.count(o) != 1):
                    return name, 'BAD: %r occurs %d times in %s' % (o[:60], t.count(o), f)
                t = t.replace(o, n)
            p.write_text(t)
        failed = tests(r)
        if failed:
            return name, 'BAD: tests fail: %s' % sorted(failed)[:4]
        loud = []
        for c in os.environ.get('ONLY', '').split() or [json.loads(l)['id'] for l in open(V / 'properties.jsonl')]:
            rc, o = check(r, c)
            if rc:
                loud.append('%s rc=%d %s' % (c, rc, ' | '.join(o)[:700]))
        return name, 'LOUD %s' % '\n    '.join(loud) if loud else 'quiet'
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    with cf.ThreadPoolExecutor(int(os.environ.get('JOBS', 7))) as ex:
        if a[0] in ('new', 'try'):
            ns = {}
            exec(Path(a[1]).read_text(), ns)
            only = a[2:]
            fs = [ex.submit(new_one, s) for s in ns['SEEDS'] if not only or s['id'] in only]
        elif a[0] == 'quiet':
            ns = {}
            exec(Path(a[1]).read_text(), ns)
            fs = [ex.submit(quiet_one, k, v) for k, v in ns['EDITS'].items() if not a[2:] or k in a[2:]]
        else:
            every = '--all' in a
            seed = next((x[7:] for x in a if x.startswith('--seed=')), '1')
            ids = [x for x in a[1:] if not x.startswith('--')] or sorted(p.name for p in SEEDED.iterdir() if p.is_dir())
            fs = [ex.submit(run_one, i, every, seed) for i in ids]
        for f in cf.as_completed(fs):
            print('%-34s %s' % f.result(), flush=True)


main()
