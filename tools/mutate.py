#!/usr/bin/env python3
""" Small syntactic changes to scratch copies of the library: which survive the tests, and which of these the checks miss.

mutate.py OUT.jsonl [--file=core.py] [--sample=N] [--jobs=N] [--seed=N] [--retry] [--full]

Appends one line per mutant: where, change, tests (killed or survived), the check that caught it, or null. With --retry, runs
the checks again on the mutants OUT.jsonl says were missed. A tool for finding gaps: not every survivor breaks a property.
"""
import ast
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess as sp
import sys
import tempfile
import threading
from pathlib import Path

V = Path(__file__).resolve().parent.parent
PY = '/opt/venv/bin/python'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
FILES = ['core.py', 'encoding.py', 'decoding.py', 'util.py', 'xml_codecs.py', 'threaded_file.py', 'tools/ebml2xml.py',
         'tools/xml2ebml.py', 'tools/view_ebml.py', 'tools/list_schemata.py', 'tools/utils.py']
FIRST = {'core.py': 'C07 C04 C01 C15 C16 C05 C08 C18 C17 C22 C23 C26 C06 C21 C24 C09 C25', 'encoding.py': 'C02 C03 C01',
         'decoding.py': 'C02 C03 C04 C09', 'util.py': 'C11 C10 C27 C20 C21 C19', 'xml_codecs.py': 'C12 C10 C27',
         'threaded_file.py': 'C13 C08 C14', 'tools': 'C19'}
CMP = {ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '//', ast.FloorDiv: '*', ast.Mod: '*', ast.LShift: '>>', ast.RShift: '<<',
       ast.BitAnd: '|', ast.BitOr: '&'}


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.lines = src.encode().split(b'\n')
        self.out = []
        self.fn = []
        self.src = src

    def text(self, n):
        return ast.get_source_segment(self.src, n)

    def add(self, n, new, why):
        self.out.append((n.lineno, n.col_offset, n.end_lineno, n.end_col_offset, new, why, '.'.join(self.fn)))

    def visit_Raise(self, n):
        self.add(n, 'pass', 'drop')     # messages do not matter

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        for d in n.args.defaults + n.args.kw_defaults:
            if d is not None:
                self.visit(d)
        self.body(n.body)
        self.fn.pop()

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        self.body(n.body)
        self.fn.pop()

    def body(self, b):
        for s in b:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            self.visit(s)

    def generic_visit(self, n):
        if isinstance(n, ast.stmt):
            if isinstance(n, (ast.Expr, ast.AugAssign, ast.Raise, ast.Delete, ast.Break, ast.Continue)) or (
                    isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name)):
                self.add(n, 'pass', 'drop')
            elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
                self.add(n, 'return None', 'return None')
            elif isinstance(n, ast.Assign) and self.fn and not isinstance(n.value, ast.Constant):
                self.add(n.value, 'None', 'assign None')
            if isinstance(n, (ast.If, ast.While)):
                self.add(n.test, 'not (%s)' % self.text(n.test), 'negate')
                self.add(n.test, 'True', 'true')
                self.add(n.test, 'False', 'false')
        if isinstance(n, ast.IfExp):
            self.add(n.test, 'not (%s)' % self.text(n.test), 'negate')
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                self.add(n, '%s %s %s' % (self.text(n.left), o, self.text(n.comparators[0])), 'compare')
        if isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            self.add(n, '(' + o.join('(%s)' % self.text(v) for v in n.values) + ')', 'and/or')
            for v in n.values:
                self.add(n, '(' + self.text(v) + ')', 'one operand')
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            self.add(n, '(%s %s %s)' % (self.text(n.left), BIN[type(n.op)], self.text(n.right)), 'arith')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            self.add(n, '(%s)' % self.text(n.operand), 'not')
        if isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                self.add(n, repr(not v), 'bool')
            elif isinstance(v, int):
                for w in (v + 1, v - 1):
                    self.add(n, '(%d)' % w, 'int')
            elif v is None and self.fn:
                self.add(n, '0', 'none')
            elif isinstance(v, (str, bytes)) and v and self.fn:
                self.add(n, repr(type(v)()), 'str')
        if isinstance(n, ast.Call):
            if getattr(n.func, 'attr', '') in ('add_argument', 'ArgumentParser', 'print_help', 'error'):
                return
            for k in n.keywords:
                if k.arg:
                    self.add(k, '**{}', 'drop keyword')
        if isinstance(n, ast.JoinedStr) or isinstance(n, ast.AnnAssign) and n.value is None:
            return
        for f, v in ast.iter_fields(n):
            if f in ('annotation', 'returns'):
                continue
            for c in v if isinstance(v, list) else [v]:
                if isinstance(c, ast.AST):
                    self.visit(c)


def mutants(repo, f):
    p = Path(repo) / 'ebmlite' / f
    src = p.read_text()
    fi = Finder(src)
    fi.body(ast.parse(src).body)
    lines = src.split('\n')
    seen = set()
    for (l0, c0, l1, c1, new, why, fn) in fi.out:
        bl = [x.encode() for x in lines]
        head = b'\n'.join(bl[:l0 - 1] + [bl[l0 - 1][:c0]])
        tail = b'\n'.join([bl[l1 - 1][c1:]] + bl[l1:])
        old = src.encode()[len(head):len(src.encode()) - len(tail)].decode()
        t = (head + new.encode() + tail).decode()
        if '__slots__' in lines[l0 - 1] or 'super(' in old and why == 'drop':
            continue
        if t in seen or t == src or '__all__' in lines[l0 - 1] or '__author__' in lines[l0 - 1]:
            continue
        seen.add(t)
        try:
            compile(t, f, 'exec')
        except (SyntaxError, ValueError):
            continue
        yield {'file': f, 'line': l0, 'fn': fn, 'why': why, 'old': old[:300], 'new': new[:300]}, t


def sh(cmd, r, extra=None, timeout=300):
    e = dict(os.environ, PYTHONPATH=str(r), PATH='/opt/venv/bin:' + os.environ['PATH'], PYTHONDONTWRITEBYTECODE='1',
             GITHUB_ACTIONS='true', PYTHONHASHSEED='0')
    e.update(extra or {})
    try:
        p = sp.run(cmd, cwd=r, env=e, stdout=sp.PIPE, stderr=sp.STDOUT, text=True, errors='replace', timeout=timeout, start_new_session=True)
        return p.returncode, p.stdout
    except sp.TimeoutExpired:
        return 'timeout', ''


def tests(r):
    x = r.parent / 'out.xml'
    x.unlink(missing_ok=True)
    rc, _ = sh(['prlimit', '--as=4000000000', PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--junitxml', str(x), 'tests'], r, timeout=90)
    if rc == 'timeout' or not x.exists():
        return False
    import xml.etree.ElementTree as ET
    ok = {'%s::%s' % (c.get('classname'), c.get('name')) for c in ET.parse(x).iter('testcase')
          if not len([k for k in c if k.tag in ('failure', 'error', 'skipped')])}
    sp.run(['git', 'checkout', '-q', '--', 'tests'], cwd=r)
    return STABLE <= ok


def checks(r, f):
    order = FIRST['tools' if f.startswith('tools') else f].split()
    if FULL:
        order += [c for c in ('C%02d' % i for i in range(1, 31)) if c not in order]
    odd = []
    for c in order:
        with tempfile.TemporaryDirectory() as ev:
            rc, out = sh([sys.executable, str(V / 'run.py'), c], r,
                    {'VERIF_REPO': str(r), 'VERIF_REPLAYS': ev, 'VERIF_EVIDENCE': ev, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick', 'PYTHONPATH': ''}, 400)
        if rc == 1 and 'VIOLATION property=' in out:
            return c, odd
        if rc != 0:
            odd.append((c, rc, out[-200:]))
    return None, odd


local = threading.local()


def scratch():
    if not hasattr(local, 'r'):
        d = Path(tempfile.mkdtemp(prefix='mut-', dir='/tmp'))
        sp.run(['git', 'clone', '-q', '/repo', str(d / 'r')], check=True)
        local.r = d / 'r'
        DIRS.append(d)
    return local.r


DIRS = []


def one(m, text, pretested):
    r = scratch()
    p = r / 'ebmlite' / m['file']
    keep = p.read_text()
    try:
        p.write_text(text)
        m['survived'] = pretested or tests(r)
        if m['survived']:
            m['caught'], m['odd'] = checks(r, m['file'])
    finally:
        p.write_text(keep)
    return m


FULL = False


def main():
    global FULL
    opt = dict(a[2:].split('=') if '=' in a else (a[2:], '1') for a in sys.argv[2:] if a.startswith('--'))
    FULL = 'full' in opt
    out = Path(sys.argv[1])
    done = [json.loads(l) for l in open(out)] if out.exists() else []
    key = lambda m: (m['file'], m['fn'], m['old'], m['new'], m['line'])
    had = {key(m): m for m in done}
    todo = []
    for f in FILES:
        if opt.get('file', f) == f:
            todo += list(mutants('/repo', f))
    if 'retry' in opt:
        todo = [(m, t) for m, t in todo if key(m) in had and had[key(m)].get('survived') and not had[key(m)].get('caught')]
        keep = [m for m in done if not (m.get('survived') and not m.get('caught'))]
    else:
        todo = [(m, t) for m, t in todo if key(m) not in had]
        keep = done
        random.Random(int(opt.get('seed', 1))).shuffle(todo)
        todo = todo[:int(opt.get('sample', len(todo)))]
    print(len(todo), 'mutants', flush=True)
    with open(out, 'w') as o:
        for m in keep:
            o.write(json.dumps(m) + '\n')
    n = [0, 0, 0]
    try:
        with cf.ThreadPoolExecutor(int(opt.get('jobs', 7))) as ex:
            for fu in cf.as_completed([ex.submit(one, m, t, 'retry' in opt) for m, t in todo]):
                m = fu.result()
                n[0] += 1
                if m['survived']:
                    n[1] += 1
                    n[2] += bool(m['caught'])
                with open(out, 'a') as o:
                    o.write(json.dumps(m) + '\n')
                if n[0] % 50 == 0 or m['survived'] and not m['caught']:
                    print('%d done, %d survived the tests, %d caught; %s' % (*n, {**m, 'odd': [o[:2] for o in m['odd']]} if m['survived'] and not m['caught'] else ''), flush=True)
    finally:
        for d in DIRS:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    main()
