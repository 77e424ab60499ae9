""" C16: schemata are found, cached and listed consistently. """
import importlib
import io
import json
import os
import random
import shutil
import subprocess
import sys
import zipfile
from pathlib import Path

from vlib import gen, ref
from vlib.mon import REPO, Section, short
from ebmlite import core, util

LEVEL = 'exploration'
RULE = """'history': random sequences of load, reload, parse, list and print calls (by base name, relative, absolute, home and
module spelling, str or Path, with and without explicit paths, present and missing) over a scratch tree of directories and
packages holding distinguishable schema files, with a random SCHEMA_PATH; each result is compared with a model of the
search and of the cache, listings with the files on disk. 'environment': the same questions in a fresh process with
EBMLITE_SCHEMA_PATH. 'packages': schemata in zipped and namespace packages. Non-trivial: at least five calls. Distinct: the history."""
REQUIRE = {'load': 500, 'load from cache': 100, 'not found': 60, 'listing': 150, 'parse': 60, 'reload': 60,
           'module path': 60, 'first listed is loaded': 60, 'environment': 2,
           'by another path': 120,
           'cached among many': 1500, 'zipped package': 12, 'namespace package': 4, 'load from package': 70,
           'package listed': 25}


class World:
    """ Scratch files, and what is where. """

    def __init__(self, ctx, rng, i):
        self.ctx, self.rng = ctx, rng
        self.root = Path(os.path.realpath(ctx.dir)) / ('w%d' % i)
        self.root.mkdir()
        self.n = 0
        self.marker = {}            # real path -> marker ID
        self.paths = []             # where there are schema files
        self.dirs = []
        self.names = ['a.xml', 'b.xml', 'Up.XML', 'other.xml', 'matroska.xml', rng.choice(['$HOME.xml', '%s.xml', 'a b.xml', '*.xml', '#.xml'])]
        self.mods = []
        for d in ('cwd', 'd1', 'd2', 'cwd/rel', 'home', 'emp ty'):
            self.fill(self.root / d)
        for k in range(2):
            pkg = 'vmod%d_%d_%d' % (os.getpid(), i, k)
            self.fill(self.root / 'py' / pkg)
            (self.root / 'py' / pkg / '__init__.py').write_text('')
            self.fill(self.root / 'py' / pkg / 'sub')
            (self.root / 'py' / pkg / 'sub' / '__init__.py').write_text('')
            self.fill(self.root / 'py' / pkg / 'data')
            self.mods.append(pkg)
        self.cwd = self.root / 'cwd'
        # other ways to the same files
        (self.root / 'linked').symlink_to(rng.choice(['d1', 'd2', 'cwd/rel']))
        self.paths += [p for n in self.names if (p := self.root / 'linked' / n).is_file()]

    def fill(self, d):
        d.mkdir(parents=True, exist_ok=True)
        for n in self.names:
            if self.rng.random() < (.5 if n != 'matroska.xml' else .1):
                self.write(d / n)
        if self.rng.random() < .3:
            (d / 'broken.xml').write_text(self.rng.choice(['', '<Schema>', 'text', '<Schema/><Schema/>', '<?xml version="1.0" encoding="nope"?><Schema/>',
                                                                  '<?xml version="1.0" encoding="utf-32"?><Schema/>', '<Schema>&nope;</Schema>',
                                                                  '<?xml version="1.0" encoding="undefined"?><Schema/>']))
        if self.rng.random() < .3:
            (d / 'foreign.xml').write_text('<html><Schema/></html>')
        if self.rng.random() < .3:
            (d / 'note.txt').write_text('<Schema></Schema>')
        if self.rng.random() < .2:
            (d / 'dir.xml').mkdir()

    def write(self, p):
        self.n += 1
        self.paths.append(p)
        if self.rng.random() < .12:
            target = p.parent / ('real%d.%s' % (self.n, self.rng.choice(['schema', 'txt', 'v2'])))
            p.symlink_to(self.rng.choice([target, target.name]))
            p = target
        self.marker[p] = 0x4100 + self.n
        doctype = '<MasterElement name="EBML" id="0x1A45DFA3"><StringElement name="DocType" id="0x4282" default="t%d"/></MasterElement>' % self.n
        p.write_text('<?xml version="1.0"?>\n<Schema>%s<UIntegerElement name="Marker" id="0x%X"/></Schema>' % (
            doctype if self.rng.random() < .6 else '', self.marker[p]))

    # -- the model
    def expand(self, path):
        """ Directory of a schema path entry; None: nothing there. """
        if isinstance(path, type(os)):
            return Path(path.__file__).parent
        s = str(path)
        if s == '':
            return self.cwd
        if s.startswith('{'):
            mod, _, rest = s.partition('}')
            parts = mod[1:].strip().split('.')
            base = (self.root / 'py' if parts[0] in self.mods else REPO).joinpath(*parts)
            if not base.is_dir():
                return None
            return base / rest.lstrip('/') if rest else base
        return self.cwd / s

    def resolve(self, name, paths):
        """ The file loadSchema(name) should find. """
        s = str(name)
        if s.startswith('~/'):
            p = self.root / 'home' / s[2:]
            return p if p.is_file() else None
        p = self.expand(s)
        if p is None:
            return None
        if p.is_file():
            return p
        if '/' not in s and not s.startswith('{'):
            for q in paths:
                d = self.expand(q)
                if d is not None and (d / s).is_file():
                    return d / s
        return None


def is_schema(p):
    try:
        return p.is_file() and ref.ET.parse(str(p)).getroot().tag == 'Schema'
    except (ref.ET.ParseError, LookupError, ValueError):
        return False


def another(p):
    """ Not the plain path of a file. """
    return '..' in str(p) or str(p) != os.path.realpath(p)


def listing(w, paths):
    out = {}
    for q in paths:
        d = w.expand(q)
        if d is None or not d.is_dir():
            continue
        for p in d.iterdir():
            if p.name.lower().endswith('.xml') and is_schema(p):
                out.setdefault(p.name, []).append(os.path.realpath(p))
    return out


def entry(rng, w, objects=True):
    """ A schema path entry. """
    k = rng.randrange(10)
    if k < 2:
        return rng.choice(['rel', './rel', '../d1'])
    if k < 5:
        p = w.root / rng.choice(['d1', 'd2', 'emp ty', 'cwd/rel', 'linked', 'linked/..' + '/d1' * (rng.random() < .8)])
        return rng.choice([str(p), p])
    if k < 7:
        return '{%s%s}%s' % (rng.choice(w.mods), rng.choice(['', '.sub']), rng.choice(['', '', '/data' ]))
    if k == 7 and objects:
        return importlib.import_module(rng.choice(w.mods) + rng.choice(['', '.sub']))
    if k == 8:
        return rng.choice(['{ebmlite.schemata}', '{ebmlite}/schemata'])
    return rng.choice(['nosuchdir', '{no_such_module_x}', str(w.root / 'nosuch')])


def fix(e):
    return e if not isinstance(e, str) or not e.endswith('.sub}/data') else e[:-5]


def spelled(rng, w, p):
    """ A way to write the path of a file. """
    rel = os.path.relpath(p, w.cwd)
    out = [str(p), p, rel if '/' in rel else './' + rel]
    s = str(p)
    if '/py/' in s:
        pkg, _, rest = s.partition('/py/')[2].partition('/')
        out += ['{%s}/%s' % (pkg, rest)] * 3
        if rest.startswith('sub/'):
            out += ['{%s.sub}/%s' % (pkg, rest[4:])] * 2
    if '/home/' in s:
        out.append('~/' + p.name)
    return rng.choice(out)


def history(ctx, rng, i):
    w = World(ctx, rng, i)
    old = os.getcwd(), list(core.SCHEMA_PATH), dict(core.SCHEMATA), os.environ.get('HOME'), list(sys.path)
    log = []
    try:
        os.chdir(w.cwd)
        os.environ['HOME'] = str(w.root / 'home')
        sys.path.insert(0, str(w.root / 'py'))
        importlib.invalidate_caches()
        core.SCHEMATA.clear()
        core.SCHEMA_PATH[1:] = [fix(entry(rng, w)) for _ in range(rng.randint(0, 4))] + (
            core.SCHEMA_PATH[1:] if rng.random() < .5 else [])
        ctx.check(core.SCHEMA_PATH[0] == '', 'the search does not begin in the current directory')
        drive(ctx, rng, w, log)
    finally:
        os.chdir(old[0])
        core.SCHEMA_PATH[:] = old[1]
        core.SCHEMATA.clear()
        core.SCHEMATA.update(old[2])
        if old[3] is not None:
            os.environ['HOME'] = old[3]
        sys.path[:] = old[4]
        for m in [m for m in sys.modules if m.split('.')[0] in w.mods]:
            del sys.modules[m]
        shutil.rmtree(w.root)
    ctx.case(repr(log), '; '.join(log)[:400], nontrivial=len(log) > 4)


def drive(ctx, rng, w, log):
    newest, versions = {}, {}       # file -> schema object(s)
    alias = {}                      # name and file -> objects it has given
    parsed = {}                     # name -> schema
    loose = {}                      # file -> objects given by other paths to it
    files = list(w.paths)

    def fail(msg, *a):
        ctx.fail('after %s [SCHEMA_PATH %s]: %s' % ('; '.join(log[-30:]), short(core.SCHEMA_PATH), msg % a if a else msg))

    def seen(key, found, s):
        want = Path(os.path.realpath(found))
        versions.setdefault(want, []).append(s)
        alias.setdefault((key, want), []).append(s)
        if not another(found) and newest.get(want) is None:
            newest[want] = s

    def explicit():
        if rng.random() < .7:
            return None
        some = [fix(entry(rng, w)) for _ in range(rng.randint(1, 3))]
        if rng.random() < .2:
            # the usual ones, or some of them
            return core.SCHEMA_PATH[:rng.randint(1, len(core.SCHEMA_PATH))] + some[1:]
        return some
    stale = set()                   # names loaded in another directory: cached
    steps = rng.randint(5, 25)
    for _ in range(steps):
        k = rng.random()
        if rng.random() < .06:
            w.cwd = w.root / rng.choice(['cwd', 'd1', 'd2', 'home'])
            os.chdir(w.cwd)
            log.append('chdir %s' % w.cwd.name)
            ctx.ev('chdir')
            stale |= {n for n in core.SCHEMATA if not n.startswith('/')}
        if k < .6:
            # load
            if rng.random() < .55:
                name = rng.choice(w.names + ['a.xml', 'b.xml'])
                if rng.random() < .2:
                    name = Path(name)
            elif rng.random() < .8:
                name = spelled(rng, w, rng.choice(files))
            else:
                name = rng.choice(['nosuch.xml', 'nosuch/a.xml', str(w.root / 'x.xml'), '{no_such_mod_y}/a.xml', '{unclosed/a.xml',
                                   '{%s}/no.xml' % w.mods[0], Path('missing'), 'rel', '{%s}' % w.mods[0]])
            paths = explicit()
            rl = rng.random() < .2
            if paths is None and str(name) in stale and not rl:
                continue
            log.append('load %r%s%s' % (str(name), ' paths %r' % [str(x)[-40:] for x in paths] if paths else '', ' reload' if rl else ''))
            key = str(name)
            if '{' in key:
                ctx.ev('module path')
            before = dict(core.SCHEMATA)
            kw = {} if paths is None else {'paths': paths}
            if rl:
                kw['reload'] = True
            want = None if key.startswith('{') and '}' not in key else w.resolve(name, paths or core.SCHEMA_PATH)
            if paths is None and key in parsed and not rl:
                s = core.loadSchema(name)
                if s is not parsed[key]:
                    fail('not the schema parsed under this name')
                continue
            try:
                s = core.loadSchema(name, **kw)
            except (OSError, ImportError) as ex:
                if want is not None:
                    fail('%s, but %s is there', ex, want)
                ctx.ev('not found')
                if core.SCHEMATA != before or list(core.SCHEMATA) != list(before):
                    fail('a failed load changed the cache')
                continue
            ctx.ev('load')
            if paths is None:
                stale.discard(key)
            if want is None:
                fail('found %r, expected an exception', s.filename)
            parsed.pop(key, None) if paths is None else None
            odd = another(want)
            if odd:
                ctx.ev('by another path')
            want = Path(os.path.realpath(want))
            if want in w.marker:
                if w.marker[want] not in s.elements or 'Marker' not in s:
                    fail('loaded %s, expected %s', s.filename, want)
            elif 'Marker' in s:
                fail('loaded %s, expected %s', s.filename, want)
            if s.filename != str(want):
                fail('filename is %s, expected %s', s.filename, want)
            known = versions.setdefault(want, [])
            if odd:
                # a path with '..' or through a link is another cache entry; it must only be the right file
                if rl and any(s is x for x in known):
                    fail('reload gave an old schema')
                known.append(s)
                loose.setdefault(want, []).append(s)
                if paths is None:
                    alias.setdefault((key, want), []).append(s)
                continue
            if rl:
                ctx.ev('reload')
                if any(s is x for x in known):
                    fail('reload gave an old schema')
                newest[want] = s
            elif newest.get(want) is None:
                if any(s is x for x in known) and not any(s is x for x in alias.get((key, want), []) + loose.get(want, [])):
                    fail('gave an unexpected schema')
                newest[want] = s
            else:
                ctx.ev('load from cache')
                # (or, after a reload by another name, the one this name gave before)
                ok = [newest[want]] + loose.get(want, []) + (alias.get((key, want), []) if paths is None else [])
                if not any(s is x for x in ok):
                    fail('gave another schema object (%d known) for %s', len(known), want)
            known.append(s)
            if paths is None:
                alias.setdefault((key, want), []).append(s)
        elif k < .7:
            # parse under a name
            name = rng.choice(['given', 'a.xml', 'zz.xml', 'x y'])
            rl = rng.random() < .3
            mark = 0x5000 + rng.randrange(900)
            text = '<Schema><UIntegerElement name="P" id="0x%X"/></Schema>' % mark
            if rng.random() < .3:
                # without a name: never another schema
                own = rng.choice([None, None, 'given', 'own%d' % rng.randrange(3)])
                text = text.replace('<UInt', '<MasterElement name="EBML" id="0x1A45DFA3"><StringElement name="DocType" id="0x4282" '
                                    'default="%s"/></MasterElement><UInt' % own) if own else text
                log.append('parse without a name, DocType %r' % own)
                ctx.ev('parse')
                s = core.parseSchema(rng.choice([text, io.StringIO(text)]), reload=rl)
                if mark not in s.elements or s.name != (own or ''):
                    fail('parsed schema %r has elements %r', s.name, list(s.elements))
                if core.parseSchema('<Schema/>', name=s.name) is not s:
                    fail('%r is not found under its name', s.name)
                parsed[s.name] = s
                continue
            log.append('parse %r%s' % (name, ' reload' if rl else ''))
            ctx.ev('parse')
            hit = core.SCHEMATA.get(name)
            s = core.parseSchema(rng.choice([text, io.StringIO(text), io.BytesIO(text.encode())]), name=name, reload=rl)
            if hit is not None and not rl:
                if s is not hit:
                    fail('parsing under a known name gave another schema')
            else:
                if s is hit or mark not in s.elements or s.name != name:
                    fail('parsed schema %r has elements %r', s.name, list(s.elements))
                parsed[name] = s
        elif k < .85:
            paths = [fix(entry(rng, w)) for _ in range(rng.randint(1, 4))] if rng.random() < .6 else []
            if rng.random() < .2:
                paths.append('')
            absolute = rng.random() < .6
            log.append('list %r' % [str(x)[-40:] for x in paths])
            want = listing(w, paths or core.SCHEMA_PATH)
            got = core.listSchemata(*paths) if absolute and rng.random() < .5 else core.listSchemata(*paths, absolute=absolute)
            ctx.ev('listing')
            check_listing(ctx, w, got, want, absolute, fail)
            if not paths:
                first(ctx, rng, w, got, {*parsed, *stale}, fail, seen)
        else:
            extra = [fix(entry(rng, w)) for _ in range(rng.randint(1, 3))] if rng.random() < .6 else None
            absolute = rng.random() < .5
            log.append('print %r' % (extra,))
            keep = list(extra) if extra is not None else None
            sp = list(core.SCHEMA_PATH)
            target = rng.choice(['stream', 'path', 'Path'])
            if target == 'stream':
                out = io.StringIO()
                util.printSchemata(extra, out, absolute)
                text = out.getvalue()
            else:
                p = w.root / 'print.txt'
                util.printSchemata(paths=extra, out=str(p) if target == 'path' else p, absolute=absolute)
                text = p.read_text()
            if extra != keep or core.SCHEMA_PATH != sp:
                fail('printSchemata() changed a list of paths')
            ctx.ev('listing')
            got = {}
            for line in text.splitlines():
                if not line.startswith('    '):
                    key = line
                    if key in got:
                        fail('%s is printed twice', key)
                    got[key] = []
                else:
                    got[key].append(Path(line[4:]))
            check_listing(ctx, w, got, listing(w, (extra or []) + sp), absolute, fail)


def check_listing(ctx, w, got, want, absolute, fail):
    if sorted(got) != sorted(want):
        fail('listed %s, expected %s', short(sorted(got)), short(sorted(want)))
    for k, v in got.items():
        real = []
        for p in v:
            if absolute:
                if not os.path.isabs(p):
                    fail('%s: %s is not an absolute path', k, p)
                real.append(os.path.realpath(p))
            else:
                q = w.expand(str(p))
                if q is None or not q.is_file():
                    fail('%s: cannot find listed %s', k, p)
                real.append(os.path.realpath(q))
        if real != want[k]:
            fail('%s: listed %s, expected %s', k, short(v), short(want[k]))


def first(ctx, rng, w, got, parsed, fail, seen):
    for k, v in got.items():
        if k in parsed or rng.random() < .5:
            continue
        s = core.loadSchema(k, reload=False)
        ctx.ev('first listed is loaded')
        # cached or not, it is the first one listed
        if s.filename != os.path.realpath(w.expand(str(v[0]))):
            fail('loads %s, the first one listed is %s', s.filename, v[0])
        seen(k, w.expand(str(v[0])), s)


PROGRAM = '''
import json, sys
sys.path.insert(0, %(repo)r)
sys.path.insert(1, %(py)r)
sys.dont_write_bytecode = True
from ebmlite import core
out = {"path": core.SCHEMA_PATH, "list": {k: [str(x) for x in v] for k, v in core.listSchemata().items()}, "load": {}}
for n in %(names)r:
    try:
        out["load"][n] = core.loadSchema(n).filename
    except Exception as ex:
        out["load"][n] = None
print(json.dumps(out))
'''


def environment(ctx, rng, i):
    w = World(ctx, rng, 1000 + i)
    entries = [str(fix(entry(rng, w, False))) for _ in range(rng.randint(0, 3))]
    if entries and rng.random() < .5:
        # one of them twice
        entries.insert(rng.randint(0, len(entries)), rng.choice(entries))
    env = {k: v for k, v in os.environ.items() if not k.startswith('EBMLITE')}
    if entries or i % 3:
        env['EBMLITE_SCHEMA_PATH'] = os.pathsep.join(entries)
    env['HOME'] = str(w.root / 'home')
    r = subprocess.run([sys.executable, '-c', PROGRAM % dict(repo=str(REPO), py=str(w.root / 'py'), names=w.names + ['mide_ide.xml', 'no.xml'])],
                       cwd=w.cwd, env=env, capture_output=True, text=True, timeout=120)
    ctx.check(r.returncode == 0, 'EBMLITE_SCHEMA_PATH=%r: %s', env.get('EBMLITE_SCHEMA_PATH'), r.stderr[-800:])
    got = json.loads(r.stdout)
    path = [''] + [str(REPO / 'ebmlite' / 'schemata')]
    for e in entries:
        if e not in path:
            path.append(e)
    ctx.eq(*[[os.path.realpath(x) if x.startswith('/') else x for x in xs] for xs in (got['path'], path)],
           'SCHEMA_PATH with %r' % entries)
    want = listing(w, path)
    ctx.eq({k: [os.path.realpath(x) for x in v] for k, v in got['list'].items()}, want, 'listing with %r' % entries)
    for n, f in got['load'].items():
        p = w.resolve(n, path)
        ctx.eq(f, None if p is None else os.path.realpath(p), 'load %s with %r' % (n, entries))
    ctx.ev('environment')
    shutil.rmtree(w.root)
    ctx.case((entries, i), 'EBMLITE_SCHEMA_PATH=%r' % entries)


def many(ctx, rng, i):
    """ Very many schemata, all of which stay cached. """
    root = ctx.dir / 'many'
    root.mkdir()
    xml = '<Schema><UIntegerElement name="U%d" id="0x%X"/></Schema>'
    n = rng.choice([40, 140, 300, 600, 1100])
    saved, path = dict(core.SCHEMATA), list(core.SCHEMA_PATH)
    core.SCHEMA_PATH.append(str(root))
    got = []
    tag = 'many%d-%d-%%d.xml' % (os.getpid(), i)
    try:
        for k in range(n):
            name = tag % k
            how = k % 3
            if how:
                (root / name).write_text(xml % (k, 0x4100 + k))
            load = [lambda name=name, k=k: core.parseSchema(xml % (k, 0x4100 + k), name=name),
                    lambda name=name: core.loadSchema(name), lambda name=name: core.loadSchema(str(root / name))][how]
            s = load()
            ctx.check(list(s.elements) == [0x4100 + k], 'schema %d of %d has %s', k, n, list(s.elements))
            got.append((s, load))
            for j in {0, k // 2, rng.randrange(k + 1)}:
                ctx.check(got[j][1]() is got[j][0], 'after %d other schemata, loading again gives another object', k - j)
                ctx.ev('cached among many')
        for k, (s, load) in enumerate(got):
            ctx.check(load() is s, 'after %d other schemata, loading again gives another object', n - k)
        if n < 200:
            listed = core.listSchemata(str(root))
            ctx.check(len([x for x in listed if x.startswith('many%d-%d-' % (os.getpid(), i))]) == n - (n + 2) // 3, 'listed are %d', len(listed))
        ctx.check(core.loadSchema('mide_ide.xml') is core.loadSchema('mide_ide.xml'), 'bundled schema loaded twice')
    finally:
        core.SCHEMA_PATH[:] = path
        core.SCHEMATA.clear()
        core.SCHEMATA.update(saved)
        shutil.rmtree(root)
    ctx.case((n, i), '%d schemata' % n)


def packages(ctx, rng, i):
    """ Packages that are no ordinary directories: zipped ones, and those without __init__.py. """
    root = Path(os.path.realpath(ctx.dir)) / ('p%d' % i)
    root.mkdir()
    pkg = 'vpkg%d_%d' % (os.getpid(), i)
    zipped = rng.random() < .6
    old = list(core.SCHEMA_PATH), dict(core.SCHEMATA), list(sys.path)
    names = rng.sample(['a.xml', 'b.xml', 'Up.XML', 'a b.xml', 'a.b.xml'], 3)
    files = {}                      # path in the package -> marker
    other = {'note.txt': '<Schema/>', 'foreign.xml': '<html/>', 'broken.xml': '<Schema>', 'data/broken.xml': ''}
    for d in ('', 'sub/', 'data/', 'data/deep/'):
        for n in names:
            if rng.random() < .6 or not (d or files):
                files[d + n] = 0x4100 + len(files) + 1
    text = {f: '<Schema><UIntegerElement name="Marker" id="0x%X"/></Schema>' % m for f, m in files.items()}
    text.update({f: t for f, t in other.items() if rng.random() < .5})
    if zipped or rng.random() < .3:
        text['__init__.py'] = text['sub/__init__.py'] = ''
    else:
        ctx.ev('namespace package')
    log = []
    try:
        if zipped:
            ctx.ev('zipped package')
            with zipfile.ZipFile(root / 'lib.zip', 'w', rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])) as z:
                for f, t in text.items():
                    z.writestr(pkg + '/' + f, t)
            sys.path.insert(0, str(root / 'lib.zip'))
        else:
            for f, t in text.items():
                (root / pkg / f).parent.mkdir(parents=True, exist_ok=True)
                (root / pkg / f).write_text(t)
            (root / pkg / 'sub').mkdir(exist_ok=True)
            sys.path.insert(0, str(root))
        importlib.invalidate_caches()
        core.SCHEMATA.clear()

        def marker(s):
            return s['Marker'].id

        def spell(f):
            out = ['{%s}/%s' % (pkg, f)]
            if f.startswith('sub/'):
                out.append('{%s.sub}/%s' % (pkg, f[4:]))
            return rng.choice(out)

        known = {}
        for _ in range(rng.randint(3, 12)):
            op = rng.choice(['load', 'load', 'load', 'reload', 'search', 'missing', 'list', 'list', 'path'])
            f = rng.choice(sorted(files))
            d, _, n = f.rpartition('/')
            place = ('{%s}/%s' % (pkg, d)).rstrip('/')
            if d in ('', 'sub') and rng.random() < .4:
                place = importlib.import_module(pkg + ('.sub' if d else ''))
            log.append('%s %s' % (op, f))
            what = 'after %s' % '; '.join(log)
            if op in ('load', 'reload'):
                by = spell(f)
                got = core.loadSchema(gen.as_str(rng, by) if rng.random() < .7 else gen.as_path(rng, by), **({'reload': True} if op == 'reload' else {}))
                ctx.check(marker(got) == files[f], '%s: loadSchema(%r) is another file', what, by)
                if by in known:
                    ctx.check((got is known[by]) == (op == 'load'), '%s: loadSchema(%r) is %s object', what, by,
                              'another' if op == 'load' else 'the same')
                known = {by: got} if op == 'reload' else dict(known, **{by: got})
                ctx.ev('load from package')
            elif op == 'search':
                got = core.loadSchema(gen.as_str(rng, n), paths=[gen.as_str(rng, place) if isinstance(place, str) else place])
                ctx.check(marker(got) == files[f], '%s: loadSchema(%r, paths=[%r]) is another file', what, n, place)
            elif op == 'path':
                core.SCHEMA_PATH[:] = [place] + old[0]
                core.SCHEMATA.clear()
                known = {}
                got = core.loadSchema(n)
                core.SCHEMA_PATH[:] = old[0]
                ctx.check(marker(got) == files[f], '%s: loadSchema(%r) with %r in SCHEMA_PATH is another file', what, n, place)
            elif op == 'missing':
                before = dict(core.SCHEMATA)
                for by in (spell('no.xml'), '{%s}' % pkg, '{%s}/data' % pkg, '{%s.no}/%s' % (pkg, n)):
                    try:
                        got = core.loadSchema(by)
                    except Exception:
                        continue
                    ctx.fail('%s: loadSchema(%r) gave %s' % (what, by, got))
                ctx.check(core.SCHEMATA == before, '%s: failed loads changed what is cached', what)
            else:
                want = sorted(k.rpartition('/')[2] for k in files if k.rpartition('/')[0] == d)
                kw = rng.choice([{}, {'absolute': True}, {'absolute': False}])
                got = core.listSchemata(place, **kw)
                ctx.eq(sorted(got), want, '%s: names listed for %r' % (what, place))
                for k, v in got.items():
                    ctx.eq([p.name for p in v], [k], '%s: files listed for %r' % (what, k))
                    if kw.get('absolute') is False:
                        s = core.loadSchema(v[0])
                        ctx.check(marker(s) == files[f[:len(f) - len(n)] + k], '%s: %r, as listed, is another file', what, v[0])
                ctx.ev('package listed')
    finally:
        core.SCHEMA_PATH[:] = old[0]
        core.SCHEMATA.clear()
        core.SCHEMATA.update(old[1])
        sys.path[:] = old[2]
        for m in [m for m in sys.modules if m.split('.')[0] == pkg]:
            del sys.modules[m]
        sys.path_importer_cache.pop(str(root / 'lib.zip'), None)
        shutil.rmtree(root)
    ctx.case(repr((files, log)), '%s: %s' % ('zipped' if zipped else 'directory', '; '.join(log)[:300]), len(log) > 4)


SECTIONS = [Section('packages', packages, 60, 600), Section('many', many, 5, 30), Section('history', history, 250, 3000), Section('environment', environment, 6, 60)]
