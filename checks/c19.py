""" C19: the command-line tools convert faithfully and never clobber. """
import contextlib
import importlib
import io
import os
import subprocess
import sys
from pathlib import Path
from xml.etree import ElementTree as ET

from vlib import gen, obs, ref
from vlib.mon import REPO, Section, Violation, short
from ebmlite import core, util, xml_codecs

LEVEL = 'exploration'
RULE = """A case makes a scratch directory with a generated schema and document and runs one of the converters with random
options: schema by absolute or bare name with or without extension, output to stdout, a new file, or an existing file, symlink
or the input itself, with and without overwriting. The output is compared with what the library produces for that input
(XML node by node; text and EBML byte by byte), the directory before and after, status and messages are checked, and
documents are converted there and back. Failures (missing input, schema, existing output) must leave everything as it was.
'list' compares list_schemata with the files present; 'process' runs real processes. Distinct: document, options."""
REQUIRE = {'ebml2xml': 60, 'view_ebml': 30, 'xml2ebml': 60, 'refused': 40, 'overwritten': 15, 'round trip': 40,
           'list': 15, 'other extension': 15, 'process': 8, 'stdout': 30, 'missing': 30, 'locale': 6,
           'odd path': 150}


def load_tools():
    """ Importing a tool must not run it. """
    argv, mods = sys.argv, {}
    try:
        for n in ('ebml2xml', 'view_ebml', 'xml2ebml', 'list_schemata'):
            sys.argv = [n]
            try:
                mods[n] = importlib.import_module('ebmlite.tools.' + n)
            except SystemExit as ex:
                mods[n] = ex
    finally:
        sys.argv = argv
    return mods


MAINS = load_tools()


class Res:
    def __init__(self, code, out, err):
        self.code, self.out, self.err = code, out, err

    def __repr__(self):
        return 'status %r, stdout %s, stderr %s' % (self.code, short(self.out), short(self.err))


CONSOLE = {'encoding': 'utf-8'}       # of standard output


def inproc(tool, args, cwd):
    """ Run main() here; an uncaught exception ends a process with status 1. """
    if isinstance(MAINS[tool], SystemExit):
        raise Violation('importing ebmlite.tools.%s runs it' % tool)
    raw, err = io.BytesIO(), io.StringIO()
    out = io.TextIOWrapper(raw, encoding=CONSOLE['encoding'], write_through=True, newline='\n')
    argv, so, se, old = sys.argv, sys.stdout, sys.stderr, os.getcwd()
    sys.argv, sys.stdout, sys.stderr = [tool] + args, out, err
    os.chdir(cwd)
    code = 0
    try:
        r = MAINS[tool].main()
        code = 0 if r is None else r if isinstance(r, int) else 1
    except SystemExit as ex:
        code = 0 if ex.code is None else ex.code if isinstance(ex.code, int) else 1
        if isinstance(ex.code, str):
            err.write(ex.code)
    except Exception as ex:
        code = 1
        err.write('%s: %s' % (type(ex).__name__, ex))
    finally:
        os.chdir(old)
        sys.argv, sys.stdout, sys.stderr = argv, so, se
    out.flush()
    return Res(code, raw.getvalue(), err.getvalue())


def process(tool, args, cwd, **env):
    e = dict(os.environ, PYTHONPATH=str(REPO), PYTHONDONTWRITEBYTECODE='1', PYTHONIOENCODING=CONSOLE['encoding'], **env)
    p = subprocess.run([sys.executable, '-m', 'ebmlite.tools.' + tool] + args, cwd=cwd, env=e, capture_output=True,
                       timeout=120)
    return Res(p.returncode, p.stdout, p.stderr.decode('utf8', 'replace'))


def snapshot(d):
    """ Everything in a directory. """
    out = {}
    for p in sorted(d.rglob('*')):
        if p.is_symlink():
            out[str(p)] = ('link', os.readlink(p))
        elif p.is_dir():
            out[str(p)] = 'dir'
        else:
            out[str(p)] = p.read_bytes()
    return out


@contextlib.contextmanager
def scratch(ctx, i):
    """ A directory for one case; forgets the schemata loaded from it. """
    d = ctx.dir / ('d%s%d' % (ctx.section[0], i))
    d.mkdir()
    before = dict(core.SCHEMATA)
    home = os.environ.get('HOME')
    os.environ['HOME'] = str(d)
    try:
        yield d
    finally:
        for k in list(core.SCHEMATA):
            if k not in before:
                del core.SCHEMATA[k]
        if home is None:
            del os.environ['HOME']
        else:
            os.environ['HOME'] = home
        for p in sorted(d.rglob('*'), reverse=True):
            p.unlink() if p.is_symlink() or not p.is_dir() else p.rmdir()
        d.rmdir()


def tree(x, strict):
    """ XML as comparable data; binary text by its words. """
    keep = lambda s: (s or '') if strict else (s or '').split()
    return [(e.tag, list(e.attrib.items()), keep(e.text), keep(e.tail)) for e in x.iter()]


def document(rng, whitespace):
    model = gen.gen_schema(rng, length_p=0)
    roots = gen.gen_layout(rng, model, big=False, budget=rng.choice([4, 12, 30]))
    for r in roots:
        for n in r.walk():
            if n.children is None and n.kind == 'float' and n.value == 0.0:
                n.payload, n.value = b'', 0.0
            elif n.children is None and n.kind == 'utf8' and whitespace and rng.random() < .3:
                n.value = rng.choice(['a\nb', '\t', ' a\r\n', '\n\n<x/>\t&amp;'])
                n.payload = n.value.encode()
    return model, gen.settle(rng, roots, model)


def same(ctx, got, want, binaries=True):
    ctx.eq([g.id for g in got], [w.id for w in want], 'IDs after conversion to XML and back')
    for g, w in zip(got, want):
        if w.children is not None:
            same(ctx, g.children, w.children, binaries)
        elif w.kind != 'void' and (binaries or w.kind not in ('bin', 'unknown')):
            ctx.check(g.bad is None and ref.same_value(g.value, w.value), '%s: value %s after the conversions, was %s',
                      obs.where(w), short(g.value), short(w.value))


def schema_arg(rng, d):
    """ A way to name the schema, and the file meant. """
    if rng.random() < .15:
        new = d / rng.choice(['v1.2', 'schemata.d', 'a b c']) / rng.choice(['s.xml', 't.xml'])
        new.parent.mkdir(exist_ok=True)
        new.write_bytes((d / 's.xml').read_bytes())
        return rng.choice([str(new), str(new)[:-4], os.path.relpath(new, d), os.path.relpath(new, d)[:-4]]), new
    if rng.random() < .6:
        return rng.choice([str(d / 's.xml'), str(d / 's.xml'), str(d / 's'), 's.xml', 's', str(d / 'sub' / '..' / 's.xml')]), d / 's.xml'
    # any other file name will do, as long as it has an extension
    new = d / rng.choice(['s.schema', 'S.XML', 's.v2.xml', 's.xml.bak', 's x.xsd'])
    new.write_bytes((d / 's.xml').read_bytes())
    return str(new), new


def options(rng, tool):
    o, a = {}, []
    if tool == 'ebml2xml':
        o['single'], o['max'] = rng.random() < .5, rng.random() < .5
        for k in ('single', 'max'):
            if o[k]:
                a.append(rng.choice(['-' + k[0], '--' + k]))
    if tool != 'xml2ebml':
        o['codec'] = rng.choice([None, 'base64', 'hex', 'ignore'])
        if o['codec']:
            a += [rng.choice(['-e', '--encoding']), o['codec']]
    return o, a


def expected(tool, o, inp, schema):
    """ What the library makes of the input. """
    if tool == 'xml2ebml':
        out = io.BytesIO()
        util.xml2ebml(inp, out, schema)
        return out.getvalue()
    doc = schema.load(inp, headers=True)
    try:
        if tool == 'view_ebml':
            out = io.StringIO()
            util.pprint(doc, out=out, binary_codec=o['codec'] or 'ignore')
            return out.getvalue().encode('utf8')
        codec = {'hex': xml_codecs.HexCodec, 'ignore': xml_codecs.IgnoreCodec}.get(o['codec'], xml_codecs.Base64Codec)
        codec = codec(cols=None) if o['single'] else codec()
        m = o['max']
        return util.toXml(doc, offsets=m, sizes=m, types=m, ids=m, binary_codec=codec)
    finally:
        doc.close()


def check_output(ctx, tool, o, data, want):
    if tool == 'ebml2xml':
        try:
            x = ET.fromstring(data)
        except ET.ParseError as ex:
            ctx.fail('the XML is malformed (%s): %s' % (ex, short(data, 1500)))
        got, w = tree(x, o['single']), tree(want, o['single'])
        ctx.check(got == w, '%s: XML is %s, the library makes %s', o, short(got, 1500), short(w, 1500))
        if o['single']:
            ctx.check(b'\n' not in data.strip(), 'XML on a single line has several: %s', short(data, 1500))
        elif len(want):
            n = sum(1 for e in want.iter())
            ctx.check(data.count(b'\n') >= n, 'XML is not on separate lines: %s', short(data, 1500))
    else:
        ctx.check(data == want, '%s %s wrote %s, the library makes %s', tool, o, short(data, 1500), short(want, 1500))


def odd(ctx, rng, d, name, data):
    """ Write an input file, at an odd place at times. """
    if rng.random() < .6:
        (d / name).write_bytes(data)
        return str(d / name)
    text, real, _how = gen.odd_file(rng, d, name, data)
    if '\n' in str(real) or '\t' in str(real):
        # known finding, see whitespace(): the name is in the output
        text = str(d / name)
        (d / name).write_bytes(data)
    ctx.ev('odd path')
    return text


def invoke(ctx, rng, run, tool, d, inp, o, opts, schema):
    """ Run a tool that should succeed, or be refused for an existing output. """
    args = opts[:]
    where = rng.choice(['stdout', 'stdout', 'new', 'new', 'exists', 'exists', 'link', 'dangling', 'input', 'home', 'relative', 'empty'])
    clobber = rng.random() < .4
    out = real = None
    if where != 'stdout':
        name = rng.choice(['out-' + tool, 'out-' + tool, rng.choice([n for n in gen.ODD_NAMES if n[0] != '~'])])
        if os.path.lexists(d / name):
            name = 'out-' + tool
        out = real = d / name
        arg = str(out)
        if name in gen.ODD_NAMES:
            ctx.ev('odd path')
        if where in ('exists', 'relative', 'home') and (where == 'exists' or rng.random() < .5):
            out.write_bytes(b'precious ' * rng.choice([1, 5000]))
        elif where == 'empty':
            out.write_bytes(b'')
        elif where in ('link', 'dangling'):
            real = d / ('target-' + tool)
            if where == 'link':
                real.write_bytes(b'precious target')
            out.symlink_to(real)
        elif where == 'input':
            clobber = False
            arg, out = inp, Path(inp)
        elif where in ('new', 'exists') and rng.random() < .3:
            arg, out, _how = gen.odd_file(rng, d, 'out.x')
            real = out
            ctx.ev('odd path')
            if where == 'exists':
                out.write_bytes(b'precious ' * rng.choice([1, 5000]))
        if where == 'relative':
            arg = name if name[0] not in '-' else './' + name
        elif where == 'home':
            arg = '~/' + name
        args += [rng.choice(['-o', '--output']), arg]
    if clobber:
        args.append(rng.choice(['-c', '--clobber']))
    exists = out is not None and out.exists()
    while True:
        sarg, sfile = schema_arg(rng, d)
        new = core.Schema(str(sfile))       # its name appears in the output
        # the root element of an XML document tells which schema it is of
        if tool != 'xml2ebml' or new.document.__name__ == schema.document.__name__:
            break
    if sfile.suffix != '.xml':
        ctx.ev('other extension')
    elif sfile.parent != d:
        ctx.ev('other directory')
    ctx.used = schema = new
    pos = [inp, sarg]
    if rng.random() < .5:
        args = pos + args
    else:
        args = args + pos
    before = snapshot(d)
    ctx.note('%s %s (output: %s, exists %s) model %s' % (tool, args, where, exists, ''))
    if not (exists and not clobber):
        want = expected(tool, o, inp, schema)
    if tool != 'view_ebml':     # XML says what encoding it is in
        CONSOLE['encoding'] = rng.choice(['utf-8', 'utf-8', 'latin-1', 'ascii', 'cp1252'])
    try:
        r = run(tool, args, str(d))
    finally:
        CONSOLE['encoding'] = 'utf-8'
    after = snapshot(d)
    if exists and not clobber:
        ctx.check(r.code != 0, '%s %s: wrote to an existing file: %r', tool, args, r)
        ctx.check(r.err.strip(), '%s %s: no message', tool, args)
        ctx.check(not r.out, '%s %s: refused, but wrote %s', tool, args, short(r.out))
        ctx.check(after == before, '%s %s: refused, but files changed: %s', tool, args, short(
            [k for k in set(before) | set(after) if before.get(k) != after.get(k)]))
        ctx.ev('refused')
        return None
    ctx.check(r.code == 0, '%s %s failed: %r', tool, args, r)
    ctx.ev(tool)
    if out is None:
        data = r.out
        ctx.ev('stdout')
        ctx.check(after == before, '%s %s to stdout: files changed', tool, args)
    else:
        ctx.check(not r.out, '%s %s: wrote to a file, and to stdout: %s', tool, args, short(r.out))
        ctx.check(real.exists(), '%s %s: no output file', tool, args)
        data = real.read_bytes()
        if exists:
            ctx.ev('overwritten')
        rest = {k: v for k, v in after.items() if k != str(real)}
        ctx.check(rest == {k: v for k, v in before.items() if k != str(real)}, '%s %s: other files changed', tool, args)
    check_output(ctx, tool, o, data, want)
    return data


def run_case(ctx, rng, i, run):
    ws = rng.random() < .5
    model, roots = document(rng, ws)
    data = gen.to_bytes(roots)
    refs = ref.parse(data, model)
    with scratch(ctx, i) as d:
        (d / 's.xml').write_text(model.xml, encoding='utf8')
        (d / 'sub').mkdir()
        inp = odd(ctx, rng, d, 'in.ebml', data)
        schema = core.Schema(str(d / 's.xml'))
        tool = rng.choice(['ebml2xml', 'ebml2xml', 'view_ebml', 'xml2ebml'])
        if tool == 'xml2ebml':
            x = util.toXml(schema.load(inp, headers=True), ids=True)
            inp = odd(ctx, rng, d, 'in.xml', ET.tostring(x, encoding=rng.choice(['utf-8', 'utf-16']), xml_declaration=True))
        o, opts = options(rng, tool)
        if ws and tool == 'ebml2xml' and not o['single']:
            o['single'] = True          # known finding, see whitespace()
            opts.append('-s')
        res = invoke(ctx, rng, run, tool, d, inp, o, opts, schema)
        ctx.case((data, tool, tuple(opts)), '%s %s' % (tool, opts), bool(refs))
        if res is None:
            return
        if tool == 'xml2ebml':
            same(ctx, drop_header(ref.parse(res, model), refs), refs)
            ctx.ev('round trip')
        elif tool == 'ebml2xml':
            unknown = any(e.d is None for r in refs for e in r.walk())
            if unknown and not o['max']:
                return
            back = str(d / 'back.xml')
            Path(back).write_bytes(res)
            new = invoke(ctx, rng, run, 'xml2ebml', d, back, {}, [], ctx.used)
            if new is not None:
                same(ctx, drop_header(ref.parse(new, model), refs), refs, o['codec'] != 'ignore')
                ctx.ev('round trip')


def drop_header(got, refs):
    """ xml2ebml adds a default header if the document has none. """
    return got[1:] if got and got[0].name == 'EBML' and not (refs and refs[0].name == 'EBML') else got


def tools(ctx, rng, i):
    run_case(ctx, rng, i, inproc)


def procs(ctx, rng, i):
    def run(*a):
        ctx.ev('process')
        # Files are UTF-8 whatever the locale is.
        return process(*a, **rng.choice([{}, {'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}]))
    run_case(ctx, rng, i, run)


def missing(ctx, rng, i, run=inproc):
    """ A missing input or schema: message, status, nothing written. """
    model, roots = document(rng, False)
    data = gen.to_bytes(roots)
    with scratch(ctx, i) as d:
        (d / 's.xml').write_text(model.xml, encoding='utf8')
        schema = core.Schema(str(d / 's.xml'))
        tool = rng.choice(['ebml2xml', 'view_ebml', 'xml2ebml'])
        x = ET.tostring(util.toXml(schema.load(io.BytesIO(data), headers=True)), encoding='utf-8')
        (d / 'in').write_bytes(x if tool == 'xml2ebml' else data)
        o, opts = options(rng, tool)
        how = rng.choice(['input', 'schema', 'schema', 'schema', 'both'])
        inp = str(d / ('nope' if how != 'schema' else 'in'))
        sch = str(d / 's.xml') if how == 'input' else rng.choice([str(d / 'no.xml'), 'verif_no_such_schema.xml', 'verif_none', str(d / 'no')])
        args = [inp, sch] + opts
        if rng.random() < .8:
            args += ['-o', str(d / 'out')]
            if rng.random() < .7:
                (d / 'out').write_bytes(b'precious')
                ctx.ev('missing, output exists')
            if rng.random() < .6:
                args.append('-c')
        ctx.note('%s %s' % (tool, args))
        before = snapshot(d)
        r = run(tool, args, str(d))
        ctx.check(r.code != 0, '%s %s: succeeded without the %s: %r', tool, args, how, r)
        ctx.check(r.err.strip(), '%s %s: no message', tool, args)
        ctx.check(not r.out, '%s %s: failed, but wrote %s', tool, args, short(r.out))
        ctx.check(snapshot(d) == before, '%s %s: failed, but files changed', tool, args)
        ctx.ev('missing')
        ctx.case((tool, how, tuple(args[2:])), '%s without %s' % (tool, how))


def missing_process(ctx, rng, i):
    ctx.ev('process')
    missing(ctx, rng, i, process)


@contextlib.contextmanager
def inside(d):
    old = os.getcwd()
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(old)


def listing(ctx, rng, i):
    """ list_schemata: what the library prints, and every file present. """
    use = process if i % 12 == 0 else inproc
    with scratch(ctx, i) as d:
        paths, files = [], {}
        for k in range(rng.randint(0, 3)):
            p = d / ('p%d' % k)
            p.mkdir()
            for n in rng.sample(['a', 'b', 'c', 'matroska'], rng.randint(0, 3)):
                (p / (n + '.xml')).write_text('<Schema><UIntegerElement name="E%d" id="0x%X"/></Schema>' % (k, 0x81 + k))
                files.setdefault(n + '.xml', []).append(p / (n + '.xml'))
            (p / 'other.txt').write_text('<Schema/>')
            (p / 'other.xml').write_text('<NotSchema/>')
            paths.append(rng.choice([str(p), p.name, os.path.join('.', p.name)]))
        rel = rng.random() < .4
        # shown as given, or in full
        shown = {str(d / os.path.basename(p)): os.path.normpath(p) if rel else str(d / os.path.basename(p)) for p in paths}
        files = {n: [os.path.join(shown[str(f.parent)], n) for f in fs] for n, fs in files.items()}
        mod = rng.random() < .5
        if mod:
            paths.append('{ebmlite}/schemata')
        args = [rng.choice(['-r', '--relative'])] if rel else []
        out = None
        if rng.random() < .5:
            out = d / 'list.txt'
            args += [rng.choice(['-o', '--output']), str(out)]
        args = args + paths if rng.random() < .5 else paths + args
        want = io.StringIO()
        with inside(d):
            if rel:
                util.printSchemata(paths=list(paths), out=want, absolute=False)
            else:
                util.printSchemata(list(paths), want)
        before = snapshot(d)
        r = use('list_schemata', args, str(d))
        if use is process:
            ctx.ev('process')
        ctx.check(r.code == 0, 'list_schemata %s failed: %r', args, r)
        after = snapshot(d)
        if out is not None:
            ctx.check(not r.out, 'list_schemata %s wrote to stdout, too', args)
            text = out.read_text()
            after.pop(str(out))
        else:
            text = r.out.decode()
        ctx.check(after == before, 'list_schemata %s: files changed', args)

        def ours(f):
            return f.startswith((str(d), 'p0', 'p1', 'p2'))
        if use is inproc:
            ctx.eq(text, want.getvalue(), 'list_schemata %s' % args)
        got, name = {}, None
        for line in text.splitlines():
            if line.startswith('    '):
                got[name].append(line.strip())
            else:
                name = line.strip()
                ctx.check(name not in got, 'list_schemata lists %s twice', name)
                got[name] = []
        for n, fs in files.items():
            ctx.check(n in got and [f for f in got[n] if ours(f)] == fs,
                      'list_schemata %s: %s listed as %s, files are %s', args, n, got.get(n), fs)
            ctx.check(got[n][:len(fs)] == fs, 'list_schemata: %s: given paths are not first: %s', n, got[n])
        ctx.check('matroska.xml' in got and 'mide_ide.xml' in got, 'list_schemata: the standard schemata are missing')
        if mod:
            f = '{ebmlite}/schemata/mide_ide.xml' if rel else str(REPO / 'ebmlite' / 'schemata' / 'mide_ide.xml')
            ctx.check(f in got['mide_ide.xml'], 'list_schemata %s does not list %s: %s', args, f, got['mide_ide.xml'])
        for n, fs in got.items():
            for f in fs:
                if ours(f):
                    ctx.check(f in files.get(n, ()), 'list_schemata: %s under %s is no schema', f, n)
                ctx.check(rel or os.path.isabs(f), 'list_schemata %s: %s is not in full', args, f)
        ctx.ev('list')
        ctx.case((tuple(args), tuple(map(tuple, files.items()))), 'list_schemata %s' % args[:3])


WS = '<Schema><MasterElement name="EBML" id="0x1A45DFA3"/><UnicodeElement name="U" id="0x81" multiple="1"/></Schema>'


def whitespace(ctx, rng, i):
    """ Known finding: newlines and tabs in strings, with and without --single. """
    with scratch(ctx, i) as d:
        (d / 's.xml').write_text(WS)
        s = ['a\nb', 'a\tb', 'a\rb'][i % 3]
        (d / 'i.ebml').write_bytes(b'\x81' + bytes([0x80 + len(s)]) + s.encode())
        for single in (True, False):
            r = inproc('ebml2xml', [str(d / 'i.ebml'), str(d / 's.xml'), '-o', str(d / 'x.xml'), '-c'] + ['-s'] * single, str(d))
            ctx.check(r.code == 0, 'ebml2xml: %r', r)
            r = inproc('xml2ebml', [str(d / 'x.xml'), str(d / 's.xml'), '-o', str(d / 'o.ebml'), '-c'], str(d))
            ctx.check(r.code == 0, 'xml2ebml: %r', r)
            got = ref.parse((d / 'o.ebml').read_bytes(), ref.read_schema(io.StringIO(WS)))
            got = [g.value for g in got if g.name == 'U']
            ctx.ev('whitespace')
            ctx.case((s, single), repr(s))
            if got != [s]:
                what = 'string %r is %r after ebml2xml%s and xml2ebml' % (s, got, ' --single' if single else '')
                if single or [g.replace(' ', '') for g in got] != [s.replace(s[1], '')] and [
                        ''.join(g.split()) for g in got] != ['ab']:
                    ctx.fail(what)
                ctx.known('pretty-xml-whitespace', what)


LOCALE = WS.replace('"U"', '"Größe"')


def locale(ctx, rng, i):
    """ Files are written and read as UTF-8 (or what their XML declaration says) in every locale. """
    env = [{'LC_ALL': 'C'}, {'LC_ALL': 'POSIX', 'PYTHONWARNINGS': 'default'}][i % 2]
    env.update(PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
    tool = ['view_ebml', 'ebml2xml', 'xml2ebml'][(i + ctx.seed) % 3]
    text = rng.choice(['Grüße ∞', '日本語', 'naïve \U0001F600', 'ÿ']) + str(rng.randint(0, 99))
    with scratch(ctx, i) as d:
        (d / 's.xml').write_text(LOCALE, encoding='utf-8')
        b = text.encode()
        data = b'\x81' + bytes([0x80 + len(b)]) + b
        inp = d / 'in'
        schema = core.Schema(str(d / 's.xml'))
        inp.write_bytes(data)
        if tool == 'xml2ebml':
            doc = schema.load(io.BytesIO(data), headers=True)
            inp.write_bytes(ET.tostring(util.toXml(doc), encoding='utf-8'))
        o = {'codec': None, 'single': True, 'max': False}
        want = expected(tool, o, str(inp), schema)
        r = process(tool, [str(inp), str(d / 's.xml'), '-o', str(d / 'out')] + ['-s'] * (tool == 'ebml2xml'), str(d), **env)
        ctx.check(r.code == 0, '%s %s: %r', env, tool, r)
        check_output(ctx, tool, o, (d / 'out').read_bytes(), want)
        ctx.ev('locale')
        ctx.case((tool, text, i % 2), '%s in locale %s' % (tool, env['LC_ALL']))


SECTIONS = [Section('tools', tools, 600), Section('process', procs, 10, 60), Section('missing', missing, 150),
            Section('missing-process', missing_process, 2, 10), Section('list', listing, 36), Section('whitespace', whitespace, 3, 3),
            Section('locale', locale, 6, 30)]
