""" C10: EBML to XML and back preserves the document. """
import io
import os
import tempfile
from pathlib import Path
from xml.etree import ElementTree as ET

from vlib import gen, obs, ref, textref
from vlib.mon import REPO, Inconclusive, Section, short
from ebmlite import core, util, xml_codecs

LEVEL = 'exploration'
RULE = """A case converts a generated (or sample) document with hostile layout and XML-hostile values to XML with random
options, passes the XML on as object, tree, text, file or stream, converts it back by xml2ebml() or loadXml(), and
compares an independent parse of the result with the original elements: IDs, order, nesting, values. The result is
exported again and must give the same XML apart from offsets and sizes. Non-trivial: at least one element. Distinct: document bytes, options, route."""
REQUIRE = {'element preserved': 5000, 'converted': 250, 'same xml': 200, 'unknown element': 50, 'float special': 8,
           'date': 100, 'route:text': 20, 'route:file': 20, 'loadXml': 30,
           'codec of the user': 60}


def xml_hostile(rng, m):
    """ Values XML must carry through: replaces some payloads. """
    def fix(n):
        for c in n.children or ():
            fix(c)
        if n.children is None and n.d is not None and rng.random() < .3:
            k = n.d.ekind
            if k == 'utf8':
                s = ''.join(rng.choice('\n\t\r <>&"\'é😀]]>\u2028\ufeff\xa0\x85 ab') for _ in range(rng.randint(0, 12)))
            elif k == 'str':
                s = ''.join(rng.choice('  <>&"\']-x{};#~') for _ in range(rng.randint(0, 12)))
            else:
                return
            n.payload, n.value = s.encode(), s
    return fix


def same(ctx, got, want, sizes, what):
    """ Elements `got` (new file) against `want` (original). """
    if [(g.id) for g in got] != [(w.id) for w in want]:
        ctx.fail('%s: elements %s, expected %s' % (what, short([(g.name, hex(g.id)) for g in got], 600),
                                                    short([(w.name, hex(w.id)) for w in want], 600)))
    for g, w in zip(got, want):
        ctx.ev('element preserved')
        if w.children is not None:
            same(ctx, g.children, w.children, sizes, obs.where(w))
        elif w.kind == 'void':
            ctx.check(g.size == w.size, '%s: size %d, was %d', obs.where(w), g.size, w.size)
        else:
            ctx.check(g.bad is None and ref.same_value(g.value, w.value), '%s: value %s, was %s', obs.where(w),
                      short(g.value), short(w.value))
            if sizes:
                # the payload keeps its size (except empty integers)
                ctx.check(g.size == w.size or w.size == 0, '%s: payload of %d bytes, was %d', obs.where(w), g.size, w.size)
            if w.kind == 'unknown':
                ctx.ev('unknown element')
            elif w.kind == 'date':
                ctx.ev('date')
            elif w.kind == 'float' and (w.value != w.value or w.value in (float('inf'), float('-inf'))):
                ctx.ev('float special')


def flat(x):
    """ XML without offsets, sizes and source. """
    skip = ('offset', 'size', 'source')
    return [(e.tag, sorted((k, v) for k, v in e.attrib.items() if k not in skip), (e.text or '').strip() if len(e) else
             e.text or '') for e in x.iter()]


def options(rng):
    o = {k: rng.random() < .5 for k in ('offsets', 'sizes', 'types') if rng.random() < .7}
    c = rng.choice(['base64', 'hex', None, xml_codecs.HexCodec(width=rng.choice([1, 3]), cols=rng.choice([0, 9, None])),
                    xml_codecs.Base64Codec(cols=rng.choice([0, 30])), xml_codecs.HexCodec(offsets=False),
                    'percent', textref.user_codec()(show=rng.random() < .5)])
    if c is not None:
        o['binary_codec'] = c
    v = rng.choice([None, None, 'ignore', 'hex', 'base64'])
    if v is not None:
        o['void_codec'] = v
    return o


def indent(rng, x):
    ET.indent(x, rng.choice(['  ', '\t', '']))


def routes(ctx, rng, x, i):
    """ The XML in one of the accepted forms. """
    kind = rng.choice(['element', 'tree', 'text', 'text', 'file', 'file', 'path', 'bytes'])
    ctx.ev('route:' + kind)
    if kind == 'element':
        return x
    if kind == 'tree':
        return ET.ElementTree(x)
    if rng.random() < .3:
        indent(rng, x)
    enc = rng.choice(['utf-8', 'unicode' if kind == 'text' else 'utf-16', 'utf-8'])
    if kind == 'text':
        s = ET.tostring(x, encoding='unicode')
        return io.StringIO(s)
    b = ET.tostring(x, encoding=enc, xml_declaration=True)
    if kind == 'bytes':
        return io.BytesIO(b)
    p = ctx.dir / ('x%d.xml' % i)
    p.write_bytes(b)
    return open(p, 'rb') if kind == 'file' and rng.random() < .5 else gen.as_path(rng, p) if kind == 'path' else gen.as_str(rng, p)


def strip_length(m):
    """ Schemata whose explicit lengths do not fit the (foreign) file. """
    return any(d.length is not None for d in m.byId.values())


def one(ctx, rng, i):
    model = gen.gen_schema(rng, length_p=0)
    schema = obs.schema(model, rng.choice(obs.NAMES))
    roots = gen.gen_layout(rng, model, big=rng.random() < .1, budget=rng.choice([8, 25, 60]), huge=.12, high=18)
    fix = xml_hostile(rng, model)
    for r in roots:
        fix(r)
    for r in roots:         # a value the default float encoding cannot hold: -0.0 (documented limit)
        for n in r.walk():
            if n.kind == 'float' and n.value == 0:
                n.payload, n.value = b'\0' * 8, 0.0
    gen.settle(rng, roots, model)
    convert(ctx, rng, i, model, schema, gen.to_bytes(roots))


def encoded(ctx, rng, i):
    """ Documents ebmlite wrote itself, of schemata with explicit lengths. """
    model = gen.gen_schema(rng, length_p=.4)
    schema = obs.schema(model, rng.choice(obs.NAMES))
    nodes = gen.gen_tree(rng, model, budget=30, big=False, huge=.05)
    data, order = gen.api_data(rng, nodes, root=True)
    convert(ctx, rng, i, model, schema, schema.encodes(data, headers=rng.random() < .5))


def convert(ctx, rng, i, model, schema, data):
    refs = ref.parse(data, model)
    if any(r.bad is not None for s in refs for r in s.walk()):
        raise Inconclusive('undecodable')
    o = options(rng)
    hdr = rng.random() < .5
    shown = rng.random() < .8
    ctx.note('options %r headers=%s shown=%s data=%s schema=%s' % (o, hdr, shown, data.hex()[:3000], getattr(model, 'xml', 'sample')))
    doc = schema.load(io.BytesIO(data), headers=shown)
    want = refs[1:] if not shown and refs and refs[0].name == 'EBML' else refs
    x = util.toXml(doc, **o)
    before = flat(x)
    # Only a document with XML-representable text gets here; see gen.UNI.
    src = routes(ctx, rng, x, i)
    sl = rng.choice([None, None, 1, 4, 8])
    use = rng.random()
    if use < .15:
        # element by element
        out = io.BytesIO()
        n = sum(util.xmlElement2ebml(e, out, schema) for e in x)
        ctx.check(n == len(out.getvalue()), 'xmlElement2ebml() returned %d for %d bytes', n, len(out.getvalue()))
        new, hdr = out.getvalue(), False
        doc2 = schema.load(io.BytesIO(new), headers=True)
    elif use < .4:
        hdr = True
        work = ctx.dir / ('l%d' % i)
        work.mkdir()
        target = rng.choice([':memory:', gen.path_form(rng, work / 'l.ebml'), None])
        ctx.ev('loadXml')
        old, cwd = tempfile.tempdir, os.getcwd()
        tempfile.tempdir = str(work)
        by = schema
        if getattr(model, 'xml', None) and rng.random() < .2:
            (work / 's.xml').write_text(model.xml, encoding='utf-8')
            by = gen.path_form(rng, work / 's.xml')
            # the root element of the XML has the name of its schema's document
            if core.loadSchema(by).document.__name__ != schema.document.__name__:
                by = schema
            else:
                ctx.ev('schema by name')
        os.chdir(work)
        try:
            doc2 = util.loadXml(src, by, target)
        finally:
            os.chdir(cwd)
            tempfile.tempdir = old
            core.SCHEMATA.pop(str(work / 's.xml'), None)
        left = [f.name for f in work.iterdir() if f.name != 's.xml']
        ctx.check(left == [] if target == ':memory:' else left == ['l.ebml'] if target else len(left) <= 1,
                  'loadXml() to %r leaves %s', target, left)
        doc2.stream.seek(0)
        new = doc2.stream.read()
        els = [(e.id, e.offset) for e in doc2]
        w2 = ref.parse(new, model)
        w2 = w2[1:] if w2 and w2[0].name == 'EBML' else w2
        ctx.check(els == [(r.id, r.off) for r in w2], 'loadXml(): document shows %s', short(els))
        if target and target != ':memory:':
            ctx.eq(Path(target).read_bytes(), new, 'loadXml(): the file and the document')
        doc2.close()
        for f in work.iterdir():
            f.unlink()
        work.rmdir()
    else:
        out = io.BytesIO()
        kw = {'headers': hdr}
        if sl is not None:
            kw['sizeLength'] = sl
        n = util.xml2ebml(src, out, schema, **kw)
        new = out.getvalue()
        ctx.check(n == len(new), 'xml2ebml() returned %r for %d bytes', n, len(new))
        doc2 = schema.load(io.BytesIO(new), headers=True)
    if hasattr(src, 'close'):
        src.close()
    ctx.ev('converted')
    got = ref.parse(new, model)
    added = hdr and 'EBML' in model.byName and not any(r.name == 'EBML' for r in want)
    if added:
        ctx.check(got and got[0].name == 'EBML', 'no default header was added: %s', short([g.name for g in got]))
        got = got[1:]
    same(ctx, got, want, o.get('sizes', True), 'converted document')
    ctx.case((data, repr(sorted(map(str, o)))), '%d bytes, options %s' % (len(data), sorted(map(str, o))), bool(refs))
    # and to XML again
    o2 = dict(o)
    if isinstance(o2.get('binary_codec'), xml_codecs.HexCodec) or o2.get('binary_codec') == 'hex':
        # offsets are shown in the text; compare without
        o2['binary_codec'] = xml_codecs.HexCodec(offsets=False)
        before = flat(util.toXml(schema.load(io.BytesIO(data), headers=shown), **o2))
    elif getattr(o2.get('binary_codec'), 'NAME', o2.get('binary_codec')) == 'percent':
        ctx.ev('codec of the user')
        o2['binary_codec'] = 'percent'
        before = flat(util.toXml(schema.load(io.BytesIO(data), headers=shown), **o2))
    doc3 = schema.load(io.BytesIO(new), headers=True)
    x3 = util.toXml(doc3, **o2)
    if added:
        x3.remove(x3[0])
    after = flat(x3)
    norm = lambda f: [(t, a, ''.join((s or '').split())) for t, a, s in f]
    ctx.check(norm(after) == norm(before), 'XML of the result is %s, was %s', short(norm(after), 800),
              short(norm(before), 800))
    ctx.ev('same xml')
    doc2.close()
    for p in ctx.dir.iterdir():
        p.unlink()


SAMPLES = [('video-4.ebml', 'matroska'), ('SSX46714-doesnot.IDE', 'mide_ide'), ('video-3.mkv', 'matroska'),
           ('video-2.mkv', 'matroska'), ('video-1.mkv', 'matroska')]


def samples(ctx, rng, i):
    fn, sn = SAMPLES[i % len(SAMPLES)]
    p = REPO / 'tests' / fn
    if not p.exists():
        raise Inconclusive('sample file is missing')
    model = ref.read_schema(str(REPO / 'ebmlite' / 'schemata' / (sn + '.xml')))
    schema = core.loadSchema(sn + '.xml')
    data = p.read_bytes()
    refs = ref.parse(data, model)
    if len(data) > 300000:
        # a part: the header and some of the clusters as they are in the file
        parts = []
        for r in refs:
            if r.size < 50000:
                parts.append(r.raw)
            else:
                kids = [c.raw for c in r.children if c.size < 60000]
                kids = kids[:6] + rng.sample(kids[6:], min(4, len(kids[6:])))
                body = b''.join(kids)
                parts.append(ref.enc_id(r.id) + ref.enc_size(len(body)) + body)
        data = b''.join(parts)
    convert(ctx, rng, i, model, schema, data)


SECTIONS = [Section('documents', one, 520, 3120), Section('encoded', encoded, 240, 1440), Section('samples', samples, 5, 30)]
