""" C27: XML export describes exactly the parsed document. """
import io
from xml.etree import ElementTree as ET

from vlib import gen, obs, ref, textref
from vlib.mon import REPO, Inconclusive, Section, short
from ebmlite import core, util, xml_codecs

LEVEL = 'exploration'
RULE = """A case exports a generated (or sample) document or element with a random choice of options, codecs (named
or configured instances) and sources, and compares the XML node by node with the reference tree: tag, exact set of
attributes, value, and the layout of the binary text; the export under a given parent must add exactly one
subtree; 'far' exports documents gigabytes into a stream. Non-trivial: at least one element. Distinct: document bytes and options."""
REQUIRE = {'node': 5000, 'binary text': 500, 'value': 2000, 'parent': 100, 'root': 200, 'far': 100}


def options(rng):
    o = {k: rng.random() < .5 for k in ('offsets', 'sizes', 'types', 'ids') if rng.random() < .8}
    o['bc'] = rng.choice(['base64', 'hex', 'ignore', None, textref.make(xml_codecs.HexCodec, cols=rng.choice([0, 5, 16]), width=1),
                          textref.make(xml_codecs.Base64Codec, cols=rng.choice([0, 20])), textref.make(xml_codecs.HexCodec, offsets=False),
                          'percent', textref.user_codec()(show=True)])
    o['vc'] = rng.choice(['base64', 'hex', 'ignore', None, None, textref.make(xml_codecs.HexCodec, cols=4), textref.user_codec()()])
    return o


def kwargs(o):
    kw = {k: v for k, v in o.items() if k not in ('bc', 'vc')}
    if o['bc'] is not None:
        kw['binary_codec'] = o['bc']
    if o['vc'] is not None:
        kw['void_codec'] = o['vc']
    return kw


def codec_of(c, default):
    c = default if c is None else c
    return xml_codecs.BINARY_CODECS[c]() if isinstance(c, str) else c


def check_attrs(ctx, x, want, what):
    if dict(x.attrib) != want:
        ctx.fail('%s: attributes %s, expected %s' % (what, short(dict(x.attrib)), short(want)))


def check_node(ctx, x, r, o):
    what = 'XML of ' + obs.where(r)
    ctx.ev('node')
    ctx.check(x.tag == r.name, '%s: tag is %r', what, x.tag)
    want = {}
    if o.get('ids', True):
        want['id'] = '0x%X' % r.id
    if o.get('types', True):
        want['type'] = ref.DTYPE[r.kind]
    if o.get('offsets', True):
        want['offset'] = str(r.off)
    if o.get('sizes', True) or r.kind == 'void':
        want['size'] = str(r.size)
    text = x.text or ''
    if r.kind in ('bin', 'unknown'):
        c = codec_of(o['bc'], 'base64')
        want['encoding'] = c.NAME
        bad = textref.check(c, text, r.payload, '', r.off)
        ctx.check(bad is None, '%s: text: %s', what, bad)
        ctx.ev('binary text')
    elif r.kind == 'void':
        c = codec_of(o['vc'], 'ignore')
        if c.NAME != 'ignore':
            want['encoding'] = c.NAME
        else:
            ctx.check(not text.strip(), '%s: text %s', what, short(text))
    elif r.kind != 'master':
        if r.bad is not None:
            raise Inconclusive('undecodable')
        want['value'] = str(r.value)
        ctx.check(not text.strip(), '%s: text %s', what, short(text))
        ctx.ev('value')
    got = dict(x.attrib)
    check_attrs(ctx, x, want, what)
    kids = list(x)
    refs = r.children or []
    ctx.check([k.tag for k in kids] == [c.name for c in refs], '%s: children %s, expected %s', what,
              short([k.tag for k in kids]), short([c.name for c in refs]))
    for k, c in zip(kids, refs):
        check_node(ctx, k, c, o)


def check_root(ctx, x, doc, refs, o, source, schema, total):
    ctx.ev('root')
    ctx.check(x.tag == type(doc).__name__ == schema.document.__name__, 'root tag is %r', x.tag)
    want = {'source': source, 'schemaName': schema.name, 'schemaFile': schema.filename or ''}
    if o.get('offsets', True):
        want['offset'] = '0' if total is not None else str(doc.offset)
    if o.get('sizes', True):
        want['size'] = str(total)
    check_attrs(ctx, x, want, 'XML root')
    ctx.check([k.tag for k in x] == [r.name for r in refs], 'XML has elements %s, expected %s', short([k.tag for k in x]),
              short([r.name for r in refs]))
    for k, r in zip(x, refs):
        check_node(ctx, k, r, o)


def flat(x):
    return [(e.tag, sorted(e.attrib.items()), (e.text or '').strip()) for e in x.iter()]


def one(ctx, rng, i):
    model = gen.gen_schema(rng)
    schema = obs.schema(model, rng.choice(obs.NAMES))
    data = gen.to_bytes(gen.gen_layout(rng, model, controls=.15, big=rng.random() < .1, budget=rng.choice([10, 40]), huge=.12, high=18))
    refs = ref.parse(data, model)
    o = options(rng)
    headers = rng.random() < .6
    shown = refs[1:] if not headers and refs and refs[0].name == 'EBML' else refs
    source = ''
    f = io.BytesIO(data)
    if rng.random() < .3:
        p = ctx.dir / 'x.ebml'
        p.write_bytes(data)
        source, f = str(p), str(p)
    ctx.case((data, repr(sorted(o, key=str)), repr(kwargs(o))), '%s of %s' % (kwargs(o), [r.name for r in refs]), bool(refs))
    ctx.note('options %r data=%s schema=%s' % (kwargs(o), data.hex()[:3000], model.xml))
    doc = schema.load(f, headers=headers)
    kw = kwargs(o)
    before = dict(kw)
    x = util.toXml(doc, **kw)
    ctx.check(ET.iselement(x), 'toXml() returned %r', x)
    check_root(ctx, x, doc, shown, o, source, schema, len(data))
    ctx.check(kw == before, 'arguments changed')
    again = util.toXml(doc, **kw)
    ctx.check(flat(again) == flat(x), 'a second export differs')

    # under a parent: exactly one subtree more
    attrs = rng.choice([{'a': 'b'}, {}, {'id': '0x81', 'size': '7', 'source': 'x'}])
    parent = ET.Element('P', dict(attrs))
    parent.text = 'text'
    first = ET.SubElement(parent, 'first')
    if refs:
        r = rng.choice([c for s in refs for c in s.walk()])
        el = find(schema, data, r)
        y = util.toXml(el, parent=parent, **kw)
        ctx.ev('parent')
        ctx.check(list(parent) == [first, y] and parent.text == 'text' and parent.attrib == attrs and
                  parent.tag == 'P' and not len(first) and not first.attrib, 'export changed its parent: %s',
                  short(ET.tostring(parent)))
        check_node(ctx, y, r, o)
        z = util.toXml(el, **kw)
        check_node(ctx, z, r, o)
    y = util.toXml(doc, parent, **kw)
    ctx.check(list(parent)[-1] is y and len(parent) == (3 if refs else 2) and parent.attrib == attrs and
              parent.text == 'text' and not first.attrib and not len(first), 'export changed its parent: %s',
              short(ET.tostring(parent)))
    check_root(ctx, y, doc, shown, o, source, schema, len(data))
    doc.close()


def far(ctx, rng, i):
    """ Elements gigabytes into a file. """
    model = gen.gen_schema(rng)
    schema = obs.schema(model)
    data = gen.to_bytes(gen.gen_layout(rng, model, controls=.15, big=False, budget=20, high=18))
    src, refs = obs.Far.place(rng, data, ref.parse(data, model))
    o = options(rng)
    ctx.case((data, src.base, repr(kwargs(o))), '%s of %s at %d' % (kwargs(o), [r.name for r in refs], src.base), bool(refs))
    doc = schema.load(src, headers=True)
    x = util.toXml(doc, **kwargs(o))
    if o.get('offsets', True):
        ctx.eq(x.get('offset'), str(src.base), 'offset of a document at %d' % src.base)
    if o.get('sizes', True):
        ctx.eq(x.get('size'), str(len(data)), 'size of a document at %d' % src.base)
    ctx.eq([k.tag for k in x], [r.name for r in refs], 'elements')
    for k, r in zip(x, refs):
        check_node(ctx, k, r, o)
        ctx.ev('far')


def find(schema, data, r):
    """ The element at a reference position, from a new document. """
    def rec(els):
        for e in els:
            if e.offset == r.off and e.id == r.id:
                return e
            if isinstance(e, core.MasterElement) and e.offset < r.off < e.payloadOffset + e.size:
                got = rec(e)
                if got is not None:
                    return got
    return rec(schema.load(io.BytesIO(data), headers=True))


SAMPLES = [('video-4.ebml', 'matroska'), ('SSX46714-doesnot.IDE', 'mide_ide'), ('video-1.mkv', 'matroska'),
           ('video-3.mkv', 'matroska')]


def samples(ctx, rng, i):
    fn, sn = SAMPLES[i % len(SAMPLES)]
    p = REPO / 'tests' / fn
    if not p.exists():
        raise Inconclusive('sample file is missing')
    model = ref.read_schema(str(REPO / 'ebmlite' / 'schemata' / (sn + '.xml')))
    schema = core.loadSchema(sn + '.xml')
    data = p.read_bytes()
    refs = ref.parse(data, model)
    o = options(rng)
    with schema.load(str(p), headers=True) as doc:
        if len(data) > 200000:
            # one large part of it
            k = rng.randrange(len(refs))
            el = doc[k]
            if isinstance(el, core.MasterElement) and refs[k].size > 200000:
                n = rng.randrange(len(refs[k].children))
                el, r = el[n], refs[k].children[n]
            else:
                r = refs[k]
            if not isinstance(o['bc'], str) or o['bc'] == 'hex':
                o['bc'] = 'base64'
            check_node(ctx, util.toXml(el, **kwargs(o)), r, o)
        else:
            check_root(ctx, util.toXml(doc, **kwargs(o)), doc, refs, o, str(p), schema, len(data))
    ctx.case((fn, repr(kwargs(o))), '%s %r' % (fn, kwargs(o)))


SECTIONS = [Section('documents', one, 875, 4200), Section('far', far, 80, 600), Section('samples', samples, 8, 40)]
