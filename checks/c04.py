""" C04: any well-formed file is read as the format says. """
import io

from vlib import gen, obs, ref
from vlib.mon import REPO, Section, VERIF
from ebmlite import core, util

LEVEL = 'exploration'
RULE = """A case is a random schema (either format, or bundled) and a random well-formed document of it with
hostile layout: non-minimal and 8-byte size fields, zero-length values, padding, Void, unknown and misplaced
elements, unknown-size masters, thousands of elements, deep nesting, or a sparse file of up to 2^50 bytes.
Every element ebmlite shows is compared with an independent parser. Non-trivial: at least one element.
Distinct: different bytes and schema."""
REQUIRE = {'element': 3000, 'value': 2000, 'unknown id': 50, 'non-minimal size': 200, 'huge offset': 50,
           'sample element': 5000, 'handled unknown': 40}

BUNDLED = ['matroska.xml', 'mide_ide.xml', 'mide_config_ui.xml', 'mide_manifest.xml']
_cache = {}


def bundled(name):
    if name not in _cache:
        p = REPO / 'ebmlite' / 'schemata' / name
        _cache[name] = (ref.read_schema(str(p)), core.loadSchema(str(p)))
    return _cache[name]


def note(ctx, els):
    for e in els:
        for x in e.walk():
            if x.kind == 'unknown':
                ctx.ev('unknown id')
            if x.unk:
                ctx.ev('unknown size')
            elif x.hlen - x.idlen > ref.vint_width(x.size):
                ctx.ev('non-minimal size')


def compare(ctx, rng, schema, model, data, what, start=0):
    els = ref.parse(data, model, start)
    note(ctx, els)
    stream = rng.choice([io.BytesIO, obs.Stream])(data)
    stream.seek(start)
    doc = schema.load(stream, headers=True)
    obs.check_list(ctx, list(doc), els, what)
    return els


def layouts(ctx, rng, i):
    legacy = rng.random() < .15
    model = gen.gen_schema(rng, legacy=legacy)
    schema = obs.schema(model)
    for _ in range(3):
        roots = gen.gen_layout(rng, model, controls=.2, infinite=not legacy, big=rng.random() < .3,
                               budget=rng.choice([10, 40, 120]), wild=rng.choice([.05, .3]), huge=.06, high=21)
        data = gen.to_bytes(roots)
        ctx.case(data + model.xml.encode(), [r.text() for r in roots[:20]], bool(roots))
        ctx.note('data=%s schema=%s' % (data.hex()[:3000], model.xml))
        pre = rng.randbytes(rng.choice([0, 0, 0, 0, 5, 300, 5000, 70000 if i % 9 == 0 else 1]))
        compare(ctx, rng, schema, model, pre + data, 'document', len(pre))


def bundled_layouts(ctx, rng, i):
    name = BUNDLED[i % 4]
    model, schema = bundled(name)
    roots = gen.gen_layout(rng, model, big=False, budget=100, header=False)
    data = gen.to_bytes(roots)
    ctx.case(data, [r.text() for r in roots][:4], bool(roots))
    ctx.note('%s data=%s' % (name, data.hex()[:3000]))
    compare(ctx, rng, schema, model, data, name)


SAMPLES = [('video-1.mkv', 'matroska.xml'), ('SSX46714-doesnot.IDE', 'mide_ide.xml')]


def samples(ctx, rng, i):
    """ Real files from the repository's tests. """
    fn, sch = SAMPLES[i]
    p = REPO / 'tests' / fn
    model, schema = bundled(sch)
    data = p.read_bytes()
    els = ref.parse(data, model)
    n0 = ctx.events['element']
    with schema.load(str(p), headers=True) as doc:
        obs.check_list(ctx, list(doc), els, fn)
    ctx.ev('sample element', ctx.events['element'] - n0)
    ctx.case(data, fn)


def flat(ctx, rng, i):
    """ Many elements of one kind; deep nesting. """
    model = gen.gen_schema(rng, all_kinds=True)
    schema = obs.schema(model)
    masters = [d for d in model.byId.values() if d.kind == 'master' and d.children]
    top = rng.choice(masters)
    kids = [model.byId[c] for c in sorted(top.children) if model.byId[c].kind != 'master']
    nodes = [gen.layout_leaf(rng, rng.choice(kids), False) for _ in range(rng.choice([127, 500, 2000]))] if kids else []
    r = ref.Node(top, children=nodes, sw=gen.size_width(rng))
    for _ in range(rng.choice([0, 3, 30, 90])):
        r = ref.Node(rng.choice(masters), children=[r] + [gen.layout_leaf(rng, k, False) for k in kids[:1]],
                     sw=gen.size_width(rng))
    data = r.bytes()
    ctx.case(data, r.text()[:300])
    compare(ctx, rng, schema, model, data, 'large document')


def sparse(ctx, rng, i):
    """ Sizes and offsets far beyond 4 GiB, in masters and leaves. """
    model = gen.gen_schema(rng, all_kinds=True, header=False, void=True)
    schema = obs.schema(model)
    masters = [d for d in model.byId.values() if d.kind == 'master']
    lazy = [d for d in model.byId.values() if d.ekind in ('bin', 'void') and not d.cached]
    leaves = [d for d in model.byId.values() if d.kind != 'master']
    pieces, want = [], []

    def leaf(pos):
        if rng.random() < .4 and lazy:
            d = rng.choice(lazy + [None])
            eid = d.id if d else gen.gen_id(rng, set(model.byId))
            size = rng.choice([1 << rng.randint(31, 45), (1 << 32) - 1, (1 << 32) + 5, (1 << 31) + 1, 268435455])
            size += rng.randrange(3)
            h = ref.enc_id(eid) + ref.enc_size(size, rng.choice([None, 8]))
            pieces.append((pos, h))
            want.append((eid, pos, len(h), size, None))
            ctx.ev('huge offset')
            return pos + len(h) + size
        n = gen.layout_leaf(rng, rng.choice(leaves), False)
        b = n.bytes()
        pieces.append((pos, b))
        want.append((n.id, pos, len(b) - len(n.payload), len(n.payload), n.value))
        return pos + len(b)

    def master(pos, depth):
        d = rng.choice(masters)
        h = len(ref.enc_id(d.id)) + 8
        k = len(want)
        want.append(None)
        p = pos + h
        for _ in range(rng.randint(1, 4)):
            p = master(p, depth + 1) if depth < 3 and rng.random() < .3 else leaf(p)
        pieces.append((pos, ref.enc_id(d.id) + ref.enc_size(p - pos - h, 8)))
        want[k] = (d.id, pos, h, p - pos - h, 'master')
        return p

    pos = 0
    for _ in range(rng.randint(2, 4)):
        pos = master(pos, 0)
    s = obs.Sparse(pos, pieces)
    doc = schema.load(s, size=pos, headers=True)
    got = []

    def crawl(el):
        ctx.ev('element')
        w = want[len(got)] if len(got) < len(want) else None
        g = (el.id, el.offset, el.payloadOffset - el.offset, el.size)
        got.append(g)
        if w is None or g != w[:4]:
            ctx.fail('element %d is %r, expected %r' % (len(got), g, w))
        if isinstance(el, core.MasterElement):
            for c in el:
                crawl(c)
        elif w[4] is not None:
            ctx.ev('value')
            if not ref.same_value(el.value, w[4]):
                ctx.fail('value of %r is %r' % (w, el.value))
    for el in doc:
        crawl(el)
    ctx.eq(len(got), len(want), 'number of elements')
    if doc.size != pos:
        ctx.fail('document size is %r' % doc.size)
    ctx.case(repr(want), '%d elements in %d bytes' % (len(want), pos))


def handlers(ctx, rng, i):
    """ Schemata with a substitute for unknown elements, as documented. """
    model = gen.gen_schema(rng)
    schema, other = obs.schema(model), core.Schema(io.StringIO(model.xml))
    made = []

    class Own(core.UnknownElement):
        __slots__ = ()

        def __init__(self, *args, **kwargs):
            super().__init__(*args, **kwargs)
            made.append(self)

    def factory(*args, **kwargs):
        return Own(*args, **kwargs)

    class Eager(Own):
        __slots__ = ()
        precache = True
    own = rng.choice([Own, Eager, factory])
    before = schema.UNKNOWN
    data = gen.to_bytes(gen.gen_layout(rng, model, big=False, budget=40, wild=.4))
    refs = ref.parse(data, model)
    ctx.note('%r data=%s schema=%s' % (own, data.hex()[:3000], model.xml))
    schema.UNKNOWN = own
    try:
        doc = schema.load(obs.Stream(data), headers=True)
        els = list(doc)
        obs.check_list(ctx, els, refs, 'with a handler')
        n = 0
        for e in util.flatiter(doc):
            unknown = isinstance(e, core.UnknownElement)
            ctx.check(unknown == isinstance(e, Own), '%r is no element of the handler %r', e, own)
            if unknown:
                n += 1
                ctx.check(any(e is m for m in made), '%r is not what the handler returned', e)
        ctx.ev('handled unknown', n)
        ctx.check(not any(isinstance(e, Own) for e in util.flatiter(other.loads(data))), 'the handler of another schema is used')
    finally:
        schema.UNKNOWN = before
    ctx.case(data + model.xml.encode(), [repr(r) for r in refs][:3], n > 0)


SECTIONS = [Section('layouts', layouts, 500, 3000), Section('bundled', bundled_layouts, 120, 720),
            Section('samples', samples, 2, 2), Section('flat', flat, 50, 300), Section('handlers', handlers, 80, 480),
            Section('sparse', sparse, 200, 1200)]
