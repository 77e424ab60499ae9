""" C09: truncated or corrupt input ends cleanly and keeps what precedes it. """
import io

from vlib import gen, obs, ref
from vlib.mon import REPO, Inconclusive, Section, short
from ebmlite import core, util

LEVEL = 'fault_enumeration'
RULE = """'cuts': each generated document is cut at every byte (documents of up to 700 bytes; every header byte of larger
ones); 'samples': the sample files are cut at every header byte and around each boundary. Every cut document is opened,
crawled (through iteration and flatiter()) and compared with the elements the reference places wholly before the cut.
'fuzz': mutated, spliced and random bytes are opened, crawled, dumped, printed and verified on a stream counting its
operations. Non-trivial: a cut inside the document, or bytes that differ from a well-formed document.
Distinct: document and cut, or bytes."""
REQUIRE = {'cut between elements': 300, 'cut': 5000, 'element kept': 50000, 'straddling': 3000, 'fuzz': 500, 'fuzz element': 2000,
           'ended by exception': 300, 'ended cleanly': 3000}
PER_EL = 12         # stream operations one element may cost


def crawl_cut(ctx, el_iter, refs, cut, what, quick, between=False):
    """ Everything wholly before the cut, in order, then at most one partial. """
    i = 0
    try:
        for el in el_iter:
            if i >= len(refs):
                ctx.fail('%s: yields %r after its last element' % (what, el))
            r = refs[i]
            if i and refs[i - 1].end > cut:
                ctx.fail('%s: yields %r after the cut element %s' % (what, el, obs.where(refs[i - 1])))
            if el.id != r.id or el.offset != r.off:
                ctx.fail('%s: yields %r, expected %s' % (what, el, obs.where(r)))
            i += 1
            if r.end <= cut:
                obs.check_el(ctx, el, r, values=not quick) if r.children is None else \
                    (obs.check_meta(ctx, el, r), crawl_cut(ctx, iter(el), r.children, cut, obs.where(r), quick, between))
                ctx.ev('element kept')
            else:
                ctx.ev('straddling')
                if r.children is not None and r.pay <= cut:
                    crawl_cut(ctx, iter(el), r.children, cut, obs.where(r), quick, between)
        ctx.ev('ended cleanly')
    except Exception as ex:
        if type(ex).__module__.startswith('vlib'):
            raise
        ctx.check(not between, '%s: the cut lies between two elements, but iterating raises %r', what, ex)
        ctx.ev('ended by exception')
    need = sum(1 for r in refs if r.end <= cut or r.children is not None and r.pay <= cut)
    if i < need:
        ctx.fail('%s: only %d elements, %d lie before the cut; missing %s' % (what, i, need, obs.where(refs[i])))


def flat_cut(ctx, doc, refs, cut):
    """ The same through flatiter(). """
    want = []

    def rec(rs):
        for r in rs:
            if r.end <= cut or r.children is not None and r.pay <= cut:
                want.append((r.id, r.off))
            if r.end > cut:
                if r.children is not None and r.pay <= cut:
                    rec(r.children)
                return
            rec(r.children or ())
    rec(refs)
    got = []
    try:
        for el in util.flatiter(doc):
            got.append((el.id, el.offset))
            if len(got) > len(want) + 2:
                break
    except Exception:
        pass
    if got[:len(want)] != want or len(got) > len(want) + 1:
        ctx.fail('flatiter(): %s, expected %s and at most one partial element' % (short(got, 800), short(want, 800)))


def one_cut(ctx, schema, data, refs, cut, quick=False, flat=False):
    ctx.ev('cut')
    # The name and kind of the stream do not matter; BytesIO knows its size.
    stream = io.BytesIO(data[:cut]) if cut % 3 else obs.Stream(data[:cut], budget=50 * len(data) + 5000)
    what = 'cut at %d of %d' % (cut, len(data))
    try:
        doc = schema.load(stream, headers=True)
    except Exception as ex:
        ctx.fail('%s: opening raised %r' % (what, ex))
    if getattr(stream, 'spent', False):
        ctx.fail('%s: opening does not end' % what)
    if refs and refs[0].name == 'EBML' and refs[0].end <= cut:
        if not obs.same_dump(doc.info, obs.dump_of(refs[0].children)):
            ctx.fail('%s: info is %s' % (what, short(doc.info)))
    between = cut == len(data) or any(c.off == cut for r in refs if r.off <= cut <= r.end for c in r.walk())
    if between:
        ctx.ev('cut between elements')
    crawl_cut(ctx, iter(doc), refs, cut, what, quick, between)
    if flat:
        flat_cut(ctx, doc, refs, cut)
    if getattr(stream, 'spent', False):
        ctx.fail('%s: iterating does not end' % what)


def cuts(ctx, rng, i):
    model = gen.gen_schema(rng, precache_p=.2, master_precache=0)
    schema = obs.schema(model)
    while True:
        data = gen.to_bytes(gen.gen_layout(rng, model, controls=.15, big=False, budget=rng.choice([4, 10, 20, 30])))
        if 0 < len(data) < 4000:
            break
    refs = ref.parse(data, model)
    ctx.note('data=%s schema=%s' % (data.hex(), model.xml))
    points = set(range(len(data) + 1))
    if len(data) > 700:
        points = {x for r in refs for c in r.walk() for x in
                  list(range(c.off, c.pay + 2)) + [c.end - 1, c.end, (c.pay + c.end) // 2]}
        points = {x for x in points if x <= len(data)}
        if len(points) > 700:
            points = set(rng.sample(sorted(points), 700))
    for cut in sorted(points):
        one_cut(ctx, schema, data, refs, cut, flat=cut % 4 == 0)
        ctx.distinct.add(hash((data, cut)))
    ctx.case((data, 'all'), '%d bytes, %d cuts: %s' % (len(data), len(points), [r.name for r in refs]))


SAMPLES = [('video-1.mkv', 'matroska'), ('video-2.mkv', 'matroska'), ('video-3.mkv', 'matroska'),
           ('video-4.ebml', 'matroska'), ('SSX46714-doesnot.IDE', 'mide_ide')]
_cache = {}


def samples(ctx, rng, i):
    fn, sn = SAMPLES[i % len(SAMPLES)]
    p = REPO / 'tests' / fn
    if not p.exists():
        raise Inconclusive('sample file is missing')
    if fn not in _cache:
        model = ref.read_schema(str(REPO / 'ebmlite' / 'schemata' / (sn + '.xml')))
        schema = core.loadSchema(sn + '.xml')
        data = p.read_bytes()[:40000]
        # a well-formed head: elements cut by this limit are straddling ones
        whole = p.read_bytes()
        try:
            refs = ref.parse(whole, model)
        except (ref.Truncated, ValueError):
            raise Inconclusive('sample file is not well-formed for the reference')
        _cache[fn] = schema, data, refs
    schema, data, refs = _cache[fn]
    pts = set()
    for r in refs:
        for c in r.walk():
            if c.off < len(data):
                pts.update(x for x in list(range(c.off, c.pay + 1)) + [c.end - 1, c.end] if x <= len(data))
    pts = sorted(pts)
    n = 25 if ctx.tier == 'quick' else 200
    for cut in rng.sample(pts, min(n, len(pts))):
        one_cut(ctx, schema, data, refs, cut, quick=True)
        ctx.distinct.add(hash((fn, cut)))
    ctx.case((fn, i), fn)


# ---------------------------------------------------------------------- fuzz

def mutate(rng, data, other):
    b = bytearray(data)
    for _ in range(rng.choice([1, 1, 2, 4, 12])):
        k = rng.randrange(8)
        p = rng.randrange(len(b) + 1)
        if k == 0 and b:
            b[p % len(b)] = rng.randrange(256)
        elif k == 1 and b:
            b[p % len(b)] ^= 1 << rng.randrange(8)
        elif k == 2:
            b[p:p + rng.randrange(6)] = b''
        elif k == 3:
            b[p:p] = rng.randbytes(rng.randrange(5))
        elif k == 4:
            q = rng.randrange(len(other) + 1)
            b[p:p + rng.randrange(10)] = other[q:q + rng.randrange(60)]
        elif k == 5:
            b[p:p] = rng.choice([b'\xff', b'\x80', b'\x01' + b'\xff' * 7, b'\x00' * 4, b'\x01' + b'\0' * 7, b'\x08'])
        elif k == 6:
            del b[p:]
        else:
            b += rng.randbytes(rng.randrange(20))
    return bytes(b)


class Enough(Exception):
    pass


def fuzz(ctx, rng, i):
    model = gen.gen_schema(rng, precache_p=.2, master_precache=0)
    schema = obs.schema(model)
    docs = [gen.to_bytes(gen.gen_layout(rng, model, big=False, budget=20)) for _ in range(2)]
    for _ in range(8):
        r = rng.random()
        if r < .1:
            data = rng.randbytes(rng.choice([1, 2, 3, 8, 30, 300]))
        elif r < .2:
            heads = [ref.enc_id(x) for x in model.byId]
            data = b''.join(rng.choice(heads) + rng.choice([b'\x80', b'\x81', b'\xff', b'\x84', b'\x40\x02', b'\x01' + b'\xff' * 7])
                            for _ in range(rng.randint(1, 40)))
        else:
            data = mutate(rng, rng.choice(docs), docs[0])
        ctx.note('data=%s schema=%s' % (data.hex(), model.xml))
        fuzz_one(ctx, rng, schema, data)
        ctx.case(data, data.hex()[:200])


def fuzz_one(ctx, rng, schema, data):
    ctx.ev('fuzz')
    stream = obs.Stream(data, budget=40 * len(data) ** 2 + 20000)
    unknown, raised = [False], [False]
    count = [0]
    try:
        doc = schema.load(stream, headers=True)
    except Exception as ex:
        ctx.fail('opening raised %r' % ex)

    def level(el, what, depth):
        """ Iterate one level: ascending, each element a bounded cost. """
        last = -1
        n = 0
        before = stream.ops
        kids = []
        infinite = False
        try:
            for c in el:
                count[0] += 1
                ctx.ev('fuzz element')
                n += 1
                if not (last < c.offset < c.payloadOffset):
                    ctx.fail('%s: yields offset %s (payload at %s) after offset %s' % (
                        what, c.offset, c.payloadOffset, last))
                if c.offset >= len(data):
                    ctx.fail('%s: yields %r beyond the %d bytes of the file' % (what, c, len(data)))
                # the ID is what is in the file
                if not data[c.offset:].startswith(ref.enc_id(c.id)):
                    ctx.fail('%s: yields %r, the bytes there are %s' % (what, c, data[c.offset:c.offset + 12].hex()))
                last = c.payloadOffset + c.size - 1
                if isinstance(c, core.MasterElement):
                    sz = data[c.offset + len(ref.enc_id(c.id)):c.payloadOffset]
                    if sz == ref.enc_size(None, len(sz) or 1):
                        infinite = unknown[0] = True
                kids.append(c)
            ctx.ev('ended cleanly')
        except obs.Budget:
            raise
        except Exception as ex:
            if type(ex).__module__.startswith('vlib'):
                raise
            ctx.ev('ended by exception')
            raised[0] = True
            infinite = True         # perhaps in the search for the end of an unknown size
        if not infinite and not unknown[0] and stream.ops - before > PER_EL * (n + 2):
            ctx.fail('%s: %d stream operations for %d elements' % (what, stream.ops - before, n))
        for c in kids:
            if count[0] > 3000 or depth > 60:
                raise Enough
            if isinstance(c, core.MasterElement):
                level(c, repr(c), depth + 1)
            else:
                try:
                    c.value
                except obs.Budget:
                    raise
                except Exception:
                    pass
    try:
        level(doc, 'document', 0)
        if stream.spent:
            ctx.fail('crawling takes more than %d stream operations' % stream.budget)
    except Enough:
        raise Inconclusive('overlapping nested masters: crawl too large')
    except obs.Budget:
        if unknown[0]:
            raise Inconclusive('nested unknown sizes: crawl too large')
        ctx.fail('crawling %d elements takes more than %d stream operations' % (count[0], stream.budget))
    if stream.writes:
        ctx.fail('the source was written to')
    if unknown[0]:
        return
    # Whole-document operations cost no more than a constant factor of the crawl.
    for name, op in (('dump', lambda d: d.dump()), ('len', len), ('flatiter', lambda d: sum(1 for _ in util.flatiter(d))),
                     ('pprint', lambda d: util.pprint(d, out=io.StringIO(), values=True)),
                     ('xml', util.toXml)):
        # What can't be decoded ends the crawl, but not all of these (len() does not decode what is to be decoded at once).
        s = obs.Stream(data, budget=4 * PER_EL * (count[0] + 4 + (len(data) if raised[0] else 0)) + 200)
        try:
            op(schema.load(s, headers=True))
        except Exception:
            pass
        if s.spent:
            ctx.fail('%s of %d elements takes more than %d stream operations' % (name, count[0], s.budget))
        ctx.ev('operation on fuzz')
    try:
        r = schema.verify(data)
        ctx.check(r is True, 'verify() returned %r', r)
    except Exception:
        pass


SECTIONS = [Section('cuts', cuts, 90, 500), Section('samples', samples, 10, 50), Section('fuzz', fuzz, 240, 1440)]
