""" C26: values are read lazily, once, and exactly as declared. """
import bisect
import io

from vlib import gen, obs, ref
from vlib.mon import REPO, Inconclusive, Section, short
from ebmlite import core, util

LEVEL = 'exploration'
RULE = """A case opens a generated document with long payloads on a stream recording the byte ranges read, and checks after each
phase that nothing was read but what the declared laziness allows: opening (the first element, all of it if it is the header),
iterating the root elements, entering some of the masters, len(), crawling all (element headers, of at most 12 bytes, and payloads
of pre-cached elements). Values: pre-cached ones must not touch the source, others read their payload only, once; the same object is
returned until caches are cleared; raw data is read from the source each time (its bytes are changed in between). 'sparse' crawls
virtual files of terabytes and counts the bytes read, 'trees' clears whole trees of which every element is held. Distinct: document bytes."""
REQUIRE = {'open': 700, 'header read': 300, 'iterate': 700, 'enter': 1500, 'crawl': 500, 'lazy value': 1300, 'precached value': 1800,
           'value again': 5000, 'raw': 5000, 'changed source': 1200, 'cleared': 2500, 'element': 6500, 'sparse': 25,
           'precache="1" on lazy type': 30, 'precache="0"': 30, 'len only': 700, 'tree cleared': 1500, 'empty value cleared': 80}
HEAD = 12


class Watch(obs.Stream):
    """ The bytes can be changed. """

    def poke(self, off, b):
        self._d = self._d[:off] + b + self._d[off + len(b):]


def merge(ranges):
    out = []
    for a, z in sorted(ranges):
        if z <= a:
            continue
        if out and a <= out[-1][1]:
            out[-1][1] = max(out[-1][1], z)
        else:
            out.append([a, z])
    return out


def only(ctx, s, allowed, what):
    """ Nothing was read outside of the allowed ranges. """
    ok = merge(allowed)
    starts = [x for x, _y in ok]
    for a, z in s.covered():
        k = bisect.bisect_right(starts, a) - 1
        if k < 0 or z > ok[k][1]:
            ctx.fail('%s: read bytes %d to %d; allowed are %s' % (what, a, z, short(ok, 800)))
    s.reads.clear()


def head(r):
    return (r.off, max(r.pay, r.off + HEAD))


BYOFF = {}          # the elements of the document, by offset


def seen(r):
    """ What parsing an element (not entering it) may read. """
    yield head(r)
    if r.children is not None:
        if r.unk:
            # its end must be found: headers of its children
            for c in r.children:
                yield head(c)
                if c.unk:
                    yield from seen(c)
            yield r.end, r.end + HEAD
            if r.end in BYOFF:
                yield from seen(BYOFF[r.end])
    elif r.d is not None and r.d.cached:
        yield r.pay, r.end


def all_of(r):
    yield from seen(r)
    for c in r.children or ():
        yield from all_of(c)


def lengthen(rng, roots, model):
    """ Make payloads long enough to notice. """
    for r in roots:
        for n in r.walk():
            if n.children is None and n.kind in ('bin', 'unknown', 'void', 'str', 'utf8') and len(n.payload) < 20:
                n.payload += b'x' * rng.randint(20, 60)
                n.value = n.payload if n.kind in ('bin', 'unknown', 'void') else ref.dec_value(n.kind, n.payload)
    return gen.settle(rng, roots, model)


def untouched(ctx, s, fn, what):
    n = s.ops
    v = fn()
    ctx.check(s.ops == n, '%s: accessed the source (%d operations)', what, s.ops - n)
    return v


def leaf(ctx, rng, s, e, r):
    w = obs.where(r)
    pre = r.d is not None and r.d.cached
    s.reads.clear()
    if pre:
        v = untouched(ctx, s, lambda: e.value, w + ': the value is pre-cached, but reading it')
        ctx.ev('precached value')
        if r.kind in ('str', 'utf8', 'bin'):
            ctx.ev('precache="1" on lazy type')
    else:
        v = e.value
        only(ctx, s, [(r.pay, r.end)], w + ': reading the value')
        ctx.ev('lazy value')
        if r.kind in ('int', 'uint', 'float', 'date'):
            ctx.ev('precache="0"')
    ctx.check(ref.same_value(v, r.value), '%s: value is %s, expected %s', w, short(v), short(r.value))
    for _ in range(2):
        v2 = untouched(ctx, s, lambda: e.value, w + ': reading the value again')
        ctx.check(v2 is v, '%s: reading the value again gives another object, %s, was %s', w, short(v2), short(v))
        ctx.ev('value again')
    # raw data comes from the source, also if it changed
    old = r.raw
    for get, part, rng_ in ((e.getRaw, r.raw, (r.off, r.end)), (e.getRawValue, r.payload, (r.pay, r.end))):
        s.reads.clear()
        ctx.check(bytes(get()) == part, '%s: raw data differs', w)
        only(ctx, s, [rng_], w + ': reading raw data')
        ctx.ev('raw')
    if r.size and rng.random() < .5:
        new = bytes(c ^ 1 for c in r.payload)
        s.poke(r.pay, new)
        ctx.check(bytes(e.getRawValue()) == new, '%s: raw value is stale', w)
        ctx.check(bytes(e.getRaw()) == old[:r.hlen] + new, '%s: raw data is stale', w)
        ctx.check(e.value is v, '%s: the cached value was lost', w)
        if r.kind != 'void':
            ctx.eq(e.gc(), 1, w + ': values cleared')
            try:
                want = ref.dec_value(r.kind, new)
            except Exception:
                pass
            else:
                ctx.check(ref.same_value(e.value, want), '%s: after clearing caches the value is %s, expected %s', w, short(e.value), short(want))
                ctx.ev('cleared')
        s.poke(r.pay, r.payload)
        ctx.ev('changed source')
        e.gc()
    elif r.kind != 'void':
        e.gc()
        s.reads.clear()
        n = s.ops
        v3 = e.value
        ctx.check(ref.same_value(v3, r.value), '%s: after clearing caches the value is %s', w, short(v3))
        if r.size:
            ctx.check(s.ops > n, '%s: caches cleared, but the value was not read again', w)
        only(ctx, s, [(r.pay, r.end)], w + ': reading the value after clearing caches')
        ctx.ev('cleared')


def ranges(ctx, rng, i):
    model = gen.gen_schema(rng, length_p=0, master_precache=0)
    schema = obs.schema(model)
    roots = lengthen(rng, gen.gen_layout(rng, model, controls=.15, big=False, budget=rng.choice([4, 12, 30, 60]), infinite=rng.random() < .5, huge=.05), model)
    data = gen.to_bytes(roots)
    refs = ref.parse(data, model)
    if any(r.bad is not None for q in refs for r in q.walk()):
        raise Inconclusive('undecodable')
    BYOFF.clear()
    BYOFF.update((r.off, r) for q in refs for r in q.walk())
    inf = any(r.unk for q in refs for r in q.walk())
    h = rng.random() < .6
    ctx.case(data, ' '.join(n.text() for n in roots)[:400], bool(refs))
    s = Watch(data)
    doc = schema.load(s, headers=h)
    hdr = bool(refs) and refs[0].name == 'EBML'
    ok = []
    if refs:
        ok = [(0, max(HEAD, refs[0].end))] if hdr else list(seen(refs[0]))
    only(ctx, s, ok, 'opening')
    ctx.ev('open')
    if hdr:
        ctx.ev('header read')
    show = refs[1:] if hdr and not h else refs
    # root elements
    els = list(doc)
    only(ctx, s, [x for r in show for x in seen(r)], 'iterating the root elements')
    ctx.ev('iterate')
    obs_meta = [(e.id, e.offset) for e in els]
    ctx.eq(obs_meta, [(r.id, r.off) for r in show], 'root elements')
    if rng.random() < .5:
        s.reads.clear()
        ctx.eq(len(doc), len(show), 'len(document)')
        only(ctx, s, [x for r in show for x in seen(r)], 'len() of the document')
        ctx.ev('len only')
    # enter some masters, ask others for their length or size only
    todo = list(zip(els, show))
    leaves, left = [], []
    total = 0
    while todo:
        e, r = todo.pop(rng.randrange(len(todo)))
        ctx.ev('element')
        if r.children is None:
            leaves.append((e, r))
            continue
        k = rng.random()
        s.reads.clear()
        n0 = s.ops
        if k < .2:
            ctx.eq(len(e), len(r.children), '%s: len()' % obs.where(r))
            only(ctx, s, [x for c in r.children for x in seen(c)] + list(seen(r)), '%s: len()' % obs.where(r))
            ctx.ev('len only')
            continue
        if k < .3 and not r.unk:
            ctx.eq(e.size, r.size, '%s: size' % obs.where(r))
            only(ctx, s, [], '%s: size' % obs.where(r))
            continue
        how = rng.choice(['list', 'value', 'getitem'])
        if how == 'value':
            kids = e.value
            k2 = untouched(ctx, s, lambda: e.value, '%s: reading the list of children again' % obs.where(r))
            ctx.check(k2 is kids, '%s: reading the children again gives another list', obs.where(r))
            ctx.ev('value again')
        elif how == 'getitem' and r.children:
            e[0]
            kids = untouched(ctx, s, lambda: [e[j] for j in range(len(r.children))], '%s: indexing again' % obs.where(r))
            ctx.check(all(e[j] is kids[j] for j in range(len(kids))), '%s: indexing again gives other elements', obs.where(r))
            ctx.ev('value again')
        else:
            kids = list(e)
        ctx.ev('enter')
        only(ctx, s, [x for c in r.children for x in seen(c)] + list(seen(r)), 'entering %s' % obs.where(r))
        ctx.eq([(c.id, c.offset) for c in kids], [(c.id, c.off) for c in r.children], obs.where(r))
        todo += list(zip(kids, r.children))
    for e, r in rng.sample(leaves, min(12, len(leaves))):
        leaf(ctx, rng, s, e, r)
    # crawl everything
    s.seek(0)
    s.reads.clear()
    doc = schema.load(s, headers=h)
    n = sum(1 for _e in util.flatiter(doc))
    ctx.eq(n, sum(1 for r in show for _x in r.walk()), 'elements crawled')
    only(ctx, s, ([(0, max(HEAD, refs[0].end))] if hdr else []) + [x for r in refs for x in all_of(r)], 'crawling')
    s.reads.clear()
    for _e in util.flatiter(doc):
        pass
    if not inf:
        got = sum(k for _a, k in s.reads)
        most = sum(max(HEAD, r.hlen) + (r.size if r.children is None and r.d is not None and r.d.cached else 0) for q in show for r in q.walk())
        ctx.check(got <= most + HEAD, 'crawling %d elements read %d bytes, expected at most %d', n, got, most)
        ctx.ev('crawl')
    ctx.eq(s.writes, 0, 'writes')


def sparse(ctx, rng, i):
    """ Terabytes of payloads that nobody asked for. """
    model = gen.gen_schema(rng, length_p=0, multiple_p=1, master_precache=0)
    schema = obs.schema(model)
    kinds = [d for d in model.byId.values() if d.kind in ('bin', 'str', 'utf8') and not d.cached]
    if not kinds:
        raise Inconclusive('no lazy type')
    pieces, pos, want = [], 0, []
    for _ in range(rng.randint(3, 40)):
        d = rng.choice(kinds + [None])
        size = rng.choice([1 << 20, 1 << 33, 1 << 40, (1 << 49) + 3])
        eid = d.id if d else 0x4FF1
        if d is None and eid in model.byId:
            continue
        hd = ref.enc_id(eid) + ref.enc_size(size, rng.choice([None, 8]) if size < (1 << 49) else 8)
        pieces.append((pos, hd))
        want.append((eid, pos, size))
        pos += len(hd) + size
    masters = [d for d in model.byId.values() if d.kind == 'master' and d.name != 'EBML']
    shift = 0
    if masters and rng.random() < .5:
        m = rng.choice(masters)
        hd = ref.enc_id(m.id) + ref.enc_size(pos, 8)
        shift = len(hd)
        pieces = [(0, hd)] + [(a + shift, b) for a, b in pieces]
    s = obs.Sparse(pos + shift, pieces, max_read=4096)
    doc = schema.load(s, headers=True)
    if shift:
        e, = list(doc)
        ctx.eq(len(e), len(want), 'len() of a master of %d bytes' % pos)
        els = list(e)
    else:
        els = list(doc)
    ctx.eq([(e.id, e.offset - shift, e.size) for e in els], want, 'elements')
    n = sum(1 for _e in util.flatiter(doc))
    ctx.eq(n, len(want) + bool(shift), 'elements crawled')
    ctx.check(s.total < 80 * (len(want) + 3), 'crawling %d elements read %d bytes', len(want), s.total)
    ctx.ev('sparse')
    ctx.case((tuple(want), shift), '%d elements of up to %d bytes' % (len(want), max(w[2] for w in want) if want else 0))


def trees(ctx, rng, i):
    """ Clearing a whole tree clears every element of it that someone still holds, whatever its value. """
    model = gen.gen_schema(rng, length_p=0)
    schema = obs.schema(model)
    roots = gen.gen_layout(rng, model, controls=.15, big=False, budget=rng.choice([8, 20, 60]), infinite=rng.random() < .5)
    data = gen.to_bytes(roots)
    refs = ref.parse(data, model)
    if any(r.bad is not None for q in refs for r in q.walk()):
        raise Inconclusive('undecodable')
    s = Watch(data)
    held = []

    def read(e, r):
        held.append((e, r))
        v = e.value
        if r.kind == 'master':
            ctx.eq(len(v), len(r.children), obs.where(r) + ': children')
            for a, b in zip(v, r.children):
                read(a, b)

    top = list(schema.load(s, headers=True))
    for e, r in zip(top, refs):
        read(e, r)
    for e in top:
        e.gc(recurse=True)
    rng.shuffle(held)
    seen = 0
    for e, r in held:
        if r.kind in ('master', 'void') or not r.size:
            continue
        n = s.ops
        s.reads.clear()
        v = e.value
        w = obs.where(r)
        ctx.check(ref.same_value(v, r.value), '%s: after clearing the tree the value is %s', w, short(v))
        ctx.check(s.ops > n, '%s: the tree was cleared, but the value (%s) was not read again', w, short(v))
        only(ctx, s, [(r.pay, r.end)], w + ': reading the value after clearing the tree')
        ctx.ev('tree cleared')
        if not v:
            ctx.ev('empty value cleared')
        seen += 1
    ctx.case(data, ' '.join(n.text() for n in roots)[:400], seen > 0)


def samples(ctx, rng, i):
    p = REPO / 'tests' / 'video-3.mkv'
    if not p.exists():
        raise Inconclusive('sample file missing')
    sp = REPO / 'ebmlite' / 'schemata' / 'matroska.xml'
    model, schema = ref.read_schema(str(sp)), core.loadSchema(str(sp))
    data = p.read_bytes()
    refs = ref.parse(data, model)
    BYOFF.clear()
    BYOFF.update((r.off, r) for q in refs for r in q.walk())
    s = Watch(data)
    doc = schema.load(s, headers=True)
    only(ctx, s, [(0, max(HEAD, refs[0].end))], 'opening')
    for _e in util.flatiter(doc):
        pass
    only(ctx, s, [x for r in refs for x in all_of(r)], 'crawling')
    ctx.ev('sample')
    ctx.case(data, p.name)


SECTIONS = [Section('ranges', ranges, 1500), Section('sparse', sparse, 60), Section('trees', trees, 300), Section('samples', samples, 1, 1)]
