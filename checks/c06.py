""" C06: raw data accounts for every byte, and nothing is ever written. """
import hashlib
import io
import os

from vlib import gen, obs, ref
from vlib.mon import REPO, Section
from ebmlite import core, util

LEVEL = 'exploration'
RULE = """A case opens a generated (or sample) document and performs random reads; the conservation monitor
then requires that getRaw() of the roots concatenates to the file, getRaw() of children to their master's
getRawValue(), and header + raw value to getRaw() for every element, and that reassembling leaves only gives the
file. 'huge' does so with an element of 1 to 64 MB, whose value is read and encoded again, 'far' gigabytes into a stream. The recording stream must have seen no write, and files on disk keep content, size and mode.
Non-trivial: at least one element. Distinct: different bytes."""
REQUIRE = {'unknown size by hand': 50, 'element': 2000, 'master': 300, 'file conserved': 200, 'disk file unchanged': 20, 'changed value': 50, 'huge raw': 12, 'far': 40}


def reassemble(ctx, el, header, rng):
    """ The element from header bytes and leaf payloads only. """
    ctx.ev('element')
    if rng.random() < .1:
        touch(rng, el)
    if isinstance(el, core.BinaryElement) and rng.random() < .15:
        # The value belongs to the caller; the raw data is that of the file.
        v = el.value
        if isinstance(v, bytearray):
            v.reverse()
            v += b'changed'
            ctx.ev('changed value')
    raw, val = bytes(el.getRaw()), bytes(el.getRawValue())
    h = raw[:len(raw) - len(val)]
    ctx.check(raw == h + val and len(h) == el.payloadOffset - el.offset and len(val) == el.size,
              '%r: raw data of %d bytes, raw value of %d, header of %d', el, len(raw), len(val),
              el.payloadOffset - el.offset)
    ctx.check(h == header(el), '%r: header is %s, in the file it is %s', el, h.hex(), header(el).hex())
    if not isinstance(el, core.UnknownElement):
        twin = type(el)(el.stream, el.offset, el.size, el.payloadOffset)
        ctx.check(bytes(twin.getRawValue()) == val and bytes(twin.getRaw()) == raw, '%r, made by hand: other raw data', el)
    if isinstance(el, core.MasterElement):
        ctx.ev('master')
        if ref.read_head(h, 0)[2] is None:
            twin = type(el)(el.stream, el.offset, None, el.payloadOffset)
            got = twin.getRawValue() if len(val) % 2 else twin.getRaw()[len(h):]
            ctx.check(bytes(got) == val, '%r of unknown size, made by hand: raw value is %s, expected %s', el, got[:60].hex(), val[:60].hex())
            ctx.ev('unknown size by hand')
        parts = [reassemble(ctx, c, header, rng) for c in (el if rng.random() < .7 else el.value)]
        whole = b''.join(parts)
        ctx.check(whole == val, '%r: children hold %d bytes %s, payload is %d bytes %s', el, len(whole),
                  whole[:50].hex(), len(val), val[:50].hex())
        return h + whole
    return h + val


def touch(rng, el):
    """ Random reading before the measurement. """
    for _ in range(rng.randrange(3)):
        op = rng.randrange(7)
        if op == 0:
            el.value
        elif op == 1:
            el.getRaw()
        elif op == 2:
            el.gc(recurse=rng.random() < .5)
        elif op == 3:
            el.dump()
        elif op == 4 and isinstance(el, core.MasterElement):
            len(el)
        elif op == 5:
            util.toXml(el)
        elif op == 6 and isinstance(el, core.MasterElement):
            for c in el:
                touch(rng, c)


def conserved(ctx, rng, doc, data, start=0):
    pos = [start]
    roots = list(doc)
    for el in roots:
        touch(rng, el)
    order = list(range(len(roots)))
    rng.shuffle(order)
    out = {}
    for k in order:
        out[k] = reassemble(ctx, roots[k], lambda e: data[e.offset:e.payloadOffset], rng)
    got = b''.join(out[k] for k in sorted(out))
    ctx.check(got == data[start:], 'roots hold %d bytes, the file has %d (first difference at %d)', len(got),
              len(data) - start, next((i for i, (a, b) in enumerate(zip(got, data[start:])) if a != b), -1))
    ctx.ev('file conserved')


def docs(ctx, rng, i):
    model = gen.gen_schema(rng)
    schema = obs.schema(model)
    for _ in range(3):
        roots = gen.gen_layout(rng, model, controls=.15, big=rng.random() < .3, huge=.06)
        data = gen.to_bytes(roots)
        ctx.case(data, [r.text() for r in roots][:3], bool(roots))
        ctx.note('data=%s schema=%s' % (data.hex()[:3000], model.xml))
        pre = rng.randbytes(rng.choice([0, 0, 0, 7, 9000]))
        s = obs.Stream(pre + data)
        s.seek(len(pre))
        doc = schema.load(s, headers=True)
        conserved(ctx, rng, doc, pre + data, len(pre))
        touch(rng, doc) if roots else None
        ctx.check(s.writes == 0, 'the source was written to %d times', s.writes)
        ctx.check(not s.closed, 'the source was closed')


def far(ctx, rng, i):
    """ Gigabytes into a stream. """
    model = gen.gen_schema(rng)
    schema = obs.schema(model)
    data = gen.to_bytes(gen.gen_layout(rng, model, controls=.15, big=False, budget=20))
    src, refs = obs.Far.place(rng, data, ref.parse(data, model))
    there = obs.Moved(data, src.base)
    ctx.case((data, src.base), '%s at %d' % ([r.name for r in refs], src.base), bool(refs))
    roots = list(schema.load(src, headers=True))
    for el in roots:
        touch(rng, el)
    got = b''.join(reassemble(ctx, el, lambda e: there[e.offset:e.payloadOffset], rng) for el in roots)
    ctx.check(got == data, 'at %d, roots hold %d bytes, there are %d', src.base, len(got), len(data))
    ctx.ev('far', len(roots))


def disk(ctx, rng, i):
    """ Files on disk, opened by name: content, size, times and mode stay. """
    model = gen.gen_schema(rng)
    schema = obs.schema(model)
    data = gen.to_bytes(gen.gen_layout(rng, model, big=False))
    p = ctx.dir / ('f%d.ebml' % i)
    p.write_bytes(data)
    os.chmod(p, 0o640)
    os.utime(p, ns=(10 ** 18, 10 ** 18))
    before = os.stat(p)
    how = rng.randrange(3)
    stream = [p, str(p), None][how] or open(p, 'r+b')
    doc = schema.load(stream, headers=True)
    conserved(ctx, rng, doc, data)
    for f in (lambda: list(util.flatiter(doc)), doc.dump, lambda: util.toXml(doc),
              lambda: util.pprint(doc, out=io.StringIO()), lambda: len(doc)):
        f()
    doc.close()
    if how == 2:
        ctx.check(not stream.closed, 'a file the document did not open was closed')
        stream.close()
    after = os.stat(p)
    ctx.check(p.read_bytes() == data, 'the file was changed')
    ctx.check((before.st_mode, before.st_mtime_ns, before.st_size) == (after.st_mode, after.st_mtime_ns, after.st_size),
              'the file was touched: %r, was %r', after, before)
    ctx.check(sorted(os.listdir(ctx.dir)) == [p.name], 'files appeared: %s', os.listdir(ctx.dir))
    p.unlink()
    ctx.ev('disk file unchanged')
    ctx.case(data, '%d bytes on disk' % len(data), bool(data))


def samples(ctx, rng, i):
    fn, sch = [('SSX46714-doesnot.IDE', 'mide_ide.xml'), ('video-1.mkv', 'matroska.xml'),
               ('video-3.mkv', 'matroska.xml')][i]
    schema = core.loadSchema(str(REPO / 'ebmlite' / 'schemata' / sch))
    data = (REPO / 'tests' / fn).read_bytes()
    conserved(ctx, rng, schema.load(io.BytesIO(data), headers=True), data)
    ctx.case(data, fn)


def huge(ctx, rng, i):
    """ Raw data and values of many megabytes, in whatever blocks they are read. """
    model = gen.gen_schema(rng)
    schema = obs.schema(model)
    roots = gen.gen_layout(rng, model, budget=6, big=False, infinite=rng.random() < .3)
    parents = [(roots, list(model.roots))] + [(n.children, sorted(n.d.children)) for r in roots for n in r.walk() if n.children is not None and n.d is not None]
    kids, ids = rng.choice(parents)
    defs = [model.byId[k] for k in ids if model.byId[k].kind in ('bin', 'str', 'utf8') and model.byId[k].ekind != 'void']
    d = rng.choice(defs) if defs else None
    if d is None and kids is not roots:
        kids = roots        # an unknown element would end a master of unknown size
    at = rng.randint(0, len(kids))
    n = (1 << (20 + i % 7)) + rng.choice([-1, 0, 1, 17, 70000])
    unit = bytes(rng.randrange(33, 127) for _ in range(251))
    body = unit * (n // 251 + 1)
    new = gen.Node(d, id=None if d is not None else 0x1FABCDE1, payload=body[:n], value=None)
    kids.insert(at, new)
    data = gen.to_bytes(roots)
    refs = ref.parse(data, model)
    ctx.note('%d bytes in 0x%X, %d roots' % (n, new.id, len(roots)))
    how = rng.choice(['memory', 'path', 'file', 'unbuffered'])
    p = ctx.dir / 'huge.ebml'
    if how != 'memory':
        p.write_bytes(data)
    src = {'memory': lambda: io.BytesIO(data), 'path': lambda: str(p), 'file': lambda: open(p, 'rb'), 'unbuffered': lambda: open(p, 'rb', buffering=0)}[how]()
    doc = schema.load(src, headers=True)
    els = list(doc)
    ctx.eq(len(els), len(refs), 'roots')

    def go(e, r):
        raw, val = e.getRaw(), e.getRawValue()
        ctx.check(raw == data[r.off:r.end], 'raw data of the %s at %d: %d bytes, expected %d', e.name, r.off, len(raw), r.end - r.off)
        ctx.check(val == data[r.pay:r.end], 'raw value of the %s at %d: %d bytes, expected %d', e.name, r.off, len(val), r.end - r.pay)
        ctx.ev('huge raw', len(raw) > 1 << 19)
        if r.children is not None:
            ch = list(e)
            ctx.eq(len(ch), len(r.children), 'children')
            for a, b in zip(ch, r.children):
                go(a, b)
        elif r.size > 1 << 19 and r.off == target.off:
            v = e.value
            ctx.check(len(v) == n and bytes(v if not isinstance(v, str) else v.encode()) == body[:n], 'value of the %s at %d, of %d bytes, differs', e.name, r.off, n)
            if d is not None and d.length is None:
                b = bytes(type(e).encode(v))
                ctx.check(b.endswith(body[:n]) and len(b) <= n + 12, 'the %s of %d bytes is encoded in %d', e.name, n, len(b))
                ctx.ev('huge encoded')
    target = next(q for r in refs for q in r.walk() if q.id == new.id and q.size == n)
    for e, r in zip(els, refs):
        go(e, r)
    doc.close()
    if how != 'memory':
        p.unlink()
    ctx.case((n, how, new.id), '%d bytes, %s' % (n, how))


SECTIONS = [Section('huge', huge, 14, 60), Section('docs', docs, 300, 1800), Section('far', far, 60, 400), Section('disk', disk, 120, 500), Section('samples', samples, 3, 3)]
