""" C03: element IDs and size fields. """
import io

from vlib import gen, obs, ref
from vlib.mon import Section, short
from ebmlite import core, decoding as dec, encoding as enc

LEVEL = 'exploration'
RULE = """A case writes and reads size fields (with and without explicit width) and IDs: every 1- and
2-byte field is enumerated, all numbers within +-3 of every 7-bit and 8-bit boundary in all widths, and
random ones; decoded numbers and consumed bytes are compared with an independent codec.
Non-trivial: a field was written and read. Distinct: number and width."""
REQUIRE = {'size': 1000, 'id': 1000, 'unknown size': 8, 'refused': 100}
TOP = (1 << 56) - 1         # all ones in 8 bytes: sizes must stay below


def read_size(ctx, b):
    s = io.BytesIO(b + b'\xa5\x5a')
    v, n = dec.readElementSize(s)
    if s.tell() != len(b):
        ctx.fail('size field %s: %d bytes consumed' % (b.hex(), s.tell()))
    return v, n


def one_size(ctx, v, w):
    ctx.ev('size')
    if v > ref.vint_max(w or 8):
        ctx.raises('size %d in %s bytes' % (v, w), enc.encodeSize, v, w)
        ctx.ev('refused')
        return
    want = ref.enc_size(v, w)
    got = enc.encodeSize(v, w)
    if bytes(got) != want:
        ctx.fail('size %d in %s bytes: encoded as %s, expected %s' % (v, w, short(got), want.hex()))
    r = read_size(ctx, want)
    if r != (v, len(want)):
        ctx.fail('size field %s: read as %r, expected %r' % (want.hex(), r, (v, len(want))))


def bounds():
    out = set(range(0, 300))
    for k in list(range(7, 57, 7)) + list(range(8, 57, 8)):
        out.update(range((1 << k) - 4, (1 << k) + 4))
    return sorted(x for x in out if 0 <= x < TOP)


def boundaries(ctx, rng, i):
    for v in bounds():
        for w in [None, -1] + list(range(1, 9)):
            one_size(ctx, v, None if w == -1 else w)
        got = enc.encodeSize(v, -1)
        if bytes(got) != ref.enc_size(v):
            ctx.fail('size %d with length -1: %s' % (v, short(got)))
        if enc.getLength(v) != ref.vint_width(v):
            ctx.fail('getLength(%d) is %d' % (v, enc.getLength(v)))
        ctx.distinct.add(hash(v))
    for w in range(1, 9):
        b = ref.enc_size(None, w)
        ctx.ev('unknown size')
        r = read_size(ctx, b)
        if r != (None, w):
            ctx.fail('size field %s: read as %r, expected unknown' % (b.hex(), r))
        if bytes(ref.enc_size(ref.vint_max(w), w)) == b:
            raise AssertionError
    for w in (None, -1, 1):
        got = enc.encodeSize(None, w)
        if bytes(got) != b'\xff':
            ctx.fail('unknown size with length %s: %s' % (w, short(got)))
    for w in (9, 10, 100):
        for v in (0, 5, 1 << 40):
            ctx.raises('size %d in %d bytes' % (v, w), enc.encodeSize, v, w)
    for w in range(1, 9):
        ctx.raises('negative size', enc.encodeSize, -1 - w, w)
    ctx.case('boundaries', 'sizes at every boundary, all widths')


def all16(ctx, rng, i):
    """ Every size field of 1 and 2 bytes; every ID of 1 and 2 bytes. """
    for b in [bytes([x]) for x in range(0x80, 0x100)] + [bytes([x, y]) for x in range(0x40, 0x80) for y in range(256)]:
        r = dec.readElementSize(io.BytesIO(b))
        v = int.from_bytes(b, 'big') & ((1 << (7 * len(b))) - 1)
        want = (None if v == (1 << (7 * len(b))) - 1 else v, len(b))
        if r != want:
            ctx.fail('size field %s: read as %r, expected %r' % (b.hex(), r, want))
        s = io.BytesIO(b + b'\x81')
        r = dec.readElementID(s)
        if r != (int.from_bytes(b, 'big'), len(b)) or s.tell() != len(b):
            ctx.fail('ID %s: read as %r' % (b.hex(), r))
        if bytes(enc.encodeId(r[0])) != b:
            ctx.fail('ID 0x%X: encoded as %s' % (r[0], enc.encodeId(r[0]).hex()))
        ctx.ev('size')
        ctx.ev('id')
    for x in range(0, 0x10):
        for tail in (b'', b'\0', bytes(10)):
            ctx.raises('ID with first byte 0x%02X' % x, dec.readElementID, io.BytesIO(bytes([x]) + b'\xff' * 8 + tail))
            ctx.ev('refused')
    ctx.case('all16', 'every 1- and 2-byte field')


def random_fields(ctx, rng, i):
    for _ in range(100):
        v = rng.getrandbits(rng.randint(1, 55)) if rng.random() < .8 else rng.choice(bounds())
        for w in [None] + rng.sample(range(1, 9), 4):
            one_size(ctx, v, w)
        # a size field of any width holding any number
        w = rng.randint(1, 8)
        v = rng.randint(0, ref.vint_max(w)) if rng.random() < .7 else rng.randint(0, min(300, ref.vint_max(w)))
        b = ref.enc_size(v, w)
        if read_size(ctx, b) != (v, w):
            ctx.fail('size field %s read as %r' % (b.hex(), read_size(ctx, b)))
        eid = gen.gen_id(rng, set())
        if rng.random() < .3:
            n = rng.randint(1, 4)
            eid = (1 << (7 * n)) | rng.getrandbits(7 * n)
        b = ref.enc_id(eid)
        got = enc.encodeId(eid)
        ctx.ev('id')
        if bytes(got) != b:
            ctx.fail('ID 0x%X: encoded as %s' % (eid, short(got)))
        s = io.BytesIO(b + b'\x5a' * 4)
        r = dec.readElementID(s)
        if r != (eid, len(b)) or s.tell() != len(b):
            ctx.fail('ID %s: read as %r at %d' % (b.hex(), r, s.tell()))
        for n in range(0, 6):
            if len(b) <= n <= 4:
                if bytes(enc.encodeId(eid, n)) != b.rjust(n, b'\0'):
                    ctx.fail('ID 0x%X in %d bytes: %s' % (eid, n, short(enc.encodeId(eid, n))))
            else:
                ctx.raises('ID 0x%X in %d bytes' % (eid, n), enc.encodeId, eid, n)
                ctx.ev('refused')
        ctx.distinct.add(hash((v, w, eid)))
    for bad in ('1', None, b'\x81', 1.5j):
        ctx.raises('ID %r' % (bad,), enc.encodeId, bad)
    ctx.case(('rnd', i), 'size %d in %d bytes, ID 0x%X' % (v, w, eid))


SCHEMA = core.Schema(io.StringIO('<Schema><MasterElement name="M" id="0x81" multiple="1">'
                                 '<BinaryElement name="B" id="0x4081" multiple="1"/></MasterElement></Schema>'))


def in_files(ctx, rng, i):
    """ The same fields as part of documents: huge sizes on a sparse file. """
    for _ in range(6):
        w = rng.randint(1, 8)
        base = 1 << (7 * rng.randint(0, w - 1))
        v = min(max(base + rng.randint(-3, 3), 0), ref.vint_max(w))
        if rng.random() < .3:
            v = rng.randint(0, ref.vint_max(w))
        eid = gen.gen_id(rng, {0x81, 0x4081})
        head = ref.enc_id(eid) + ref.enc_size(v, w)
        tail = b'\x40\x81\x83abc'
        s = obs.Sparse(len(head) + v + len(tail), [(0, head), (len(head) + v, tail)])
        doc = SCHEMA.load(s, size=s.size)
        els = list(doc)
        got = [(e.id, e.offset, e.payloadOffset, e.size) for e in els]
        want = [(eid, 0, len(head), v), (0x4081, len(head) + v, len(head) + v + 3, 3)]
        ctx.ev('size')
        if got != want:
            ctx.fail('elements read are %r, expected %r' % (got, want))
        if bytes(els[1].value) != b'abc':
            ctx.fail('value after a %d byte element: %r' % (v, els[1].value))
        ctx.distinct.add(hash((v, w, eid)))
    ctx.case(('file', i), 'element of %d bytes, size field of %d' % (v, w))


def element_width(ctx, rng, i):
    """ lengthSize= of encoded elements. """
    for cls, name in ((SCHEMA['B'], 'B'), (SCHEMA['M'], 'M')):
        for n in rng.sample([0, 1, 119, 120, 122, 123, 124, 125, 126, 127, 128, 129, 16379, 16380, 16381, 16382, 16383,
                             16384, 16385, 20000], 8):
            val = bytes(n) if name == 'B' else {'B': bytes(n)}
            body = bytes(n) if name == 'B' else ref.enc_id(0x4081) + ref.enc_size(n) + bytes(n)
            for w in [None] + list(range(1, 9)):
                if w and len(body) > ref.vint_max(w):
                    ctx.raises('%d byte payload, size field of %d' % (n, w), cls.encode, val, lengthSize=w)
                    ctx.ev('refused')
                    continue
                got = bytes(cls.encode(val, lengthSize=w))
                want = ref.enc_id(cls.id) + ref.enc_size(len(body), w) + body
                ctx.ev('size')
                if got != want:
                    ctx.fail('%s of %d bytes with lengthSize=%s: %s, expected %s' % (
                        name, n, w, got[:14].hex(), want[:14].hex()))
    ctx.case(('width', i), 'explicit size field widths')


def known(ctx, rng, i):
    """ Recorded defects, pinned by the existing tests. """
    ctx.case('known', 'known findings')
    for v in (TOP, 1 << 56, 1 << 60):
        try:
            got = bytes(enc.encodeSize(v))
        except Exception:
            continue
        if got == ref.enc_size(None, 8) or dec.readElementSize(io.BytesIO(got)) != (v, len(got)):
            ctx.known('size-over-8-bytes', 'encodeSize(%d) returns %s' % (v, got.hex()))
    for w in range(2, 9):
        got = bytes(enc.encodeSize(None, w))
        if got == b'\xff' * w:
            ctx.known('unknown-size-explicit-width', 'encodeSize(None, %d) returns %s' % (w, got.hex()))
        elif got != ref.enc_size(None, w):
            ctx.fail('encodeSize(None, %d) returns %s' % (w, got.hex()))


SECTIONS = [Section('boundaries', boundaries, 1, 1), Section('all16', all16, 1, 1),
            Section('random', random_fields, 150, 2000), Section('files', in_files, 375, 3000),
            Section('width', element_width, 62, 200), Section('known', known, 1, 1)]
