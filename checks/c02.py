""" C02: scalar codecs are lossless, minimal, exact width, or refuse. """
import datetime
import io
import itertools
import math
import random
import struct
import zlib

from vlib import gen, ref
from vlib.mon import Section, short
from ebmlite import core, decoding as dec, encoding as enc

LEVEL = 'exploration'
RULE = """A case encodes and decodes values of one type, boundary-dense (every power of two in each
width, float specials, all byte lengths) in every explicit width from 1 to 8 and without; each result is
compared with int.to_bytes/struct reference codecs. Sections 'all8' and 'all16' enumerate every 1- and
2-byte integer payload. Non-trivial: a value was encoded and decoded. Distinct: type, value, width."""
REQUIRE = {'encode': 2000, 'decode': 2000, 'refused': 300, 'element codec': 200, 'long value': 40}

SCHEMA = core.Schema(io.StringIO(
    '<Schema>' + ''.join('<%s name="E%s" id="0x%X" multiple="1"/>' % (t, k, 0x81 + i)
                         for i, (k, t) in enumerate(sorted(ref.TAGS.items()))) + '</Schema>'))
READ = {'int': dec.readInt, 'uint': dec.readUInt, 'float': dec.readFloat, 'str': dec.readString,
        'utf8': dec.readUnicode, 'date': dec.readDate}
WRITE = {'int': enc.encodeInt, 'uint': enc.encodeUInt, 'float': enc.encodeFloat,
         'str': enc.encodeString, 'utf8': enc.encodeUnicode, 'bin': enc.encodeBinary,
         'date': enc.encodeDate}


def decode(ctx, kind, payload):
    """ Decode a payload followed by foreign bytes; it must not read them. """
    s = io.BytesIO(b'\xa5' * 3 + payload + b'\x5a\xff\x00')
    s.seek(3)
    if kind == 'bin':
        return bytearray(s.read(len(payload)))
    v = READ[kind](s, len(payload))
    ctx.ev('decode')
    if s.tell() != 3 + len(payload):
        ctx.fail('%s of %d bytes: %d bytes were consumed' % (kind, len(payload), s.tell() - 3))
    return v


def both(ctx, kind, v, width, want_bytes, want_value):
    got = WRITE[kind](v) if width is None else WRITE[kind](v, width)
    ctx.ev('encode')
    ctx.check(isinstance(got, (bytes, bytearray)) and bytes(got) == want_bytes,
              '%s %s with length %s: encoded as %s, expected %s', kind, short(v), width, short(got),
              short(want_bytes))
    back = decode(ctx, kind, bytes(got))
    ctx.check(ref.same_value(back, want_value), '%s %s with length %s: decoded as %s, expected %s', kind,
              short(v), width, short(back), short(want_value))
    ctx.distinct.add(hash((kind, repr(v), width)))
    n = zlib.crc32(repr((kind, short(v, 200), width)).encode())
    if n % 6 == 0:
        # The same value as another accepted type
        rng = random.Random(n)
        class N:
            pass
        N.kind = kind
        if kind == 'str' and isinstance(v, str) and not v.isascii():
            v2 = gen.Text(v)
        else:
            v2 = gen.other_value(rng, N, v)
        if isinstance(v2, float) and v2.is_integer() and kind in ('int', 'uint'):
            ctx.ev('integral float')
        got = WRITE[kind](v2) if width is None else WRITE[kind](v2, width)
        ctx.check(bytes(got) == want_bytes, '%s %s, a %s, with length %s: encoded as %s, expected %s', kind, short(v2), type(v2).__mro__[:3], width,
                  short(bytes(got)), short(want_bytes))
        ctx.ev('other type')


def through_element(ctx, kind, v, width, payload, value):
    """ The same through the element classes. """
    cls = SCHEMA['E' + kind]
    out = cls.encode(v, length=width)
    want = ref.enc_id(cls.id) + ref.enc_size(len(payload)) + payload
    ctx.ev('element codec')
    ctx.check(bytes(out) == want, '%s element %s with length %s: encoded as %s, expected %s', kind,
              short(v), width, short(bytes(out)), short(want))
    el = SCHEMA.loads(bytes(out))[0]
    ctx.check(ref.same_value(el.value, value), '%s element %s: read as %s, expected %s', kind, short(v),
              short(el.value), short(value))


def ints(ctx, rng, i):
    kind = ('int', 'uint')[i % 2]
    f = gen.gen_int if kind == 'int' else gen.gen_uint
    e = ref.enc_int if kind == 'int' else ref.enc_uint
    mn = ref.min_int if kind == 'int' else ref.min_uint
    for _ in range(30):
        v = f(rng)
        ctx.note('%s %d' % (kind, v))
        both(ctx, kind, v, None, e(v), v)
        need = mn(v)
        for w in range(1, 9):
            if w >= need:
                both(ctx, kind, v, w, e(v, w), v)
            else:
                ctx.raises('%s %d in %d bytes' % (kind, v, w), WRITE[kind], v, w)
                ctx.ev('refused')
        w = rng.choice([None] + list(range(need, 9)))
        through_element(ctx, kind, v, w, e(v, w), v)
        if abs(v) < 1 << 53 and rng.random() < .2:
            both(ctx, kind, float(v), None, e(v), v)
    ctx.case((kind, i), '%s values such as %d' % (kind, v))


def powers(ctx, rng, i):
    """ Each integer next to a power of two, both signs, all widths. """
    for k in range(0, 64):
        for j in (-2, -1, 0, 1):
            for s in (1, -1):
                v = s * ((1 << k) + j)
                for kind, e, mn, lo, hi in (('int', ref.enc_int, ref.min_int, -(1 << 63), (1 << 63) - 1),
                                            ('uint', ref.enc_uint, ref.min_uint, 0, (1 << 64) - 1)):
                    if not lo <= v <= hi:
                        continue
                    both(ctx, kind, v, None, e(v), v)
                    for w in range(1, 9):
                        if w >= mn(v):
                            both(ctx, kind, v, w, e(v, w), v)
                        else:
                            ctx.raises('%s %d in %d bytes' % (kind, v, w), WRITE[kind], v, w)
                            ctx.ev('refused')
    for kind, vals in (('int', [1 << 63, (1 << 63) + 1, 1 << 64, 1 << 80, -(1 << 63) - 1, -(1 << 64), -(1 << 90)]),
                       ('uint', [-1, -2, -128, -(1 << 63), -(1 << 64), 1 << 64, (1 << 64) + 1, 1 << 90])):
        for v in vals:
            for w in [None] + list(range(1, 9)):
                ctx.raises('%s %d in %s bytes' % (kind, v, w), WRITE[kind], v, w)
                ctx.ev('refused')
    ctx.case('powers', 'all +-2^k+j, widths 1-8')


def all8(ctx, rng, i):
    """ Every integer payload of 0, 1 and 2 bytes; every 1- and 2-byte value. """
    for kind in ('int', 'uint'):
        e = ref.enc_int if kind == 'int' else ref.enc_uint
        for n in (0, 1, 2):
            for p in range(256 ** n):
                b = p.to_bytes(n, 'big')
                want = ref.dec_value(kind, b)
                s = READ[kind](io.BytesIO(b), n)
                if s != want:
                    ctx.fail('%s payload %s decoded as %r, expected %r' % (kind, b.hex(), s, want))
                got = WRITE[kind](want)
                if got != e(want):
                    ctx.fail('%s %d encoded as %s, expected %s' % (kind, want, got.hex(), e(want).hex()))
                ctx.ev('encode')
                ctx.ev('decode')
    ctx.case('all8', 'every payload of up to 2 bytes')


def wide(ctx, rng, i):
    """ Non-minimal integer payloads, all widths. """
    for _ in range(60):
        kind = rng.choice(['int', 'uint'])
        w = rng.randint(0, 8)
        b = rng.choice([rng.randbytes(w), bytes(w), b'\xff' * w, b'\x80'.ljust(w, b'\0')[:w],
                        bytes(max(0, w - 1)) + bytes([rng.randrange(256)])[:w],
                        (b'\xff' * max(0, w - 1) + bytes([rng.randrange(256)]))[:w]])
        v = decode(ctx, kind, b)
        want = ref.dec_value(kind, b)
        ctx.check(ref.same_value(v, want), '%s payload %s decoded as %r, expected %r', kind, b.hex(), v, want)
        ctx.distinct.add(hash((kind, b)))
    ctx.case(('wide', i), '%s payload %s' % (kind, b.hex()))


def floats(ctx, rng, i):
    for _ in range(60):
        v = gen.gen_float(rng)
        both(ctx, 'float', v, None, b'' if v == 0 else struct.pack('>d', v), 0.0 if v == 0 else v)
        both(ctx, 'float', v, 8, struct.pack('>d', v), v)
        w = rng.choice([1, 2, 3, 5, 6, 7, 9, 16])
        ctx.raises('float in %d bytes' % w, enc.encodeFloat, v, w)
        ctx.raises('float of %d bytes' % w, dec.readFloat, io.BytesIO(bytes(16)), w)
        ctx.ev('refused', 2)
        s = gen.gen_float(rng, 4)
        both(ctx, 'float', s, 4, struct.pack('>f', s), s)
        b = rng.randbytes(rng.choice([4, 8]))
        ctx.check(ref.same_value(decode(ctx, 'float', b), ref.dec_value('float', b)),
                  'float payload %s', b.hex())
        w = rng.choice([None, 8])
        through_element(ctx, 'float', v, w, b'' if v == 0 and w is None else struct.pack('>d', v),
                        0.0 if v == 0 and w is None else v)
    ctx.check(ref.same_value(decode(ctx, 'float', b''), 0.0), 'empty float')
    for big in (3.5e38, -1e300, 1.7e308):
        ctx.raises('float %r in 4 bytes' % big, enc.encodeFloat, big, 4)
        ctx.ev('refused')
    for n in (1, 0, -5, 1 << 40):
        both(ctx, 'float', n, None, b'' if n == 0 else struct.pack('>d', n), float(n))
    ctx.case(('float', i), 'floats such as %r' % v)


def ascii_of(s):
    return bytes(ord(c) if 32 <= ord(c) < 127 else 63 for c in s)


def strings(ctx, rng, i):
    for _ in range(25):
        n = gen.gen_len(rng, rng.random() < .05)
        # ASCII
        s = gen.gen_str(rng, n)
        both(ctx, 'str', s, None, s.encode(), s)
        through_element(ctx, 'str', s, None, s.encode(), s)
        for w in {0, 1, max(0, n - 1), n, n + 1, n + rng.randint(2, 30)}:
            cut = s[:w].encode()
            both(ctx, 'str', s, w, cut.ljust(w, b'\0'), s[:w])
        m = ''.join(rng.choice(gen.UNI + 'abc\n\t\r\x01\x1f\x7f\x80\xff') for _ in range(rng.randint(0, 30)))
        both(ctx, 'str', m, None, ascii_of(m), ascii_of(m).decode())
        raw = rng.randbytes(rng.randint(0, 20))
        want = bytes(c if 32 <= c < 127 else 63 for c in raw)
        both(ctx, 'str', raw, None, want, want.decode())
        # Unicode
        u = gen.gen_utf8(rng, n)
        b = u.encode()
        both(ctx, 'utf8', u, None, b, u)
        through_element(ctx, 'utf8', u, None, b, u)
        for w in {len(b), len(b) + 1, len(b) + rng.randint(2, 30)}:
            both(ctx, 'utf8', u, w, b.ljust(w, b'\0'), u)
        if u:
            k = rng.randrange(len(u))       # cut between characters
            both(ctx, 'utf8', u, len(u[:k].encode()), u[:k].encode(), u[:k])
        v = ''.join(rng.choice(['\n', '\t', '\r', '\r\n', '\x7f', '\x01', '\x1f', ' ', 'a', '\x85', '\xa0', '\u2028', '\u2029',
                                '\ufffd', '\U0010ffff', 'e\u0301']) for _ in range(rng.randint(1, 9)))
        both(ctx, 'utf8', v, None, v.encode(), v)
        through_element(ctx, 'utf8', v, None, v.encode(), v)
        ub = rng.choice([bytes, bytearray])(b)
        both(ctx, 'utf8', ub, None, b, u)
        # Binary
        d = gen.gen_bin(rng, n)
        both(ctx, 'bin', rng.choice([bytes, bytearray])(d), None, d, bytearray(d))
        through_element(ctx, 'bin', d, None, d, bytearray(d))
        for w in {n, n + 1, n + rng.randint(2, 30)}:
            both(ctx, 'bin', d, w, d.ljust(w, b'\0'), bytearray(d.ljust(w, b'\0')))
        if n:
            w = rng.choice([0, n - 1, rng.randrange(n)])
            ctx.raises('%d bytes of binary in %d' % (n, w), enc.encodeBinary, d, w)
            ctx.ev('refused')
        both(ctx, 'bin', u, None, b, bytearray(b))
        # padded payloads
        low = bytes(rng.choice([9, 10, 13, 127, 1, 31, 32, 65]) for _ in range(rng.randint(1, 9)))
        got = decode(ctx, 'str', low)
        ctx.check(got == low.decode(), 'string payload %s decoded as %s', short(low), short(got))
        for kind, t in (('str', s), ('utf8', u)):
            pad = t.encode() + b'\0' * rng.randint(1, 9) + rng.choice([b'', b'junk', b'\0x'])
            got = decode(ctx, kind, pad)
            ctx.check(ref.same_value(got, t), '%s payload %s decoded as %s', kind, short(pad), short(got))
        # bytes that are not ASCII
        raw = gen.gen_str(rng, rng.randint(0, 9)).encode() + rng.randbytes(rng.randint(1, 12))
        want = raw.split(b'\0')[0].decode('ascii', 'replace')
        got = decode(ctx, 'str', raw)
        ctx.check(got == want, 'string payload %s decoded as %s', short(raw), short(got))
    both(ctx, 'bin', None, None, b'', bytearray())
    ctx.case(('str', i), 'text such as %r' % u[:30])


def large(ctx, rng, i):
    """ Long values, around the sizes of buffers. """
    for kind in ('str', 'utf8', 'bin'):
        n = gen.near_power(rng, 10, 22)
        v = {'str': gen.gen_str, 'utf8': gen.gen_utf8, 'bin': gen.gen_bin}[kind](rng, 100) or b'x'
        if kind != 'bin':
            v = v.replace('\0', '') + '.'
        v = v * (n // len(v)) + v[:n % len(v)]
        b = v if kind == 'bin' else v.encode()
        want = bytearray(v) if kind == 'bin' else v
        both(ctx, kind, v, None, b, want)
        k = rng.randint(1, 9)
        both(ctx, kind, v, len(b) + k, b + bytes(k), bytearray(b + bytes(k)) if kind == 'bin' else v)
        through_element(ctx, kind, v, None, b, want)
        ctx.ev('long value')
    ctx.case(('large', i), '%d of %s' % (n, kind))


def dates(ctx, rng, i):
    for _ in range(80):
        d = gen.gen_date(rng)
        ns = ref.date_ns(d)
        if not -(1 << 63) <= ns < 1 << 63:
            ctx.raises('date %s' % d, enc.encodeDate, d)
            ctx.ev('refused')
            continue
        both(ctx, 'date', d, rng.choice([None, 8]), ref.enc_int(ns, 8), d)
        through_element(ctx, 'date', d, None, ref.enc_int(ns, 8), d)
        b = ref.enc_int(ns + rng.randint(0, 999), 8)
        ctx.check(decode(ctx, 'date', b) == d, 'date payload %s', b.hex())
        w = rng.choice([0, 1, 2, 4, 7, 9, 16])
        ctx.raises('date in %d bytes' % w, enc.encodeDate, d, w)
        ctx.raises('date of %d bytes' % w, dec.readDate, io.BytesIO(bytes(16)), w)
        ctx.ev('refused', 2)
    for d in (datetime.datetime(1, 1, 1), datetime.datetime(9999, 12, 31), datetime.datetime(1600, 1, 1)):
        ctx.raises('date %s' % d, enc.encodeDate, d)
        ctx.ev('refused')
    ctx.case(('date', i), 'dates such as %s' % d)


WRONG = {'int': ['1', b'1', None, [], {}, 1j], 'uint': ['1', b'1', None, [], {}, 1j],
         'float': ['1', b'1', [], {}, 1j], 'str': [1, 1.5, None, [], {}], 'utf8': [1, 1.5, None, [], {}],
         'bin': [1, 1.5, [1, 2], {}], 'date': [1, 1.5, 'x', b'x', [], datetime.date(2020, 1, 1)]}


def wrong(ctx, rng, i):
    for kind, vals in WRONG.items():
        for v in vals:
            for w in (None, 4, 8):
                ctx.raises('%s of %r with length %s' % (kind, v, w), WRITE[kind], v, w)
                ctx.ev('refused')
    for kind in ('int', 'uint'):
        for v in (float('inf'), float('-inf'), float('nan'), 1e30, -1e30):
            ctx.raises('%s of %r' % (kind, v), WRITE[kind], v)
            ctx.ev('refused')
    ctx.case('wrong', 'values of wrong types')


SECTIONS = [Section('powers', powers, 1, 1), Section('all16', all8, 1, 1), Section('wrong', wrong, 1, 1),
            Section('ints', ints, 240, 3000), Section('wide', wide, 200, 2000),
            Section('floats', floats, 100, 1000), Section('strings', strings, 80, 500), Section('large', large, 24, 200),
            Section('dates', dates, 80, 800)]
