""" C12: binary text codecs are lossless in every configuration. """
import base64
import io

from vlib import gen, textref
from vlib.mon import Section, short
from ebmlite import xml_codecs
from ebmlite.xml_codecs import Base64Codec, HexCodec, IgnoreCodec

LEVEL = 'exploration'
RULE = """Random data (lengths dense around multiples of the line length) is encoded in random codec configurations,
returned and written to streams; monitors compare the text with an independent layout model, the returned counts with
what reached the stream, and decode the text (also re-indented, re-wrapped, upper-cased, as str and bytes, returned and
to a stream, through any instance). 'lengths' enumerates all lengths 0-260 for common configurations. Non-trivial: at
least one byte. Distinct: data, configuration."""
REQUIRE = {'encoded': 3000, 'decoded': 10000, 'to stream': 3000, 'ignored': 50, 'large': 36}


class Out(io.StringIO):
    """ A text stream that is its own witness. """


def reshape(rng, text, brackets):
    """ The same content with other indentation or line breaks. """
    r = rng.randrange(6)
    if r == 0:
        return text.replace('\n', '\n' + rng.choice(['  ', '\t', '      ']))
    if r == 1:
        return text.replace('\n', ' ' if brackets else rng.choice(['', ' ', '\t']))
    if r == 2:
        return '\n   ' + text.strip() + '\n\n  '
    if r == 3:
        return text.replace('\n', '\r\n')
    if r == 4 and not brackets:
        # wrap it anywhere between bytes (hex) / characters (base64)
        flat = ''.join(text.split())
        k = 2 * rng.randint(1, 30)
        return '\n'.join(flat[i:i + k] for i in range(0, len(flat), k))
    return '\n'.join(x.strip() for x in text.split('\n'))


def roundtrip(ctx, rng, cls, kw, data, indent, offset):
    codec = textref.make(cls, **kw)
    what = '%s(%r) of %d bytes, indent=%r, offset=%d' % (cls.__name__, kw, len(data), indent, offset)
    give = rng.choice([bytes, bytearray])(data)
    sind = indent.decode() if isinstance(indent, bytes) else indent
    args = dict(indent=indent)
    if offset or rng.random() < .5:
        args['offset'] = offset
    text = codec.encode(give, **args)
    ctx.ev('encoded')
    ctx.check(isinstance(text, str), '%s: returned %s', what, short(text))
    bad = textref.check(codec, text, data, sind, offset)
    ctx.check(bad is None, '%s: %s', what, bad)
    out = Out()
    out.write('before')
    n = codec.encode(give, stream=out, **args)
    ctx.ev('to stream')
    got = out.getvalue()
    ctx.check(got.startswith('before') and got[6:] == text, '%s: to a stream wrote %s, returned %s', what,
              short(got[6:]), short(text))
    ctx.check(n == len(text) and type(n) is int, '%s: to a stream returned %r for %d characters', what, n, len(text))
    ctx.check(bytes(give) == data, '%s: the data was changed', what)
    ctx.check(codec.encode(give, **args) == text, '%s: repeated gives another text', what)
    dec = rng.choice([cls, cls(), codec])
    if cls is HexCodec and sind.strip():
        return
    forms = [text] + [reshape(rng, text, '[' in text) for _ in range(3)]
    if cls is HexCodec:
        forms.append(text.upper())
    for t in forms:
        for x in (t, t.encode()):
            r = dec.decode(x)
            ctx.ev('decoded')
            ctx.check(isinstance(r, (bytes, bytearray)) and bytes(r) == data, '%s: %s decodes to %s, data was %s', what,
                      short(x), short(r), short(data))
        bio = io.BytesIO(b'xy')
        bio.seek(2)
        n = dec.decode(t, stream=bio)
        ctx.ev('decoded')
        ctx.check(bio.getvalue() == b'xy' + data and n == len(data), '%s: decoding to a stream returned %r, wrote %s',
                  what, n, short(bio.getvalue()[2:]))


def config(rng):
    if rng.random() < .45:
        cols = rng.choice([76, 76, None, 0, 1, 4, 60, 64, 75, 77, 80, rng.randint(1, 120)])
        return Base64Codec, rng.choice([{'cols': cols}] * 4 + [{}, {'cols': cols, 'width': 3, 'offsets': True}])
    kw = {}
    if rng.random() < .8:
        kw['cols'] = rng.choice([None, 0, 1, 2, 16, 32, 33, rng.randint(1, 70)])
    if rng.random() < .8:
        kw['width'] = rng.choice([1, 2, 3, 4, 8, 100])
    if rng.random() < .8:
        kw['offsets'] = rng.random() < .5
    return HexCodec, kw


def random_config(ctx, rng, i):
    cls, kw = config(rng)
    line = (kw.get('cols', 32) or 8) if cls is HexCodec else ((kw.get('cols', 76) or 40) * 3 // 4) or 1
    n = rng.choice([0, 1, 2, 3, 4, rng.randint(0, 200),
                    max(0, line * rng.randint(1, 4) + rng.choice([-1, 0, 1])), rng.randint(200, 2500)])
    data = gen.gen_bin(rng, n)
    indent = rng.choice(['', '', '  ', '\t', ' ' * 17, b'  ', b''])
    offset = rng.choice([0, 0, 1, 999999, 1000000, 1 << 33, rng.randrange(100000)])
    ctx.case((cls.__name__, repr(kw), data, indent, offset), '%s %r %d bytes' % (cls.__name__, kw, n), n > 0)
    roundtrip(ctx, rng, cls, kw, data, indent, offset)


CONFIGS = [(Base64Codec, {}), (Base64Codec, {'cols': None}), (Base64Codec, {'cols': 64}), (Base64Codec, {'cols': 1}),
           (HexCodec, {}), (HexCodec, {'cols': None}), (HexCodec, {'offsets': False}),
           (HexCodec, {'width': 1, 'cols': 16}), (HexCodec, {'width': 4, 'cols': 0}),
           (HexCodec, {'cols': 7, 'width': 7, 'offsets': False})]


def lengths(ctx, rng, i):
    cls, kw = CONFIGS[i % len(CONFIGS)]
    for n in range(0, 261):
        roundtrip(ctx, rng, cls, kw, rng.randbytes(n), '', 0)
    ctx.case((cls.__name__, repr(kw), i), '%s %r lengths 0-260' % (cls.__name__, kw))


def large(ctx, rng, i):
    """ Sizes around the buffers something might use. """
    cls, kw = CONFIGS[i % len(CONFIGS)] if i % 3 else config(rng)
    n = gen.near_power(rng, 11, 20 if cls is Base64Codec and kw.get('cols') != 1 else 18 if i % 12 == 5 else 16)
    data = rng.randbytes(n)
    codec = textref.make(cls, **kw)
    indent, offset = rng.choice(['', '  ']), rng.choice([0, 7, 999000])
    what = '%s(%r) of %d bytes' % (cls.__name__, kw, n)
    text = codec.encode(data, indent=indent, offset=offset)
    ctx.ev('large')
    bad = textref.check(codec, text, data, indent, offset)
    ctx.check(bad is None, '%s: %s', what, bad)
    out = Out()
    k = codec.encode(data, stream=out, indent=indent, offset=offset)
    ctx.check(out.getvalue() == text and k == len(text), '%s: to a stream it wrote %d characters and returned %r, not %d',
              what, len(out.getvalue()), k, len(text))
    ctx.check(bytes(cls.decode(text)) == data, '%s: decodes to something else', what)
    b = io.BytesIO()
    k = cls.decode(text.encode(), stream=b)
    ctx.check(k == n and b.getvalue() == data, '%s: decoding to a stream returned %r and wrote %d bytes', what, k, len(b.getvalue()))
    ctx.case((cls.__name__, repr(kw), data), what)


def nothing(ctx, rng, i):
    """ Empty input, the ignore codec, the registry. """
    for cls in (Base64Codec, HexCodec):
        for empty in (None, '', b''):
            ctx.check(bytes(cls.decode(empty)) == b'', '%s.decode(%r) is %r', cls.__name__, empty, cls.decode(empty))
            b = io.BytesIO()
            ctx.check(cls.decode(empty, stream=b) == 0 and b.getvalue() == b'', '%s.decode(%r) to a stream',
                      cls.__name__, empty)
            ctx.ev('ignored')
        for ws in ('\n', '  \n\t ', b'\n  '):
            ctx.check(bytes(cls.decode(ws)) == b'', '%s.decode(%r) is %r', cls.__name__, ws, cls.decode(ws))
    s = gen.gen_utf8(rng, 30)
    for cols in (76, None, 20):
        ctx.check(base64.b64decode(Base64Codec(cols=cols).encode(s)) == s.encode(),
                  'base64 of the string %r', s)
    for c in (IgnoreCodec, IgnoreCodec()):
        for data in (b'', b'abc', rng.randbytes(300), bytearray(5)):
            for kw in ({}, {'indent': '  '}, {'offset': 77}, {'indent': ' ', 'offset': 7}):
                ctx.check(c.encode(data, **kw) == '', 'ignore encodes to %r', c.encode(data, **kw))
                o = io.StringIO()
                ctx.check(c.encode(data, stream=o, **kw) == 0 and not o.getvalue(), 'ignore wrote %r', o.getvalue())
                ctx.ev('ignored')
            b = io.BytesIO()
            ctx.check(c.decode('QUJD') == b'' and c.decode('QUJD', stream=b) == 0 and not b.getvalue(),
                      'ignore decodes to something')
    for name, cls in xml_codecs.BINARY_CODECS.items():
        ctx.check(cls.NAME == name and cls().NAME == name, 'codec %r is named %r', name, cls.NAME)
        ctx.check(issubclass(cls, xml_codecs.BinaryCodec), '%r is no codec', cls)
        cls(cols=4, width=2, offsets=False, other=5)        # all arguments are optional and tolerated
    ctx.check(set(xml_codecs.BINARY_CODECS) >= {'base64', 'hex', 'ignore'}, 'codecs: %s', list(xml_codecs.BINARY_CODECS))
    ctx.case(('nothing', s), 'empty input and the ignore codec')


SECTIONS = [Section('random', random_config, 1200), Section('lengths', lengths, 10, 60), Section('large', large, 36, 400), Section('nothing', nothing, 4)]
