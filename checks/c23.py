""" C23: verify() accepts exactly what the schema can read. """
import copy
import io
import struct

from vlib import gen, obs, ref
from vlib.mon import REPO, Inconclusive, Section, short
from ebmlite import core

LEVEL = 'exploration'
RULE = """A case verifies a generated document of hostile layout without unknown elements, as bytes, bytearray and memoryview,
which must return True; then, for every position in it (a sample above 40) one defect planted there: an element with an
undefined ID (short, empty, long, or a master's ID changed), a float or date of impossible length, invalid UTF-8, or bytes
that are no element ID. Each must be refused with an exception, and the intact document accepted again. The samples of the
repository are verified, too. Distinct: document bytes."""
REQUIRE = {'accepted': 800, 'refused': 6000, 'defect:unknown': 1500, 'defect:float': 200, 'defect:date': 100, 'defect:utf8': 200, 'long utf8': 100,
           'defect:id': 1000, 'defect:renamed': 200, 'in header': 200, 'depth 3': 200, 'sample': 1}


class Raw(ref.Node):
    """ Bytes that are no element. """

    def bytes(self):
        return self.payload

    def walk(self):
        yield self


def unused_id(rng, model):
    while True:
        i = rng.choice([rng.randint(0x81, 0xFE), rng.randint(0x407F, 0x7FFE), rng.randint(0x203FFF, 0x3FFFFE),
                        rng.randint(0x101FFFFF, 0x1FFFFFFE)])
        if i not in model.byId:
            return i


def positions(roots):
    """ (list of siblings, index, depth, in the header) of every gap. """
    todo = [(roots, 0, False)]
    while todo:
        kids, depth, hdr = todo.pop()
        for k in range(len(kids) + 1):
            yield kids, k, depth, hdr
        for n in kids:
            if n.children is not None:
                todo.append((n.children, depth + 1, hdr or n.name == 'EBML'))


BAD_UTF8 = [b'\xff', b'a\x80', b'\xc3', b'\xed\xa0\x80', b'ok\xf8\x88\x80\x80\x80', b'\xe2\x82', b'\xc0\xaf']


def spoil(ctx, rng, model, kids, k):
    """ Plant a defect at an index of a list of siblings; returns (kind, undo). """
    kind = rng.choice(['unknown', 'unknown', 'value', 'value', 'id', 'renamed'])
    n = kids[k] if k < len(kids) else None
    if kind == 'renamed' and n is not None and (n.d is None or not n.d.glob):
        new = ref.Node(None, id=unused_id(rng, model), payload=n.body(), value=b'')
        new.sw = n.sw
        kids[k] = new
        return kind, lambda: kids.__setitem__(k, n)
    if kind == 'value':
        k2 = rng.choice(['float', 'date', 'utf8'])
        ds = [d for d in model.byId.values() if d.kind == k2]
        if ds and (n is None or rng.random() < .7):
            d = rng.choice(ds)
            if k2 == 'float':
                p = rng.randbytes(rng.choice([1, 2, 3, 5, 6, 7, 9, 10, 16]))
            elif k2 == 'date':
                p = bytes(rng.choice([0, 1, 4, 7, 9, 16]))
            else:
                p = rng.choice(BAD_UTF8) + rng.choice([b'', b'\0', b'abc'])
                if rng.random() < .4:
                    # anywhere in a long text
                    t = rng.choice('aé字😀') * rng.choice([50, 300, 1500, 20000])
                    c = rng.choice([0, len(t) // 2, len(t)])
                    p = t[:c].encode() + p.rstrip(b'\0') + t[c:].encode()
                    ctx.ev('long utf8')
            new = ref.Node(d, payload=p, value=None)
            kids.insert(k, new)
            return k2, lambda: kids.pop(k)
    if kind == 'id':
        kids.insert(k, Raw(None, id=0, payload=bytes([rng.randint(0, 15)]) + rng.choice([b'', b'\x81', bytes(9), b'\xff' * 4])))
        return kind, lambda: kids.pop(k)
    p = rng.choice([b'', b'x', bytes(5), bytes(200)])
    kids.insert(k, ref.Node(None, id=unused_id(rng, model), payload=p, value=p))
    return 'unknown', lambda: kids.pop(k)


def accepted(ctx, schema, data, what):
    for conv in (bytes, bytearray, memoryview):
        try:
            r = schema.verify(conv(data))
        except Exception as ex:
            ctx.fail('%s was refused: %s: %s' % (what, type(ex).__name__, ex))
        ctx.check(r is True, '%s: verify() returned %r', what, r)
        ctx.ev('accepted')


def defects(ctx, rng, i):
    model = gen.gen_schema(rng)
    schema = obs.schema(model)
    roots = gen.gen_layout(rng, model, big=False, budget=rng.choice([0, 3, 8, 25, 60]), unknown=False, huge=.05)
    data = gen.to_bytes(roots)
    ctx.case(data, ' '.join(n.text() for n in roots)[:400], bool(roots))
    if any(r.bad is not None or r.d is None for q in ref.parse(data, model) for r in q.walk()):
        raise Inconclusive('not a clean document')
    accepted(ctx, schema, data, 'an intact document')
    pos = list(positions(roots))
    if len(pos) > 40:
        pos = rng.sample(pos, 40)
    for kids, k, depth, hdr in pos:
        kind, undo = spoil(ctx, rng, model, kids, k)
        bad = gen.to_bytes(roots)
        undo()
        # confirmed by the reference: the defect is there
        try:
            if not any(r.bad is not None or r.d is None for q in ref.parse(bad, model) for r in q.walk()):
                raise AssertionError('harness: planted defect %s is none' % kind)
        except (ref.Truncated, ValueError):
            pass
        ctx.note('%s at depth %d: %s\nschema %s' % (kind, depth, bad.hex()[:3000], model.xml))
        try:
            r = schema.verify(bad)
        except Exception:
            ctx.ev('refused')
        else:
            ctx.fail('a document with a defect (%s at index %d, depth %d%s) was accepted: %r' % (
                kind, k, depth, ', in the header' if hdr else '', r))
        ctx.ev('defect:' + kind)
        if hdr:
            ctx.ev('in header')
        if depth >= 3:
            ctx.ev('depth 3')
    accepted(ctx, schema, data, 'the intact document, verified again')


def samples(ctx, rng, i):
    for fn, sn in [('SSX46714-doesnot.IDE', 'mide_ide'), ('video-3.mkv', 'matroska')][:1 if ctx.tier == 'quick' else 2]:
        p = REPO / 'tests' / fn
        if not p.exists():
            raise Inconclusive('sample file missing')
        sp = REPO / 'ebmlite' / 'schemata' / (sn + '.xml')
        model, schema = ref.read_schema(str(sp)), core.loadSchema(str(sp))
        data = p.read_bytes()
        clean = not any(r.bad is not None or r.d is None for q in ref.parse(data, model) for r in q.walk())
        try:
            r = schema.verify(data)
        except Exception as ex:
            ctx.check(not clean, '%s was refused: %s: %s', fn, type(ex).__name__, ex)
        else:
            ctx.check(clean and r is True, '%s has unknown elements, but verify() returned %r', fn, r)
        other = core.loadSchema(str(REPO / 'ebmlite' / 'schemata' / 'mide_manifest.xml'))
        ctx.raises('%s with another schema' % fn, other.verify, data)
        ctx.ev('sample')
        ctx.case(data, fn)


SECTIONS = [Section('defects', defects, 900), Section('samples', samples, 1, 1)]
