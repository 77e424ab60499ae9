""" C20: generated and validated IDs follow the EBML ID classes. """
import io

from vlib import gen, obs, ref
from vlib.mon import Section, short
from ebmlite import core, decoding, encoding, util

LEVEL = 'exploration'
RULE = """'sweep' validates consecutive numbers (every one of 0 to 0x20000 in the quick tier, to 0x600000 in the thorough
one) and 'edges' numbers around every class and byte boundary, powers of two and random numbers, negative and huge, against
the four class ranges. 'create' calls createID() with random schema (also full of the lowest IDs), class spelling, exclusions
of several types, range and count, against the set definition; generated IDs are also written, read back and used in a
schema. 'full' enumerates whole classes. Distinct: arguments."""
REQUIRE = {'validated': 131000, 'accepted': 16000, 'refused': 90000, 'created': 3000, 'fewer than asked': 30, 'used': 200}
CLASSES = {'A': (0x81, 0xFE), 'B': (0x407F, 0x7FFE), 'C': (0x203FFF, 0x3FFFFE), 'D': (0x101FFFFF, 0x1FFFFFFE)}
BLOCK = 0x4000


def valid(n):
    return any(a <= n <= z for a, z in CLASSES.values())


def judge(ctx, n):
    try:
        r = util.validateID(n)
    except Exception as ex:
        if valid(n):
            ctx.fail('validateID(0x%X) refused a valid ID: %s: %s' % (n, type(ex).__name__, ex))
        ctx.events['refused'] += 1
        if -2**63 <= n < 2**63 and not isinstance(ex, ValueError):
            ctx.fail('validateID(%s) raised %s instead of a ValueError' % (hex(n), type(ex).__name__))
    else:
        if not valid(n):
            ctx.fail('validateID(%s) accepted an invalid ID' % hex(n))
        if r is not True:
            ctx.fail('validateID(0x%X) returned %r' % (n, r))
        ctx.events['accepted'] += 1
    ctx.events['validated'] += 1


def sweep(ctx, rng, i):
    start = i * BLOCK
    if ctx.tier == 'quick' and i >= 8:      # somewhere in classes C and D, and beyond
        start = rng.choice([0x200000, 0x200000, rng.randrange(0x200000, 0x400000), rng.randrange(1 << 24, 1 << 29),
                            rng.randrange(1 << 32)])
    for n in range(start, start + BLOCK):
        judge(ctx, n)
    ctx.case(('sweep', start), 'IDs from 0x%X' % start)


def edges(ctx, rng, i):
    if i == 0:
        ns = set()
        for a, z in CLASSES.values():
            for x in (a, z):
                ns.update(range(x - 300, x + 300))
        for b in range(0, 65):
            ns.update(range((1 << b) - 20, (1 << b) + 20))
        for k in range(1, 5):
            for f in range(256):
                for rest in (0, 1, 0x7f, 0x80, 0xff):
                    ns.add(int.from_bytes(bytes([f]) + bytes([rest]) * (k - 1), 'big'))
        ns = sorted(ns)
    else:
        ns = [rng.randrange(-5, 1 << rng.randint(1, 40)) for _ in range(1500)]
        for a, z in CLASSES.values():
            ns += [rng.randint(a, z) for _ in range(300)]
    for n in ns:
        judge(ctx, n)
    ctx.case(tuple(ns), short(ns))


def order(cls, lo, hi, used, count):
    a, z = CLASSES[cls]
    out = []
    x = max(a, lo)
    while x <= min(z, hi) and len(out) < count:
        if x not in used:
            out.append(x)
        x += 1
    return out


def create(ctx, rng, i):
    model = gen.gen_schema(rng)
    if rng.random() < .5:
        # a schema occupying the lowest IDs of a class
        cls = rng.choice('ABCD')
        a = CLASSES[cls][0]
        ids = sorted(set(rng.choice([a, a + 1]) + rng.randint(0, 60) for _ in range(rng.randint(1, 70))))
        schema = core.Schema(io.StringIO('<Schema>%s</Schema>' % ''.join(
            '<UIntegerElement name="E%d" id="0x%X"/>' % (x, x) for x in ids)))
        used = set(ids)
    else:
        schema = obs.schema(model)
        used = set(model.byId)
        cls = rng.choice('ABCD')
    used |= set(schema.elements)
    for k in range(6):
        cls = rng.choice([cls, cls, rng.choice('ABCD')])
        a, z = CLASSES[cls]
        kw, lo, hi, count = {}, 0x81, 0x1FFFFFFE, 1
        ex = []
        if rng.random() < .5:
            ex = [a + rng.randint(-2, 40) for _ in range(rng.randint(0, 40))] + [rng.randint(0, 1 << 32)]
            kw['exclude'] = rng.choice([list, tuple, set, frozenset, iter, lambda x: dict.fromkeys(x)])(ex)
        if rng.random() < .5:
            lo = kw['minId'] = rng.choice([0, a - 3, a, a + 1, rng.randint(a, z), z - 3, z, z + 1, 1 << 33])
        if rng.random() < .5:
            hi = kw['maxId'] = rng.choice([0, lo - 1, lo, lo + 1, lo + rng.randint(2, 60), a - 1, a, z, z + 9, 1 << 33])
        if rng.random() < .8:
            big = min(z, hi) - max(a, lo) < 5000
            count = kw['count'] = rng.choice([1, 2, 5, 100, 0] + ([10000] if big else [3]))
        keep = list(kw['exclude']) if isinstance(kw.get('exclude'), (list, tuple)) else None
        spell = rng.choice([cls, cls.lower()])
        ctx.note('createID(class %s, %s)' % (spell, {k: hex(v) if isinstance(v, int) else v for k, v in kw.items()}))
        got = util.createID(schema, spell, **kw)
        ctx.ev('created', len(got) or 1)
        want = order(cls, lo, hi, used | set(ex), count)
        ctx.check(list(got) == want, 'class %s, %s: got %s, expected %s', cls, kw, short([hex(x) for x in got]),
                  short([hex(x) for x in want]))
        if len(want) < count:
            ctx.ev('fewer than asked')
        if keep is not None:
            ctx.check(list(kw['exclude']) == keep, 'exclude was modified')
        ctx.check(set(schema.elements) | {core.VoidElement.id} >= used - {0xEC}, 'the schema was modified')
        for x in got[:3]:
            ctx.check(util.validateID(x) is True, '0x%X does not validate', x)
            b = encoding.encodeId(x)
            ctx.eq(decoding.readElementID(io.BytesIO(b))[0], x, 'ID read back')
            s = core.Schema(io.StringIO('<Schema><UIntegerElement name="N" id="0x%X"/></Schema>' % x))
            e, = s.loads(s.encodes({'N': 77}))
            ctx.eq((e.id, e.name, e.value), (x, 'N', 77), 'element with the generated ID')
            ctx.ev('used')
    for bad in ('', 'E', 'AB', 'x', ' a'):
        ctx.raises('createID() of class %r' % bad, util.createID, schema, bad)
    ctx.case((i, tuple(sorted(used)), cls), 'class %s' % cls)


def full(ctx, rng, i):
    """ All IDs of a class, but for the excluded ones. """
    cls = 'AB'[i % 2] if i < 4 else 'C'
    schema = core.Schema(io.StringIO('<Schema><UIntegerElement name="N" id="0x4085"/></Schema>'))
    a, z = CLASSES[cls]
    ex = rng.sample(range(a, z + 1), rng.choice([0, 50]))
    got = util.createID(schema, cls, exclude=ex, count=1 << 24)
    want = sorted(set(range(a, z + 1)) - set(ex) - set(schema.elements))
    ctx.check(got == want, 'all of class %s: %d IDs, expected %d; differences %s', cls, len(got), len(want),
              short(sorted(set(got) ^ set(want))[:9]))
    ctx.ev('created', len(got))
    ctx.case((cls, i, tuple(ex)), 'all of class ' + cls)


SECTIONS = [Section('sweep', sweep, 24, 0x600000 // BLOCK), Section('edges', edges, 8, 80),
            Section('create', create, 600), Section('full', full, 4, 5)]
