""" C22: element and schema equality means what it documents. """
import io

from vlib import gen, obs, ref
from vlib.mon import Inconclusive, Section, short
from ebmlite import core

LEVEL = 'exploration'
RULE = """A case opens a generated document and near-duplicates of it: an identical copy, one with an equal schema loaded
separately (also with its definitions reordered), one with a schema differing in one attribute, and documents with one value, ID, size, offset,
unknown ID or unknown content changed. Every pair of elements (up to a cap), whatever was read of them before, is compared
in both directions with the documented definition; also ==/!= consistency, reflexivity, foreign objects, and documents.
'schemata' compares schemata pairwise with their attribute definitions. Distinct: pair of documents."""
REQUIRE = {'pair': 50000, 'equal': 3000, 'equal by position only': 500, 'differs in value only': 100, 'retyped': 200, 'unknown pair': 500,
           'unknown equal': 100, 'foreign': 5000, 'schema pair': 1500, 'schema equal': 150, 'variant:schema': 20, 'document pair': 300}
DTYPE = {'int': 'int', 'uint': 'int', 'float': 'float', 'str': 'str', 'utf8': 'str', 'date': 'date', 'bin': 'bin', 'void': 'bin',
         'unknown': 'bin', 'master': 'list'}
VALUED = ('int', 'uint', 'float', 'str', 'utf8', 'date')


def want_eq(a, sa, b, sb):
    """ The definition. `sa`, `sb` identify the definitions of the schemata. """
    if 'unknown' in (a.kind, b.kind):
        return a.kind == b.kind and a.id == b.id and bytes(a.value) == bytes(b.value)
    if not (DTYPE[a.kind] == DTYPE[b.kind] and a.id == b.id and a.off == b.off and a.size == b.size and sa == sb):
        return False
    return a.kind not in VALUED or a.value == b.value


def nan(r):
    return r.kind == 'float' and r.value != r.value


def touch(rng, e):
    """ Read (or forget) something. """
    k = rng.randrange(6)
    if k == 0:
        e.value
    elif k == 1:
        e.gc()
    elif k == 2:
        e.getRaw()
    elif k == 3:
        e.size
    elif k == 4 and isinstance(e, core.MasterElement):
        list(e)


def variant(rng, roots, model):
    """ Change one thing of a document. """
    nodes = [n for r in roots for n in r.walk()]
    kind = rng.choice(['value', 'value', 'value', 'size', 'insert', 'unknown', 'unknown'])
    leaves = [n for n in nodes if n.children is None]
    if kind == 'value':
        for n in rng.sample(leaves, min(3, len(leaves))):
            # same size, other content
            p = bytearray(n.payload)
            if p and n.kind in ('int', 'uint', 'date', 'bin'):
                p[rng.randrange(len(p))] ^= 1 << rng.randrange(8)
            elif p and n.kind in ('str', 'utf8') and p.isalnum():
                p[rng.randrange(len(p))] = rng.choice(b'XYZ')
            elif len(p) in (4, 8) and n.kind == 'float':
                p[-1] ^= 1
            n.payload = bytes(p)
            if n.kind not in ('void', 'unknown'):
                n.value = ref.dec_value(n.kind, n.payload)
    elif kind == 'unknown':
        unk = [n for n in leaves if n.kind == 'unknown']
        for n in unk[:3]:
            if rng.random() < .5 and n.payload:
                n.payload = n.payload[:-1] + bytes([n.payload[-1] ^ 1])
                n.value = n.payload
            else:
                n.id ^= 1
                if n.id in model.byId or not ref.id_ok(n.id):
                    n.id ^= 1
    elif kind == 'size' and leaves:
        n = rng.choice(leaves)
        if n.kind in ('bin', 'void', 'unknown'):
            n.payload += b'\0'
            n.value = n.payload
    elif kind == 'insert':
        # everything after is moved
        void = [d for d in model.byId.values() if d.kind == 'bin' and d.glob] or [None]
        roots.insert(rng.choice([0, 1]) if roots and roots[0].name != 'EBML' else 1 if roots else 0,
                     ref.Node(void[0], id=void[0].id if void[0] else 0x4FFF, payload=b'\0' * rng.randint(0, 9), value=b''))
    return kind


def other_schema(rng, model):
    """ The schema XML with one attribute changed that does not affect reading. """
    from xml.etree import ElementTree as ET
    x = ET.fromstring(model.xml)
    els = [e for e in x.iter() if e.get('id') and e.get('name')]
    e = rng.choice(els)
    k = rng.choice(['mandatory', 'extra', 'default', 'minver'])
    v = e.get(k)
    for f in x.iter():
        if f.get('name') == e.get('name') or f.get('id') == e.get('id'):
            f.set(k, '1' if v in (None, '0') else '0')
    return ET.tostring(x, encoding='unicode')


def retype(rng, model):
    """ The schema XML with other types for some leaves: its attributes stay. """
    from xml.etree import ElementTree as ET
    x = ET.fromstring(model.xml)
    other = {'UIntegerElement': ['IntegerElement', 'BinaryElement', 'UIntegerElement'], 'IntegerElement': ['UIntegerElement', 'BinaryElement'],
             'StringElement': ['UnicodeElement', 'BinaryElement'], 'UnicodeElement': ['BinaryElement'],
             'FloatElement': ['IntegerElement', 'UIntegerElement'], 'DateElement': ['IntegerElement', 'BinaryElement']}
    new = {}
    for e in x.iter():
        if e.tag in other:
            k = int(e.get('id'), 16) if e.get('id') else model.byName[e.get('name').strip()].id
            e.tag = new.setdefault(k, rng.choice(other[e.tag]))
    return ET.tostring(x, encoding='unicode')


def pairs(ctx, rng, i):
    model = gen.gen_schema(rng, multiple_p=.8)
    roots = gen.gen_layout(rng, model, controls=.15, big=False, budget=rng.choice([4, 10, 25]), huge=.03, wild=rng.choice([.08, .08, .3]))
    long = [n for r in roots for n in r.walk() if n.d is None] if rng.random() < .5 else []
    for n in rng.sample(long, min(len(long), 3)):
        n.payload = rng.randbytes(gen.near_power(rng, 5, 17))
        n.value = n.payload
    data = gen.to_bytes(roots)
    # the same document again, to be changed
    kind = rng.choice(['retyped', 'copy', 'copy', 'equal schema', 'schema', 'change', 'change', 'change', 'change', 'self'])
    schema = schema2 = obs.schema(model)
    data2, tag2, model2 = data, 'a', model
    if kind == 'equal schema':
        schema2 = core.Schema(io.StringIO(model.xml), name='Other' if rng.random() < .5 else None)
    elif kind == 'schema':
        schema2, tag2 = core.Schema(io.StringIO(other_schema(rng, model))), 'b'
        if schema2.elementInfo == schema.elementInfo:
            raise Inconclusive('schema unchanged')
    elif kind == 'retyped':
        x = retype(rng, model)
        model2 = ref.read_schema(io.StringIO(x))
        schema2 = core.Schema(io.StringIO(x))
    elif kind == 'change':
        kind = variant(rng, roots, model)
        data2 = gen.to_bytes(roots)
    ctx.ev('variant:' + kind)
    refs, refs2 = ref.parse(data, model), ref.parse(data2, model2)
    if any(r.bad is not None for s in (refs, refs2) for q in s for r in q.walk()):
        raise Inconclusive('undecodable')
    doc = schema.load(io.BytesIO(data), headers=True)
    doc2 = doc if kind == 'self' else schema2.load(io.BytesIO(data2), headers=True)
    ctx.case((data, data2, kind), '%s: %s' % (kind, ' '.join(n.text() for n in roots)[:300]), bool(refs))

    def collect(els, rs):
        for e, r in zip(els, rs):
            yield e, r
            if r.children is not None:
                yield from collect(list(e), r.children)
    A, B = list(collect(list(doc), refs)), list(collect(list(doc2), refs2))
    for e, r in A + B:
        if rng.random() < .3:
            touch(rng, e)
    cap = 45
    if len(A) > cap or len(B) > cap:
        # corresponding ones, and some others
        k = rng.randrange(max(1, len(A) - cap))
        A, B = A[k:k + cap], B[k:k + cap]
    for ea, ra in A:
        for eb, rb in B:
            if nan(ra) or nan(rb):
                continue
            want = want_eq(ra, 'a', rb, tag2)
            got, back = ea == eb, eb == ea
            ctx.ev('pair')
            what = '%s == %s of the %s copy' % (obs.where(ra), obs.where(rb), kind)
            ctx.check(got is want, '%s is %r, values %s, %s; offsets %d, %d; sizes %d, %d', what, got, short(ra.value),
                      short(rb.value), ra.off, rb.off, ra.size, rb.size)
            ctx.check(back is want, '%s is not symmetric', what)
            ctx.check((ea != eb) is (not want) and (eb != ea) is (not want), '%s: != is not the opposite', what)
            if 'unknown' in (ra.kind, rb.kind):
                ctx.ev('unknown pair')
                if want:
                    ctx.ev('unknown equal')
            if kind == 'retyped' and ra.id == rb.id and ra.off == rb.off and ra.kind != rb.kind:
                ctx.ev('retyped')
            if want:
                ctx.ev('equal')
                if ra.kind not in VALUED and ra.kind != 'unknown' and ra.raw != rb.raw:
                    ctx.ev('equal by position only')
                if ra.kind in ('bin', 'void', 'master'):
                    ctx.ev('equal by position only')
            elif ra.kind in VALUED and ra.id == rb.id and (ra.off, ra.size) == (rb.off, rb.size) and tag2 == 'a':
                ctx.ev('differs in value only')
        ctx.check(nan(ra) or ea == ea and not ea != ea, '%s is not equal to itself', obs.where(ra))
    foreign(ctx, rng, A + B, doc)
    # documents: lists with an offset, a size and a schema
    same_doc = len(data) == len(data2) and tag2 == 'a'
    ctx.check((doc == doc2) is same_doc and (doc2 == doc) is same_doc and (doc != doc2) is not same_doc,
              'documents of %d and %d bytes (%s): == is %r', len(data), len(data2), kind, doc == doc2)
    ctx.ev('document pair')


class Odd:
    """ Looks a bit like an element. """
    id = 0x81
    name = 'UnknownElement'


class Mirror:
    """ Decides equality itself. """
    def __eq__(self, other):
        return True


def foreign(ctx, rng, els, doc):
    things = [None, 0, 1.5, '', 'EBML', b'', bytearray(), [], (), {}, object(), doc.schema, doc.stream, core.Element,
              core.MasterElement, Odd(), Odd, type, NotImplemented, float('nan')]
    for e, r in rng.sample(els, min(8, len(els))):
        for t in things + [doc, type(e), r.value if r.kind != 'master' else []]:
            try:
                res = (e == t, t == e, e != t, t != e)
            except Exception as ex:
                ctx.fail('%s == %s raised %s: %s' % (obs.where(r), short(t), type(ex).__name__, ex))
            ctx.check(res == (False, False, True, True), '%s and %s: ==, reflected, !=, reflected are %r', obs.where(r), short(t), res)
            ctx.ev('foreign')
    for t in things:
        s = doc.schema
        if t is s:
            continue
        try:
            res = (s == t, t == s, s != t, doc == t, t == doc)
        except Exception as ex:
            ctx.fail('schema or document == %s raised %s: %s' % (short(t), type(ex).__name__, ex))
        ctx.check(res == (False, False, True, False, False), 'schema or document and %s: %r', short(t), res)


def reorder(rng, xml):
    """ The same definitions in another order. """
    from xml.etree import ElementTree as ET
    x = ET.fromstring(xml)
    seen = [(e.get('name'), e.get('id')) for e in x.iter() if e is not x]
    if len(set(seen)) != len(seen):
        return xml          # repeated ones depend on the order
    for e in list(x.iter()):
        kids = list(e)
        rng.shuffle(kids)
        e[:] = kids
    return ET.tostring(x, encoding='unicode')


def schemata(ctx, rng, i):
    models = [gen.gen_schema(rng, max_masters=2) for _ in range(2)]
    texts = []      # (text, class)
    for k, m in enumerate(models):
        base = core.Schema(io.StringIO(m.xml))
        texts += [(m.xml, k), (m.xml, k)]
        r = reorder(rng, m.xml)
        try:
            core.Schema(io.StringIO(r))
        except Exception:
            r = m.xml       # abbreviated definitions came first
        texts.append((r, k))
        for j in range(3):
            texts.append((other_schema(rng, m), (k, j)))
    if models[0].xml == models[1].xml:
        raise Inconclusive('same schema')
    ss = [(core.Schema(io.StringIO(t), name='n%d' % n if rng.random() < .5 else None), k) for n, (t, k) in enumerate(texts)]
    defs = [defined(t) for t, _k in texts]
    for n, (a, ka) in enumerate(ss):
        for m, (b, kb) in enumerate(ss):
            want = defs[n] == defs[m]
            ctx.check((a == b) is want, 'schemata %s == %s is %r', ka, kb, a == b)
            ctx.check((a != b) is (not want), 'schemata %s != %s is %r', ka, kb, a != b)
            ctx.ev('schema pair')
            if want and n != m:
                ctx.ev('schema equal')
    # unaffected by use
    a, b = ss[0][0], ss[1][0]
    a.loads(a.encodes({}, headers=True))
    ctx.check(a == b, 'a used schema is not equal any more')
    ctx.case(tuple(t for t, _k in texts), 'schemata')


def defined(text):
    """ Attributes of all definitions, by ID. """
    from xml.etree import ElementTree as ET
    out, names = {}, {}
    for e in ET.fromstring(text).iter():
        a = dict(e.attrib)
        if e.tag in ('Schema', 'table') or not ('name' in a or 'id' in a):
            continue
        i = int(a['id'], 16) if 'id' in a else names[a['name'].strip()]
        if i not in out:
            out[i] = a
            names[a['name'].strip()] = i
    return out


SECTIONS = [Section('pairs', pairs, 1300), Section('schemata', schemata, 30)]
