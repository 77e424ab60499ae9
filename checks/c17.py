""" C17: dump() reflects the document and re-encodes to it. """
import io

from vlib import gen, obs, ref
from vlib.mon import REPO, Inconclusive, Section, short
from ebmlite import core

LEVEL = 'exploration'
RULE = """'layout': documents of hostile layout (unknown and misplaced elements, unknown sizes, repeated single elements);
the dump of the document and of every element is compared with the one of the reference tree, twice, also after the first
result was modified. 're-encode': documents that fit their schema are dumped, encoded by several entry points, and the
result is parsed independently: it must have the same dump and the same elements grouped by name. 'samples': files of the
repository. Non-trivial: at least one element. Distinct: document bytes."""
REQUIRE = {'dump': 4000, 're-encoded': 200, 'element re-encoded': 2000, 'list in dump': 200, 'header in dump': 30, 'sample': 1}


def spoil(d):
    """ Modify a dump everywhere. """
    if isinstance(d, dict):
        for v in d.values():
            spoil(v)
        d['spoilt'] = 1
        d.pop(next(iter(d)))
    elif isinstance(d, list):
        for v in d:
            spoil(v)
        d.append('spoilt')
        d.reverse()
    elif isinstance(d, bytearray):
        d += b'spoilt'


def count(ctx, d):
    ctx.ev('dump')
    if isinstance(d, dict):
        for v in d.values():
            count(ctx, v)
    elif isinstance(d, list):
        ctx.ev('list in dump')
        for v in d:
            count(ctx, v)


def layout(ctx, rng, i):
    model = gen.gen_schema(rng, multiple_p=rng.random())
    schema = obs.schema(model)
    roots = gen.gen_layout(rng, model, controls=.15, big=False, budget=rng.choice([8, 25, 60]), huge=.06)
    data = gen.to_bytes(roots)
    refs = ref.parse(data, model)
    h = rng.random() < .5
    show = refs if h or not refs or refs[0].name != 'EBML' else refs[1:]
    doc = schema.load(io.BytesIO(data), headers=h)
    want = obs.dump_of(show)
    d = doc.dump()
    ctx.check(obs.same_dump(d, want), 'dump of the document is %s, expected %s', short(d, 1500), short(want, 1500))
    if h and refs and refs[0].name == 'EBML':
        ctx.ev('header in dump')
    count(ctx, d)
    if rng.random() < .5:
        spoil(d)
    d2 = doc.dump()
    ctx.check(obs.same_dump(d2, want), 'the second dump is %s, expected %s', short(d2, 1500), short(want, 1500))

    def each(els, rs):
        for e, r in zip(els, rs):
            if rng.random() < .5:
                list(e) if r.children is not None else e.value
            v = e.dump()
            w = r.value if r.children is None else obs.dump_of([r])[r.name] if r.d is None else obs.dump_of(r.children)
            ctx.check(obs.same_dump(v, w), '%s: dump is %s, expected %s', obs.where(r), short(v, 800), short(w, 800))
            ctx.ev('dump')
            if r.children is not None:
                each(list(e), r.children)
                ctx.check(obs.same_dump(e.dump(), w), '%s: dumps differently later', obs.where(r))
    each(list(doc), show)
    ctx.case(data, ' '.join(n.text() for n in roots)[:400])


def singles(nodes):
    """ Keep only the first of single-occurrence elements. """
    out, seen = [], set()
    for n in nodes:
        if n.d is None or not n.d.multiple and n.id in seen:
            continue
        seen.add(n.id)
        if n.children is not None:
            n.children = singles(n.children)
        out.append(n)
    return out


def grouped(els):
    out = {}
    for e in els:
        out.setdefault(e.id, []).append(e)
    return [e for g in out.values() for e in g]


def same(ctx, got, want, what):
    want = grouped(want)
    ctx.eq([g.id for g in got], [w.id for w in want], what + ': IDs')
    for g, w in zip(got, want):
        ctx.ev('element re-encoded')
        if w.children is not None:
            same(ctx, g.children, w.children, obs.where(w))
        elif w.kind != 'void':
            ctx.check(g.bad is None and ref.same_value(g.value, w.value), '%s: value %s, was %s', obs.where(w), short(g.value), short(w.value))


def reencode(ctx, rng, i):
    model = gen.gen_schema(rng, length_p=0, multiple_p=rng.random())
    schema = obs.schema(model)
    if rng.random() < .5:
        roots = gen.gen_layout(rng, model, big=rng.random() < .1, budget=rng.choice([8, 25, 60]), unknown=False, huge=.06)
        for r in roots:
            for n in r.walk():
                if n.children is None and n.kind == 'float' and n.value == 0.0:
                    n.payload, n.value = b'', 0.0       # -0.0: a documented limit
        roots = gen.settle(rng, singles(roots), model)
    else:
        roots = gen.gen_tree(rng, model, big=rng.random() < .1)
    data = gen.to_bytes(roots)
    refs = ref.parse(data, model)
    d = schema.load(io.BytesIO(data), headers=True).dump()
    keep = repr(d)
    how = rng.choice(['encodes', 'encode', 'document', 'list', 'items', 'elements'])
    out = io.BytesIO()
    if how == 'encodes':
        out.write(schema.encodes(d))
    elif how == 'encode':
        schema.encode(out, d, headers=False)
    elif how == 'document':
        schema.document.encode(out, d)
    elif how == 'list':
        schema.encode(out, [{k: v} for k, v in d.items()])
    elif how == 'items':
        schema.encode(out, list(d.items()))
    else:
        for k, v in d.items():
            out.write(schema[k].encode(v))
    ctx.check(repr(d) == keep, 'encoding changed the data')
    new = out.getvalue()
    got = ref.parse(new, model)
    same(ctx, got, refs, 're-encoded document')
    d2 = schema.load(io.BytesIO(new), headers=True).dump()
    ctx.check(obs.same_dump(d2, obs.dump_of(refs)), 'dump of the re-encoded document is %s, was %s', short(d2, 1500), short(d, 1500))
    ctx.ev('re-encoded')
    ctx.case(data, how + ': ' + ' '.join(n.text() for n in roots)[:400])


def samples(ctx, rng, i):
    p = REPO / 'tests' / 'SSX46714-doesnot.IDE'
    if not p.exists():
        raise Inconclusive('sample file missing')
    sp = REPO / 'ebmlite' / 'schemata' / 'mide_ide.xml'
    model, schema = ref.read_schema(str(sp)), core.loadSchema(str(sp))
    data = p.read_bytes()
    refs = ref.parse(data, model)
    d = schema.load(str(p), headers=True).dump()
    ctx.check(obs.same_dump(d, obs.dump_of(refs)), 'dump of the sample differs from the reference')
    ctx.ev('sample')
    ctx.case(data, p.name)


SECTIONS = [Section('layout', layout, 500, 2400), Section('re-encode', reencode, 750, 3600), Section('samples', samples, 1, 1)]
