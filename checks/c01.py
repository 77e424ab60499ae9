""" C01: what is encoded is what is read back. """
import io
import os

from vlib import gen, obs, ref
from vlib.mon import Section, REPO
from ebmlite import core

LEVEL = 'exploration'
RULE = """A case is a random schema (or a bundled one), a random tree of values for it and a
random spelling of that tree as API data (dicts, tuple lists, lists of dicts, lists of values, names or
IDs); it is encoded by one of the entry points, the bytes are compared with an independent encoder and
then read back with ebmlite. Non-trivial: at least one element was written. Distinct: different bytes."""
REQUIRE = {'element': 200, 'value': 200, 'bytes compared': 50, 'refused': 20, 'infinite': 5, 'several masters': 20}

BUNDLED = ['matroska.xml', 'mide_ide.xml', 'mide_config_ui.xml', 'mide_manifest.xml']
_models = {}


def bundled(name):
    if name not in _models:
        p = REPO / 'ebmlite' / 'schemata' / name
        _models[name] = (ref.read_schema(str(p)), core.loadSchema(str(p)))
    return _models[name]


def encode_any(rng, schema, data, headers=False):
    how = rng.randrange(4)
    if how == 0:
        return schema.encodes(data, headers=headers)
    out = io.BytesIO()
    pre = b''
    if how == 3:
        pre = b'prefix'
        out.write(pre)
    if how == 1:
        schema.document.encode(out, data, headers=headers)
    else:
        r = schema.encode(out, data, headers=headers)
    b = out.getvalue()
    if not b.startswith(pre):
        raise AssertionError('encode() did not append to the stream')
    return b[len(pre):]


def compare(ctx, schema, model, out, order, what):
    want = gen.to_bytes(order)
    ctx.ev('bytes compared')
    els = ref.parse(out, model)
    ctx.check(ref.tree_equals(els, order), '%s: an independent parser reads %s, encoded were %s', what,
              [e.name for e in els], [n.text() for n in order])
    ctx.check(bytes(out) == want, '%s: encoded as %s, expected %s (%s)', what, out.hex()[:400],
              want.hex()[:400], [n.text() for n in order])
    doc = schema.load(io.BytesIO(out), headers=True)
    obs.check_list(ctx, list(doc), els, what)


def random_doc(ctx, rng, i):
    model = gen.gen_schema(rng, length_p=rng.choice([0, .3]))
    schema = obs.schema(model)
    for _ in range(3):
        tree = gen.gen_tree(rng, model, big=rng.random() < .3)
        data, order = gen.api_data(rng, tree, root=True)
        ctx.case(gen.to_bytes(order), [n.text() for n in order], bool(order))
        ctx.note('data=%r schema=%s' % (data, model.xml))
        compare(ctx, schema, model, encode_any(rng, schema, data), order, 'document')


def bundled_doc(ctx, rng, i):
    model, schema = bundled(BUNDLED[i % len(BUNDLED)])
    tree = gen.gen_tree(rng, model, big=False, budget=80)
    data, order = gen.api_data(rng, tree, root=True)
    ctx.case(gen.to_bytes(order), [n.text() for n in order][:5], bool(order))
    ctx.note('data=%r' % (data,))
    compare(ctx, schema, model, encode_any(rng, schema, data), order, BUNDLED[i % len(BUNDLED)])


def headers(ctx, rng, i):
    """ headers=True puts the schema's default header before the data. """
    model = gen.gen_schema(rng, header=True)
    schema = obs.schema(model)
    tree = gen.gen_tree(rng, model, big=False)
    data, order = gen.api_data(rng, tree, root=True)
    kids = []
    for n, k in (('EBMLVersion', 'uint'), ('EBMLReadVersion', 'uint'), ('DocType', 'str'),
                 ('DocTypeVersion', 'uint'), ('DocTypeReadVersion', 'uint')):
        d = model.byName[n]
        if 'default' in d.attribs:
            v = d.attribs['default']
            v = int(v) if k == 'uint' else v
            kids.append(ref.Node(d, payload=gen.encoded_payload(d, v), value=v))
    order = [ref.Node(model.byName['EBML'], children=kids)] + order
    ctx.case(gen.to_bytes(order), [n.text() for n in order])
    ctx.ev('header')
    compare(ctx, schema, model, encode_any(rng, schema, data, True), order, 'document with header')


def element(ctx, rng, i):
    """ Element classes' own encode(), with explicit widths. """
    model = gen.gen_schema(rng, length_p=.3, all_kinds=True)
    schema = obs.schema(model)
    for _ in range(12):
        d = rng.choice(list(model.byId.values()))
        cls = schema[d.name]
        ls = rng.choice([None, None] + list(range(1, 9)))
        if d.kind == 'master':
            inf = rng.random() < .5
            sub = gen.gen_tree(rng, model, big=rng.random() < .2, of=d if inf else None)
            data, order = gen.api_data(rng, sub)
            node = ref.Node(d, children=order, sw=ls, unk=inf)
            if inf:
                ok = all(model.valid_child(d, n.id) for n in order)
                if not ok:
                    continue
                ctx.ev('infinite')
            nodes = [node]
            if (d.multiple and isinstance(data, (dict, list)) and (data or isinstance(data, dict)) and rng.random() < .5
                    and not (inf and model.valid_child(d, d.id))):
                # Several in one call: a list of dictionaries, or of lists of pairs
                form = 'dict' if isinstance(data, dict) else 'tuples'
                data = [data]
                for _ in range(rng.randint(0, 3)):
                    more, o = gen.api_data(rng, gen.gen_tree(rng, model, big=False, budget=5, of=d if inf else None), [form])
                    if type(more) is not type(data[0]) or (form == 'tuples' and not more) or (
                            inf and not all(model.valid_child(d, n.id) for n in o)):
                        continue
                    data.append(more)
                    nodes.append(ref.Node(d, children=o, sw=ls, unk=inf))
                ctx.ev('several masters')
                if len(nodes) > 1 and inf:
                    ctx.ev('several infinite masters')
            big = max((len(n.body()) for n in nodes), default=0)
            if not inf and ls is not None and big > ref.vint_max(ls):
                ctx.raises('%s: a payload of %d bytes with a %d byte size' % (d, big, ls),
                           cls.encode, data, lengthSize=ls)
                ctx.ev('refused')
                continue
            out = cls.encode(data, lengthSize=ls, infinite=inf)
        else:
            dd = ref.Def(d.id, d.name, d.kind, d.multiple)
            kw = {}
            if rng.random() < .5 and d.ekind != 'void' and d.kind != 'date':
                dd.length = kw['length'] = {'float': rng.choice([4, 8])}.get(d.kind, rng.randint(1, 8))
            elif d.ekind in ('bin', 'str', 'utf8') and rng.random() < .4:
                # An explicit length overrides the declared one, 0 included
                dd.length = kw['length'] = rng.choice([0, 0, rng.randint(9, 300)])
                ctx.ev('length override')
            elif d.ekind == 'void':
                dd.length = n = rng.choice([0, 1, 5, 126, 127, 128])
                kw['length'] = n
            else:
                dd.length = d.length
            vals = []
            for _ in range(rng.choice([2, 3]) if d.multiple and rng.random() < .3 else 1):
                v = gen.gen_value(rng, dd, rng.random() < .2)
                p = gen.encoded_payload(dd, v)
                if d.ekind == 'void':
                    p = b'\xff' * n
                    v = b''
                vals.append((v, ref.Node(d, payload=p, value=None, sw=ls)))
            many = len(vals) > 1 or (d.multiple and rng.random() < .2)
            data = [v for v, _n in vals] if many else vals[0][0]
            nodes = [n for _v, n in vals]
            if ls is not None and any(len(n.payload) > ref.vint_max(ls) for n in nodes):
                ctx.raises('%s: oversized payload with a %d byte size' % (d, ls), cls.encode, data,
                           lengthSize=ls, **kw)
                ctx.ev('refused')
                continue
            ctx.note('%s.encode(%r, lengthSize=%r, %r)' % (d, data, ls, kw))
            out = cls.encode(data, lengthSize=ls, **kw)
        ctx.case(bytes(out), '%s %s' % (d, bytes(out).hex()[:80]))
        compare(ctx, schema, model, bytes(out), nodes, '%s.encode()' % d.name)


def sizes(ctx, rng, i):
    """ Masters and leaves with payload sizes around every size-field boundary. """
    model = gen.gen_schema(rng, length_p=0, all_kinds=True, header=False)
    schema = obs.schema(model)
    top = next(d for d in model.byId.values() if d.kind == 'master' and
               any(model.byId[c].ekind == 'bin' for c in d.children))
    b = next(model.byId[c] for c in sorted(top.children) if model.byId[c].ekind == 'bin')
    base = rng.choice([127, 127, 16383, 16383] + ([2097151] if i % 4 == 0 else []))
    size = base + rng.choice([-2, -1, 0, 1])
    n = size - len(ref.enc_id(b.id)) - 1
    while len(ref.Node(b, payload=bytes(n)).bytes()) > size:
        n -= 1
    pay = gen.gen_bin(rng, n)
    nodes = [ref.Node(b, payload=pay, value=bytearray(pay))]
    data = {b.name: pay}
    depth = rng.randint(1, 4)
    for _ in range(depth):
        nodes = [ref.Node(top, children=nodes)]
        data = {top.name: data}
    leaf = gen.gen_bin(rng, size)
    nodes.append(ref.Node(b, payload=leaf, value=bytearray(leaf)))
    data = list(data.items()) + [(b.name, leaf)]
    ctx.case((size, depth, model.xml), 'payload sizes around %d, depth %d' % (size, depth))
    ctx.ev('boundary size')
    compare(ctx, schema, model, encode_any(rng, schema, data), nodes, 'size %d' % size)


def many(ctx, rng, i):
    """ Hundreds of children, deep nesting. """
    model = gen.gen_schema(rng, length_p=0, all_kinds=True, header=False)
    schema = obs.schema(model)
    top = next(d for d in model.byId.values() if d.kind == 'master' and
               sum(model.byId[c].ekind in gen.LEAVES and model.byId[c].multiple for c in d.children) > 3)
    kids = [model.byId[c] for c in sorted(top.children)
            if model.byId[c].ekind in gen.LEAVES and model.byId[c].multiple]
    nodes = []
    for _ in range(rng.choice([130, 300, 700])):
        d = rng.choice(kids)
        v = gen.gen_value(rng, d, False)
        nodes.append(ref.Node(d, payload=gen.encoded_payload(d, v),
                              value=bytearray(v) if d.kind == 'bin' else v))
    data, order = gen.api_data(rng, nodes)
    root = [ref.Node(top, children=order)]
    depth = rng.choice([0, 1, 20, 60])
    for _ in range(depth):
        data = {top.name: data}
        root = [ref.Node(top, children=root)]
    ctx.case(gen.to_bytes(root), '%d children at depth %d' % (len(nodes), depth + 1))
    compare(ctx, schema, model, encode_any(rng, schema, {top.name: data}), root, 'many')


def refusals(ctx, rng, i):
    """ Data that does not fit the schema is refused, not mangled. """
    model = gen.gen_schema(rng, header=True, all_kinds=True, multiple_p=.5)
    schema = obs.schema(model)
    tree = gen.gen_tree(rng, model, big=False)
    any_ = rng.choice(list(model.byId.values()))
    bad = rng.choice(['NoSuchElement%d' % rng.randrange(100), any_.name.swapcase(), any_.name.upper(), any_.name + ' ', any_.name[:-1],
                      '0x%X' % any_.id, str(any_.id), any_.name.encode(), any_.id << 8, -any_.id, None, float(any_.id) + .5])
    if bad in model.byName or bad in model.byId:
        bad = 'NoSuchElement'
    ctx.case((model.xml, i), 'refusals with %d definitions' % len(model.byId))
    ctx.raises('unknown element name', schema.encodes, {bad: 1})
    ctx.raises('unknown element name in a list', schema.encodes, [(bad, 1)])
    m = next(d for d in model.byId.values() if d.kind == 'master')
    ctx.raises('unknown nested name', schema.encodes, {m.name: {bad: 1}})
    ctx.raises('number as master', schema.encodes, {m.name: rng.choice([5, 'text', 1.5, b'x'])})
    ctx.ev('refused', 4)
    for d in model.byId.values():
        if not d.multiple and d.kind != 'master':
            v = gen.gen_value(rng, d, False)
            ctx.raises('several %s' % d, schema.encodes, {d.name: [v, v]})
            ctx.ev('refused')
        if not d.multiple and d.kind == 'master':
            ctx.raises('several %s' % d, schema.encodes, {d.name: [{}, {}]})
            ctx.raises('several %s' % d, schema.encodes, {d.name: [[], []]})
            kids = [model.byId[c] for c in sorted(d.children) if c in model.byId and model.byId[c].kind != 'master']
            for k in kids[:2]:
                # lists of pairs
                v = [(k.name, gen.gen_value(rng, k, False))]
                ctx.raises('several %s' % d, schema.encodes, {d.name: [v, v]})
                ctx.raises('several %s' % d, schema[d.name].encode, [v, v])
                ctx.raises('several %s' % d, schema[d.name].encode, [dict(v), dict(v)])
            ctx.ev('refused', 2)
        if d.kind != 'master':
            ctx.raises('infinite %s' % d, schema[d.name].encode, gen.gen_value(rng, d, False), infinite=True)
            ctx.ev('refused')
        wrong = {'int': ['5', b'5', None, {}], 'uint': ['5', b'5', None, -1, -(1 << 40), {}],
                 'str': [5, None, 1.5, {}], 'utf8': [5, None, 1.5, {}], 'date': [5, 'now', 1.5, {}],
                 'bin': [5, 1.5, {}], 'float': ['x', b'1', {}]}.get(d.kind, [])
        for w in wrong if d.ekind != 'void' else []:
            ctx.raises('%r for %s' % (w, d), schema.encodes, {d.name: w})
            ctx.ev('refused')
        if d.length and d.kind in ('int', 'uint') and d.length < 8:
            ctx.raises('too wide integer for %s' % d, schema.encodes,
                       {d.name: 1 << (8 * d.length)})
            ctx.ev('refused')
        if d.length is not None and d.kind == 'bin' and not d.is_void:
            ctx.raises('too long binary for %s' % d, schema.encodes, {d.name: bytes(d.length + 1)})
            ctx.ev('refused')
    ctx.raises('several documents', schema.encodes, [[(m.name, {})], [(m.name, {})]])


SECTIONS = [Section('random', random_doc, 800, 4800), Section('bundled', bundled_doc, 300, 1800),
            Section('headers', headers, 200, 1200), Section('element', element, 300, 1800),
            Section('sizes', sizes, 120, 720), Section('many', many, 50, 300),
            Section('refusals', refusals, 160, 960)]
