""" C28: the bundled schemata keep the formats they stand for. """
import io

from vlib import gen, obs, ref
from vlib.mon import REPO, VERIF, Section, short
from vlib.ref import Node
from ebmlite import core, util

LEVEL = 'exploration'
RULE = """'elements': for every element of every bundled schema and every place it may occur, documents holding it there (parents
of known and unknown size) are read, written, exported and imported with the schema as loaded by name, and judged with the
formats as recorded in golden/ (IDs, types, places, multiplicity). 'standard': EBML header and Matroska elements against a table written
from RFC 8794 and RFC 9559. 'random': whole documents. 'headers': default headers. 'samples': the sample files.
Distinct: document bytes."""
REQUIRE = {'element class': 500, 'element in place': 900, 'standard element': 150, 'random document': 60, 'encoded': 400, 'default header': 4,
           'sample': 5, 'round trip': 100}
NAMES = ['matroska', 'mide_ide', 'mide_config_ui', 'mide_manifest']

# From RFC 8794 and RFC 9559 (and, for elements dropped there, the specification before it): ID, type
STANDARD = {
    'uint': '4286 42F7 42F2 42F3 4287 4285 83 88 89 91 92 96 97 98 9A 9C 9F A7 AA AB B0 B3 B9 BA C0 C6 C7 D7 E5 E6 E7 EA EB ED '
            'F1 F7 4254 4484 4598 45BC 45BD 45DB 45DD 4661 4662 46AE 47E1 47E5 47E6 5031 5032 5033 535F 5378 53AC 53B8 53B9 54AA '
            '54B0 54B2 54B3 54BA 54BB 54CC 54DD 55AA 55EE 56AA 58D7 6264 63C3 63C4 63C5 63C6 63C9 66BF 66FC 68CA 6922 6955 69BF '
            '69FC 6DE7 6DF8 6FAB 73C4 73C5 7446 23E383 2AD7B1',
    'int': '537F',
    'float': 'B5 4489 78B5 23314F 2383E3 2FB523',
    'str': '4282 86 447A 4660 63CA 22B59C 26B240 3B4040',
    'utf8': '4487 45A3 466E 467E 4D80 536E 5741 7384 7BA9 258688 3A9697 3C83AB 3E83BB',
    'date': '4461',
    'bin': 'A3 AF BF C1 C4 4255 4444 4485 450D 465C 4675 47E2 47E3 47E4 53AB 63A2 66A5 6933 69A5 6E67 6EBC 73A4 2EB524 3CB923 3EB923',
    'void': 'EC',
    'master': '1A45DFA3 80 8F A0 AE B6 B7 BB DB E0 E1 E2 E3 E4 E9 45B9 4DBB 5034 5035 61A7 6240 63C0 67C8 6624 6911 6924 6944 6D80 7373 '
              '1043A770 114D9B74 1254C367 1549A966 1654AE6B 18538067 1941A469 1C53BB6B 1F43B675',
}
# parent: children (in the specification and in this schema)
PLACES = {
    '': '1A45DFA3 18538067',
    '1A45DFA3': '4286 42F7 42F2 42F3 4282 4287 4285',
    '18538067': '114D9B74 1549A966 1F43B675 1654AE6B 1C53BB6B 1941A469 1043A770 1254C367',
    '114D9B74': '4DBB', '4DBB': '53AB 53AC',
    '1549A966': '73A4 7384 3CB923 3C83AB 3EB923 3E83BB 4444 6924 2AD7B1 4489 4461 7BA9 4D80 5741',
    '1F43B675': 'E7 A7 AB A3 A0', '1654AE6B': 'AE',
    'AE': 'D7 73C5 83 B9 88 55AA 9C 6DE7 6DF8 23E383 23314F 536E 22B59C 86 63A2 258688 7446 AA 6FAB E0 E1 E2 6D80',
    'E0': '9A 53B8 B0 BA 54AA 54BB 54CC 54DD 54B0 54BA 54B2 2EB524', 'E1': 'B5 78B5 9F 6264',
    '6D80': '6240', '6240': '5031 5032 5033 5034 5035', '5034': '4254 4255', '5035': '47E1 47E2',
    '1C53BB6B': 'BB', 'BB': 'B3 B7', 'B7': 'F7 F1 5378', '1941A469': '61A7', '61A7': '467E 466E 4660 465C 46AE',
    '1043A770': '45B9', '45B9': '45BC 45BD 45DB 45DD B6', 'B6': '73C4 91 92 98 4598 8F 80',
    '1254C367': '7373', '7373': '63C0 67C8', '63C0': '68CA 63CA 63C5 63C9 63C4 63C6', '67C8': '45A3 447A 4484 4487 4485',
}
GLOBAL = ['EC', 'BF']
_m = {}


def golden(name):
    if name not in _m:
        m = ref.read_schema(str(VERIF / 'golden' / (name + '.xml')))
        m.header = True
        _m[name] = m
    return _m[name]


def loaded(rng, name):
    """ The schema, by one of its names. """
    return core.loadSchema(rng.choice([name + '.xml', str(REPO / 'ebmlite' / 'schemata' / (name + '.xml')), '{ebmlite.schemata}/%s.xml' % name]))


def judge(ctx, rng, schema, m, nodes, what, write=True):
    """ Read these elements, and write them. """
    data = gen.to_bytes(nodes)
    refs = ref.parse(data, m)
    ctx.case(data, '%s: %s' % (what, ' '.join(n.text() for n in nodes)[:300]))
    doc = schema.load(io.BytesIO(data), headers=True)
    obs.check_list(ctx, list(doc), refs, what)
    got = doc.dump()
    want = obs.dump_of(refs)
    ctx.check(obs.same_dump(got, want), '%s: dump() is %s, expected %s', what, short(got, 500), short(want, 500))
    if not write:
        return
    xml = util.toXml(doc)
    names = [n.tag for n in xml.iter()][1:]
    flat = [r.name for q in refs for r in q.walk()]
    ctx.check(names == flat, '%s: exported as %s, expected %s', what, names, flat)
    if any(r.kind == 'void' for q in refs for r in q.walk()):
        return
    out = io.BytesIO()
    util.xml2ebml(xml, out, schema, headers=False)
    back = ref.parse(out.getvalue(), m)

    def flatten(els):
        return [(r.id, r.value if r.children is None else flatten(r.children)) for r in els]
    ctx.check(repr(flatten(back)) == repr(flatten(refs)), '%s: imported as %s, expected %s', what, short(flatten(back), 500), short(flatten(refs), 500))
    ctx.ev('round trip')


def xml_safe(rng, d):
    """ A leaf whose value XML can hold. """
    n = gen.layout_leaf(rng, d, False)
    if d.kind in ('str', 'utf8'):
        v = ''.join(rng.choice('abc XYZ-09') for _ in range(rng.choice([0, 1, 5, 30]))).strip()
        n = Node(d, payload=v.encode(), value=v, sw=n.sw)
    if d.kind in ('float', 'date', 'int', 'uint'):
        v = {'float': 1.5, 'date': ref.EPOCH.replace(year=2012), 'int': -70000, 'uint': 70000}[d.kind]
        n = Node(d, payload=gen.encoded_payload(ref.Def(d.id, d.name, d.kind), v), value=v, sw=n.sw)
    return n


def chain(m, d, host, seen=()):
    """ Definitions from a root to the given host. """
    if host is None:
        return []
    if host.id in m.roots:
        return [host]
    for p in m.byId.values():
        if p.kind == 'master' and host.id in p.children and p.id not in seen:
            c = chain(m, d, p, seen + (p.id,))
            if c is not None:
                return c + [host]
    return None


def elements(ctx, rng, i):
    name = NAMES[i % len(NAMES)]
    m, schema = golden(name), loaded(rng, name)
    for d in m.byId.values():
        c = schema.elements.get(d.id)
        ctx.check(c is not None and schema.elementsByName.get(d.name) is c, '%s: no element %s with ID 0x%X', name, d.name, d.id)
        ctx.eq((c.name, c.id, bool(c.multiple), bool(c.mandatory)), (d.name, d.id, d.multiple, d.mandatory), name)
        ctx.eq(c.length, d.length, d.name + ': length') if not d.is_void else None
        ctx.ev('element class')
        hosts = ([None] if d.id in m.roots else []) + [p for p in m.byId.values() if p.kind == 'master' and d.id in p.children]
        if d.id in m.globals:
            hosts += rng.sample([p for p in m.byId.values() if p.kind == 'master' and p.id not in m.globals], 2)
        for host in hosts if len(hosts) < 5 else rng.sample(hosts, 5):
            path = chain(m, d, host)
            if path is None:
                continue
            for _ in range(1 if i < 8 else 2):
                many = rng.choice([1, 2, 3]) if d.multiple else 1
                inner = [Node(d, children=[]) if d.kind == 'master' else xml_safe(rng, d) for _ in range(many)]
                for p in reversed(path):
                    inner = [Node(p, children=inner, unk=rng.random() < .3)]
                inner = gen.settle(rng, inner, m)
                judge(ctx, rng, schema, m, inner, '%s: %s in %s' % (name, d.name, [p.name for p in path]))
                ctx.ev('element in place')
            if d.kind != 'master' and not d.is_void:
                v = gen.gen_value(rng, d, False)
                given = {d.name: [v, v] if d.multiple else v}
                want = Node(d, payload=gen.encoded_payload(d, v)).bytes() * (2 if d.multiple else 1)
                if path:
                    given = {path[-1].name: given}
                    want = Node(path[-1], children=[Node(d, payload=gen.encoded_payload(d, v))] * (2 if d.multiple else 1)).bytes()
                ctx.eq(bytes(schema.encodes(given)), want, '%s: encoding of %s' % (name, short(given)))
                ctx.ev('encoded')
        if not d.multiple:
            v = {} if d.kind == 'master' else gen.gen_value(rng, d, False)
            if not d.is_void:
                ctx.raises('several %s' % d.name, schema.encodes, {d.name: [v, v]})


def standard(ctx, rng, i):
    """ Against the specifications. """
    for name in NAMES:
        schema = core.loadSchema(name + '.xml')
        ids = {int(x, 16): k for k, xs in STANDARD.items() for x in xs.split()}
        head = [int(x, 16) for x in PLACES['1A45DFA3'].split()] + [0x1A45DFA3] + [int(g, 16) for g in GLOBAL]
        for eid, kind in ids.items():
            if name != 'matroska' and eid not in head:
                continue
            c = schema.elements.get(eid)
            ctx.check(c is not None, '%s: no element 0x%X', name, eid)
            ctx.eq(obs.kind_of(c(io.BytesIO(b''), 0, 0, 0)), kind, '%s: type of 0x%X (%s)' % (name, eid, c.name))
            ctx.ev('standard element')
        for parent, kids in PLACES.items():
            p = int(parent, 16) if parent else None
            if name != 'matroska' and p not in (None, 0x1A45DFA3):
                continue
            have = schema.children if p is None else schema.elements[p].children
            for k in kids.split():
                if name != 'matroska' and int(k, 16) not in head:
                    continue
                ctx.check(int(k, 16) in have, '%s: 0x%s may not occur in %s', name, k, parent or 'a document')
        for g in GLOBAL:
            ctx.check(int(g, 16) in schema.globals, '%s: 0x%s is not global', name, g)
        for n, eid in (('EBML', 0x1A45DFA3), ('EBMLVersion', 0x4286), ('EBMLReadVersion', 0x42F7), ('EBMLMaxIDLength', 0x42F2),
                       ('EBMLMaxSizeLength', 0x42F3), ('DocType', 0x4282), ('DocTypeVersion', 0x4287), ('DocTypeReadVersion', 0x4285),
                       ('Void', 0xEC), ('CRC-32', 0xBF)):
            ctx.eq(schema[n].id, eid, '%s: ID of %s' % (name, n))
        ctx.case(name, '%s against the specification' % name)


def random_docs(ctx, rng, i):
    name = NAMES[i % len(NAMES)]
    m, schema = golden(name), loaded(rng, name)
    roots = gen.gen_layout(rng, m, big=False, budget=rng.choice([20, 60]), unknown=False, wild=0, n_roots=rng.choice([1, 2, 4]))
    judge(ctx, rng, schema, m, roots, name, write=False)
    data, order = gen.api_data(rng, gen.gen_tree(rng, m, big=False), root=True)
    ctx.eq(bytes(schema.encodes(data)), b''.join(n.bytes() for n in order), name + ': encodes()')
    ctx.ev('encoded')
    ctx.ev('random document')


def headers(ctx, rng, i):
    for name in NAMES:
        m, schema = golden(name), loaded(rng, name)
        h = m.byName['EBML']
        kids = [m.byId[k] for k in sorted(h.children)]
        want = {k.name: (k.attribs['default'] if k.kind == 'str' else int(k.attribs['default'])) for k in kids if k.attribs.get('default')}
        doc = schema.load(io.BytesIO(schema.encodes({}, headers=True)))
        ctx.check({'EBMLVersion', 'EBMLReadVersion', 'DocType', 'DocTypeVersion', 'DocTypeReadVersion'} <= set(doc.info)
                  and doc.info.items() <= want.items(), '%s: default header is %s, expected %s', name, doc.info, want)
        ctx.eq((doc.type, doc.version), (want.get('DocType'), want.get('DocTypeVersion')), name + ': type and version')
        ctx.eq((schema.type, schema.version), (want.get('DocType'), want.get('DocTypeVersion')), name + ': type and version of the schema')
        ctx.ev('default header')
        ctx.case(name, name)


SAMPLES = [('video-1.mkv', 'matroska'), ('video-2.mkv', 'matroska'), ('video-3.mkv', 'matroska'), ('video-4.ebml', 'matroska'),
           ('SSX46714-doesnot.IDE', 'mide_ide')]


def samples(ctx, rng, i):
    fn, name = SAMPLES[i]
    m, schema = golden(name), loaded(rng, name)
    data = (REPO / 'tests' / fn).read_bytes()
    data = data[:1 << 20] if fn.endswith('mkv') else data
    if len(data) == 1 << 20:
        # Only whole root-level children fit: read what precedes the cut
        doc = schema.load(io.BytesIO(data), headers=True)
        n = 0
        for e in doc:
            for k, c in enumerate(e):
                if c.offset + c.size > len(data) or k > 60:
                    break
                r = ref._parse_el(data, m, c.offset)
                obs.check_el(ctx, c, r)
                n += 1
        ctx.check(n > 3, '%s: only %d elements', fn, n)
    else:
        obs.check_list(ctx, list(schema.load(io.BytesIO(data), headers=True)), ref.parse(data, m), fn)
    ctx.ev('sample')
    ctx.case(fn, fn)


SECTIONS = [Section('elements', elements, 12, 80), Section('standard', standard, 1, 1), Section('random', random_docs, 200, 960),
            Section('headers', headers, 2, 10), Section('samples', samples, 5, 5)]
