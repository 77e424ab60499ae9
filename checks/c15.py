""" C15: a schema contains exactly what its XML defines, or is refused. """
import copy
import io
import os
import re
from pathlib import Path
from xml.etree import ElementTree as ET

from vlib import gen, obs, ref
from vlib.mon import REPO, Section, short
from ebmlite import core, util

LEVEL = 'exploration'
RULE = """'generated': random schema XML (both formats; shared, recursive, global, abbreviated repeated definitions, nested
additions, foreign nodes, comments, spellings of flags) loaded by every route and compared attribute by attribute with an
independent schema reader. 'bundled': the schemata of the package. 'refused': one systematic corruption of a valid schema
each, which must raise. 'independent': several schemata with clashing IDs and names, each unchanged by the others.
Non-trivial: at least one element definition. Distinct: schema text."""
REQUIRE = {'element class': 5000, 'repeated definition': 200, 'refused': 400, 'route:path': 10, 'independent': 20, 'independent encoding': 60,
           'foreign node': 60, 'legacy': 15, 'bundled': 4,
           'big schema': 3}

BASES = obs.BASES
DT = {'int': 'int', 'uint': 'int', 'float': 'float', 'str': 'str', 'utf8': 'str', 'date': 'datetime', 'bin': 'bytearray',
      'void': 'bytearray', 'master': 'list'}


def compare(ctx, schema, m, name=None):
    """ The schema is exactly the model. """
    ctx.check(isinstance(repr(schema), str) and repr(schema.name)[1:-1] in repr(schema), 'repr of the schema is %r', repr(schema))
    ctx.eq(sorted(schema.elements), sorted(m.byId), 'IDs')
    ctx.eq(sorted(schema.elementsByName), sorted(m.byName), 'names')
    ctx.eq(set(schema.children), m.roots, 'root elements')
    ctx.eq(set(schema.globals), m.globals, 'global elements')
    for i, d in m.byId.items():
        c = schema.elements[i]
        ctx.ev('element class')
        w = '%s (0x%X)' % (d.name, i)
        ctx.check(schema.elementsByName[d.name] is c and schema[i] is c and schema[d.name] is c and schema.get(i) is c
                  and schema.get(d.name) is c and i in schema and d.name in schema, '%s: looked up differently', w)
        ctx.check(c.schema is schema, '%s: has another schema', w)
        ctx.eq((c.id, c.name), (d.id, d.name), w)
        el = c(io.BytesIO(b''), 0, 0, 0)
        ctx.eq(obs.kind_of(el), d.ekind, w + ': kind')
        ctx.eq(c.dtype.__name__, DT[d.ekind], w + ': dtype')
        ctx.eq((bool(c.multiple), bool(c.mandatory)), (d.multiple, d.mandatory), w + ': multiple, mandatory')
        ctx.eq(bool(c.precache), d.cached, w + ': precache')
        if not d.is_void:
            ctx.check(c.length == d.length and type(c.length) is type(d.length), '%s: length %r, expected %r', w,
                      c.length, d.length)
            ctx.eq(set(c.children or ()), d.children, w + ': children')
            ctx.eq(c.__doc__ or '', d.docs or '', w + ': documentation')
        if d.kind == 'master':
            for x in list(m.byId)[:40] + [0x3F3F3F, 0]:
                ctx.eq(bool(c._isValidChild(x)), m.valid_child(d, x), '%s: accepts child 0x%X' % (w, x)) \
                    if hasattr(c, '_isValidChild') else None
        ctx.check(dict(schema.elementInfo[i]) == dict(d.attribs), '%s: attributes %s, expected %s', w,
                  short(schema.elementInfo[i]), short(d.attribs))
    like = []
    for d in list(m.byId.values())[:12]:
        like += [d.name.swapcase(), d.name.lower(), d.name.title(), d.name + ' ', d.name[:-1], d.name + '_', d.name + 'Element',
                 '0x%X' % d.id, str(d.id), d.name.encode()]
    for k in [0x7F7F7F7F, 'No such element', None, '', -1] + [k for k in like if k not in m.byName]:
        ctx.check(k not in schema and schema.get(k) is None and schema.get(k, 5) == 5, 'contains %r', k)
        ctx.raises('schema[%r]' % (k,), lambda: schema[k])

    def default(eid, t):
        d = m.byId.get(eid)
        try:
            return t(d.attribs['default'])
        except (AttributeError, KeyError, ValueError):
            return None
    ctx.eq(schema.version, default(0x4287, int), 'version')
    ctx.eq(schema.type, default(0x4282, str), 'type')
    want = name or default(0x4282, str)
    if want:
        ctx.eq(schema.name, want, 'name')
    ctx.check(issubclass(schema.document, core.Document) and schema.document.schema is schema, 'document class')
    if re.fullmatch('[A-Za-z][A-Za-z0-9]*', schema.name):
        ctx.eq(schema.document.__name__, schema.name.title() + 'Document', 'name of the document class')
    ctx.eq(set(schema.document.children), m.roots, 'children of the document class')


def decorate(ctx, rng, text, legacy):
    """ Additions to a schema that keep it valid. """
    root = ET.fromstring(text)
    els = [e for e in root.iter() if e.tag in ref.KINDS or e.tag == 'element']
    byname = {}
    for e in els:
        if e.get('name') and e.get('id'):
            byname.setdefault(e.get('name'), e)
            byname.setdefault(e.get('id'), e)
    defs = [e for e in els if e.get('name') and e.get('id')]
    masters = [e for e in els if e.tag == 'MasterElement']

    def repeat(e):
        """ Another (perhaps abbreviated) definition of the same element. """
        r = ET.Element(e.tag)
        keys = rng.choice([['name'], ['id'], ['name', 'id'], list(e.attrib),
                           ['name'] + [k for k in e.attrib if k != 'name' and rng.random() < .5]])
        for k in keys:
            if e.get(k) is not None:
                r.set(k, e.get(k))
        if legacy:
            r.set('type', e.get('type'))
        ctx.ev('repeated definition')
        return r
    used = {int(e.get('id'), 16) for e in els if e.get('id')} | {h[0] for h in gen.HEADER}
    names = {e.get('name') for e in els}
    for _ in range(rng.choice([0, 1, 3, 6])):
        if not defs:
            break
        if legacy:
            root.append(repeat(rng.choice(defs)))
            continue
        host = rng.choice(masters + [root]) if masters else root
        r = repeat(rng.choice(defs))
        new = r
        if host is not root:
            # wrap: a repeated definition of the host at the end, holding the addition
            new = repeat(byname[host.get('name') or host.get('id')])
            if not (new.get('name') or new.get('id')):
                continue
            new.append(r)
        if r.tag == 'MasterElement' and rng.random() < .5:
            # with new children of its own
            x = ET.SubElement(r, rng.choice(['UIntegerElement', 'MasterElement', 'UnicodeElement', 'BinaryElement']))
            nm = 'New%d' % rng.randrange(10 ** 6)
            if nm not in names:
                names.add(nm)
                x.set('name', nm)
                x.set('id', '0x%X' % gen.gen_id(rng, used))
                x.text = rng.choice([None, ' some <docs> ', '\n  text\n'])
        root.append(new)
    # things that are not element definitions
    for _ in range(rng.choice([0, 1, 3])):
        host = rng.choice(masters + [root] * 2) if masters else root
        n = rng.choice([ET.Comment(' a comment '), ET.Element('Info'), ET.Element('author', {'name': 'x', 'id': '0x81'}),
                        ET.Element('br')])
        if not legacy and isinstance(n.tag, str):
            n.text = rng.choice([None, 'text'])
            if rng.random() < .4:
                n.append(ET.Element('UIntegerElement', {'name': 'Inner', 'id': '0x5555'}))
        if legacy and isinstance(n.tag, str):
            n = ET.Element('note', {'id': 'nonsense'})
        host.insert(rng.randint(0, len(host)), n)
        ctx.ev('foreign node')
    if rng.random() < .3:
        ET.indent(root)
    return ET.tostring(root, encoding='unicode')


FLAGS = ['1', '0', 'true', 'false', 'True', 'False', 'TRUE', 'FALSE', ' 1', ' true ', 'T', 'F', 't', 'no', '']


def spell(rng, text, legacy):
    root = ET.fromstring(text)
    repeated = {e.get('name') or e.get('id') for e in root.iter() if not (e.get('name') and e.get('id'))}
    for e in root.iter():
        if e.get('id') and e.get('name') and e.get('name') not in [h[1] for h in gen.HEADER]:
            for k in ('multiple', 'mandatory', 'precache', 'global'):
                if rng.random() < .2:
                    e.set(k, rng.choice(FLAGS))
            if rng.random() < .1:
                e.set('length', rng.choice(['3', ' 4', '0x08', '8', 'many', '']))
            if rng.random() < .1 and not legacy:
                e.set('level', rng.choice(['-1', '1', '0', 'x', ' -1']))
            if rng.random() < .05 and e.get('id') not in repeated and e.get('name') not in repeated:
                e.set('id', rng.choice([e.get('id').lower(), e.get('id')[2:], '0X' + e.get('id')[2:]]))
            if rng.random() < .05 and e.get('id') not in repeated and e.get('name') not in repeated:
                e.set('name', rng.choice(['%s ', ' %s', '\t%s\n']) % e.get('name'))
            if e.get('type') and rng.random() < .05:
                e.set('type', ' %s ' % e.get('type'))
            if rng.random() < .1:
                e.set(rng.choice(['default', 'range', 'range', 'xyz']), rng.choice(['5', 'abc', '>0', 'Größe \u20ac']))
    return ET.tostring(root, encoding='unicode')


def encoded(rng, text):
    """ The XML as a file of some encoding. """
    enc = rng.choice(['utf-8', 'utf-8', 'utf-8', 'utf-8-sig', 'utf-16', 'iso-8859-1', 'us-ascii'])
    if text.lstrip().startswith('<?xml') or enc == 'utf-8' and rng.random() < .5:
        return 'utf-8', text.encode('utf-8')
    decl = '<?xml version="1.0" encoding="%s"?>\n' % enc.replace('-sig', '')
    return enc, (decl + text).encode(enc, 'xmlcharrefreplace')


def load(ctx, rng, text, i):
    """ By one of the routes; the name given (if any) and the schema. """
    how = rng.choice(['text', 'bytes', 'path', 'Path', 'loadSchema', 'parseSchema', 'parse stream', 'file'])
    ctx.ev('route:' + how)
    name = rng.choice([None, None, 'Given name', 'n'])
    p = ctx.dir / ('s%d.xml' % i)
    enc, raw = encoded(rng, text)
    ctx.ev('encoding:' + enc)
    if how not in ('text', 'bytes', 'parseSchema', 'parse stream'):
        p.write_bytes(raw)
    if how == 'text':
        return name, core.Schema(io.StringIO(text), name)
    if how == 'bytes':
        return name, core.Schema(io.BytesIO(raw), name=name)
    if how == 'file':
        with (open(p, encoding=enc) if enc[:5] == 'utf-8' and rng.random() < .5 else open(p, 'rb')) as f:
            return name or None, core.Schema(f, name)
    if how in ('path', 'Path'):
        return name, core.Schema(gen.as_str(rng, p) if how == 'path' else gen.as_path(rng, p), name=name)
    if how == 'loadSchema':
        return name, core.loadSchema(gen.path_form(rng, p), reload=True, name=name)
    if how == 'parseSchema':
        return name, core.parseSchema(text, name=name, reload=True)
    return name, core.parseSchema(io.StringIO(text), name=name, reload=True)


def generated(ctx, rng, i):
    legacy = rng.random() < .25
    m = gen.gen_schema(rng, legacy=legacy, multiple_p=rng.random(), length_p=rng.choice([.1, .5]), precache_p=.3,
                       max_masters=rng.choice([1, 5, 12]))
    text = m.xml
    if legacy:
        ctx.ev('legacy')
    if not (rng.random() < .2):
        text = spell(rng, text, legacy) if rng.random() < .5 else text
        text = decorate(ctx, rng, text, legacy)
    want = ref.read_schema(text)
    name, schema = load(ctx, rng, text, i)
    compare(ctx, schema, want, name)
    if not name and not schema.type:
        n = 's%d' % i if schema.filename else ''
        ctx.eq(schema.name, n, 'name without a DocType')
    if text == m.xml:
        compare(ctx, schema, m, name)
    again = core.Schema(io.StringIO(text), name)
    compare(ctx, again, want, name)
    ctx.check(again is not schema and not (set(map(id, again.elements.values())) & set(map(id, schema.elements.values()))),
              'two schemata share element classes')
    compare(ctx, schema, want, name)
    core.SCHEMATA.clear()
    ctx.case(text.encode(), '%d definitions%s' % (len(want.byId), ', legacy' if legacy else ''))


def big(ctx, rng, i):
    """ Many elements, deep nesting, long names and texts. """
    used, k = set(), 0
    kinds = ['UIntegerElement', 'IntegerElement', 'FloatElement', 'StringElement', 'UnicodeElement', 'DateElement', 'BinaryElement']
    root = ET.Element('Schema')
    deep = rng.choice([3, 12, 40, 100])
    hosts = [root]
    for k in range(rng.choice([120, 300, 600, 1200, 2500])):
        host = rng.choice(hosts[-8:] + [root])
        new = len(hosts) < deep and rng.random() < .3
        e = ET.SubElement(host, 'MasterElement' if new else rng.choice(kinds), {
            'name': '%s%d' % (rng.choice(['E', 'Element' * 9, 'LongName' * 20]), k), 'id': '0x%X' % gen.gen_id(rng, used)})
        if rng.random() < .4:
            e.set('multiple', '1')
        if rng.random() < .02:
            e.set('global', '1')
        if rng.random() < .3:
            e.text = 'About this. ' * rng.choice([1, 9, 300])
        if new:
            hosts.append(e)
    text = ET.tostring(root, encoding='unicode')
    want = ref.read_schema(text)
    _name, schema = load(ctx, rng, text, i)
    compare(ctx, schema, want)
    ctx.ev('big schema')
    core.SCHEMATA.clear()
    ctx.case((text,), '%d elements' % k)


def bundled(ctx, rng, i):
    files = sorted((REPO / 'ebmlite' / 'schemata').glob('*.xml')) + sorted((REPO / 'tests').rglob('*.xml'))
    p = files[i % len(files)]
    try:
        root = ET.parse(p).getroot().tag
    except ET.ParseError:
        return
    if root not in ('Schema', 'table'):
        return
    want = ref.read_schema(str(p))
    s = core.loadSchema(str(p), reload=True)
    compare(ctx, s, want)
    ctx.check(s.filename == os.path.realpath(p), 'filename %r', s.filename)
    ctx.ev('bundled')
    core.SCHEMATA.clear()
    ctx.case(p.read_bytes(), p.name)


def corruptions(rng, text, legacy):
    """ (what, text) that must be refused. """
    def tree():
        root = ET.fromstring(text)
        return root, [e for e in root.iter() if e.tag in ref.KINDS or e.tag == 'element']

    def pick(els, ok=lambda e: True):
        c = [k for k, e in enumerate(els) if e.get('id') and e.get('name') and ok(e)]
        return rng.choice(c) if c else None
    out = []

    def edit(what, fn, ok=lambda e: True):
        root, els = tree()
        k = pick(els, ok)
        if k is None:
            return
        e = els[k]
        if fn(root, e) is not False:
            out.append((what, ET.tostring(root, encoding='unicode')))

    def unrepeated(e):
        # the only one of its ID and name
        _r, els = tree()
        return sum(x.get('name') == e.get('name') or x.get('id') == e.get('id') for x in els) == 1

    def delete(k):
        def fn(root, e):
            del e.attrib[k]
        return fn

    def put(k, v):
        return lambda root, e: e.set(k, v)
    edit('no id', delete('id'), unrepeated)
    edit('no name', delete('name'), unrepeated)
    for v in ('xyz', '', '0x', '12 34', '1.5', '0xGG'):
        edit('id %r' % v, put('id', v), unrepeated)
    for v in ('9abc', '', ' ', '-x', '.', '<'):
        edit('name %r' % v, put('name', v), unrepeated)
    if legacy:
        edit('no type', delete('type'))
        for v in ('int', 'MasterElement', '', 'Uinteger', 'text'):
            edit('type %r' % v, put('type', v))
    else:
        for t in ('FooElement', 'Element', 'integerElement', 'VoidElement', 'UnknownElement', 'DocumentElement'):
            edit('tag %r' % t, lambda root, e, t=t: setattr(e, 'tag', t))

    def again(**kw):
        """ A second definition that conflicts. """
        def fn(root, e):
            r = ET.Element(kw.get('tag', e.tag), dict(e.attrib))
            if legacy:
                r.tag = 'element'
            for k, v in kw.get('put', {}).items():
                old = e.get(k)
                r.set(k, v(old) if callable(v) else v)
            for k in kw.get('drop', ()):
                r.attrib.pop(k, None)
            root.append(r)
        return fn
    flip = lambda v: '0' if (v or '').strip()[:1] in tuple('Tt1') else '1'
    for k in ('multiple', 'mandatory', 'precache', 'global'):
        edit('redefined with %s flipped' % k, again(put={k: flip}))
    edit('redefined with a length', again(put={'length': lambda v: '7' if v != '7' else '6'}))
    edit('redefined with a default', again(put={'default': lambda v: (v or '') + '1'}))
    edit('redefined with more', again(put={'other': 'x'}))
    edit('name redefined with another id', again(put={'id': '0x7ABC'}))
    edit('name redefined with another id and nothing else', again(put={'id': '0x7ABC'}, drop=['multiple', 'mandatory']))
    edit('id redefined with another name', again(put={'name': 'SomeOtherName'}))
    clash = {'IntegerElement': 'BinaryElement', 'UIntegerElement': 'StringElement', 'FloatElement': 'IntegerElement',
             'StringElement': 'UnicodeElement', 'UnicodeElement': 'BinaryElement', 'DateElement': 'FloatElement',
             'BinaryElement': 'MasterElement', 'MasterElement': 'BinaryElement'}
    if not legacy:
        for t, c in clash.items():
            edit('%s redefined as %s' % (t, c), again(tag=c), lambda e, t=t: e.tag == t)
            edit('%s redefined as %s by id' % (t, c), again(tag=c, drop=['name', 'multiple', 'mandatory', 'precache', 'global',
                                                                         'length', 'default', 'level']),
                 lambda e, t=t: e.tag == t)
    else:
        edit('redefined with another type', again(put={'type': lambda v: 'binary' if v == 'float' else 'float'}))
    root, els = tree()
    for t in ('schema', 'Schemas', 'SCHEMA', 'EBML', 'MasterElement', 'Table', 'element'):
        root.tag = t
        out.append(('root %r' % t, ET.tostring(root, encoding='unicode')))
    k = rng.randint(1, max(1, len(text) - 12))
    out.append(('cut XML', text[:k]))
    out.append(('no XML', ''))
    out.append(('no XML', 'Schema'))
    return out


def refused(ctx, rng, i):
    legacy = rng.random() < .2
    m = gen.gen_schema(rng, legacy=legacy)
    other = gen.gen_schema(rng)
    o = obs.schema(other)
    p = ctx.dir / 'bad.xml'
    core.SCHEMATA.clear()
    for what, text in corruptions(rng, m.xml, legacy):
        ctx.note('%s: %s' % (what, text[:1500]))
        ctx.raises('schema with ' + what, core.Schema, io.StringIO(text))
        ctx.ev('refused')
        r = rng.random()
        if r < .1:
            p.write_text(text, encoding='utf8')
            ctx.raises('schema with ' + what, core.loadSchema, str(p))
            ctx.check(not core.SCHEMATA, 'a refused schema is remembered')
        elif r < .2:
            ctx.raises('schema with ' + what, core.parseSchema, text, name='bad')
            ctx.check(not core.SCHEMATA, 'a refused schema is remembered')
    compare(ctx, o, other)
    compare(ctx, obs.schema(m), m)
    ctx.case(('refused', m.xml), '%d corruptions' % len(corruptions(rng, m.xml, legacy)))


def independent(ctx, rng, i):
    """ Schemata with the same names and IDs in different roles. """
    pairs = []
    base = gen.gen_schema(rng, header=True)
    for k in range(rng.choice([2, 3, 5])):
        t = spell(rng, base.xml, False)
        text = gen.clash(rng, t)
        pairs.append((ref.read_schema(text), core.Schema(io.StringIO(text))))
        for want, s in pairs:
            compare(ctx, s, want)
        if rng.random() < .3:
            try:
                core.Schema(io.StringIO(rng.choice(corruptions(rng, text, False))[1]))
            except Exception:
                pass
    for want, s in pairs:
        compare(ctx, s, want)
        # and each reads a document its own way
        lay = gen.gen_layout(rng, want_model(want), budget=10, big=False)
        data = gen.to_bytes(lay)
        for _w2, s2 in pairs:
            try:
                s2.loads(data).dump()
            except Exception:
                pass
        obs.check_list(ctx, list(s.load(io.BytesIO(data), headers=True)), ref.parse(data, want), 'document')
    for want, s in pairs + pairs[:1]:
        # and writes its own way
        tree = gen.gen_tree(rng, want, budget=15, big=False)
        given, order = gen.api_data(rng, tree, root=True)
        blob = b''.join(n.bytes() for n in order)
        got = s.encodes(given)
        ctx.check(got == blob, 'encodes() gives %s, expected %s', short(bytes(got).hex(), 300), short(blob.hex(), 300))
        xml = util.toXml(s.load(io.BytesIO(blob), headers=True))
        out = io.BytesIO()
        util.xml2ebml(xml, out, s, headers=False)
        ctx.check([(e.id, e.name) for e in util.flatiter(s.loads(out.getvalue()))] ==
                  [(r.id, r.name) for q in ref.parse(blob, want) for r in q.walk()], 'xml2ebml() gives other elements: %s, expected %s',
                  short(out.getvalue().hex(), 300), short(blob.hex(), 300))
        for d in want.byId.values():
            if d.kind == 'master' and not d.is_void:
                ctx.eq(bytes(s[d.name].encode({})), ref.enc_id(d.id) + b'\x80', 'empty ' + d.name)
        ctx.ev('independent encoding')
    ctx.ev('independent')
    ctx.case(('ind', base.xml, i), '%d schemata with clashing definitions' % len(pairs))


def want_model(m):
    m.header = 'EBML' in m.byName
    return m


SECTIONS = [Section('generated', generated, 500, 6000), Section('big', big, 8, 60), Section('bundled', bundled, 12, 12), Section('refused', refused, 20, 300),
            Section('independent', independent, 30, 400)]
