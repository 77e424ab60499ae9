""" C18: header and document metadata are read and written faithfully. """
import io
import os
import tempfile
from pathlib import Path

from vlib import gen, obs, ref
from vlib.mon import REPO, Inconclusive, Section, short
from vlib.ref import Node
from ebmlite import core

LEVEL = 'exploration'
RULE = """'read': documents with random headers (any subset of elements, foreign and unknown ones, any layout, unknown size,
a second header later, none, not first) opened in every way with and without showing the header; info, type, version, root
elements, name, filename, size, start compared with the reference. 'write': default headers of schemata with any defaults,
through every encoder. 'samples'. Non-trivial: every case. Distinct: document bytes and options."""
REQUIRE = {'info': 400, 'hidden header': 150, 'shown header': 150, 'no header': 40, 'default header': 100, 'metadata': 400,
           'second header': 15, 'offset start': 50, 'given size': 20, 'no options': 40, 'metadata after closing': 40,
           'odd path': 40}


class Reader(io.RawIOBase):
    """ A plain stream without a name. """

    def __init__(self, data):
        self._b = io.BytesIO(data)

    def read(self, n=-1):
        return self._b.read(n)

    def seek(self, *a):
        return self._b.seek(*a)

    def tell(self):
        return self._b.tell()


def read(ctx, rng, i):
    model = gen.gen_schema(rng, header=rng.random() < .85, multiple_p=.7)
    schema = obs.schema(model, rng.choice([None, 'A name', 'zzz']))
    roots = gen.gen_layout(rng, model, header=False, big=False, budget=rng.choice([3, 15]), n_roots=rng.choice([0, 1, 3]))
    kind = 'none'
    if model.header:
        kind = rng.choice(['first', 'first', 'first', 'first', 'none', 'twice', 'later', 'empty', 'unknown size', 'odd'])
        h = model.byName['EBML']
        kids = [gen.layout_leaf(rng, model.byId[k], False) for k, _n, _t in gen.HEADER[1:] if rng.random() < .7]
        rng.shuffle(kids)
        if kind == 'empty':
            kids = []
        if kind == 'odd':
            # also other known, unknown, repeated and global elements
            for _ in range(3):
                c = rng.choice([d for d in model.byId.values() if d.kind != 'master'])
                kids.insert(rng.randint(0, len(kids)), gen.layout_leaf(rng, c, False))
            kids.append(Node(None, id=0x4DBB if 0x4DBB not in model.byId else 0x4DBC, payload=b'abc', value=bytearray(b'abc')))
        header = Node(h, children=kids, sw=gen.size_width(rng), unk=kind == 'unknown size')
        if kind == 'unknown size':
            roots = gen.settle(rng, [header] + roots, model)
        elif kind == 'later' and roots:
            roots.insert(rng.randint(1, len(roots)), header)
        elif kind != 'none':
            roots.insert(0, header)
        if kind == 'twice':
            roots.insert(rng.randint(1, len(roots)), Node(h, children=[gen.layout_leaf(rng, model.byId[0x4286], False)]))
            ctx.ev('second header')
        roots = gen.settle(rng, roots, model)
    data = gen.to_bytes(roots)
    pad = rng.randbytes(rng.choice([0, 0, 0, rng.randint(1, 50), rng.randint(1, 50), rng.randint(60, 9000), 70000 if i % 10 == 0 else 5000]))
    refs = ref.parse(pad + data, model, start=len(pad))
    has = bool(refs) and refs[0].name == 'EBML'
    info = obs.dump_of(refs[0].children) if has else {}
    show = rng.random() < .5
    how = rng.choice(['bytes', 'path', 'Path', 'file', 'stream', 'loads', 'call', 'document', 'bytearray', 'sized', 'named', 'number'])
    name = rng.choice([None, None, 'Given', '', 'a.b.c'])
    size = None
    odd = rng.random() < .3
    p = ctx.dir / rng.choice([n for n in ['f.ebml', 'name.with.dots.mkv', 'noext', '.hidden', 'sp ace.x', 'zażółć 漢.ide', 'ünï', '%41&#x;.xml', 'x' * 200 + '.y', 'a\\b.c', 'tr. ', '-.-', 'e\u0301.MKV', '..x'] if gen.fs_name(n)])
    close = src = None
    kw = {}
    start = len(pad)
    cls = schema.document.__name__
    filename, want_name, want_size = '', cls, len(pad) + len(data)
    if how in ('path', 'Path', 'file'):
        if odd:
            gen.clear(ctx.dir)
            text, _real, _how = gen.odd_file(rng, ctx.dir, 'odd.name.ebml', data if how != 'file' else pad + data)
            p = Path(text) if how == 'Path' or how == 'file' and rng.random() < .5 else text
            ctx.ev('odd path')
        else:
            p.write_bytes(data if how != 'file' else pad + data)
        if how != 'file':
            start, want_size = 0, len(data)
            refs = ref.parse(data, model)
            src = gen.as_str(rng, p) if how == 'path' else gen.as_path(rng, p)
        else:
            src = close = open(p, 'rb')
            src.seek(start)
        filename, want_name = str(p), os.path.splitext(os.path.basename(p))[0]
    elif how in ('loads', 'bytearray'):
        start, want_size = 0, len(data)
        refs = ref.parse(data, model)
    elif how == 'named':
        # e.g. a file within an archive: a name, but no such file
        src = rng.choice([obs.Stream, io.BytesIO, Reader])
        src = type('Named', (src,), {})(pad + data)
        src.seek(start)
        filename = rng.choice(['remote/recording.ide', 'archive.zip', 'no such dir/a.b.mkv', 'noext', '/nowhere/.hidden'])
        src.name = filename
        want_name = os.path.splitext(os.path.basename(filename))[0]
        if not isinstance(src, io.BytesIO):
            want_size = None
    elif how == 'number':
        # an anonymous file is named by its number
        src = close = tempfile.TemporaryFile(dir=ctx.dir)
        if not isinstance(src.name, int):
            raise Inconclusive('temporary files have names here')
        src.write(pad + data)
        src.flush()
        src.seek(start)
    elif how in ('stream', 'sized'):
        src = Reader(pad + data)
        src.seek(start)
        if how == 'sized':
            kw['size'] = want_size = rng.choice([len(data), 5, 10 ** 12])
        elif rng.random() < .5:
            want_size = None
        else:
            src = obs.Stream(pad + data)
            src.seek(start)
            want_size = None
    else:
        src = io.BytesIO(pad + data)
        src.seek(start)
    sized = how in ('path', 'Path', 'file', 'bytes', 'named', 'number', 'document') and rng.random() < .25
    if sized:
        # a given size is kept, whatever the stream is
        kw['size'] = want_size = rng.choice([len(data), 0, 5, 10 ** 12])
        ctx.ev('given size')
    plain = name is None and rng.random() < .5      # nothing but the source
    if plain and not kw and how in ('loads', 'bytearray', 'call', 'document'):
        ctx.ev('no options')
        doc = {'call': schema, 'document': schema.document}.get(how, schema.loads)(
            data if how == 'loads' else bytearray(data) if how == 'bytearray' else src)
        show = how == 'document'
    elif plain and not kw and not show:
        ctx.ev('no options')
        doc = schema.load(src)
    elif how in ('loads', 'bytearray'):
        doc = schema.loads(data if how == 'loads' else bytearray(data), name) if rng.random() < .5 else schema.loads(data, name=name)
        show = False
    elif how == 'call':
        doc, show = schema(src, name=name), False
    elif how == 'document':
        if rng.random() < .5:
            doc, show = schema.document(src, name, *kw.values()), True
        else:
            doc = schema.document(src, name=name, headers=show, **kw)
    elif rng.random() < .3:
        doc, show = schema.load(src, name=name, **kw), False
    else:
        doc = schema.load(src, name, headers=show, **kw)
    try:
        ctx.note('%s, %s header, shown %s, name %r, %d bytes before' % (how, kind, show, name, len(pad)))
        if start:
            ctx.ev('offset start')
        late = rng.random() < .15
        if late:
            # metadata outlives the source
            ctx.ev('metadata after closing')
            doc.close()
            for x in (close, src if how != 'number' else None):
                if hasattr(x, 'close'):
                    x.close()
        for _ in range(2):
            ctx.check(obs.same_dump(doc.info, info), 'info is %s, expected %s', short(doc.info), short(info))
            for attr, key in (('type', 'DocType'), ('version', 'DocTypeVersion')):
                got, w = getattr(doc, attr), info.get(key)
                ctx.check(got is None if w is None else ref.same_value(got, w), '%s is %r, expected %r', attr, got, w)
            ctx.ev('info')
            ctx.ev('no header' if not has else 'shown header' if show else 'hidden header')
            ctx.eq(doc.name, want_name if name is None else name, 'name')
            ctx.check(doc.filename or not filename, 'no file name')
            ctx.eq(str(doc.filename), filename, 'filename')
            ctx.eq(doc.offset, start, 'offset')
            rest = refs[1:] if has and not show else refs
            want_pay = refs[0].end if has and not show else start
            ctx.eq(doc.payloadOffset, want_pay, 'payload offset')
            if want_size is not None:
                ctx.eq(doc.size, want_size, 'size')
            ctx.ev('metadata')
            ctx.check(doc.schema is schema and isinstance(doc, schema.document), 'schema of the document')
            if late:
                continue
            if rng.random() < .5:
                obs.check_list(ctx, list(doc), rest, 'document')
            else:
                ctx.eq([(e.name, e.offset) for e in doc.value], [(r.name, r.off) for r in rest], 'root elements')
            ctx.eq(len(doc), len(rest), 'len()')
            d = doc.dump()
            ctx.check(obs.same_dump(d, obs.dump_of(rest)), 'dump %s', short(d))
        r = repr(doc)
        ctx.check(isinstance(r, str), 'repr')
    finally:
        doc.close()
        if close is not None:
            ctx.check(late or not close.closed, 'the file was closed')
            close.close()
    ctx.case((data, how, show, name, len(pad)), '%s, %s header, shown %s' % (how, kind, show))


STD = [('EBMLVersion', int), ('EBMLReadVersion', int), ('DocType', str), ('DocTypeVersion', int), ('DocTypeReadVersion', int)]


def write(ctx, rng, i):
    model = gen.gen_schema(rng, header=rng.random() < .85)
    text = model.xml
    if model.header:
        root = ref.ET.fromstring(text)
        for e in root.iter():
            if e.get('name') in dict(STD) and rng.random() < .5:
                e.attrib.pop('default', None)
                r = rng.random()
                if dict(STD)[e.get('name')] is str:
                    if r < .7:
                        e.set('default', rng.choice(['x', 'some type', '12', 'a-b.c']))
                elif r < .6:
                    e.set('default', rng.choice(['0', '1', '255', '256', '65535', '4294967296', ' 3 ']))
                elif r < .75:
                    e.set('default', rng.choice(['abc', '', '1.5']))     # not a number: no default
        if rng.random() < .3:
            # a header element may be missing
            for m in root.iter('MasterElement'):
                if m.get('name') == 'EBML':
                    for c in list(m):
                        if rng.random() < .3:
                            m.remove(c)
        text = ref.ET.tostring(root, encoding='unicode')
    m = ref.read_schema(text)
    schema = core.Schema(io.StringIO(text), 'n')
    want = []
    for n, t in STD:
        d = m.byName.get(n)
        if 'EBML' in m.byName and d is not None:
            try:
                want.append((n, t(d.attribs['default'])))
            except (KeyError, ValueError):
                pass
    tree = gen.gen_tree(rng, model, budget=6, big=False)
    tree = [n for n in tree if m.byId.get(n.id) is not None]
    data, order = gen.api_data(rng, tree, root=True)
    body = b''.join(n.bytes() for n in order)
    out = io.BytesIO(b'' if rng.random() < .5 else b'before')
    out.seek(0, 2)
    pre = out.getvalue()
    how = rng.choice(['encodes', 'encode', 'document', 'none'])
    ctx.note('%s: %s' % (how, want))
    if how == 'encodes':
        out.write(schema.encodes(data, headers=True))
    elif how == 'encode':
        ctx.check(schema.encode(out, data, headers=True) is out, 'encode() does not return the stream')
    elif how == 'document':
        schema.document.encode(out, data, headers=True)
    else:
        out.write(rng.choice([schema.encodes(data), schema.encodes(data, headers=False)]))
    got = out.getvalue()
    ctx.check(got.startswith(pre), 'what was in the output changed')
    got = got[len(pre):]
    if how == 'none' or 'EBML' not in m.byName:
        ctx.check(got == body, 'without a header: %s, expected %s', short(got), short(body))
    else:
        head = b''.join(ref.enc_id(m.byName[n].id) + ref.enc_size(len(p)) + p for n, p in (
            (n, gen.encoded_payload(m.byName[n], v)) for n, v in want))
        head = ref.enc_id(m.byName['EBML'].id) + ref.enc_size(len(head)) + head
        ctx.check(got == head + body, 'header and body are %s, expected %s', short(got), short(head + body))
        ctx.ev('default header')
        doc = schema.loads(got)
        w = dict(want)
        ctx.check(obs.same_dump(dict(sorted(doc.info.items())), dict(sorted(w.items()))), 'info read back is %r, expected %r', doc.info, w)
        ctx.check(doc.type == w.get('DocType') and doc.version == w.get('DocTypeVersion'), 'type, version read back')
    ctx.case((text, how, body), '%s: %s' % (how, want))


def samples(ctx, rng, i):
    for name, sn, typ, ver in (('SSX46714-doesnot.IDE', 'mide_ide.xml', None, None), ('video-1.mkv', 'matroska.xml', 'matroska', None),
                               ('video-4.ebml', 'matroska.xml', None, None)):
        p = REPO / 'tests' / name
        if not p.exists():
            continue
        sp = REPO / 'ebmlite' / 'schemata' / sn
        schema, model = core.loadSchema(str(sp)), ref.read_schema(str(sp))
        data = p.read_bytes()[:4000]
        eid, n, size, w = ref.read_head(data, 0)
        refs = ref.parse(data[:n + w + size], model)
        info = obs.dump_of(refs[0].children)
        with schema.load(str(p)) as doc:
            ctx.check(obs.same_dump(doc.info, info), '%s: info %r, expected %r', name, doc.info, info)
            ctx.eq((doc.name, doc.filename, doc.size, doc.payloadOffset), (p.stem, str(p), p.stat().st_size, n + w + size), name)
            first = next(iter(doc))
            ctx.eq(first.offset, n + w + size, name + ': first element')
        with schema.load(str(p), headers=True) as doc:
            ctx.eq(next(iter(doc)).name, 'EBML', name + ': first element')
        ctx.ev('info')
    ctx.case(b'samples', 'sample files')


SECTIONS = [Section('read', read, 1250, 6000), Section('write', write, 750, 3600), Section('samples', samples, 1, 1)]
