""" C11: XML to EBML conversion writes what the XML says. """
import io
from xml.etree import ElementTree as ET

from vlib import gen, obs, ref
from vlib.mon import Section, short
from ebmlite import core, util, xml_codecs

LEVEL = 'exploration'
RULE = """A case writes an XML document by hand from a random tree of a random schema (with comments, processing
instructions, foreign attributes, 'size' and 'sizeLength' attributes, unknown elements with IDs, other numeric notations),
converts it with random options and output kinds, and compares an independent parse of the written bytes with the tree:
elements, values, size-field widths, header, returned length, and the bytes that were in the output before. 'refused'
feeds XML that must be refused. Non-trivial: at least one element. Distinct: XML text and options."""
REQUIRE = {'element': 2500, 'conversion': 300, 'default header': 50, 'own header': 20, 'width honoured': 500,
           'unknown element': 50, 'refused': 200, 'prefix kept': 50, 'comment in binary': 100}


def build(ctx, rng, model, nodes, parent, widths, inherited, unknown, expect):
    """ XML for a list of nodes; `expect` gets what must be written. """
    for n in nodes:
        junk(rng, parent)
        if n.d is None:
            x = ET.SubElement(parent, rng.choice(['UnknownElement', 'Foreign', 'x-y']))
            x.set('id', rng.choice(['0x%X', '0x%x', '%X']) % n.id)
        else:
            x = ET.SubElement(parent, n.name)
            if rng.random() < .3:
                x.set('id', '0x%X' % n.id)
        if rng.random() < .3:
            x.set('type', 'whatever')
            x.set('offset', str(rng.randrange(1000)))
        e = {'node': n, 'width': None, 'exact': None, 'kids': []}
        width = None
        if widths and rng.random() < .35:
            width = rng.randint(1, 8)
        if n.children is None:
            if width is not None:
                width = max(width, ref.vint_width(len(n.payload)))
            v = n.value
            if n.kind in ('bin', 'unknown', 'void'):
                name = rng.choice(['base64', 'hex'])
                c = rng.choice([xml_codecs.BINARY_CODECS[name]()] + (
                    [xml_codecs.HexCodec(cols=rng.choice([0, 5]), offsets=False)] if name == 'hex' else []))
                if n.kind == 'void':
                    x.set('size', str(len(n.payload)))
                    e['size'] = len(n.payload)
                else:
                    x.text = c.encode(n.payload if n.d is None or n.d.length is None else n.payload)
                    if name == 'hex' or rng.random() < .5:
                        x.set('encoding', name)
                    if rng.random() < .3:
                        x.text = '  \n ' + x.text + '\n  '
                    if rng.random() < .2:
                        # Comments in it. A parser that keeps them splits the text.
                        for _ in range(rng.choice([1, 1, 2])):
                            t = x.text or ''
                            k = rng.choice([0, len(t), rng.randint(0, len(t))])
                            x.text = t[:k]
                            x.insert(0, ET.Comment('AAAA') if rng.random() < .6 else ET.ProcessingInstruction('pi', 'FF'))
                            x[0].tail = t[k:] or None
                        ctx.ev('comment in binary')
            elif n.kind in ('int', 'uint'):
                x.set('value', rng.choice(['%d' % v] * 3 + [hex(v), ' %d' % v if v >= 0 else '%d' % v]))
                if rng.random() < .25 and n.d.length is None:
                    lo = ref.min_int(v) if n.kind == 'int' else ref.min_uint(v)
                    e['size'] = rng.randint(lo, 8)
                    x.set('size', str(e['size']))
            elif n.kind == 'date':
                x.set('value', rng.choice([str(v), v.isoformat()]))
            else:
                x.set('value', repr(v) if n.kind == 'float' else v)
                if n.kind in ('str', 'utf8') and rng.random() < .2 and n.d.length is None:
                    e['size'] = len(v.encode()) + rng.choice([0, 1, 7])
                    x.set('size', str(e['size']))
            if width is not None and 'size' in e:
                width = max(width, ref.vint_width(e['size']))
            if width is not None:
                e['exact'] = width
        else:
            e['attr'] = width
            # The argument is the width of masters that say nothing, if nothing above them does.
            e['width'] = width if width is not None else inherited
            build(ctx, rng, model, n.children, x, widths, None if width is not None else inherited, unknown, e['kids'])
        if width is not None:
            x.set('sizeLength', str(width))
        expect.append(e)
    junk(rng, parent)


def junk(rng, parent):
    r = rng.random()
    if r < .06:
        parent.append(ET.Comment(' comment <&> '))
    elif r < .09:
        parent.append(ET.ProcessingInstruction('pi', 'x="y"'))


def check(ctx, got, expect, what):
    if [g.id for g in got] != [e['node'].id for e in expect]:
        ctx.fail('%s: elements %s, expected %s' % (what, short([(g.name, hex(g.id)) for g in got], 500), short(
            [(e['node'].name, hex(e['node'].id)) for e in expect], 500)))
    for g, e in zip(got, expect):
        n = e['node']
        ctx.ev('element')
        w = obs.where(g)
        width = g.hlen - g.idlen
        if n.children is not None:
            check(ctx, g.children, e['kids'], w)
            if e['width'] is not None:
                want = max(e['width'], ref.vint_width(g.size))
                ctx.check(width == want, '%s: size field of %d bytes, expected %d (content of %d bytes)', w, width, want,
                          g.size)
                ctx.ev('width honoured')
        else:
            if n.kind == 'void':
                ctx.check(g.size == e['size'], '%s: %d bytes, expected %d', w, g.size, e['size'])
            else:
                ctx.check(g.bad is None and ref.same_value(g.value, n.value), '%s: value %s, expected %s', w, short(g.value),
                          short(n.value))
                if 'size' in e:
                    ctx.check(g.size == e['size'], '%s: payload of %d bytes, "size" is %d', w, g.size, e['size'])
            if e['exact'] is not None:
                ctx.check(width == e['exact'], '%s: size field of %d bytes, "sizeLength" is %d', w, width, e['exact'])
                ctx.ev('width honoured')
        if n.d is None:
            ctx.ev('unknown element')


def add_unknown(rng, model, nodes):
    """ Insert unknown elements into a tree. """
    out = list(nodes)
    for n in nodes:
        if n.children is not None:
            n.children = add_unknown(rng, model, n.children)
    if rng.random() < .25:
        i = gen.gen_id(rng, set(model.byId))
        p = gen.gen_bin(rng, rng.randrange(40))
        out.insert(rng.randint(0, len(out)), ref.Node(None, id=i, payload=p, value=bytearray(p)))
    return out


def source_of(rng, x, ctx):
    kind = rng.choice(['element', 'tree', 'text', 'bytes', 'file', 'path', 'stream'])
    if kind == 'element':
        return x
    if kind == 'tree':
        return ET.ElementTree(x)
    if kind == 'text':
        return io.StringIO(ET.tostring(x, encoding='unicode'))
    b = ET.tostring(x, encoding='utf-8', xml_declaration=True)
    if kind == 'bytes':
        return io.BytesIO(b)
    p = ctx.dir / 'in.xml'
    p.write_bytes(b)
    return gen.as_str(rng, p) if kind == 'file' else gen.as_path(rng, p) if kind == 'path' else open(p, 'rb')


def one(ctx, rng, i):
    model = gen.gen_schema(rng, length_p=.1)
    schema = obs.schema(model)
    nodes = gen.gen_tree(rng, model, budget=rng.choice([6, 20, 40]), big=rng.random() < .1, huge=.06)
    unknown = rng.random() < .4
    if unknown:
        nodes = add_unknown(rng, model, nodes)
    own = model.header and rng.random() < .3
    if own:
        h = model.byName['EBML']
        kids = []
        for k in ('EBMLVersion', 'DocType', 'DocTypeVersion'):
            if rng.random() < .8:
                d = model.byName[k]
                v = gen.gen_value(rng, d, False)
                kids.append(ref.Node(d, payload=gen.encoded_payload(d, v), value=v))
        nodes.insert(rng.choice([0, 0, rng.randint(0, len(nodes))]), ref.Node(h, children=kids))
    elif model.header and rng.random() < .08:
        # in another element, which makes it no header
        hosts = [n for r in nodes for n in r.walk() if n.children is not None and n not in nodes]
        if hosts:
            rng.choice(hosts).children.append(ref.Node(model.byName['EBML'], children=[]))
            ctx.ev('nested header')
    sl = rng.choice([None, None, 1, 2, 4, 8, rng.randint(1, 8)])
    expect = []
    known = [n for n in nodes if n.d is not None]
    single = known and rng.random() < .2
    if single:
        # the XML's root is an element, not the document
        top = ET.Element('tmp')
        n = rng.choice(known)
        build(ctx, rng, model, [n], top, rng.random() < .7, sl, unknown, expect)
        x = [e for e in top if isinstance(e.tag, str)][0]
        own = n.name == 'EBML'
    else:
        x = ET.Element(schema.document.__name__, {'source': 'x', 'schemaName': 'y'})
        build(ctx, rng, model, nodes, x, rng.random() < .7, sl, unknown, expect)
    headers = rng.choice([True, False, None])
    kw = {}
    if headers is not None:
        kw['headers'] = headers
    if sl is not None:
        kw['sizeLength'] = sl
    if not unknown and rng.random() < .5:
        kw['unknown'] = False
    elif rng.random() < .3:
        kw['unknown'] = True
    text = ET.tostring(x, encoding='unicode')
    ctx.note('%r: %s schema=%s' % (kw, text[:3000], model.xml))
    before_x = ET.tostring(x)
    src = source_of(rng, x, ctx)
    prefix = rng.randbytes(rng.choice([0, 0, rng.randint(1, 30), rng.randint(1, 30), 9000]))
    out = rng.choice(['mem', 'mem', 'file', 'name', 'path', 'minimal'])
    p = ctx.dir / 'out.ebml'
    sch = schema
    if rng.random() < .1 and schema.type:
        sp = ctx.dir / ('s%d.xml' % i)
        sp.write_text(model.xml, encoding='utf-8')
        sch = gen.path_form(rng, sp)
    if out in ('name', 'path'):
        prefix = b''
        p.write_bytes(rng.choice([b'', b'old content' * 50]))
        n = util.xml2ebml(src, gen.as_str(rng, p) if out == 'name' else gen.as_path(rng, p), sch, **kw)
        data = p.read_bytes()
    elif out == 'file':
        p.write_bytes(prefix)
        with open(p, 'ab' if rng.random() < .5 else 'r+b') as f:
            f.seek(len(prefix))
            n = util.xml2ebml(src, f, sch, **kw)
            ctx.check(not f.closed, 'the output stream was closed')
        data = p.read_bytes()
    else:
        class Minimal:
            def __init__(self):
                self.b = bytearray(prefix)

            def write(self, d):
                self.b += d
                return len(d)

            def tell(self):
                return len(self.b)
        b = Minimal() if out == 'minimal' else io.BytesIO(prefix)
        if out == 'mem':
            b.seek(len(prefix))
        n = util.xml2ebml(src, b, sch, **kw)
        data = bytes(b.b) if out == 'minimal' else b.getvalue()
        if out == 'mem':
            ctx.check(not b.closed and b.tell() == len(data), 'the output position is not at the end')
    if hasattr(src, 'close'):
        src.close()
    ctx.ev('conversion')
    if prefix:
        ctx.ev('prefix kept')
    ctx.check(data.startswith(prefix), 'what was in the output before was changed: %s', short(data[:len(prefix)]))
    body = data[len(prefix):]
    ctx.check(n == len(body), 'returned %r, %d bytes were written', n, len(body))
    ctx.check(ET.tostring(x) == before_x, 'the XML tree was changed')
    got = ref.parse(body, model)
    if headers is not False and model.header and not own:
        ctx.ev('default header')
        ctx.check(got and got[0].name == 'EBML', 'no default header: %s', short([g.name for g in got]))
        check_header(ctx, model, got[0])
        got = got[1:]
    elif own:
        ctx.ev('own header')
    check(ctx, got, expect, 'converted XML')
    ctx.case((text, repr(kw), out), '%r to %s: %s' % (kw, out, text[:200]), bool(nodes))
    if single and n:
        b = io.BytesIO()
        k = util.xmlElement2ebml(x, b, schema, **({'sizeLength': sl} if sl is not None else {}))
        ctx.check(k == len(b.getvalue()) and b.getvalue() == body[len(body) - k:], 'xmlElement2ebml() wrote other bytes')


def check_header(ctx, model, h):
    want = {}
    for name in ('EBMLVersion', 'EBMLReadVersion', 'DocType', 'DocTypeVersion', 'DocTypeReadVersion'):
        v = model.byName[name].attribs.get('default')
        if v is not None:
            want[name] = v if name == 'DocType' else int(v)
    got = {c.name: c.value for c in h.children}
    ctx.check(got == want and len(h.children) == len(want), 'default header is %r, expected %r', got, want)


def refused(ctx, rng, i):
    """ XML that is not of the schema is refused. """
    model = gen.gen_schema(rng, all_kinds=True, length_p=0)
    schema = obs.schema(model, rng.choice(obs.NAMES))
    doc = schema.document.__name__
    prefix = b'previous content'

    def attempt(what, x, **kw):
        b = io.BytesIO(prefix)
        b.seek(len(prefix))
        ctx.raises(what, util.xml2ebml, x, b, schema, **kw)
        ctx.check(b.getvalue().startswith(prefix), '%s: earlier content was changed', what)
        ctx.ev('refused')

    for tag in ('Nothing', 'Document2', doc + 'x', doc.lower() + '_'):
        x = ET.Element(tag)
        if tag not in model.byName:
            attempt('root <%s>' % tag, x)
            attempt('root <%s> with an id' % tag, ET.Element(tag, {'id': '0x4080'}))
    # nested: unknown names
    m = [d for d in model.byId.values() if d.kind == 'master' and d.name != 'EBML'][0]
    for kw, attr in (({'unknown': False}, {'id': '0x5A5A'}), ({'unknown': False}, {}), ({}, {}), ({'unknown': True}, {})):
        x = ET.Element(doc)
        y = ET.SubElement(x, m.name)
        ET.SubElement(y, 'NoSuchElement', attr)
        attempt('unknown element, %r, attributes %r' % (kw, attr), x, **kw)
        attempt('unknown element in the root element, %r, attributes %r' % (kw, attr), y, **kw)
        x = ET.Element(doc)
        ET.SubElement(x, 'NoSuchElement', attr)
        attempt('unknown root element, %r, attributes %r' % (kw, attr), x, **kw)
    # allowed with an id
    x = ET.Element(doc)
    free = gen.gen_id(rng, set(model.byId))
    ET.SubElement(x, 'NoSuchElement', {'id': hex(free)}).text = 'QUJD'
    b = io.BytesIO()
    util.xml2ebml(x, b, schema, headers=False)
    ctx.check(b.getvalue() == ref.enc_id(free) + b'\x83ABC', 'unknown element written as %s', b.getvalue())
    # impossible values
    for kind, bad in (('int', 'abc'), ('int', '1.5x'), ('int', str(1 << 63)), ('int', str(-(1 << 63) - 1)), ('uint', '-1'),
                      ('uint', str(1 << 64)), ('uint', ''), ('uint', '[1, 2, "x"]'), ('float', 'abc'), ('float', ''),
                      ('date', 'yesterday'), ('date', ''), ('date', '2020-13-01'), ('date', '3000-01-01')):
        d = [d for d in model.byId.values() if d.kind == kind][0]
        x = ET.Element(doc)
        ET.SubElement(x, d.name, {'value': bad})
        attempt('%s with value %r' % (kind, bad), x, headers=False)
    # too large for the given width
    d = [d for d in model.byId.values() if d.kind == 'uint' and d.length is None][0]
    x = ET.Element(doc)
    ET.SubElement(x, d.name, {'value': str(1 << 20), 'size': '2'})
    attempt('2^20 in two bytes', x, headers=False)
    d = [d for d in model.byId.values() if d.kind == 'bin' and d.name != 'Void' and d.length is None][0]
    x = ET.Element(doc)
    ET.SubElement(x, d.name, {'sizeLength': '1'}).text = 'QUJD' * 100
    b = io.BytesIO()
    try:
        util.xml2ebml(x, b, schema, headers=False)
    except Exception:
        pass
    else:
        r = ref.parse(b.getvalue(), model)
        ctx.check(len(r) == 1 and r[0].value == b'ABC' * 100, '300 bytes with sizeLength=1: %s', short(b.getvalue()))
    ctx.ev('refused')
    ctx.case(('refused', model.xml), 'unknown names, wrong roots, impossible values')


SECTIONS = [Section('convert', one, 900), Section('refused', refused, 20, 100)]
