""" C24: operations leave no trace in shared state. """
import copy
import decimal
import gc
import io
import locale as lc
import logging
import os
import random
import resource
import signal
import sys
import threading
import time
import warnings
from xml.etree import ElementTree as ET

from vlib import gen, obs, ref
from vlib.mon import REPO, Section, short
from ebmlite import core, util, xml_codecs

LEVEL = 'exploration'
RULE = """A case runs a history of some 12 random operations, half of them failing, on a generated and a bundled schema: encoding
good and unfit data through every entry point and into failing streams, parsing good, truncated and random bytes, XML
conversions with unknown elements, widths and errors, verification, dumps that are modified afterwards, refused schemata that reuse the
same names and IDs, failed loads, listings, codecs. Each operation is done twice and must repeat its result; what it was given
must be unchanged. Before and after the history, a battery of probes (encoding, parsing, conversions, printing, equality, attributes
of all element classes, module settings) must give the same. A process-wide battery is compared from the first case to the last.
Distinct: histories."""
REQUIRE = {'operation': 1500, 'failed operation': 400, 'battery': 300, 'argument': 1500, 'unknown converted': 40, 'clashing schema': 60, 'results changed': 100, 'fractions': 80, 'large': 100, 'odd files': 100}
BUNDLED = ['mide_ide.xml', 'matroska.xml', 'mide_manifest.xml', 'mide_config_ui.xml']
ATTRS = ('id', 'name', 'mandatory', 'multiple', 'precache', 'length', 'dtype', '__doc__', '__name__', '__bases__')


# ------------------------------------------------------------------- digests

def tree(el):
    """ Everything visible of an element. """
    try:
        v = [tree(c) for c in el] if isinstance(el, core.MasterElement) else repr(el.value)
    except Exception as ex:
        v = type(ex).__name__
    return (type(el).__name__, el.name, el.id, el.offset, el.payloadOffset, el.size, repr(el.schema), v)


def parsed(doc):
    out = []
    try:
        for e in doc:
            out.append(tree(e))
    except Exception as ex:
        out.append(type(ex).__name__)
    return (doc.name, repr(doc.info), doc.type, doc.version, doc.size, out)


def digest(x):
    """ Comparable form of a result. """
    if isinstance(x, core.Document):
        return parsed(x)
    if isinstance(x, core.Element):
        return tree(x)
    if isinstance(x, ET.Element):
        return ET.tostring(x)
    if isinstance(x, (list, tuple)):
        return [digest(v) for v in x]
    return repr(x)


def attempt(fn, *a, **kw):
    """ (result digest, failed) """
    try:
        return digest(fn(*a, **kw)), False
    except Exception as ex:
        return 'raised %s' % type(ex).__name__, True


def classes(schema):
    out = []
    for i, c in sorted(schema.elements.items()):
        out.append((i,) + tuple(getattr(c, a, None) for a in ATTRS) + (
            sorted(c.children or ()) if isinstance(c.children, (set, list, tuple)) else c.children, c.schema is schema))
    return (out, sorted((n, c.id) for n, c in schema.elementsByName.items()), copy.deepcopy(schema.elementInfo),
            sorted(schema.globals), sorted(schema.children), schema.name, schema.type, schema.version, schema.UNKNOWN,
            schema.document.schema is schema, schema.document.name, schema.document.precache)


def modules():
    base = [core.Element, core.UnknownElement, core.VoidElement, core.Document] + list(core.Schema.BASE_CLASSES.values())
    out = [(b.__name__, a, repr(getattr(b, a, None))) for b in base for a in ATTRS + ('children', 'schema')]
    return (out, list(core.SCHEMA_PATH), sorted(core.Schema.BASE_CLASSES), sorted(core.Schema.ELEMENT_TYPES),
            sorted((k, id(v)) for k, v in xml_codecs.BINARY_CODECS.items()), os.getcwd(), id(sys.stdout), dict(os.environ),
            [repr(f) for f in warnings.filters], process())


def process():
    """ What the whole process shares. """
    mask = os.umask(0o22)
    os.umask(mask)
    return (mask, list(sys.path), sys.getrecursionlimit(), sys.getswitchinterval(), gc.isenabled(), gc.get_threshold(),
            lc.setlocale(lc.LC_ALL, None), [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE)],
            hash(random.getstate()), repr(decimal.getcontext()), id(sys.stderr), id(sys.stdin), id(sys.excepthook), id(threading.excepthook),
            id(warnings.showwarning), id(open), dict(ET._namespace_map), threading.active_count(), threading.stack_size(),
            sys.getdefaultencoding(), logging.getLogger().level, list(logging.getLogger().handlers), time.tzname,
            sys.gettrace(), sys.getprofile(), resource.getrlimit(resource.RLIMIT_NOFILE), sys.float_repr_style,
            getattr(sys, 'get_int_max_str_digits', int)(), list(sys.warnoptions))


class Broken(io.BytesIO):
    """ Fails on the n-th write. """

    def __init__(self, n):
        super().__init__()
        self.n = n

    def write(self, b):
        self.n -= 1
        if self.n < 0:
            raise OSError(28, 'injected fault')
        return super().write(b)


# ------------------------------------------------------------------- battery

class World:
    """ A schema with things to do with it. """

    def __init__(self, rng, model, schema):
        self.model, self.schema = model, schema
        t = gen.gen_tree(rng, model, big=False, budget=25)
        self.data, self.order = gen.api_data(rng, t, root=True)
        self.layout = gen.to_bytes(gen.gen_layout(rng, model, big=False, budget=25))
        self.known = gen.to_bytes(gen.gen_layout(rng, model, big=False, budget=15, unknown=False))
        self.junk = [b'\x4f\xfe\x83abc', b'\x81\x84\0\0\0\1', b'\xff\x80', b'\x40\x81\x82ab']
        self.codecs = [xml_codecs.HexCodec(), xml_codecs.Base64Codec(), xml_codecs.HexCodec(width=4, cols=16, offsets=False)]
        self.leaf = [d for d in model.byId.values() if d.kind != 'master' and not d.is_void]
        self.masters = [d for d in model.byId.values() if d.kind == 'master']

    def battery(self):
        s = self.schema
        load = lambda b, h=True: s.load(io.BytesIO(b), headers=h)
        xml = ET.tostring(util.toXml(load(self.layout), ids=True), encoding='utf-8')

        def toebml(**kw):
            out = io.BytesIO()
            util.xml2ebml(io.BytesIO(xml), out, s, **kw)
            return out.getvalue()

        def printed(**kw):
            out = io.StringIO()
            util.pprint(load(self.layout), out=out, **kw)
            return out.getvalue()
        acts = [lambda: s.encodes(self.data), lambda: s.encodes(self.data, headers=True),
                lambda: s.document._createHeaders(), lambda: load(self.layout), lambda: load(self.layout, False),
                lambda: s.loads(b''.join(self.junk)), lambda: load(self.layout).dump(),
                lambda: util.toXml(load(self.layout)), lambda: util.toXml(load(self.layout), ids=True, binary_codec='hex', void_codec='hex'),
                toebml, lambda: toebml(headers=False, sizeLength=4), lambda: toebml(unknown=False), printed,
                lambda: printed(values=False), lambda: printed(binary_codec=self.codecs[0]),
                lambda: s.verify(self.known), lambda: s.verify(self.layout),
                lambda: [a == b for a, b in zip(load(self.layout), load(self.layout))],
                lambda: [util.createID(s, c, count=3) for c in 'abcd'],
                lambda: [c.encode(b'some bytes' * 9, offset=7) for c in self.codecs],
                lambda: [(e.name, e.offset) for e in util.flatiter(load(self.layout))],
                lambda: [c.encode(v) for c, v in self.singles()]]
        return [attempt(a) for a in acts] + [classes(s)]

    def singles(self):
        val = {'int': -5, 'uint': 300, 'float': 1.5, 'str': 'text', 'utf8': 'tëxt', 'bin': b'\x01\x02',
               'date': ref.EPOCH.replace(year=2011)}
        return [(self.schema[d.name], val[d.kind]) for d in self.leaf] + [(self.schema[d.name], []) for d in self.masters]


# ---------------------------------------------------------------- operations

def frozen(ctx, x):
    """ A snapshot of an argument. """
    ctx.ev('argument')
    return ET.tostring(x) if isinstance(x, ET.Element) else repr(x)


class Ops:
    def __init__(self, ctx, w, other, other_model):
        self.ctx, self.w, self.other, self.other_model = ctx, w, other, other_model
        self.s = w.schema

    def guard(self, fn, *given):
        """ Run, and check the arguments afterwards. """
        before = [frozen(self.ctx, g) for g in given]
        try:
            return fn()
        finally:
            for g, b in zip(given, before):
                now = ET.tostring(g) if isinstance(g, ET.Element) else repr(g)
                self.ctx.check(now == b, 'argument changed from %s to %s', short(b, 700), short(now, 700))

    def sink(self, rng):
        return io.BytesIO() if rng.random() < .7 else Broken(rng.randint(0, 2))

    def encode(self, rng):
        t = gen.gen_tree(rng, self.w.model, big=False, budget=rng.choice([5, 30]))
        data, _o = gen.api_data(rng, t, root=True)
        h = rng.random() < .5
        how = rng.randrange(3)
        if how == 0:
            return self.guard(lambda: self.s.encodes(data, headers=h), data)
        out = self.sink(rng)
        self.guard(lambda: self.s.encode(out, data, headers=h) if how == 1 else self.s.document.encode(out, data, headers=h), data)
        return out.getvalue()

    def unfit(self, rng):
        """ Data with one thing wrong. """
        t = gen.gen_tree(rng, self.w.model, big=False, budget=15)
        data, _o = gen.api_data(rng, t, ['dict'], root=True)
        d = rng.choice(self.w.leaf or self.w.masters)
        bad = rng.choice([{'NoSuchElement': 1}, {d.name: object()}, {d.name: [object(), object()]}, {0x7FFFFFF: 2},
                          {d.name: {'x': {}}}, {d.name: 1 << 80}])
        if rng.random() < .5 and self.w.masters:
            bad = {rng.choice(self.w.masters).name: bad}
        data.update(bad)
        text = repr(bad) if 'object' not in repr(bad) else None
        try:
            return self.s.encodes(data, headers=rng.random() < .5)
        finally:
            if text is not None:
                self.ctx.check(repr(bad) == text, 'refused data was modified: %r, was %s', bad, text)

    def element(self, rng):
        c, v = rng.choice(self.w.singles())
        kw = rng.choice([{}, {}, {'length': rng.randint(0, 12)}, {'lengthSize': rng.randint(1, 8)}, {'length': 8, 'lengthSize': 2},
                         {'infinite': True}, {'length': 'x'}])
        v = rng.choice([v, v, v, [v, v], object()])
        return c.encode(v, **kw)

    def infinite(self, rng):
        d = rng.choice(self.w.masters or [None])
        if d is None:
            return None
        t = gen.gen_tree(rng, self.w.model, big=False, budget=6, of=d)
        data, _o = gen.api_data(rng, t)
        c = self.s[d.name]
        return self.guard(lambda: c.encode(data, lengthSize=rng.choice([None, 1, 8]), infinite=rng.random() < .7), data)

    def fractions(self, rng):
        """ Values that are written with a warning. """
        ints = [c for c in self.s.elements.values() if issubclass(c, core.IntegerElement) and not issubclass(c, core.DateElement)]
        if not ints:
            return None
        c = rng.choice(ints)
        self.ctx.ev('fractions')
        return [bytes(c.encode(v)) for v in (1.5, rng.choice([2.25, 1e3 + .5]))]

    def large(self, rng):
        """ Long or deep documents. """
        self.ctx.ev('large')
        one = self.w.known
        if one and rng.random() < .6:
            b = [d for d in self.w.model.byId.values() if d.kind == 'bin']
            d = rng.choice(b or [None])
            data = one[:2000] if not b else (ref.enc_id(d.id) + ref.enc_size(3000) + bytes(3000)) * rng.randint(1, 3)
        else:
            data = b''
            m = rng.choice(self.w.masters or [None])
            for _ in range(rng.choice([3, 30, 60]) if m else 0):
                data = ref.enc_id(m.id) + ref.enc_size(len(data)) + data
        doc = self.s.loads(data)
        return attempt(self.s.verify, data), len(doc), util.flatiter(doc).__next__ and sum(1 for _ in util.flatiter(doc)), attempt(doc.dump)

    def oddfiles(self, rng):
        """ A directory with all kinds of XML files. """
        self.ctx.ev('odd files')
        d = self.ctx.dir / 'odd'
        if not d.exists():
            d.mkdir()
            for n, t in (('bad.xml', '<a><b></a>'), ('none.xml', ''), ('other.xml', '<a/>'), ('good.xml', '<Schema/>'), ('latin.xml', 'é'),
                         ('x.txt', 'x'), ('ok.XML', '<Schema><UIntegerElement name="A" id="0x81"/></Schema>')):
                (d / n).write_text(t, encoding='latin-1')
            (d / 'dir.xml').mkdir()
        n = rng.choice(['bad.xml', 'none.xml', 'other.xml', 'good.xml', 'latin.xml', 'x.txt', 'ok.XML', 'dir.xml', 'not.xml'])
        got = {k: sorted(map(str, v)) for k, v in core.listSchemata(str(d), absolute=rng.random() < .5).items()}
        return sorted(got.items()), attempt(lambda: sorted(core.loadSchema(str(d / n)).elements)), attempt(
            lambda: util.xml2ebml(str(d / n), io.BytesIO(), self.s))

    def spoil(self, rng):
        """ What was returned belongs to the caller, who changes it in place. """
        self.ctx.ev('results changed')
        b = rng.choice([self.w.layout, self.w.known])
        doc = self.s.loads(b, 'spoilt')
        out = parsed(doc)
        els = list(util.flatiter(doc))
        for e in rng.sample(els, min(len(els), 30)):
            v = e.value
            if isinstance(v, bytearray):
                v += b'changed'
            elif isinstance(v, list):
                v.reverse()
                v.append(None)
            if isinstance(e, core.MasterElement):
                d = e.dump()
                for x in d.values():
                    if isinstance(x, (list, dict)):
                        x.clear()
                d['changed'] = 1
        doc.info['DocType'] = 'changed'
        doc.info.setdefault('changed', []).append(1)
        x = util.toXml(doc)
        for e in x.iter():
            e.attrib.clear()
            e.tag = 'Changed'
        for r in (self.s.document._createHeaders() if hasattr(self.s.document, '_createHeaders') else {}).values():
            r['DocType'] = 'changed'
        ids = util.createID(self.s, 'b', count=5)
        out += (list(ids),)
        ids.clear()
        c, v = rng.choice(self.w.singles())
        r = c.encode(v)
        out += (bytes(r),)
        if isinstance(r, bytearray):
            r.clear()
        r = core.listSchemata()
        out += (sorted(map(str, r)),)
        for paths in r.values():
            paths.clear()
        return repr(out)

    def parse(self, rng):
        b = rng.choice([self.w.layout, self.w.known])
        k = rng.random()
        if k < .3:
            b = b[:rng.randint(0, len(b))]
        elif k < .5:
            b = rng.randbytes(rng.randint(0, 60))
        elif k < .7 and b:
            p = rng.randrange(len(b))
            b = b[:p] + rng.choice(self.w.junk) + b[p + rng.randint(0, 3):]
        doc = self.s.load(io.BytesIO(b), name=rng.choice([None, 'x']), headers=rng.random() < .5)
        n = rng.choice([0, 3, 1000])
        out = []
        for e in util.flatiter(doc):
            n -= 1
            if n < 0 or len(out) > 300:
                break
            out.append((e.name, e.id, e.offset))
        return out

    def dump(self, rng):
        doc = self.s.load(io.BytesIO(self.w.layout), headers=True)
        d = doc.dump()
        r = repr(d)
        d['more'] = 1
        for v in list(d.values()):
            if isinstance(v, dict):
                v.clear()
            elif isinstance(v, list):
                del v[:]
        doc.info['DocType'] = 'changed'
        doc.info.clear()
        els = list(doc)
        for e in els:
            e.gc(recurse=True)
        return r

    def toxml(self, rng):
        doc = self.s.load(io.BytesIO(self.w.layout), headers=rng.random() < .5)
        p = rng.choice([None, ET.Element('parent', {'a': '1'})])
        x = util.toXml(doc, p, offsets=rng.random() < .5, sizes=rng.random() < .5, types=rng.random() < .5, ids=rng.random() < .5,
                       binary_codec=rng.choice(['hex', 'base64', 'nope', self.w.codecs[0], self.w.codecs[2]]),
                       void_codec=rng.choice(['ignore', self.w.codecs[1]]))
        return x

    def xml(self, rng):
        """ XML of the layout with something added. """
        x = util.toXml(self.s.load(io.BytesIO(self.w.layout), headers=rng.random() < .5), ids=rng.random() < .8)
        els = list(x.iter())
        for _ in range(rng.randint(0, 3)):
            e = rng.choice(els)
            k = rng.randrange(6)
            if k == 0:
                u = ET.SubElement(e, 'UnknownElement', {'id': hex(rng.choice([0x4fFE, 0x2aaaaa, 0xfe])), 'encoding': 'base64'})
                u.text = 'YWJj'
                self.ctx.ev('unknown converted')
            elif k == 1:
                ET.SubElement(e, 'NoSuch', {'value': '4'})
            elif k == 2 and e is not x:
                e.set('sizeLength', rng.choice(['1', '4', '8', '9', 'x']))
            elif k == 3 and e is not x:
                e.set('value', rng.choice(['zzz', '-1', '99999999999999999999999999', '']))
            elif k == 4:
                e.insert(0, ET.Comment('a comment'))
            elif e is not x:
                e.set('id', '0xffffffff')
        return x

    def toebml(self, rng):
        x = self.xml(rng)
        out = self.sink(rng)
        kw = rng.choice([{}, {'sizeLength': rng.randint(1, 8)}, {'unknown': False}, {'headers': False}, {'sizeLength': 77}])
        self.guard(lambda: util.xml2ebml(x, out, self.s, **kw), x)
        return out.getvalue()

    def elements(self, rng):
        x = self.xml(rng)
        out, r = io.BytesIO(), []
        for e in x:
            r.append(attempt(self.guard, lambda: util.xmlElement2ebml(e, out, self.s, sizeLength=rng.choice([None, 4]),
                                                                       unknown=rng.random() < .7), e))
        return r, out.getvalue()

    def loadxml(self, rng):
        x = self.xml(rng)
        doc = self.guard(lambda: util.loadXml(x, self.s, ':memory:'), x)
        r = digest(doc)
        doc.close()
        return r

    def verify(self, rng):
        return self.s.verify(rng.choice([self.w.known, self.w.layout, self.w.known + b'\x01', self.w.layout[:-1], b'']))

    def pprint(self, rng):
        out = io.StringIO()
        util.pprint(self.s.loads(self.w.layout), rng.random() < .7, out, binary_codec=rng.choice(['hex', 'base64', self.w.codecs[0]]),
                    void_codec=rng.choice(['hex', 'bad', self.w.codecs[1]]))
        return out.getvalue()

    def badschema(self, rng):
        """ A schema using the same names and IDs differently, or refused. """
        d = rng.choice(list(self.w.model.byId.values()))
        e = rng.choice(list(self.w.model.byId.values()))
        t = rng.choice(['UIntegerElement', 'MasterElement', 'BinaryElement', 'StringElement', 'DateElement', 'OddElement'])
        src = '<Schema><%s name="%s" id="0x%X" multiple="%d" length="7"><IntegerElement name="%s" id="0x%X" %s/></%s></Schema>' % (
            t, d.name, d.id, rng.randint(0, 1), e.name, rng.choice([e.id, e.id ^ 1]), rng.choice(['', 'length="1"', 'precache="0"']), t)
        if rng.random() < .3:
            src = src.replace('</Schema>', src[8:])
        s = core.Schema(io.StringIO(src), name=rng.choice([None, self.s.name]))
        s.loads(self.w.layout).dump()
        return [(c.id, c.name, c.multiple) for c in s.elements.values()]

    def redefine(self, rng):
        """ Definitions added to the schema that are refused or already there. """
        d = rng.choice(list(self.w.model.byId.values()))
        c, base = self.s[d.name], self.s[d.name].__mro__[1]
        atts = {'default': 'other', 'length': '3', 'multiple': 'no', 'precache': '1', 'extra': 'x'}
        atts = {k: atts[k] for k in rng.sample(sorted(atts), rng.randint(1, 3))}
        have = dict(self.s.elementInfo[d.id])
        other = rng.choice([b for b in core.Schema.BASE_CLASSES.values() if not issubclass(c, b)])
        parent = next((self.s[p.name] for p in self.w.masters if d.id in p.children), None)
        k = rng.randrange(6)
        if parent is None and k < 3:
            return None
        if k == 0:
            return self.guard(lambda: self.s.addElement(d.id, d.name, base, atts, parent), atts)
        if k == 1:
            return self.s.addElement(d.id, None, other, have, parent)
        if k == 2 and parent is not None:
            return self.guard(lambda: self.s.addElement(d.id, None, base, have, parent).name, have)
        if k == 3:
            return self.guard(lambda: self.s.addElement(0x4ABC, None, base, atts, parent), atts)
        if k == 4:
            return self.guard(lambda: self.s.addElement('0x4ABC', 'SomeNew', base, atts, parent), atts)
        return self.s.addElement(None, rng.choice(['9new', 'SomeNew', 5]), base, None, parent)

    def parseschema(self, rng):
        src = rng.choice([self.w.model.xml if hasattr(self.w.model, 'xml') else '<Schema/>', '<NotASchema/>', '<Schema><', ''])
        s = core.parseSchema(src, name=None)
        return sorted(s.elements)

    def loadfail(self, rng):
        # Not '': a schema parsed without a name is remembered under that one
        return core.loadSchema(rng.choice(['no_such_schema.xml', 'nowhere/no.xml', '{no_such_module}/x.xml', ' ']))

    def loads(self, rng):
        n = rng.choice(BUNDLED)
        paths = rng.choice([None, [str(REPO / 'ebmlite' / 'schemata')], ['nowhere', '{ebmlite.schemata}']])
        if paths is None:
            return core.loadSchema(n).name
        return self.guard(lambda: core.loadSchema(n, paths=paths), paths).name

    def listing(self, rng):
        paths = rng.choice([[], [str(REPO / 'ebmlite')], ['nowhere'], [str(REPO / 'tests')]])
        out = io.StringIO()
        self.guard(lambda: util.printSchemata(paths=paths, out=out, absolute=rng.random() < .5), paths)
        return out.getvalue()

    def ids(self, rng):
        ex = rng.choice([[], [0x81, 0x82], (0x4080,), {0x407F}])
        return self.guard(lambda: util.createID(self.s, rng.choice('abcdX'), exclude=ex, count=rng.choice([1, 50])), ex)

    def text(self, rng):
        c = rng.choice(self.w.codecs)
        data = rng.choice([b'', b'abc' * rng.randint(1, 60), bytearray(b'xyz'), 'text', None])
        out = rng.choice([None, io.StringIO()])
        r = self.guard(lambda: c.encode(data, stream=out, offset=rng.choice([0, 100]), indent=rng.choice(['', '  '])), data)
        return r, out.getvalue() if out else None

    def decode(self, rng):
        c = rng.choice(self.w.codecs)
        return c.decode(rng.choice(['YWJj', '616263', '[000000] 61 62', 'zz', 'YWJ', '', b'6162', '6']))

    def clash(self, rng):
        """ Another schema in between. """
        r = digest(self.other.loads(self.w.layout[:300]))
        if self.other_model is not None and rng.random() < .7:
            data, order = gen.api_data(rng, gen.gen_tree(rng, self.other_model, big=False, budget=20), root=True)
            got = self.other.encodes(data)
            self.ctx.eq(bytes(got), b''.join(n.bytes() for n in order), 'encoding by a schema of the same names')
            x = util.toXml(self.other.loads(got))
            out = io.BytesIO()
            util.xml2ebml(x, out, self.other, headers=False)
            return r, bytes(got), ET.tostring(x), out.getvalue()
        return r


OPS = [n for n in vars(Ops) if not n.startswith('_') and n not in ('guard', 'sink', 'xml')]


def history(ctx, rng, i, w=None):
    if w is None:
        model = gen.gen_schema(rng, length_p=rng.choice([0, .3]))
        w = World(rng, model, obs.schema(model))
    other = rng.choice([core.loadSchema(BUNDLED[0]), obs.schema(gen.gen_schema(rng)), None, None])
    other_model = None
    if other is None and hasattr(w.model, 'xml'):
        text = gen.clash(rng, w.model.xml)
        other, other_model = core.Schema(io.StringIO(text)), ref.read_schema(text)
        ctx.ev('clashing schema')
    elif other is None:
        other = core.loadSchema(BUNDLED[1])
    ops = Ops(ctx, w, other, other_model)
    before, mods = w.battery(), modules()
    ctx.ev('battery')
    done, results = [], []
    cached = dict(core.SCHEMATA)
    for k in range(rng.randint(4, 16)):
        name, sd = rng.choice(OPS), rng.getrandbits(64)
        ctx.note('history %s' % (done,))
        fn = getattr(ops, name)
        r = attempt_v(fn, sd)
        r2 = attempt_v(fn, sd)
        ctx.ev('operation')
        if r[1]:
            ctx.ev('failed operation')
        ctx.check(r == r2, 'after %s: %s repeated gives %s, first %s', done, name, short(r2, 900), short(r, 900))
        done.append(name + ('!' if r[1] else ''))
        results.append((name, sd, r))
        now = modules()
        ctx.check(now == mods, '%s changed module settings: %s', done, diff(mods, now))
    after = w.battery()
    ctx.ev('battery')
    ctx.check(after == before, 'after %s the probes differ: %s', done, diff(before, after))
    for name, sd, r in rng.sample(results, min(3, len(results))):
        r2 = attempt_v(getattr(ops, name), sd)
        ctx.check(r == r2, 'after %s: %s gives %s, at first %s', done, name, short(r2, 900), short(r, 900))
    for k, v in cached.items():
        ctx.check('.xml' not in str(k) or core.SCHEMATA.get(k) is v, 'cached schema %r was replaced', k)
    ctx.case((i, tuple(done)), ' '.join(done))


def attempt_v(fn, sd):
    from vlib.mon import Violation
    try:
        return digest(fn(random.Random(sd))), False
    except Violation:
        raise
    except Exception as ex:
        return 'raised %s' % type(ex).__name__, True


def diff(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for n, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return '[%d]%s' % (n, diff(x, y))
    return ': %s, was %s' % (short(b, 900), short(a, 900))


_world = {}


def shared(ctx, rng, i):
    """ Histories on bundled schemata shared by the whole process. """
    n = BUNDLED[i % len(BUNDLED)]
    if n not in _world:
        p = REPO / 'ebmlite' / 'schemata' / n
        w = World(random.Random(n), ref.read_schema(str(p)), core.loadSchema(n))
        _world[n] = (w, w.battery(), modules())
    w, first, mods = _world[n]
    w2 = World(rng, w.model, w.schema)
    history(ctx, rng, i, w2)
    now = w.battery()
    ctx.check(now == first, 'probes of %s differ from those at the start of the process: %s', n, diff(first, now))
    ctx.check(modules() == mods, 'module settings differ from those at the start: %s', diff(mods, modules()))
    ctx.ev('process-wide battery')


SECTIONS = [Section('shared', shared, 40), Section('history', history, 300), Section('shared again', shared, 8)]
