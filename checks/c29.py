""" C29: substituted handlers of unknown elements and added codecs are honoured everywhere. """
import functools
import io
from xml.etree import ElementTree as ET

from vlib import gen, obs, ref, textref
from vlib.mon import Section, short
from ebmlite import core, util, xml_codecs
from checks import c19

LEVEL = 'exploration'
RULE = """'handlers': a document with unknown elements is read with a handler substituted on the schema (a class, function, partial,
method, callable object; on the instance or a subclass of Schema) that makes elements of other kinds of them: transformed binary,
numbers, precached ones, groups of further elements. Every element delivered must be what the handler made for that place (its
arguments recorded), with the reference's ID, position and content; in iteration, values, indices, flatiter(), dump(), raw data,
XML and pprint(). Another schema, and this one before and after, are unaffected; errors of the handler surface. 'codecs': a codec added
to BINARY_CODECS or given as instance is used by toXml(), pprint(), xml2ebml() and the tools, in both directions. Non-trivial: at
least one unknown (binary) element. Distinct: document bytes and handler."""
REQUIRE = {'handled element': 2000, 'handled group': 100, 'precached': 100, 'crawled': 80, 'xml': 100, 'printed': 100, 'error surfaced': 60,
           'codec used': 150, 'codec decoded': 150, 'tool': 40}


class Rev(core.UnknownElement):
    name = 'Reversed'

    def parse(self, stream, size):
        return bytearray(stream.read(size))[::-1]


class Eager(Rev):
    name = 'Eager'
    precache = True


class Num(core.Element):
    name = 'Num'
    dtype = int

    def __init__(self, stream=None, offset=0, size=0, payloadOffset=0, eid=None, schema=None):
        super().__init__(stream, offset, size, payloadOffset)
        self.id, self.schema = eid, schema

    def parse(self, stream, size):
        return int.from_bytes(stream.read(size)[:8], 'little')


class EagerNum(Num):
    name = 'EagerNum'
    precache = True
    multiple = True


class Group(core.MasterElement):
    name = 'Group'

    def __init__(self, stream=None, offset=0, size=0, payloadOffset=0, eid=None, schema=None):
        super().__init__(stream, offset, size, payloadOffset)
        self.id, self.schema = eid, schema


def value_of(cls, payload):
    if issubclass(cls, Num):
        return int.from_bytes(payload[:8], 'little')
    return bytearray(payload[::-1] if issubclass(cls, Rev) else payload)


class World:
    """ What the handler should make, and what it was asked for. """

    def __init__(self, rng, model, data, groups):
        self.model, self.data, self.groups = model, data, groups
        self.calls, self.made = [], {}
        self.error, self.fired = None, None
        self.refs = ref.parse(data, model)
        self.unknown = {}
        self.expand(self.refs)
        kinds = rng.choice([[Rev], [Eager], [Num], [Rev, Eager, Num, EagerNum]])
        self.cls = {i: Group if i in groups else rng.choice(kinds) for i in {r.id for r in self.unknown.values()}}

    def expand(self, refs):
        for r in refs:
            if r.kind == 'unknown':
                self.unknown[r.off] = r
                if r.id in self.groups:
                    r.children = ref.parse(self.data, self.model, r.pay, r.end)
            if r.children:
                self.expand(r.children)

    def handle(self, stream=None, offset=0, size=0, payloadOffset=0, eid=None, schema=None):
        self.calls.append((stream, offset, size, payloadOffset, eid, schema))
        if self.error:
            self.fired = self.error('of the handler')
            raise self.fired
        el = self.cls.get(eid, Rev)(stream, offset, size, payloadOffset, eid=eid, schema=schema)
        self.made[id(el)] = el
        return el


def dump_of(world, refs):
    out = {}
    for r in refs:
        c = world.cls[r.id] if r.kind == 'unknown' else None
        v = dump_of(world, r.children) if r.children is not None else value_of(c, r.payload) if c else r.value
        if c.multiple if c else r.d.multiple:
            out.setdefault(c.name if c else r.name, []).append(v)
        else:
            out[c.name if c else r.name] = v
    return out


def name_of(world, r):
    return world.cls[r.id].name if r.kind == 'unknown' else r.name


def check(ctx, world, els, refs, raw, what):
    ctx.check(len(els) == len(refs), '%s: %s, expected %s', what, short([(e.name, e.offset) for e in els], 600),
              short([(name_of(world, r), r.off) for r in refs], 600))
    for e, r in zip(els, refs):
        if r.kind != 'unknown':
            obs.check_meta(ctx, e, r)
            if r.children is None:
                obs.check_leaf(ctx, e, r)
        else:
            w = '%s: unknown element 0x%X at %d' % (what, r.id, r.off)
            cls = world.cls[r.id]
            ctx.check(world.made.get(id(e)) is e, '%s: %r is not what the handler made', w, e)
            ctx.check(type(e) is cls, '%s: is a %s, the handler made a %s', w, type(e), cls)
            ctx.eq((e.id, e.offset, e.size, e.payloadOffset), (r.id, r.off, r.size, r.pay), w)
            ctx.ev('handled element')
            if r.children is None:
                if cls.precache:
                    ctx.check(e._value is not None, '%s: not precached', w)
                    ctx.ev('precached')
                ctx.check(ref.same_value(e.value, value_of(cls, r.payload)), '%s: value %s, payload %s', w, short(e.value), short(r.payload))
                ctx.check(e.value is e.value, '%s: value read again', w)
            else:
                ctx.ev('handled group')
        if raw:
            obs.check_raw(ctx, e, r)
        if r.children is not None:
            check(ctx, world, list(e), r.children, raw, what)
            ctx.eq(len(e), len(r.children), '%s: len() of %r' % (what, e))


def check_calls(ctx, world, schema, stream, what):
    for st, off, size, pay, eid, sch in world.calls:
        ctx.check(sch is schema, '%s: the handler got schema %r', what, sch)
        ctx.check(st is stream, '%s: the handler got stream %r', what, st)
        r = world.unknown.get(off)
        ctx.check(r is not None and (size, pay, eid) == (r.size, r.pay, r.id), '%s: the handler was asked for offset %s, size %s, payload at %s, ID %s: no unknown element',
                  what, off, size, pay, eid)
    ctx.check({c[1] for c in world.calls} >= {r.off for r in world.unknown.values()}, '%s: the handler was not asked for all', what)


def xml_check(ctx, world, x, r):
    w = 'XML of 0x%X at %d' % (r.id, r.off)
    ctx.eq(x.tag, name_of(world, r), w)
    ctx.eq(x.get('id'), '0x%X' % r.id, w)
    if r.kind == 'unknown' and r.children is None:
        cls = world.cls[r.id]
        v = value_of(cls, r.payload)
        if issubclass(cls, Num):
            ctx.eq(x.get('value'), str(v), w)
        else:
            ctx.eq((x.get('encoding'), xml_codecs.HexCodec.decode(x.text or '')), ('hex', bytes(v)), w)
    if r.children is not None:
        ctx.eq(len(x), len(r.children), w)
        for a, b in zip(x, r.children):
            xml_check(ctx, world, a, b)


def flat(refs):
    for r in refs:
        yield r
        yield from flat(r.children or ())


def forms(rng, world, model):
    """ (how, schema with the handler, undo) """
    how = rng.choice(['class', 'function', 'lambda', 'partial', 'method', 'object', 'Schema subclass', 'Schema subclass, function', 'set late'])
    if how == 'class':
        only = rng.choice([Rev, Eager, Num, EagerNum])
        world.cls = {i: Group if i in world.groups else only for i in world.cls}

        class Handler(only):
            def __new__(cls, stream=None, offset=0, size=0, payloadOffset=0, eid=None, schema=None):
                return world.handle(stream, offset, size, payloadOffset, eid, schema)
        h = Handler
    elif how in ('function', 'Schema subclass, function', 'set late'):
        def h(stream, offset, size, payloadOffset, eid=None, schema=None):
            return world.handle(stream, offset, size, payloadOffset, eid, schema)
    elif how == 'lambda':
        h = lambda *a, **k: world.handle(*a, **k)
    elif how == 'partial':
        h = functools.partial(lambda tag, *a, **k: world.handle(*a, **k), 'tag')
    elif how == 'method':
        h = world.handle
    else:
        class Caller:
            def __call__(self, *a, **k):
                return world.handle(*a, **k)
        h = Caller()
    if how.startswith('Schema subclass'):
        cls = type('MySchema', (core.Schema,), {'UNKNOWN': staticmethod(h) if 'function' in how else h})
        return how, cls(io.StringIO(model.xml)), lambda s: None
    s = obs.schema(model)
    if how != 'set late':
        s.UNKNOWN = h

    def undo(s):
        del s.UNKNOWN
    s_late = (lambda: setattr(s, 'UNKNOWN', h)) if how == 'set late' else None
    return how, s, (undo, s_late)


def handlers(ctx, rng, i):
    model = gen.gen_schema(rng)
    roots = gen.gen_layout(rng, model, budget=rng.choice([6, 25, 50]), big=rng.random() < .1, wild=rng.choice([.15, .4, .8]))
    groups = set()
    used = {n.id for r in roots for n in r.walk()} | set(model.byId)
    for n in [n for r in roots for n in r.walk() if n.d is None]:
        if rng.random() < .3:
            n.id = gen.gen_id(rng, used)
            groups.add(n.id)
            inner = gen.gen_layout(rng, model, n_roots=rng.choice([0, 1, 3]), infinite=False, header=False, big=False, budget=6)
            ids = {x.id for r in inner for x in r.walk()}
            used |= ids
            n.payload = gen.to_bytes(inner) if not ids & groups else b''
    data = gen.to_bytes(roots)
    world = World(rng, model, data, groups)
    if any(r.children is None and r.bad is not None for r in flat(world.refs)):
        return
    how, schema, undo = forms(rng, world, model)
    ctx.note('%s, schema %s, data %s, kinds %s' % (how, model.xml, data.hex()[:3000], {hex(k): v.name for k, v in world.cls.items()}))
    what = how
    plain = obs.schema(model)
    if not how.startswith('Schema subclass') and rng.random() < .5:
        # not yet substituted
        s, late = schema, schema.__dict__.pop('UNKNOWN', None)
        got = [e for e in util.flatiter(s.load(io.BytesIO(data), headers=True))]
        ctx.check(all(type(e) is core.UnknownElement for e in got if e.id not in model.byId), '%s: handled before the substitution', what)
        if late is not None:
            schema.UNKNOWN = late
    stream = io.BytesIO(data)
    if how == 'set late':
        doc = schema.load(stream, headers=True)
        undo[1]()
    else:
        doc = schema.load(stream, headers=True)
    jobs = ['list', 'value', 'flat', 'dump', 'xml', 'pprint', 'index', 'len', 'raw']
    for job in rng.sample(jobs, rng.choice([1, 3, 9])) + ['list']:
        if job in ('list', 'raw'):
            check(ctx, world, list(doc), world.refs, job == 'raw', what)
        elif job == 'value':
            for e, r in zip(doc, world.refs):
                if r.children is not None:
                    check(ctx, world, e.value, r.children, False, what)
        elif job == 'flat':
            got = list(util.flatiter(doc))
            ctx.eq([(e.name, e.id, e.offset) for e in got], [(name_of(world, r), r.id, r.off) for r in flat(world.refs)], what + ': flatiter()')
            ctx.check(all(world.made.get(id(e)) is e for e in got if e.offset in world.unknown), '%s: flatiter() gives others', what)
            ctx.ev('crawled')
        elif job == 'dump':
            got, want = doc.dump(), dump_of(world, world.refs)
            ctx.check(obs.same_dump(got, want), '%s: dump() is %s, expected %s', what, short(got, 900), short(want, 900))
        elif job == 'xml':
            x = util.toXml(doc, binary_codec='hex')
            ctx.eq(len(x), len(world.refs), what + ': XML')
            for a, b in zip(x, world.refs):
                xml_check(ctx, world, a, b)
            ctx.ev('xml')
        elif job == 'pprint':
            out = io.StringIO()
            util.pprint(doc, out=out, values=False)
            got = [ln.split(None, 2) for ln in out.getvalue().splitlines()[3:]]
            want = [(str(r.off), str(r.size), '%s (ID 0x%X)' % (name_of(world, r), r.id)) for r in flat(world.refs)]
            ctx.check(len(got) == len(want) and all(tuple(g[:2]) == w[:2] and g[2].startswith(w[2] + ':') for g, w in zip(got, want)),
                      '%s: pprint() shows %s, expected %s', what, short(got, 900), short(want, 900))
            ctx.ev('printed')
        elif job == 'index':
            for k, r in enumerate(world.refs[:6]):
                check(ctx, world, [doc[k]], [r], False, what + ': [%d]' % k)
        else:
            ctx.eq(len(doc), len(world.refs), what + ': len()')
    check_calls(ctx, world, schema, stream, what)
    # elsewhere, and afterwards
    n = len(world.calls)
    els = list(util.flatiter(plain.load(io.BytesIO(data), headers=True)))
    ctx.check(all(type(e) is core.UnknownElement for e in els if e.id not in model.byId), '%s: another schema is affected', what)
    ctx.check(len(world.calls) == n and core.Schema.UNKNOWN is core.UnknownElement, '%s: other schemata are affected', what)
    # errors
    at = next((k for k, r in enumerate(world.refs) if r.kind == 'unknown'), None)
    if at is not None:
        world.error = rng.choice([RuntimeError, KeyError, ValueError, AttributeError, LookupError, OSError, ZeroDivisionError])
        got = []
        try:
            for e in schema.load(io.BytesIO(data), headers=True):
                got.append(e.offset)
        except Exception as ex:
            ctx.check(ex is world.fired, '%s: a %s of the handler became %r', what, world.error.__name__, ex)
        else:
            ctx.fail('%s: a %s of the handler was lost' % (what, world.error.__name__))
        want = [r.off for r in world.refs[:at]]
        # a precached master, or the end of one of unknown size, is read with it
        ctx.check(got == want or got == want[:len(got)] and world.refs[len(got)].children is not None,
                  '%s: roots %s before the error, expected %s', what, got, want)
        world.error = None
        ctx.ev('error surfaced')
        check(ctx, world, list(schema.load(io.BytesIO(data), headers=True)), world.refs, False, what + ', after an error')
    if not how.startswith('Schema subclass'):
        undo[0](schema)
        ctx.check(all(type(e) is core.UnknownElement for e in doc if e.id not in model.byId), '%s: still handled afterwards', what)
    ctx.case(data + how.encode(), '%s, %d bytes, %d unknown elements' % (how, len(data), len(world.unknown)), bool(world.unknown))


class Log:
    """ What the codec was asked. """
    encoded = decoded = None


def make_codec(rng, name, log):
    key = rng.randrange(1, 256)
    base = rng.choice([xml_codecs.BinaryCodec, xml_codecs.HexCodec, xml_codecs.Base64Codec, object])

    class Mine(base):
        """ A codec
            of the user. 100% own. """
        NAME = name

        def __init__(self, tag='', **_kwargs):
            self.tag = tag

        def encode(self, data, stream=None, indent='', offset=0, **kwargs):
            log.encoded.append(bytes(data))
            t = '\n%s%s:' % (indent if isinstance(indent, str) else indent.decode(), self.tag) + ','.join(str(b ^ key) for b in data)
            return t if stream is None else stream.write(t)

        @classmethod
        def decode(cls, data, stream=None, **kwargs):
            if isinstance(data, (bytes, bytearray)):
                data = data.decode()
            t = (data or '').partition(':')[2].strip()
            b = bytes(int(n) ^ key for n in t.split(',')) if t else b''
            log.decoded.append(b)
            return b if stream is None else stream.write(b)
    return Mine


def codecs(ctx, rng, i):
    model = gen.gen_schema(rng, header=rng.random() < .3)
    schema = obs.schema(model)
    # XML does not carry the contents of Void elements
    roots = gen.gen_layout(rng, model, budget=rng.choice([6, 25]), big=False, infinite=False, controls=0)
    data = gen.to_bytes(roots)
    refs = ref.parse(data, model)
    if any(r.children is None and r.bad is not None for r in flat(refs)):
        return
    doc = schema.load(io.BytesIO(data), headers=True)
    name = rng.choice(['rot', 'x-1', 'a_b', 'base64b', 'hex2', 'HEX', 'Base64', 'über', 'with space', 'none', 'ignored', '0'])
    log = Log()
    log.encoded, log.decoded = [], []
    cls = make_codec(rng, name, log)
    before = dict(xml_codecs.BINARY_CODECS)
    ctx.note('codec %r, schema %s, data %s' % (name, model.xml, data.hex()[:3000]))
    bins = [r for r in flat(refs) if r.kind in ('bin', 'unknown')]
    for how in ('name', 'instance'):
        if how == 'name':
            for f in (lambda: util.toXml(doc, binary_codec=name), lambda: util.pprint(doc, out=io.StringIO(), binary_codec=name)):
                ctx.raises('codec %r before it was added' % name, f)
    xml_codecs.BINARY_CODECS[name] = cls
    try:
        for how in rng.sample(['name', 'instance', 'tagged'], 2):
            codec = name if how == 'name' else cls() if how == 'instance' else cls(tag='t%d' % i)
            tag = 't%d' % i if how == 'tagged' else ''
            log.encoded.clear()
            log.decoded.clear()
            x = util.toXml(doc, binary_codec=codec)
            ctx.eq(log.encoded, [bytes(r.payload) for r in bins], 'toXml() with %s: contents given to the codec' % how)
            xs = [e for e in x.iter() if e.get('encoding') == name]
            ctx.eq(len(xs), len(bins), 'toXml() with %s: encoded elements' % how)
            for e, r in zip(xs, bins):
                ctx.check(e.text.startswith('\n%s:' % tag), 'toXml() with %s: text %s', how, short(e.text))
                ctx.eq(cls.decode(e.text), bytes(r.payload), 'toXml() with %s' % how)
                ctx.ev('codec used')
            log.decoded.clear()
            out = io.BytesIO()
            util.xml2ebml(x if rng.random() < .5 else io.BytesIO(ET.tostring(x, encoding='utf-8')), out, schema, headers=False)
            ctx.eq(log.decoded, [bytes(r.payload) for r in bins], 'xml2ebml(): contents decoded')
            ctx.ev('codec decoded', len(bins))
            again = [r for r in flat(ref.parse(out.getvalue(), model)) if r.kind in ('bin', 'unknown')]
            ctx.eq([(r.id, bytes(r.payload)) for r in again], [(r.id, bytes(r.payload)) for r in bins], 'EBML to XML and back by %s' % how)
            log.encoded.clear()
            text = io.StringIO()
            util.pprint(doc, out=text, binary_codec=codec)
            want = [bytes(r.value if r.kind == 'void' else r.payload) for r in flat(refs) if r.kind in ('bin', 'unknown', 'void')]
            ctx.eq(log.encoded, want, 'pprint() with %s: contents given to the codec' % how)
            ctx.eq(text.getvalue().count(' <%s>' % name), len(want), 'pprint() with %s: marks' % how) if not any(
                r.kind in ('str', 'utf8') for r in flat(refs)) else None
            if rng.random() < .5:
                log.encoded.clear()
                x = util.toXml(doc, binary_codec='ignore', void_codec=codec)
                voids = [r for r in flat(refs) if r.kind == 'void']
                ctx.eq(len(log.encoded), len(voids), 'toXml(): Void elements given to the codec')
                ctx.eq(sum(e.get('encoding') == name for e in x.iter()), len(voids), 'toXml(): Void elements encoded')
        if gen.fs_name(name) and rng.random() < .6:
            (ctx.dir / 's.xml').write_text(model.xml, encoding='utf-8')
            (ctx.dir / 'in.ebml').write_bytes(data)
            core.SCHEMATA.pop(str(ctx.dir / 's.xml'), None)
            for tool in ('ebml2xml', 'view_ebml'):
                log.encoded.clear()
                r = c19.inproc(tool, [str(ctx.dir / 'in.ebml'), str(ctx.dir / 's.xml'), '-e', name], str(ctx.dir))
                ctx.check(r.code == 0, '%s -e %s: status %s, %s', tool, name, r.code, r.err)
                want = [bytes(r.value if r.kind == 'void' else r.payload) for r in flat(refs)
                        if r.kind in ('bin', 'unknown') or tool == 'view_ebml' and r.kind == 'void']
                ctx.eq(log.encoded, want, '%s -e %s: contents given to the codec' % (tool, name))
                ctx.ev('tool')
            core.SCHEMATA.pop(str(ctx.dir / 's.xml'), None)
    finally:
        xml_codecs.BINARY_CODECS.clear()
        xml_codecs.BINARY_CODECS.update(before)
    if bins:
        x = ET.Element(schema.document.__name__)
        b = next((d for d in model.byId.values() if d.ekind == 'bin'), None)
        if b is not None:
            ET.SubElement(x, b.name, encoding=name).text = ':1'
            ctx.raises('an element encoded by a codec no longer there', util.xml2ebml, x, io.BytesIO(), schema, headers=False)
    ctx.case(data + name.encode(), 'codec %r, %d bytes' % (name, len(data)), bool(bins))


SECTIONS = [Section('handlers', handlers, 400), Section('codecs', codecs, 150)]
