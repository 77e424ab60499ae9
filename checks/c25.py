""" C25: a source or output I/O error surfaces and leaves a retry correct. """
import io
import os
import random
import sys
from xml.etree import ElementTree as ET

from vlib import gen, obs, ref
from vlib.mon import Inconclusive, Section, short
from ebmlite import core, util, xml_codecs

LEVEL = 'fault_enumeration'
RULE = """'source': a workload of some 10 random operations on a generated document (iterating, indexing, length, size, value, raw
data, dumps, crawling, export, comparison; held elements are used again later) is run on a recording stream, then again once for
every single stream operation it makes (a sample above 160), which raises an I/O error of a random type. The operation in
progress must raise just that error (or still give the right result); repeated, and in all later operations, results must be
those of the undisturbed run, and finally the whole document must read as the reference says. 'output' does the same
with every operation on the output of encoders, converters and printers; 'input' with reading XML and schemata. 'interrupts' and
'interrupted jobs' run such workloads, and encoding, conversion, schema loading and the like, interrupted by a KeyboardInterrupt at a
sample of the lines executed in ebmlite: it must surface, and everything repeated or done later give the undisturbed results. Distinct:
(document, workload)."""
REQUIRE = {'fault': 6000, 'surfaced': 5000, 'retried': 5000, 'workload': 60, 'full check': 5000, 'output fault': 1000, 'input fault': 50,
           'fault in infinite': 100, 'op:read': 1500, 'op:seek': 1500, 'interrupted': 2000, 'interrupted job': 2000}


class Fault(OSError):
    pass


class Eof(EOFError):
    pass


class Closed(ValueError):
    pass


class Timeout(TimeoutError):
    pass


class Gone(Exception):
    pass


FAULTS = [Fault, Fault, Eof, Closed, Timeout, Gone]


class Source(obs.Stream):
    """ Raises at one operation, once. """

    def __init__(self, data):
        super().__init__(data)
        self.at, self.fault, self.fired = None, None, None
        self.names = []

    def _hit(self, name):
        self.names.append(name)
        if self.at is not None and len(self.names) == self.at:
            self.fired = self.fault(5, 'injected fault')
            raise self.fired

    def read(self, n=-1):
        self._hit('read')
        return super().read(n)

    def seek(self, pos, whence=0):
        self._hit('seek')
        return super().seek(pos, whence)

    def tell(self):
        self._hit('tell')
        return super().tell()


# ----------------------------------------------------------------- workloads

def key(e):
    return (e.name, e.id, e.offset, e.payloadOffset, e.size)


def val(v):
    if isinstance(v, core.Element):
        return key(v)
    if isinstance(v, list):
        return [val(x) for x in v]
    if isinstance(v, dict):
        return {k: val(x) for k, x in v.items()}
    return repr(v)


class Work:
    """ Operations on a document; elements found are kept for later ones. """

    def __init__(self, doc, doc2):
        self.doc, self.doc2, self.held = doc, doc2, []

    def pick(self, rng, master=None):
        c = [e for e in self.held if master is None or isinstance(e, core.MasterElement) == master]
        return rng.choice(c) if c else self.doc

    def keep(self, els):
        self.held = (self.held + list(els))[-40:]
        return val(list(els))

    def roots(self, rng):
        return self.keep(list(self.doc))

    def some(self, rng):
        out = []
        n = rng.randint(1, 3)
        for e in self.doc:
            out.append(e)
            n -= 1
            if not n:
                break
        return self.keep(out)

    def children(self, rng):
        return self.keep(list(self.pick(rng, True)))

    def direct(self, rng):
        """ An element made by its class, as documented: of unknown size, if need be. """
        e = self.pick(rng)
        if e is self.doc or isinstance(e, core.UnknownElement):
            return None
        open_end = isinstance(e, core.MasterElement) and rng.random() < .8
        c = type(e)(self.doc.stream, e.offset, None if open_end else e.size, e.payloadOffset)
        self.held = (self.held + [c])[-40:]
        return None

    def value(self, rng):
        e = self.pick(rng)
        v = list(e.value) if isinstance(e, core.MasterElement) else e.value
        return self.keep(v) if isinstance(v, list) else val(v)

    def length(self, rng):
        e = self.pick(rng, True)
        return len(e)

    def size(self, rng):
        e = self.pick(rng)
        return e.size

    def fresh(self, rng):
        self.direct(rng)
        e = self.held[-1] if self.held else self.doc
        return e.size, len(e) if isinstance(e, core.MasterElement) else val(e.value)

    def raw(self, rng):
        e = self.pick(rng)
        return None if e is self.doc else bytes(e.getRaw())

    def rawvalue(self, rng):
        e = self.pick(rng)
        return None if e is self.doc else bytes(e.getRawValue())

    def index(self, rng):
        e = self.pick(rng, True)
        k = rng.choice([0, 1, 2])
        try:
            return self.keep([e[k]])
        except IndexError as ex:
            return 'IndexError'

    def dump(self, rng):
        return val(self.pick(rng).dump())

    def dumpall(self, rng):
        return val(self.doc.dump())

    def crawl(self, rng):
        return self.keep(list(util.flatiter(self.pick(rng), rng.choice([None, 1, 2]))))

    def xml(self, rng):
        return ET.tostring(util.toXml(self.pick(rng), ids=True), encoding='utf-8')

    def xmlinto(self, rng):
        x = ET.Element('parent')
        util.toXml(self.pick(rng), x, binary_codec='hex')
        return ET.tostring(x, encoding='utf-8')

    def text(self, rng):
        out = io.StringIO()
        util.pprint(self.pick(rng), out=out, binary_codec='hex')
        return out.getvalue()

    def equal(self, rng):
        a, b = self.pick(rng), self.pick(rng)
        return a == b

    def clear(self, rng):
        e = self.pick(rng)
        e.gc(rng.random() < .5)
        return None


    def _probe(self, first):
        """ Length and place of the held elements; the order of reading them must not matter. """
        out = []
        for e in self.held:
            n = len(e) if first and isinstance(e, core.MasterElement) else None
            k = key(e)
            out.append((k, len(e) if n is None and isinstance(e, core.MasterElement) else n))
        return out

    def _finally(self):
        """ What the held elements show in the end. """
        return [(key(e), len(e), [key(c) for c in e], val(e.value), len(e)) if isinstance(e, core.MasterElement) else (key(e), val(e.value))
                for e in self.held]


OPS = [n for n in vars(Work) if not n.startswith('_') and n not in ('pick', 'keep')]


def steps(ctx, rng):
    names = ['roots' if rng.random() < .7 else 'some'] + [rng.choice(OPS) for _ in range(rng.randint(2, 10))]
    return [(n, rng.getrandbits(48)) for n in names]


def source(ctx, rng, i):
    model = gen.gen_schema(rng)
    schema = obs.schema(model)
    roots = gen.gen_layout(rng, model, big=False, budget=rng.choice([3, 8, 20]))
    data = gen.to_bytes(roots)
    refs = ref.parse(data, model)
    if any(r.bad is not None for q in refs for r in q.walk()):
        raise Inconclusive('undecodable')
    inf = any(n.unk for r in roots for n in r.walk())
    plan = steps(ctx, rng)
    ctx.case((data, tuple(plan)), '%s on %s' % ([p[0] for p in plan], ' '.join(n.text() for n in roots)[:300]), bool(refs))

    def start():
        s = Source(data)
        return s, Work(schema.load(s, headers=True), None)
    s, w = start()
    base = len(s.names)
    expect = []
    for n, sd in plan:
        expect.append(getattr(w, n)(random.Random(sd)))
    total = len(s.names) - base
    names = s.names[base:]
    end = w._finally()
    ctx.ev('workload')
    _s, w = start()
    probes = [[]]
    for n, sd in plan:
        getattr(w, n)(random.Random(sd))
        probes.append(w._probe(True))
    at = range(1, total + 1)
    if total > 160:
        at = sorted(rng.sample(at, 160))
    for k in at:
        s, w = start()
        s.at, s.fault = base + k, rng.choice(FAULTS)
        ctx.note('%s; %s at operation %d (%s); data=%s schema=%s' % (plan, s.fault.__name__, k, names[k - 1], data.hex()[:3000], model.xml))
        for step, ((n, sd), want) in enumerate(zip(plan, expect)):
            before = s.fired
            held = list(w.held)
            try:
                got = getattr(w, n)(random.Random(sd))
            except Exception as ex:
                if s.fired is before:
                    ctx.fail('%s failed without a fault, after %s: %s: %s' % (n, s.fired, type(ex).__name__, ex))
                ctx.check(ex is s.fired, 'a %s during %s (stream operation %d, %s) became %s: %s', s.fault.__name__, n, k, names[k - 1],
                          type(ex).__name__, ex)
                ctx.ev('surfaced')
                if k % 3 == 0:
                    # other operations on the elements, before it is repeated
                    probe = [p for p in probes[step:step + 2] if len(p) == len(w.held)]
                    if probe:
                        got = w._probe(k % 2)
                        ctx.ev('probe')
                        ctx.check(got == probe[-1] or got == probe[0], 'after a %s in %s (stream operation %d, %s), elements show %s, expected %s',
                                  s.fault.__name__, n, k, names[k - 1], short(got, 800), short(probe[-1], 800))
                w.held = held
                try:
                    got = getattr(w, n)(random.Random(sd))
                except Exception as ex2:
                    ctx.fail('%s, repeated after a %s, raised %s: %s' % (n, s.fault.__name__, type(ex2).__name__, ex2))
                ctx.ev('retried')
                what = ' (repeated after a fault)'
            else:
                what = ' (a fault of the source was ignored)' if s.fired is not before else ' (after a fault in an earlier operation)'
            ctx.check(got == want, '%s%s, stream operation %d (%s): %s, expected %s', n, what, k, names[k - 1], short(got, 800), short(want, 800))
        ctx.check(s.fired is not None, 'harness: the fault was not reached')
        ctx.ev('fault')
        ctx.ev('op:' + names[k - 1])
        if inf:
            ctx.ev('fault in infinite')
        obs.check_list(ctx, list(w.doc), refs, 'after a fault in stream operation %d (%s)' % (k, names[k - 1]), raw=False)
        got = w._finally()
        ctx.check(got == end, 'after a fault in stream operation %d (%s), elements read before show %s, expected %s', k, names[k - 1],
                  short(got, 800), short(end, 800))
        ctx.ev('full check')


# -------------------------------------------------------------------- output

class Sink(io.BytesIO):
    """ Raises at one operation. """

    def __init__(self, at=None, fault=None):
        super().__init__()
        self.at, self.fault, self.n, self.fired = at, fault, 0, None
        self.partial = 0

    def _hit(self, data=None):
        self.n += 1
        if self.n == self.at:
            if data and self.partial:
                # It may have written a part of it
                super().write(data[:max(1, int(len(data) * self.partial))])
            self.fired = self.fault(28, 'injected fault')
            raise self.fired

    def write(self, b):
        self._hit(b)
        return super().write(b)

    def seek(self, *a):
        self._hit()
        return super().seek(*a)

    def tell(self):
        self._hit()
        return super().tell()

    def flush(self):
        self._hit()


class TextSink(io.StringIO):
    def __init__(self, at=None, fault=None):
        super().__init__()
        self.at, self.fault, self.n, self.fired = at, fault, 0, None
        self.partial = 0

    def _hit(self, data=None):
        self.n += 1
        if self.n == self.at:
            if data and self.partial:
                super().write(data[:max(1, int(len(data) * self.partial))])
            self.fired = self.fault(28, 'injected fault')
            raise self.fired

    def write(self, s):
        self._hit(s)
        return super().write(s)

    def flush(self):
        self._hit()


def output(ctx, rng, i):
    model = gen.gen_schema(rng)
    schema = obs.schema(model)
    data, order = gen.api_data(rng, gen.gen_tree(rng, model, big=False, budget=rng.choice([5, 20])), root=True)
    layout = gen.to_bytes(gen.gen_layout(rng, model, big=False, budget=rng.choice([5, 15])))
    h = rng.random() < .5
    doc = schema.load(io.BytesIO(layout), headers=True)
    xml = util.toXml(doc, ids=True)
    for x in xml.findall('EBML') if rng.random() < .6 else []:
        xml.remove(x)       # the default header is written instead
    blob = rng.randbytes(rng.choice([0, 10, 200]))
    kw = rng.choice([{}, {'sizeLength': 8}, {'headers': False}])
    jobs = {
        'encode': (Sink, lambda o: schema.encode(o, data, headers=h), data),
        'document': (Sink, lambda o: schema.document.encode(o, data, headers=h), data),
        'xml2ebml': (Sink, lambda o: util.xml2ebml(xml, o, schema, **kw), xml),
        'elements': (Sink, lambda o: [util.xmlElement2ebml(e, o, schema) for e in xml], xml),
        'pprint': (TextSink, lambda o: util.pprint(doc, out=o, binary_codec='hex'), None),
        'list': (TextSink, lambda o: util.printSchemata(out=o), None),
        'hex': (TextSink, lambda o: xml_codecs.HexCodec().encode(blob, stream=o), blob),
        'base64': (TextSink, lambda o: xml_codecs.Base64Codec().encode(blob, stream=o), blob),
        'unhex': (Sink, lambda o: xml_codecs.HexCodec.decode(blob.hex(), stream=o), None),
        'unbase64': (Sink, lambda o: xml_codecs.Base64Codec.decode(xml_codecs.Base64Codec(cols=None).encode(blob), stream=o), None),
    }
    show = lambda x: ET.tostring(x) if isinstance(x, ET.Element) else repr(x)
    for name, (cls, job, arg) in jobs.items():
        good = cls()
        job(good)
        want, n = good.getvalue(), good.n
        keep = show(arg)
        for k in (range(1, n + 1) if n <= 40 else sorted(rng.sample(range(1, n + 1), 40))):
            out = cls(k, rng.choice(FAULTS + [BlockingIOError]))
            out.partial = rng.choice([0, 0, .5, 1])
            ctx.note('%s, fault %s at output operation %d' % (name, out.fault.__name__, k))
            try:
                r = job(out)
            except Exception as ex:
                ctx.check(ex is out.fired, '%s: a %s of the output became %s: %s', name, out.fault.__name__, type(ex).__name__, ex)
            else:
                ctx.check(out.fired is None or out.getvalue() == want, '%s: a fault of the output (operation %d) was hidden, returned %s',
                          name, k, short(r))
            ctx.ev('output fault')
            ctx.check(show(arg) == keep, '%s: the argument changed after a fault', name)
            ctx.check(want.startswith(out.getvalue()[:0]) and len(out.getvalue()) <= len(want) + 8, '%s: wrote %d bytes, expected at most %d',
                      name, len(out.getvalue()), len(want))
            good = cls()
            job(good)
            ctx.check(good.getvalue() == want, '%s: after a fault of the output it writes %s, before %s', name, short(good.getvalue()), short(want))
    ctx.case((layout, repr(data)[:2000], i), 'output faults')


class Input:
    """ A readable that raises at one read. """

    def __init__(self, data, at=None, fault=None, chunk=None):
        self.f = io.BytesIO(data) if isinstance(data, bytes) else io.StringIO(data)
        self.at, self.fault, self.n, self.fired, self.chunk = at, fault, 0, None, chunk

    def read(self, n=-1):
        self.n += 1
        if self.n == self.at:
            self.fired = self.fault(5, 'injected fault')
            raise self.fired
        return self.f.read(n if self.chunk is None or 0 <= n <= self.chunk else self.chunk)


def inputs(ctx, rng, i):
    model = gen.gen_schema(rng)
    schema = obs.schema(model)
    layout = gen.to_bytes(gen.gen_layout(rng, model, big=False, budget=20))
    xml = ET.tostring(util.toXml(schema.load(io.BytesIO(layout), headers=True), ids=True), encoding='utf-8')

    def convert(f):
        out = io.BytesIO()
        util.xml2ebml(f, out, schema)
        return out.getvalue()

    def load(f):
        doc = util.loadXml(f, schema, ':memory:')
        return [key(e) for e in util.flatiter(doc)]

    def parse(f):
        s = core.Schema(f)
        return sorted((c.id, c.name) for c in s.elements.values())
    for name, job, data in (('xml2ebml', convert, xml), ('loadXml', load, xml), ('Schema', parse, model.xml)):
        chunk = rng.choice([None, 100, 1000])
        good = Input(data, chunk=chunk)
        want = job(good)
        at = range(1, good.n + 1)
        for k in (at if len(at) < 15 else sorted(rng.sample(at, 15))):
            f = Input(data, k, rng.choice(FAULTS), chunk)
            ctx.note('%s, fault at read %d' % (name, k))
            try:
                r = job(f)
            except Exception as ex:
                ctx.check(ex is f.fired, '%s: a %s of the input became %s: %s', name, f.fault.__name__, type(ex).__name__, ex)
            else:
                ctx.check(f.fired is None, '%s: a fault of the input (read %d) was hidden, returned %s', name, k, short(r))
            ctx.ev('input fault')
            ctx.check(job(Input(data, chunk=chunk)) == want, '%s: gives something else after a fault', name)
    ctx.case((xml, model.xml), 'input faults')


# ---------------------------------------------------------------- interrupts

HERE = os.path.dirname(os.path.realpath(core.__file__)) + os.sep


class Interrupt(KeyboardInterrupt):
    """ As by Ctrl-C, at any line. """


class Tracer:
    """ Counts the lines executed in ebmlite, or interrupts at one of them. """

    def __init__(self, at=None):
        self.n, self.at, self.fired, self.where, self.lost = 0, at, None, None, False
        self.mine = {}

    def call(self, frame, event, arg):
        f = frame.f_code.co_filename
        if f not in self.mine:
            self.mine[f] = os.path.realpath(f).startswith(HERE) and not f.endswith('threaded_file.py')
        return self.line if self.mine[f] else None

    def line(self, frame, event, arg):
        if event == 'line' and self.fired is None:
            self.n += 1
            if self.n == self.at:
                self.fired = Interrupt('at line %d' % frame.f_lineno)
                self.where = '%s:%d' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                raise self.fired
        return self.line

    def run(self, fn, *args):
        # A generator that is dropped cannot raise.
        old, sys.unraisablehook = sys.unraisablehook, lambda u: setattr(self, 'lost', u.exc_value is self.fired)
        sys.settrace(self.call)
        try:
            return fn(*args)
        finally:
            sys.settrace(None)
            sys.unraisablehook = old


def interrupts(ctx, rng, i):
    model = gen.gen_schema(rng)
    schema = obs.schema(model)
    roots = gen.gen_layout(rng, model, big=False, budget=rng.choice([3, 8, 20]))
    data = gen.to_bytes(roots)
    refs = ref.parse(data, model)
    if any(r.bad is not None for q in refs for r in q.walk()):
        raise Inconclusive('undecodable')
    plan = steps(ctx, rng)
    ctx.case((data, tuple(plan), 'interrupted'), 'interrupted: %s on %s' % ([p[0] for p in plan], ' '.join(n.text() for n in roots)[:300]), bool(refs))

    def start():
        return Work(schema.load(io.BytesIO(data), headers=True), None)
    w = start()
    expect = [getattr(w, n)(random.Random(sd)) for n, sd in plan]
    end = w._finally()
    w, t = start(), Tracer()
    for n, sd in plan:
        t.run(getattr(w, n), random.Random(sd))
    for k in sorted(rng.sample(range(1, t.n + 1), min(t.n, 60))):
        w, t = start(), Tracer(k)
        ctx.note('%s; interrupted at line %d of them; data=%s schema=%s' % (plan, k, data.hex()[:3000], model.xml))
        for (n, sd), want in zip(plan, expect):
            before, held, what = t.fired, list(w.held), ''
            try:
                if t.fired is None:
                    got = t.run(getattr(w, n), random.Random(sd))
                else:
                    got = getattr(w, n)(random.Random(sd))
            except Interrupt as ex:
                ctx.ev('interrupted')
                ctx.ev('interrupted in ' + t.where.partition(':')[0])
                w.held = held
                got = getattr(w, n)(random.Random(sd))
                what = ', repeated'
            else:
                ctx.check(t.fired is before or t.lost, 'an interrupt of %s (at %s) was hidden', n, t.where)
            ctx.check(got == want, '%s%s after an interrupt (at %s): %s, expected %s', n, what, t.where, short(got, 800), short(want, 800))
        obs.check_list(ctx, list(w.doc), refs, 'after an interrupt (at %s)' % t.where, raw=False)
        got = w._finally()
        ctx.check(got == end, 'after an interrupt (at %s), elements read before show %s, expected %s', t.where, short(got, 800), short(end, 800))


def interrupted_jobs(ctx, rng, i):
    model = gen.gen_schema(rng)
    schema = obs.schema(model)
    data, order = gen.api_data(rng, gen.gen_tree(rng, model, big=False, budget=rng.choice([3, 12])), root=True)
    layout = gen.to_bytes(gen.gen_layout(rng, model, big=False, budget=rng.choice([3, 12])))
    doc = schema.load(io.BytesIO(layout), headers=True)
    xml = util.toXml(doc, ids=True)
    blob = rng.randbytes(rng.choice([0, 10, 50]))
    path = ctx.dir / ('i%d.xml' % (i % 4))
    path.write_text(model.xml, encoding='utf-8')
    pretty = rng.choice([None, 'hex', 'base64'])

    def into(fn, cls=io.BytesIO):
        out = cls()
        fn(out)
        return out.getvalue()

    def schema_of(s):
        return sorted((c.id, c.name, repr(c.dtype), c.multiple, c.mandatory, c.precache, sorted(getattr(c, 'children', None) or ())) for c in s.elements.values())

    def load():
        core.SCHEMATA.pop(str(path), None)
        s = core.loadSchema(str(path))
        return schema_of(s), core.loadSchema(str(path)) is s

    def reload():
        s = core.loadSchema(str(path), reload=True)
        return schema_of(s), core.loadSchema(str(path)) is s

    def parse():
        s = core.parseSchema(model.xml, name='c25', reload=True)
        return schema_of(s), core.parseSchema(model.xml, name='c25') is s

    def verify():
        try:
            return schema.verify(layout)
        except Exception as ex:
            return type(ex)

    def free():
        return util.createID(schema, 'B', count=3)
    jobs = {'encode': lambda: into(lambda o: schema.encode(o, data, headers=True)), 'xml2ebml': lambda: into(lambda o: util.xml2ebml(xml, o, schema)),
            'pprint': lambda: into(lambda o: util.pprint(doc, out=o, binary_codec='hex'), io.StringIO),
            'export': lambda: ET.tostring(util.toXml(doc, binary_codec='hex')), 'dump': lambda: val(doc.dump()),
            'codec': lambda: xml_codecs.HexCodec.decode(xml_codecs.HexCodec(cols=8).encode(blob)),
            'base64': lambda: xml_codecs.Base64Codec.decode(xml_codecs.Base64Codec(cols=8).encode(blob)),
            'load': load, 'reload': reload, 'parse': parse, 'verify': verify, 'open': lambda: val(schema.loads(layout).dump()), 'ids': free}
    show = lambda: (ET.tostring(xml), repr(data), schema_of(schema))
    keep = show()
    try:
        for name in rng.sample(sorted(jobs), 6):
            job = jobs[name]
            want, t = job(), Tracer()
            t.run(job)
            for k in sorted(rng.sample(range(1, t.n + 1), min(t.n, 12))):
                t = Tracer(k)
                ctx.note('%s, interrupted at line %d; data=%s schema=%s' % (name, k, layout.hex()[:3000], model.xml))
                try:
                    t.run(job)
                except Interrupt:
                    ctx.ev('interrupted job')
                else:
                    ctx.check(t.fired is None or t.lost, '%s: an interrupt (at %s) was hidden', name, t.where)
                got = job()
                ctx.check(got == want, '%s, repeated after an interrupt (at %s): %s, expected %s', name, t.where, short(got, 800), short(want, 800))
            ctx.check(show() == keep, '%s, interrupted: arguments or schema changed', name)
    finally:
        core.SCHEMATA.pop(str(path), None)
        core.SCHEMATA.pop('c25', None)
    ctx.case((layout, model.xml, i), 'interrupted jobs')


SECTIONS = [Section('source', source, 130), Section('output', output, 25), Section('input', inputs, 12), Section('interrupts', interrupts, 70),
            Section('interrupted jobs', interrupted_jobs, 60)]
