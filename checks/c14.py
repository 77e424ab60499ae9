""" C14: concurrent reading gives every thread the sequential result. """
import io
import random
import sys
import threading
from xml.etree import ElementTree as ET

from vlib import gen, obs, sched
from vlib.mon import REPO, Inconclusive, Section, short
from ebmlite import core, decoding, encoding, threaded_file, util, xml_codecs
from ebmlite.threaded_file import ThreadAwareFile

LEVEL = 'exploration'
RULE = """'one document', 'own documents', 'shared elements' (all threads use the same element objects), 'shared schema': 2-4 threads run random jobs (crawl, dump, raw data, XML export,
printing, encoding, XML import, verification, schema loading and listing, refused calls) under a deterministic scheduler
that switches threads at lines (or byte codes) of the library; each result is compared with the one of the same job run
alone beforehand. 'stress': the same with free-running threads, a switch interval of 1 us and the sample files.
Non-trivial: threads were switched inside the library. Distinct: the interleaving (thread, line)."""
REQUIRE = {'job': 200, 'switch': 2000, 'interleaving': 20, 'stress job': 80, 'shared document': 10, 'shared elements': 30}
ASSUME = ['CPython executes one byte code of one thread at a time (GIL build)']
SOFT = {'quick': 120, 'thorough': 2400}

SRC = [m.__file__ for m in (core, decoding, encoding, threaded_file, util, xml_codecs)]


def sig(el):
    """ Everything an element shows. """
    if isinstance(el, core.MasterElement):
        return (el.name, el.id, el.offset, el.size, len(el), [sig(c) for c in el])
    return el.name, el.id, el.offset, el.payloadOffset, el.size, repr(el.value)


def j_crawl(doc, rng):
    return [sig(e) for e in doc]


def j_raw(doc, rng):
    return [(e.getRaw(), e.getRawValue()) for e in util.flatiter(doc, rng.choice([1, 2, None]))]


def j_dump(doc, rng):
    return repr(doc.dump())


def j_xml(doc, rng):
    return ET.tostring(util.toXml(doc, offsets=rng.random() < .5, binary_codec=rng.choice(['hex', 'base64'])))


def j_print(doc, rng):
    out = io.StringIO()
    util.pprint(doc, out=out, binary_codec=rng.choice(['hex', 'ignore']))
    return out.getvalue()


def j_index(doc, rng):
    n = len(doc)
    return n, [sig(doc[rng.randrange(n)]) for _ in range(3) if n]


def j_lazy(doc, rng):
    """ Elements collected first, looked at afterwards. """
    els = list(util.flatiter(doc))
    rng.shuffle(els)
    return [(e.offset, len(e) if hasattr(e, '__len__') else None,
             None if isinstance(e, core.MasterElement) else repr(e.value)) for e in els[:20]]


def j_values(doc, rng):
    return [[(c.name, c.offset) for c in e.value] if isinstance(e, core.MasterElement) else repr(e.value) for e in doc]


def j_info(doc, rng):
    return repr(doc.info), doc.type, doc.version, doc.name, doc.size


READ = [j_crawl, j_crawl, j_raw, j_dump, j_xml, j_print, j_index, j_lazy, j_values, j_info]


def outcome(fn):
    try:
        return 'ok', fn()
    except Exception as ex:
        if isinstance(ex, sched.Stall):
            raise
        return 'raised', type(ex).__name__, str(ex)[:80]


def compete(ctx, rng, teams, files=SRC, real=False):
    """ Run lists of (label, job(rng), seed) in one thread each; all must give what they give alone. """
    want = [[outcome(lambda: job(random.Random(sd))) for _l, job, sd in jobs] for jobs, _ in teams]
    got = [[] for _ in teams]

    def member(n):
        def run():
            jobs = teams[n][1]
            for (_l, job, sd) in jobs:
                got[n].append(outcome(lambda: job(random.Random(sd))))
        return run
    fns = [member(n) for n in range(len(teams))]
    if real:
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            errors = []

            def guard(fn):
                try:
                    fn()
                except BaseException as ex:
                    errors.append(ex)
            ts = [threading.Thread(target=guard, args=(fn,), daemon=True) for fn in fns]
            for t in ts:
                t.start()
            for t in ts:
                t.join(120)
                ctx.check(not t.is_alive(), 'a thread does not finish within 120 s')
        finally:
            sys.setswitchinterval(old)
        if errors:
            raise errors[0]
        trace = ()
    else:
        old = sched.install(threaded_file)
        s = sched.Sched(rng, files, stay=rng.choice([.3, .7, .9, .97]), opcodes=rng.random() < .15, limit=60000)
        try:
            sched.Event.sched = s
            s.run(fns)
        finally:
            sched.Event.sched = None
            sched.restore(threaded_file, old)
        for _n, ex in s.errors:
            if isinstance(ex, sched.Trouble):
                raise Inconclusive(str(ex))
            raise ex
        ctx.ev('switch', s.switches)
        if s.switches > 5:
            ctx.ev('interleaving')
        trace = s.trace
    for n, (w, g) in enumerate(zip(want, got)):
        for (label, _j, _s), a, b in zip(teams[n][0], w, g):
            ctx.ev('stress job' if real else 'job')
            if a != b:
                i = next((i for i, (x, y) in enumerate(zip(repr(a), repr(b))) if x != y), 0)
                ctx.fail('thread %d of %d, %s: got ...%s, alone ...%s' % (
                    n, len(teams), label, short(repr(b)[max(0, i - 60):i + 200]), short(repr(a)[max(0, i - 60):i + 200])))
    return trace


def material(ctx, rng, i, budget=None, **kw):
    model = gen.gen_schema(rng, **kw)
    schema = obs.schema(model)
    roots = gen.gen_layout(rng, model, big=False, budget=budget or rng.choice([6, 15, 25]), n_roots=rng.choice([1, 2, 4]))
    data = gen.to_bytes(roots)
    p = ctx.dir / ('d%s.ebml' % i)
    p.write_bytes(data)
    return model, schema, data, p


def readers(rng, k, alone, docs):
    """ Jobs for thread k: (to run alone, to run together). """
    a, b = [], []
    for _ in range(rng.randint(1, 3)):
        fn, sd = rng.choice(READ), rng.random()
        a.append((fn.__name__, (lambda r, fn=fn: fn(alone(), r)), sd))
        b.append((fn.__name__, (lambda r, fn=fn: fn(docs(k), r)), sd))
    return a, b


def shared_file(p, real=False):
    """ Its locks are to be known to the scheduler. """
    old = {} if real else sched.install(threaded_file)
    try:
        return ThreadAwareFile(str(p), 'rb')
    finally:
        sched.restore(threaded_file, old)


def one_document(ctx, rng, i):
    """ One document on a ThreadAwareFile, read by all. """
    _m, schema, data, p = material(ctx, rng, i)
    f = shared_file(p)
    h = rng.random() < .5
    doc = schema.load(f, name='x', headers=h)
    try:
        teams = [readers(rng, k, lambda: schema.load(str(p), name='x', headers=h), lambda k: doc)
                 for k in range(rng.choice([2, 2, 3, 4]))]
        t = compete(ctx, rng, teams)
    finally:
        f.closeAll()
    ctx.ev('shared document')
    ctx.case(repr((i, t[:2000])), '%d threads on one document of %d bytes, %d points' % (len(teams), len(data), len(t)))


def own_documents(ctx, rng, i):
    """ Each thread its own document, sharing the schema and perhaps the file. """
    _m, schema, data, p = material(ctx, rng, i)
    kind = rng.choice(['taf', 'taf', 'bytes', 'path'])
    f = shared_file(p)

    def fresh(_k=None):
        if kind == 'taf':
            f.seek(0)
            return schema.load(f, name='x', headers=True)
        return schema.load(io.BytesIO(data) if kind == 'bytes' else str(p), name='x', headers=True)
    try:
        src = (lambda: io.BytesIO(data)) if kind == 'bytes' else lambda: str(p)
        teams = [readers(rng, k, lambda: schema.load(src(), name='x', headers=True), fresh)
                 for k in range(rng.choice([2, 2, 3]))]
        t = compete(ctx, rng, teams)
    finally:
        f.closeAll()
    ctx.case(repr((i, t[:2000])), '%d threads, own documents from %s, %d points' % (len(teams), kind, len(t)))


def o_len(e, r):
    return len(e) if hasattr(e, '__len__') else None


def o_value(e, r):
    v = e.value
    return [(c.name, c.offset, c.size) for c in v] if isinstance(e, core.MasterElement) else repr(v)


def o_index(e, r):
    if not isinstance(e, core.MasterElement):
        return repr(e.value)
    k = r.choice([0, 1, -1])
    return outcome(lambda: sig(e[k]))


def o_nested(e, r):
    return [(c.name, o_len(c, r), o_value(c, r)) for c in e.value] if isinstance(e, core.MasterElement) else None


def o_raw(e, r):
    return e.getRaw(), e.getRawValue()


ONE = [o_len, o_len, o_value, o_value, o_index, o_nested, o_raw, lambda e, r: sig(e), lambda e, r: repr(e.dump()), lambda e, r: e.size]


def shared_elements(ctx, rng, i, real=False):
    """ A few element objects, looked at by all threads at once. """
    _m, schema, data, p = material(ctx, rng, i, budget=rng.choice([15, 30]))
    path = [rng.randrange(1 << 20) for _ in range(3)]
    unsized = rng.random() < .4

    def hot(doc):
        """ The elements, freshly made. """
        els, out = list(doc), []
        for k in path:
            if not els:
                break
            m = [e for e in els if isinstance(e, core.MasterElement)] or els
            e = m[k % len(m)]
            if unsized and isinstance(e, core.MasterElement):
                e = type(e)(doc.stream, e.offset, None, e.payloadOffset)
            out.append(e)
            if isinstance(e, core.MasterElement):
                # its children made by another object, so that nothing is cached yet
                els = list(type(e)(doc.stream, e.offset, e.size if not unsized else None, e.payloadOffset))
            if unsized and isinstance(e, core.MasterElement):
                out[-1] = type(e)(doc.stream, e.offset, None, e.payloadOffset)
        return out
    f = shared_file(p, real)
    try:
        shared = hot(schema.load(f, name='x', headers=True))
        teams = []
        for _ in range(rng.choice([2, 2, 3, 4])):
            a, b = [], []
            for _ in range(rng.randint(1, 4)):
                if not shared:
                    break
                fn, sd, k = rng.choice(ONE), rng.random(), rng.randrange(len(shared))
                a.append((fn.__name__, (lambda r, fn=fn, k=k: fn(hot(schema.load(str(p), name='x', headers=True))[k], r)), sd))
                b.append((fn.__name__, (lambda r, fn=fn, k=k: fn(shared[k], r)), sd))
            teams.append((a, b))
        t = compete(ctx, rng, teams, real=real)
    finally:
        f.closeAll()
    ctx.ev('shared elements', len(shared))
    ctx.case(repr((i, t[:2000])), '%d threads on %d elements of a document of %d bytes, %d points' % (len(teams), len(shared), len(data), len(t)), bool(shared))


def work(rng, models, schemata, p):
    """ A job of encoding, converting, verifying or loading. """
    k = rng.randrange(len(models))
    model, schema = models[k], schemata[k]
    kind = rng.choice(['encode', 'encode', 'xml', 'import', 'import', 'verify', 'load', 'parse', 'list', 'print', 'id',
                       'unknown', 'refused', 'codec', 'header'])
    if kind in ('encode', 'xml', 'import', 'verify', 'unknown'):
        tree = gen.gen_tree(rng, model, budget=12, big=False)
        data, order = gen.api_data(rng, tree, root=True)
        if kind == 'encode':
            return kind, lambda r: schema.encodes(data, headers=True)
        blob = b''.join(n.bytes() for n in order)
        if kind == 'verify':
            blob = blob + (b'\x81\x81x' if rng.random() < .3 and 0x81 not in model.byId else b'')
            return kind, lambda r: schema.verify(blob)
        if kind == 'unknown':
            for eid in rng.sample(range(0x5000, 0x5100), 2):
                if eid not in model.byId:
                    blob += eid.to_bytes(2, 'big') + b'\x83' + rng.randbytes(3)
        if kind == 'xml':
            return kind, lambda r: ET.tostring(util.toXml(schema.loads(blob)))

        def back(r):
            out = io.BytesIO()
            n = util.xml2ebml(util.toXml(schema.loads(blob)), out, schema, headers=False)
            return n, out.getvalue()
        return kind, back
    if kind == 'load':
        name = rng.choice(['matroska.xml', 'mide_ide.xml', '{ebmlite.schemata}/mide_manifest.xml', str(p)])
        rl = rng.random() < .4
        return kind, lambda r: summary(core.loadSchema(name, reload=rl))
    if kind == 'parse':
        return kind, lambda r: summary(core.parseSchema(model.xml, name='nm%d' % k, reload=r.random() < .5))
    if kind == 'list':
        return kind, lambda r: repr(sorted(core.listSchemata().items()))
    if kind == 'print':
        def pr(r):
            out = io.StringIO()
            util.printSchemata([str(p.parent)], out)
            return sorted(out.getvalue().splitlines())
        return kind, pr
    if kind == 'id':
        return kind, lambda r: util.createID(schema, r.choice('ABD'), exclude=[0x4080, 0x82], count=3)
    if kind == 'refused':
        x = ET.fromstring('<%s><nosuch/></%s>' % (schema.document.__name__, schema.document.__name__))
        return kind, lambda r: (outcome(lambda: schema.encodes({'nosuch': 1})),
                                outcome(lambda: util.xml2ebml(x, io.BytesIO(), schema, headers=False)),
                                outcome(lambda: schema['nosuch']))
    if kind == 'header':
        return kind, lambda r: schema.loads(schema.encodes({}, headers=True)).info
    blob = rng.randbytes(rng.randint(0, 40))

    def codec(r):
        c = r.choice([xml_codecs.HexCodec(width=2, cols=8, offsets=True), xml_codecs.Base64Codec(cols=12)])
        t = c.encode(blob, indent='  ')
        return t, bytes(c.decode(t))
    return kind, codec


def summary(schema):
    return [(i, c.name, c.__mro__[1].__name__, c.multiple, c.mandatory, c.precache, c.length, sorted(c.children or ()))
            for i, c in sorted(schema.elements.items())], schema.name, sorted(schema.globals), sorted(schema.children)


def strip(path, model):
    path.write_text(model.xml, encoding='utf8')


def shared_schema(ctx, rng, i, real=False):
    models = [gen.gen_schema(rng, length_p=.05) for _ in range(rng.choice([1, 2]))]
    schemata = [obs.schema(m, 'nm') for m in models]
    p = ctx.dir / ('s%d.xml' % (i % 5))
    strip(p, models[0])
    core.SCHEMATA.clear()
    teams = []
    for _ in range(rng.choice([2, 2, 3, 4])):
        jobs = []
        for _ in range(rng.randint(1, 4)):
            label, fn = work(rng, models, schemata, p)
            if label == 'load' and not real and rng.random() < .7:
                continue                # long under the scheduler
            jobs.append((label, fn, rng.random()))
        teams.append((jobs, jobs))
    t = compete(ctx, rng, teams, real=real)
    core.SCHEMATA.clear()
    ctx.case(repr((i, t[:2000])), '%s' % [[j[0] for j in a] for a, _ in teams])


SAMPLES = [('SSX46714-doesnot.IDE', 'mide_ide.xml')]


def stress(ctx, rng, i):
    if i % 3 == 2:
        return shared_schema(ctx, rng, i, real=True)
    if i % 6 == 4:
        return shared_elements(ctx, rng, i, real=True)
    name, sch = SAMPLES[0]
    if i % 6 == 0:
        schema, p = core.loadSchema(sch), REPO / 'tests' / name
        if not p.exists():
            raise Inconclusive('sample file missing')
        jobs = [j_info, j_values, j_index]
    else:
        _m, schema, _d, p = material(ctx, rng, 'stress', budget=rng.choice([25, 60]))
        jobs = READ
    f = ThreadAwareFile(str(p), 'rb')
    doc = schema.load(f, name='x')
    one = rng.random() < .5

    def get(_k):
        if one:
            return doc
        f.seek(0)
        return schema.load(f, name='x')
    teams = []
    for k in range(rng.randint(3, 8)):
        a, b = [], []
        for _ in range(2):
            fn, sd = rng.choice(jobs), rng.random()
            a.append((fn.__name__, (lambda r, fn=fn: fn(schema.load(str(p), name='x'), r)), sd))
            b.append((fn.__name__, (lambda r, fn=fn, k=k: fn(get(k), r)), sd))
        teams.append((a, b))
    try:
        compete(ctx, rng, teams, real=True)
    finally:
        f.closeAll()
    ctx.case((i, p.name, len(teams)), '%d free threads on %s' % (len(teams), p.name))


SECTIONS = [Section('one document', one_document, 40, 400), Section('own documents', own_documents, 40, 400),
            Section('shared elements', shared_elements, 60, 600),
            Section('shared schema', shared_schema, 60, 600), Section('stress', stress, 60, 600)]
