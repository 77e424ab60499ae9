""" C30: files are closed, and memory is released, when an operation or document ends. """
import gc
import io
import os
import pathlib
import shutil
import tempfile
import threading
import tracemalloc
import weakref
from xml.etree import ElementTree as ET

from vlib import gen, obs, ref
from vlib.mon import Section, short
from ebmlite import core, util
from ebmlite.threaded_file import ThreadAwareFile

LEVEL = 'exploration'
RULE = """'handles': random operations that open files themselves (documents by path, closed, left by an exception, lost or refused;
schemata loaded, refused or listed; conversions from and to files that succeed or fail at any stage; ThreadAwareFiles in several threads)
run in a scratch folder with the garbage collector off and errors kept alive; /proc/self/fd must show exactly the files that the
caller, or a document still open, holds, and the folder and the temporary folder nothing but the output named. 'released': documents,
streams, elements and the contents of values are tracked (weak references, the collector's list of objects, tracemalloc) through random uses, failures included,
and must be gone once they are dropped or the caches cleared. 'repeated': each operation repeated with ever new documents must not
need more memory, handles or threads. Non-trivial: at least one file opened, object tracked or repetition. Distinct: operations and documents."""
REQUIRE = {'operation': 2500, 'failed operation': 600, 'document closed': 300, 'conversion': 300, 'failed conversion': 150, 'threads': 40,
           'tracked object': 3000, 'value released': 25, 'children released': 200, 'repetition': 500}


def held(d):
    """ The files of a folder that are open, as often as they are. """
    out, d = [], str(d)
    for fd in os.listdir('/proc/self/fd'):
        try:
            to = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            continue
        if to.startswith(d + os.sep):
            out.append(to[len(d) + 1:])
    return sorted(out)


def tree(d):
    return sorted(str(p.relative_to(d)) for p in d.rglob('*'))


BAD_SCHEMATA = ['', '<Schema>', '<Other/>', '<Schema><UIntegerElement name="A" id="zz"/></Schema>', '<Schema><UIntegerElement name="A"/></Schema>',
                '<Schema><FooElement name="A" id="0x81"/></Schema>', '<table><element name="A" id="0x81" type="foo"/></table>',
                '<Schema><UIntegerElement name="A" id="0x81"/><StringElement name="A" id="0x81"/></Schema>',
                '<Schema><UIntegerElement name="A" id="0x81"/><MasterElement name="B" id="0x82"><UIntegerElement name="C" id="0x81"/></MasterElement></Schema>',
                '<Schema><UIntegerElement name="A" id="0x81" precache="maybe"/></Schema>', '\x00\x01\x02', '<?xml version="1.0" encoding="nope"?><Schema/>']


class Oops(Exception):
    pass


def handles(ctx, rng, i):
    model = gen.gen_schema(rng, header=rng.random() < .6)
    schema = obs.schema(model)
    roots = gen.gen_layout(rng, model, budget=rng.choice([5, 20]), big=False, infinite=False, controls=0)
    data = gen.to_bytes(roots)
    base = pathlib.Path(os.path.realpath(tempfile.mkdtemp(dir=ctx.dir)))
    d = base / 'files'
    d.mkdir()
    tmp = base / 'tmp'
    tmp.mkdir()
    (d / 'doc.ebml').write_bytes(data)
    (d / 's.xml').write_text(model.xml, encoding='utf-8')
    (d / 'garbage').write_bytes(rng.randbytes(50))
    (d / 'folder').mkdir()
    x = util.toXml(schema.load(io.BytesIO(data), headers=True))
    (d / 'doc.xml').write_bytes(ET.tostring(x, encoding='utf-8'))
    for k, el in enumerate(rng.sample(list(x.iter())[1:], min(3, len(x)))):
        # wrong at some place
        how = rng.choice(['value', 'name', 'codec', 'sizeLength', 'size'])
        old, tag = dict(el.attrib), el.tag
        if how == 'name':
            el.tag = 'NoSuchElement'
            el.attrib.pop('id', None)
        else:
            el.set({'value': 'value', 'codec': 'encoding'}.get(how, how), 'x y')
        (d / ('wrong%d.xml' % k)).write_bytes(ET.tostring(x, encoding='utf-8'))
        el.attrib.clear()
        el.attrib.update(old)
        el.tag = tag
    (d / 'wrongroot.xml').write_text('<Nope/>')
    (d / 'cut.xml').write_bytes(ET.tostring(x, encoding='utf-8')[:-5])
    for k, text in enumerate(rng.sample(BAD_SCHEMATA, 4)):
        (d / ('bad%d.xml' % k)).write_text(text)
    os.mkfifo(d / 'pipe')
    pipe = os.open(d / 'pipe', os.O_RDWR)
    mine = ['pipe']
    ctx.note('schema %s, data %s' % (model.xml, data.hex()[:2000]))
    errors, log, outputs, docs = [], [], {p: 1 for p in tree(d)}, []

    def P(name):
        return gen.path_form(rng, d / name)

    def xml_name():
        return rng.choice(['doc.xml'] * 8 + [p for p in outputs if p.startswith('wrong')] + ['cut.xml', 'none.xml', 'folder', 'garbage'])

    def open_doc():
        name = rng.choice(['doc.ebml', 'doc.ebml', 'garbage', 's.xml'])
        how = rng.choice(['load', 'document', 'call'])
        doc = {'load': schema.load, 'document': schema.document, 'call': schema}[how](P(name))
        docs.append((doc, name))
        mine.append(name)
        return how, name

    def close_doc():
        if not docs:
            return
        doc, name = docs.pop(rng.randrange(len(docs)))
        mine.remove(name)
        how = rng.choice(['close', 'twice', 'with', 'raise', 'lost', 'read', 'generator'])
        log.append('%s %s' % (how, name))
        ctx.ev('document closed')
        if how in ('read', 'generator'):
            try:
                g = iter(doc)
                el = next(g)
                for _ in util.flatiter(doc):
                    pass
            except Exception as ex:
                errors.append(ex)
            if how == 'generator':
                g = next(iter(util.flatiter(doc)), None) if name == 'doc.ebml' else None
            doc.close()
        elif how == 'with':
            with doc as e:
                if rng.random() < .5:
                    e.close()
        elif how == 'raise':
            try:
                with doc:
                    list(doc)
                    raise Oops()
            except Exception as ex:
                errors.append(ex)
        elif how == 'lost':
            # nothing of it has been read: it goes at once, or with a collection
            del doc
            gc.collect()
        else:
            doc.close()
            if how == 'twice':
                doc.close()
        return how

    def bad_doc():
        return schema.load(P(rng.choice(['none', 'folder', 'pipe', 'doc.ebml/x'])))

    def load_schema():
        name = rng.choice(['s.xml', 'bad0.xml', 'bad1.xml', 'bad2.xml', 'bad3.xml', 'none.xml', 'folder', 'garbage', 'doc.xml'])
        log.append(name)
        how = rng.choice(['load', 'reload', 'Schema', 'paths', 'parse'])
        if how == 'Schema':
            core.Schema(P(name))
        elif how == 'paths':
            core.loadSchema(name, paths=[str(d)])
        elif how == 'parse':
            with open(d / name, rng.choice(['r', 'rb'])) as f:
                try:
                    core.parseSchema(f, name='c30-%d' % i, reload=True)
                finally:
                    ctx.check(not f.closed, 'parseSchema() closed the stream given')
        else:
            core.loadSchema(P(name), reload=how == 'reload')

    def list_schemata():
        got = core.listSchemata(str(d))
        ctx.check('s.xml' in got or '<table' in model.xml, 's.xml is not listed: %s', got)

    def print_schemata():
        outputs['list.txt'] = 1
        util.printSchemata(paths=[str(d)] + rng.choice([[], [5]]), out=P('list.txt'))

    def convert():
        src, out = xml_name(), rng.choice(['out.ebml', 'out2.ebml'] * 3 + ['folder', 'folder/none/x', None, None])
        sch = rng.choice([schema] * 4 + [P('s.xml')] * 2 + [P('bad0.xml'), P('none.xml')])
        log.append('%s to %s by %s' % (src, out, 'object' if sch is schema else sch))
        source = rng.choice([P(src), P(src), None])
        if out and out.startswith('out'):
            outputs[out] = 1
        if source is None:
            source = open(d / src, 'rb')
            mine.append(src)
        target = io.BytesIO() if out is None else P(out)
        ctx.ev('conversion')
        try:
            util.xml2ebml(source, target, sch, headers=rng.random() < .5, unknown=rng.random() < .8)
        except Exception:
            ctx.ev('failed conversion')
            raise
        finally:
            if hasattr(source, 'close'):
                ctx.check(not source.closed, 'xml2ebml() closed its source')
                source.close()
                mine.remove(src)
            if out is None:
                ctx.check(not target.closed, 'xml2ebml() closed its target')
                target.write(b'x')

    def load_xml():
        src = xml_name()
        to = rng.choice([':memory:', 'xml.ebml'])
        log.append('%s by %s' % (src, to))
        if to == 'xml.ebml':
            outputs[to] = 1
            to = P(to)
        doc = util.loadXml(P(src), rng.choice([schema, P('s.xml')]), to)
        list(doc)
        if to == ':memory:':
            doc.close()
            ctx.check(not doc.stream.closed, 'closed the stream') if doc._ownsStream is False else None
        else:
            ctx.eq(held(d), sorted(mine + ['xml.ebml']), 'loadXml(): open files')
            doc.close()

    def encode():
        outputs['enc.ebml'] = 1
        with open(d / 'enc.ebml', 'wb') as f:
            try:
                schema.encode(f, rng.choice([{}, {'NoSuchElement': 1}, [('NoSuchElement', 2)], 5]), headers=rng.random() < .5)
            finally:
                ctx.check(not f.closed, 'encode() closed its output')

    def aware():
        kind = rng.choice(['named', 'made'])
        f = open(d / 'doc.ebml', 'rb', buffering=0) if kind == 'made' else None
        t = ThreadAwareFile.makeThreadAware(f) if f else ThreadAwareFile(str(d / 'doc.ebml'), 'rb')
        doc = schema.load(t, headers=True)
        n = rng.choice([1, 3, 5])
        own = [rng.random() < .5 for _ in range(n)]
        bar, go = threading.Barrier(n + 1), threading.Event()
        bad = []

        def work(k):
            try:
                for e in util.flatiter(doc):
                    e.value
                t.read(1)
                if own[k]:
                    t.close()
            except Exception as ex:
                bad.append(ex)
            bar.wait(60)
            go.wait(60)
        ths = [threading.Thread(target=work, args=(k,)) for k in range(n)]
        for th in ths:
            th.start()
        bar.wait(60)
        now = held(d)
        go.set()
        for th in ths:
            th.join(60)
        ctx.check(not bad, 'a thread failed: %r', bad)
        ctx.eq(now, sorted(mine + ['doc.ebml'] * (1 + own.count(False))), 'open files, %d threads of which %d closed theirs' % (n, sum(own)))
        doc.close()
        ctx.check(not t.closed, 'the document closed a ThreadAwareFile it did not open')
        t.closeAll()
        ctx.ev('threads')
        ctx.eq(held(d), sorted(mine), 'closeAll(): open files')

    ops = [open_doc, open_doc, close_doc, close_doc, close_doc, bad_doc, load_schema, load_schema, list_schemata, print_schemata, convert, convert, convert,
           load_xml, encode, aware]
    old, auto = tempfile.tempdir, gc.isenabled()
    known = dict(core.SCHEMATA)
    threads = threading.active_count()
    tempfile.tempdir = str(tmp)
    gc.disable()
    try:
        for _ in range(14):
            op = rng.choice(ops)
            log.append(op.__name__)
            try:
                op()
            except (Exception, SystemExit) as ex:
                if type(ex).__module__ == 'vlib.mon':
                    raise
                errors.append(ex)
                log.append('failed: %r' % ex)
                ctx.ev('failed operation')
            ctx.ev('operation')
            ctx.eq(held(d), sorted(mine), 'open files after %s' % short(log[::-1][:4], 500))
            ctx.check(set(tree(d)) <= set(outputs), 'left behind by %s: %s', short(log[::-1][:4], 500), set(tree(d)) - set(outputs))
            ctx.check(not tree(tmp), 'temporary files left by %s: %s', short(log[::-1][:4], 500), tree(tmp))
        ctx.eq((d / 'doc.ebml').read_bytes(), data, 'the document')
        while docs:
            close_doc()
        ctx.eq(held(d), ['pipe'], 'open files at the end')
        ctx.eq(threading.active_count(), threads, 'threads')
    finally:
        os.close(pipe)
        for doc, _n in docs:
            doc.stream.close()
        if auto:
            gc.enable()
        tempfile.tempdir = old
        for k in [k for k in core.SCHEMATA if k not in known]:
            del core.SCHEMATA[k]
        errors.clear()
        shutil.rmtree(base)
    ctx.case(data + repr(log).encode(), '%d operations: %s' % (14, short(log, 200)))


class Bytes(io.BytesIO):
    """ Can be tracked. """


def use(rng, schema, doc, things, fails):
    """ Something done with a document; `things` gets what came of it. """
    n = rng.randrange(12)
    if n == 0:
        things += list(util.flatiter(doc))
    elif n == 1:
        for e in doc:
            things.append(e)
            e.value
    elif n == 2:
        doc.dump()
    elif n == 3:
        util.toXml(doc)
    elif n == 4:
        util.pprint(doc, out=io.StringIO())
    elif n == 5:
        g = iter(doc)
        things.append(next(g, None))
    elif n == 6:
        len(doc)
        for e in doc:
            e.getRaw()
            things.append(e)
            if isinstance(e, core.MasterElement):
                len(e)
                things += e.value
    elif n == 7:
        a, b = list(doc), list(schema.load(Bytes(doc.stream.getvalue()), headers=True))
        a == b, repr(a)
        things += a + b
    elif n == 8:
        schema.verify(doc.stream.getvalue())
    elif n == 9:
        for e in list(doc):
            e.value
            things.append(e)
            e.gc(recurse=rng.random() < .5)
    elif n == 10:
        out = Bytes()
        util.xml2ebml(util.toXml(doc), out, schema, headers=False)
        things.append(out)
    else:
        doc['x']


def released(ctx, rng, i):
    model = gen.gen_schema(rng)
    schema = obs.schema(model)
    roots = gen.gen_layout(rng, model, budget=rng.choice([6, 25, 60]), big=False, controls=0)
    data = gen.to_bytes(roots)
    cut = rng.random() < .3
    if cut:
        data = data[:rng.randint(0, len(data))]
    ctx.note('schema %s, data %s' % (model.xml, data.hex()[:3000]))
    stream = Bytes(data)
    doc = schema.load(stream, headers=True)
    things, refs = [doc, stream], []
    for _ in range(rng.choice([1, 3, 6])):
        try:
            use(rng, schema, doc, things, refs)
        except Exception:
            ctx.ev('failed use')
    n = len(things)
    for t in [doc, stream]:
        refs.append((weakref.ref(t), type(t).__name__))
    ctx.ev('tracked object', 2 + len({id(t) for t in things if isinstance(t, core.Element)}))
    things.clear()
    del doc, stream, t
    gc.collect()
    left = [n for r, n in refs if r() is not None]
    ctx.check(not left, 'kept after all was dropped: %s', left)
    left = [o for o in gc.get_objects() if isinstance(o, core.Element) and getattr(o, 'schema', None) is schema]
    ctx.check(not left, '%d elements are kept after all was dropped: %s', len(left), short(left))
    # clearing caches
    doc = schema.load(Bytes(data), headers=True)
    tops = []
    try:
        for e in doc:
            tops.append(e)
    except Exception:
        pass
    deep = ch = None
    for e in tops:
        if isinstance(e, core.MasterElement):
            try:
                deep = list(e.value)
                while deep:
                    ch = deep.pop()
                    if isinstance(ch, core.MasterElement):
                        deep += ch.value
                ch = None
            except Exception:
                pass
            e.gc(recurse=rng.random() < .5)
            ctx.ev('children released')
    del deep, ch
    gc.collect()
    left = [o for o in gc.get_objects() if isinstance(o, core.Element) and getattr(o, 'schema', None) is schema and not isinstance(o, core.Document)
            and not any(o is e for e in tops)]
    ctx.check(not left, '%d children are kept after clearing caches: %s', len(left), short(left))
    left = o = e = None
    leaf = [m for m in model.byId.values() if m.kind in ('bin', 'str', 'utf8') and not m.precache] if rng.random() < .25 else []
    if leaf and not cut:
        m = rng.choice(leaf)
        n = rng.choice([1 << 19, 1 << 21])
        raw = gen.Node(m, payload=b'z' * n, value=None).bytes()
        el = next(iter(schema.load(Bytes(raw), headers=True)))
        gc.collect()
        tracemalloc.start()
        try:
            a = tracemalloc.get_traced_memory()[0]
            el.value
            b = tracemalloc.get_traced_memory()[0]
            cleared = el.gc()
            gc.collect()
            c = tracemalloc.get_traced_memory()[0]
            for _ in range(3):
                el.getRaw(), el.getRawValue()
            gc.collect()
            e = tracemalloc.get_traced_memory()[0]
        finally:
            tracemalloc.stop()
        if b - a > n // 2:
            ctx.check(cleared == 1 and c - a < n // 4, 'a value of %d bytes: %d bytes after reading, %d after gc()', n, b - a, c - a)
            ctx.ev('value released')
        ctx.check(e - a < n // 4, 'raw data of %d bytes: %d kept', n, e - a)
    ctx.case(data, '%d bytes, %d tracked' % (len(data), n), n > 2)


def big_doc(rng, model, k):
    """ A document of some 100 elements and 20 KB, different every time. """
    leaves = [m for m in model.byId.values() if m.kind != 'master' and m.ekind != 'void' and (m.length is None)]
    masters = [m for m in model.byId.values() if m.kind == 'master' and m.name != 'EBML']
    nodes = []
    for j in range(60):
        m = rng.choice(leaves)
        v = gen.gen_value(rng, m, False)
        nodes.append(gen.Node(m, payload=gen.encoded_payload(m, v), value=v))
    texts = [m for m in leaves if m.kind in ('bin', 'str', 'utf8')]
    for j in range(4):
        if texts:
            m = rng.choice(texts)
            nodes.append(gen.Node(m, payload=(b'%d.%d ' % (k, j)) * 900, value=None))
    if masters:
        nodes = [gen.Node(rng.choice(masters), children=nodes), gen.Node(rng.choice(masters), children=nodes[:5])]
    return gen.to_bytes(nodes)


def repeated(ctx, rng, i):
    model = gen.gen_schema(rng)
    schema = obs.schema(model)
    path = ctx.dir / 'doc.ebml'
    path.write_bytes(b'')
    what = ['crawl', 'values', 'dump', 'xml', 'pprint', 'verify', 'path', 'equal', 'cut', 'encode', 'aware', 'copy', 'failing source'][i % 13]
    n = 40
    docs = [big_doc(rng, model, k) for k in range(n + 12)]
    if not docs[0]:
        return
    ctx.note('%s, schema %s' % (what, model.xml))

    def crawl(b):
        doc = schema.load(io.BytesIO(b), headers=True)
        if what == 'crawl':
            list(util.flatiter(doc))
        elif what == 'values':
            for e in util.flatiter(doc):
                e.value, e.getRaw(), hash if e.size else None
        elif what == 'dump':
            doc.dump()
        elif what == 'xml':
            util.xml2ebml(util.toXml(doc), io.BytesIO(), schema, headers=False)
        elif what == 'pprint':
            util.pprint(doc, out=io.StringIO())
        elif what == 'verify':
            schema.verify(b)
        elif what == 'path':
            path.write_bytes(b)
            with schema.load(str(path)) as d:
                [e.value for e in d]
        elif what == 'equal':
            list(doc) == list(schema.loads(b))
        elif what == 'cut':
            try:
                for e in util.flatiter(schema.loads(b[:-7])):
                    e.value
            except Exception:
                pass
        elif what == 'encode':
            data = [(e.name, e.dump()) for e in doc if e.name != 'UnknownElement']
            try:
                schema.encodes(data, headers=True)
                schema.encodes(data + [('NoSuchElement', 1)])
            except Exception:
                pass
        elif what == 'aware':
            path.write_bytes(b)
            t = ThreadAwareFile(str(path), 'rb')
            list(util.flatiter(schema.load(t)))
            th = threading.Thread(target=lambda: (list(util.flatiter(schema.load(t))), t.close()))
            th.start()
            th.join(60)
            t.close()
        elif what == 'copy':
            out = io.BytesIO()
            for e in doc:
                out.write(e.getRaw())
        else:
            src = obs.Stream(b)
            real, left = src.read, [rng.randrange(1, 60)]

            def read(*a):
                left[0] -= 1
                if left[0] == 0:
                    raise OSError('fault')
                return real(*a)
            src.read = read
            try:
                for e in util.flatiter(schema.load(src)):
                    e.value
            except Exception:
                pass

    for b in docs[:12]:
        crawl(b)
    gc.collect()
    fds, ths = len(os.listdir('/proc/self/fd')), threading.active_count()
    tracemalloc.start()
    try:
        gc.collect()
        a = tracemalloc.get_traced_memory()[0]
        for b in docs[12:]:
            crawl(b)
        gc.collect()
        grown = tracemalloc.get_traced_memory()[0] - a
    finally:
        tracemalloc.stop()
    limit = sum(map(len, docs[12:])) // 4
    ctx.check(grown < max(limit, 60000), '%s: %d documents of %d bytes left %d bytes of memory in use', what, n, len(docs[-1]), grown)
    ctx.eq(len(os.listdir('/proc/self/fd')), fds, what + ': open files')
    ctx.eq(threading.active_count(), ths, what + ': threads')
    ctx.ev('repetition', n)
    ctx.case(docs[-1] + what.encode(), '%s, %d bytes each, %d bytes more' % (what, len(docs[-1]), grown))


SECTIONS = [Section('handles', handles, 250), Section('released', released, 400), Section('repeated', repeated, 39)]
