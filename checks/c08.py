""" C08: every kind of source gives the same document; ownership of the stream. """
import gc as _gc
import gzip
import io
import mmap
import os
import pathlib
import tempfile
import zipfile

from vlib import gen, obs, ref
from vlib.mon import Section
from ebmlite import core
from ebmlite.threaded_file import ThreadAwareFile

LEVEL = 'exploration'
RULE = """A case opens one generated document through every kind of source (path, Path, buffered and raw files, named,
int-named and spooled temporary files, BytesIO, mmap, gzip, zip member, minimal and recording custom streams,
ThreadAwareFile), at the start or after foreign bytes, compares all elements with the reference and monitors
whether the source gets closed by close(), 'with', an exception inside 'with', or losing the document.
Non-trivial: at least one element. Distinct: bytes, kind and start."""
REQUIRE = {'source opened': 1000, 'closed by document': 40, 'left open': 400, 'element': 2000, 'refused': 60,
           'odd path': 40, 'standard input': 20}


class Minimal:
    """ Nothing but read, seek and tell; seek takes only a position. """

    def __init__(self, data):
        self._b = io.BytesIO(data)

    def read(self, n):
        return self._b.read(n)

    def seek(self, pos):
        return self._b.seek(pos)

    def tell(self):
        return self._b.tell()


def sources(ctx, path, data):
    """ (kind, opener, is it the document that opens the file) """
    def temp(cls, **kw):
        def f():
            t = cls(dir=str(ctx.dir), **kw)
            t.write(data)
            t.seek(0)
            return t
        return f

    def gz():
        with gzip.open(str(path) + '.gz', 'wb') as f:
            f.write(data)
        return gzip.open(str(path) + '.gz', 'rb')

    def zp():
        with zipfile.ZipFile(str(path) + '.zip', 'w') as z:
            z.writestr('member.ebml', data)
        return zipfile.ZipFile(str(path) + '.zip').open('member.ebml')

    def mm():
        with open(path, 'rb') as f:
            return mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ)

    def aware():
        f = open(path, 'rb')
        t = ThreadAwareFile.makeThreadAware(f)
        return t

    return [('str', lambda: str(path), True), ('Path', lambda: pathlib.Path(path), True),
            ('str subclass', lambda: gen.Name(path), True), ('Path subclass', lambda: gen.Place(path), True),
            ('file', lambda: open(path, 'rb'), False), ('r+b', lambda: open(path, 'r+b'), False),
            ('raw', lambda: open(path, 'rb', buffering=0), False),
            ('fd', lambda: os.fdopen(os.open(path, os.O_RDONLY), 'rb'), False),
            ('named temp', temp(tempfile.NamedTemporaryFile), False),
            ('temp', temp(tempfile.TemporaryFile), False),
            ('raw temp', temp(tempfile.TemporaryFile, buffering=0), False),
            ('spooled', temp(tempfile.SpooledTemporaryFile, max_size=1 << 22), False),
            ('BytesIO', lambda: io.BytesIO(data), False),
            ('BufferedReader', lambda: io.BufferedReader(io.BytesIO(data)), False),
            ('minimal', lambda: Minimal(data), False), ('recording', lambda: obs.Stream(data), False),
            ('gzip', gz, False), ('zip', zp, False)] + \
        ([('mmap', mm, False)] if data else []) + \
        [('ThreadAwareFile', lambda: ThreadAwareFile(str(path), 'rb'), False),
         ('makeThreadAware', aware, False)]


def is_closed(s):
    if isinstance(s, Minimal):
        return s._b.closed
    return s.closed


def odd_paths(ctx, rng, model, schema, data, refs):
    """ A file is found by whatever path leads there. """
    d = ctx.dir / 'odd'
    d.mkdir()
    text, real, how = gen.odd_file(rng, d, 'doc.ebml', data)
    # what a careless treatment of the path might find instead
    for p in {d / 'doc.ebml', d / 'sub' / 'doc.ebml', d / 'x' / 'doc.ebml'}:
        if p.parent.exists() and not p.exists():
            p.write_bytes(b'\xEC\x81\x00' * 3)
    cwd = os.getcwd()
    name = text
    if rng.random() < .4:
        os.chdir(d)
        name = text[len(str(d)):].lstrip('/')
        if rng.random() < .3:
            name = './' + name
    kind = rng.choice(['str', 'Path', 'file', 'ThreadAwareFile', 'raw'])
    ctx.note('%s %r (%s), data=%s, schema=%s' % (kind, name, how, data.hex()[:2000], model.xml))
    try:
        src = {'str': lambda: gen.as_str(rng, name), 'Path': lambda: gen.as_path(rng, name), 'file': lambda: open(name, 'rb'),
               'raw': lambda: open(name, 'rb', buffering=0), 'ThreadAwareFile': lambda: ThreadAwareFile(name, 'rb')}[kind]()
        doc = schema.load(src, headers=True)
        os.chdir(cwd)
        obs.check_list(ctx, list(doc), refs, '%s, path by %s' % (kind, how))
        ctx.ev('odd path')
        doc.close()
        if hasattr(src, 'close'):
            ctx.check(not src.closed, '%s: closed by the document', kind)
            src.close()
    finally:
        os.chdir(cwd)
    ctx.check(real.read_bytes() == data, 'the file changed')


def one(ctx, rng, i):
    model = gen.gen_schema(rng)
    schema = obs.schema(model)
    body = gen.to_bytes(gen.gen_layout(rng, model, controls=.15, big=rng.random() < .2, budget=25, huge=.1))
    pre = rng.randbytes(rng.choice([0, 0, 1, 50, 9000]))
    data = pre + body
    refs = ref.parse(data, model, len(pre))
    p = ctx.dir / 'doc.ebml'
    p.write_bytes(data)
    hidden = refs[1:] if refs and refs[0].name == 'EBML' else refs
    if not pre:
        odd_paths(ctx, rng, model, schema, data, refs)
    for kind, opener, owned in sources(ctx, p, data):
        if owned and pre:
            continue
        headers = rng.random() < .7
        want = refs if headers else hidden
        src = opener()
        if pre:
            src.seek(len(pre))
        how = rng.randrange(3)
        make = [lambda: schema.load(src, headers=headers), lambda: schema.document(src, headers=headers),
                lambda: schema(src) if not headers else schema.load(src, headers=headers)][how]
        ctx.note('%s, start %d, data=%s, schema=%s' % (kind, len(pre), data.hex()[:2000], model.xml))
        doc = make()
        ctx.ev('source opened')
        ctx.check(doc.offset == len(pre), '%s: document offset is %r, expected %d', kind, doc.offset, len(pre))
        els = list(doc)
        obs.check_list(ctx, els, want, 'document from ' + kind, raw=rng.random() < .3)
        end = rng.choice(['close', 'close twice', 'with', 'raise', 'drop'])
        stream = doc.stream
        if end == 'close':
            doc.close()
        elif end == 'close twice':
            doc.close()
            doc.close()
        elif end == 'with':
            with doc as d:
                ctx.check(d is doc, '%s: "with" gives %r', kind, d)
                obs.check_list(ctx, list(d), want, 'document in with')
        elif end == 'raise':
            try:
                with doc:
                    raise KeyError('inside')
            except KeyError:
                pass
            else:
                ctx.fail('%s: an exception inside "with" was swallowed' % kind)
        else:
            del doc, els
            if not owned:
                _gc.collect() if rng.random() < .05 else None
        if owned:
            if end != 'drop':
                ctx.ev('closed by document')
                ctx.check(stream.closed, '%s: still open after %s', kind, end)
            else:
                stream.close()
            continue
        ctx.ev('left open')
        ctx.check(stream is src, '%s: another stream is used', kind)
        ctx.check(not is_closed(src), '%s: closed by the document (%s)', kind, end)
        # and still usable
        src.seek(len(pre))
        again = schema.load(src, headers=headers)
        obs.check_list(ctx, list(again), want, 'second document from ' + kind)
        if hasattr(src, 'close'):
            src.close()
        ctx.distinct.add(hash((data, kind)))
    if not pre:
        obs.check_list(ctx, list(schema.loads(data)), hidden, 'loads()')
        obs.check_list(ctx, list(schema.loads(bytearray(data))), hidden, 'loads(bytearray)')
    gen.clear(ctx.dir)
    ctx.case(data, '%d bytes after %d, all source kinds' % (len(body), len(pre)), bool(refs))


def refused(ctx, rng, i):
    """ Things that are no source. """
    model = gen.gen_schema(rng)
    schema = obs.schema(model)

    class NoTell:
        read = seek = lambda self, *a: b''

    class NoSeek:
        read = tell = lambda self, *a: b''

    class NoRead:
        tell = seek = lambda self, *a: 0
    for bad in (None, 5, b'bytes', bytearray(b'x'), [], object(), NoTell(), NoSeek(), NoRead(),
                str(ctx.dir / 'missing.ebml'), ctx.dir / 'missing.ebml', str(ctx.dir)):
        ctx.raises('loading %r' % (bad,), schema.load, bad)
        ctx.ev('refused')
    ctx.check(not os.listdir(ctx.dir), 'files were created: %s', os.listdir(ctx.dir))
    ctx.case(('refused', i), 'objects without the stream methods')


def standard(ctx, rng, i):
    """ A redirected standard input: a stream whose name is the number 0 (or 1, or 2). """
    model = gen.gen_schema(rng)
    schema = obs.schema(model)
    pre = rng.randbytes(rng.choice([0, 0, 7]))
    data = pre + gen.to_bytes(gen.gen_layout(rng, model, controls=.15, big=False, budget=20))
    refs = ref.parse(data, model, len(pre))
    hidden = refs[1:] if refs and refs[0].name == 'EBML' else refs
    p = ctx.dir / 'doc.ebml'
    p.write_bytes(data)
    try:
        saved = os.dup(0)
    except OSError:
        saved = None
    fd = os.open(p, os.O_RDONLY)
    try:
        os.dup2(fd, 0)
        with open(0, 'rb', buffering=rng.choice([-1, 0]), closefd=False) as src:
            src.seek(len(pre))
            headers = rng.random() < .7
            doc = schema.load(src, headers=headers)
            ctx.check(doc.filename == '', 'document from standard input: file name %r', doc.filename)
            ctx.check(isinstance(doc.name, str), 'document from standard input: name %r', doc.name)
            obs.check_list(ctx, list(doc), refs if headers else hidden, 'document from standard input')
            doc.close()
            ctx.check(not src.closed and os.fstat(0).st_size == len(data), 'standard input was closed')
            ctx.ev('standard input')
    finally:
        if saved is not None:
            os.dup2(saved, 0)
            os.close(saved)
        elif fd != 0:
            os.close(0)
        if fd != 0 or saved is None:
            os.close(fd)
    gen.clear(ctx.dir)
    ctx.case((data, 'stdin'), '%d bytes on standard input' % len(data), bool(refs))


SECTIONS = [Section('sources', one, 240, 1200), Section('refused', refused, 10, 10), Section('standard', standard, 25)]
