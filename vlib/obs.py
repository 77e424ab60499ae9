"""
Observers: compare what ebmlite shows with the reference, and stream proxies
that record (or disturb) every access to the source.
"""
import io
import itertools

from . import mon, ref
from .mon import short

import ebmlite
from ebmlite import core

BASES = {'int': core.IntegerElement, 'uint': core.UIntegerElement,
         'float': core.FloatElement, 'str': core.StringElement,
         'utf8': core.UnicodeElement, 'date': core.DateElement,
         'bin': core.BinaryElement, 'void': core.VoidElement,
         'unknown': core.UnknownElement, 'master': core.MasterElement}

_n = itertools.count()

# Names a schema (or an EBML DocType, or a schema file) may have
NAMES = [None, None, 'plain', 'two words', '3d', 'my-schema.v2', '-x', 'a/b', '<tag>', 'x:y', "it's \"quoted\"", 'Åß字', '_', '&amp;',
         'a\tb', '{ns}x', '.5']


def schema(model, name=None):
    """ An ebmlite Schema for a generated model. """
    return core.Schema(io.StringIO(model.xml), name=name)


def kind_of(el):
    """ Most specific reference kind of an ebmlite element. """
    for k in ('unknown', 'void', 'uint', 'date', 'utf8', 'int', 'str', 'float', 'bin', 'master'):
        if isinstance(el, BASES[k]):
            return k


def where(r):
    return '%s (ID 0x%X, offset %d)' % (r.name, r.id, r.off)


def check_meta(ctx, el, r):
    """ Identity, type and position of one element. """
    w = where(r)
    ctx.ev('element')
    if el.id != r.id:
        ctx.fail('%s: id is 0x%X' % (w, el.id))
    if kind_of(el) != r.kind:
        ctx.fail('%s: is a %s, expected kind %s' % (w, kind_of(el), r.kind))
    if el.name != r.name:
        ctx.fail('%s: name is %r' % (w, el.name))
    if el.offset != r.off:
        ctx.fail('%s: offset is %s' % (w, el.offset))
    if el.payloadOffset != r.pay:
        ctx.fail('%s: payload offset is %s, expected %s' % (w, el.payloadOffset, r.pay))
    if el.size != r.size:
        ctx.fail('%s: size is %s, expected %s' % (w, el.size, r.size))


def check_leaf(ctx, el, r):
    ctx.ev('value')
    if r.bad is not None:
        raise mon.Inconclusive('undecodable leaf')
    v = el.value
    if not ref.same_value(v, r.value):
        ctx.fail('%s: value is %s, expected %s' % (where(r), short(v), short(r.value)))
    if r.kind in ('str', 'bin', 'void', 'unknown') and len(el) != r.size:
        ctx.fail('%s: len() is %s, expected %s' % (where(r), len(el), r.size))
    if r.kind == 'utf8' and len(el) != len(r.value):
        ctx.fail('%s: len() is %s, expected %s' % (where(r), len(el), len(r.value)))


def check_raw(ctx, el, r):
    ctx.ev('raw')
    got = el.getRaw()
    if bytes(got) != r.raw:
        ctx.fail('%s: getRaw() is %s, expected %s' % (where(r), short(got), short(r.raw)))
    got = el.getRawValue()
    if bytes(got) != r.payload:
        ctx.fail('%s: getRawValue() is %s, expected %s' % (where(r), short(got), short(r.payload)))


def check_el(ctx, el, r, raw=False, values=True):
    """ Compare an element (recursively) with the reference. """
    check_meta(ctx, el, r)
    if raw:
        check_raw(ctx, el, r)
    if r.children is None:
        if values:
            check_leaf(ctx, el, r)
        return
    check_list(ctx, list(el), r.children, where(r), raw, values)
    if len(el) != len(r.children):
        ctx.fail('%s: len() is %s, has %d children' % (where(r), len(el), len(r.children)))


def check_list(ctx, els, refs, what, raw=False, values=True):
    if len(els) != len(refs):
        ctx.fail('%s: has elements %s, expected %s' % (
            what, short([(e.name, e.offset) for e in els], 600), short([(r.name, r.off) for r in refs], 600)))
    for e, r in zip(els, refs):
        if e.schema is None or e.schema is not els[0].schema:
            ctx.fail('%s: %r is of schema %r, the first is of %r' % (what, e, e.schema, els[0].schema))
        check_el(ctx, e, r, raw, values)


def dump_of(refs):
    """ What `dump()` shows for a list of reference elements. """
    out = {}
    for r in refs:
        v = r.value if r.children is None else dump_of(r.children)
        if r.d is not None and r.d.multiple:
            out.setdefault(r.name, []).append(v)
        else:
            out[r.name] = v
    return out


def same_dump(a, b):
    if isinstance(b, dict):
        return isinstance(a, dict) and list(a) == list(b) and all(same_dump(a[k], b[k]) for k in b)
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(map(same_dump, a, b))
    return ref.same_value(a, b)


# -------------------------------------------------------------------- streams

class Budget(Exception):
    """ The stream was accessed more often than any terminating parse would. """


class Stream(io.RawIOBase):
    """ Read-only seekable stream that records its accesses. """

    def __init__(self, data, budget=None):
        self._d = bytes(data)
        self.pos = 0
        self.ops = 0
        self.reads = []         # (offset, bytes returned)
        self.seeks = 0
        self.writes = 0
        self.budget = budget
        self.spent = False
        self.fail_at = None     # op numbers at which to raise
        self.exc = OSError
        self.log = True

    def _op(self):
        self.ops += 1
        if self.budget is not None and self.ops > self.budget:
            self.spent = True
            raise Budget('more than %d stream operations' % self.budget)
        if self.fail_at is not None and self.ops in self.fail_at:
            raise self.exc(5, 'injected fault')

    def readable(self):
        return True

    def seekable(self):
        return True

    def read(self, n=-1):
        self._op()
        if n is None or n < 0:
            n = max(0, len(self._d) - self.pos)
        r = self._d[self.pos:self.pos + n]
        if self.log:
            self.reads.append((self.pos, len(r)))
        self.pos += len(r)
        return r

    def seek(self, pos, whence=0):
        self._op()
        self.seeks += 1
        pos = pos + {0: 0, 1: self.pos, 2: len(self._d)}[whence]
        if pos < 0:
            raise OSError(22, 'Invalid argument')
        self.pos = pos
        return pos

    def tell(self):
        self._op()
        return self.pos

    def write(self, *_a):
        self.writes += 1
        raise OSError('read-only')

    def truncate(self, *_a):
        self.writes += 1
        raise OSError('read-only')

    def covered(self):
        """ Set of byte ranges read, merged. """
        out = []
        for a, n in sorted(self.reads):
            if n and out and a <= out[-1][1]:
                out[-1][1] = max(out[-1][1], a + n)
            elif n:
                out.append([a, a + n])
        return out


class Moved:
    """ Data as seen from positions far away. """

    def __init__(self, data, base):
        self.data, self.base = data, base

    def __getitem__(self, s):
        return self.data[s.start - self.base:s.stop - self.base]


class Far:
    """ The end of a huge virtual file, of which only what follows `base` is ever read. """

    def __init__(self, data, base):
        self._b, self.base = io.BytesIO(data), base

    def read(self, n=-1):
        return self._b.read(n)

    def seek(self, pos, whence=0):
        return self._b.seek(pos - self.base if whence == 0 else pos, whence) + self.base

    def tell(self):
        return self._b.tell() + self.base

    @classmethod
    def place(cls, rng, data, refs):
        """ A stream of the data placed far away, and the references of its elements. """
        base = rng.choice([(1 << 31) - rng.randint(0, 60), (1 << 32) - rng.randint(0, 60), (1 << 32) + 5, 10 ** 12 + 7, (1 << 53) + 1, (1 << 62) + 3])
        for q in refs:
            for r in q.walk():
                r.off += base
                r.data = Moved(data, base)
        return cls(data, base), refs


class Sparse(io.RawIOBase):
    """ A huge virtual file: a few real pieces, zeros elsewhere. """

    def __init__(self, size, pieces, max_read=1 << 24):
        self.size, self.pieces, self.pos = size, sorted(pieces), 0
        self.max_read = max_read
        self.total = 0
        self.ops = 0

    def readable(self):
        return True

    def seekable(self):
        return True

    def tell(self):
        return self.pos

    def seek(self, pos, whence=0):
        self.ops += 1
        self.pos = pos + {0: 0, 1: self.pos, 2: self.size}[whence]
        return self.pos

    def read(self, n=-1):
        self.ops += 1
        end = self.size if n is None or n < 0 else min(self.size, self.pos + n)
        n = max(0, end - self.pos)
        if n > self.max_read:
            raise mon.Violation('read of %d bytes at %d of a sparse file: payload not asked for'
                                % (n, self.pos))
        buf = bytearray(n)
        for off, b in self.pieces:
            a, z = max(off, self.pos), min(off + len(b), self.pos + n)
            if a < z:
                buf[a - self.pos:z - self.pos] = b[a - off:z - off]
        self.pos += n
        self.total += n
        return bytes(buf)
