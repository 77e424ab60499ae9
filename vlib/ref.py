"""
Independent EBML reference: vint/ID/value codecs, a document layout model with
a serializer, a parser and a schema reader. Written from the EBML description
(README, RFC 8794), sharing no code with ebmlite.
"""
import datetime as _dt
import math
import struct
from xml.etree import ElementTree as ET

UNKNOWN = 'unknown-size'
EPOCH = _dt.datetime(2001, 1, 1)

TAGS = {'int': 'IntegerElement', 'uint': 'UIntegerElement',
        'float': 'FloatElement', 'str': 'StringElement',
        'utf8': 'UnicodeElement', 'date': 'DateElement',
        'bin': 'BinaryElement', 'master': 'MasterElement'}
KINDS = {v: k for k, v in TAGS.items()}
LEGACY = {'integer': 'int', 'uinteger': 'uint', 'float': 'float',
          'string': 'str', 'utf-8': 'utf8', 'date': 'date', 'binary': 'bin',
          'master': 'master'}
DTYPE = {'int': 'int', 'uint': 'int', 'float': 'float', 'str': 'str',
         'utf8': 'str', 'date': 'datetime', 'bin': 'bytearray',
         'void': 'bytearray', 'unknown': 'bytearray', 'master': 'list'}


# ---------------------------------------------------------------- primitives

def vint_max(width):
    """ Largest size a `width`-byte size field can hold (all ones: unknown). """
    return (1 << (7 * width)) - 2


def vint_width(n):
    w = 1
    while n > vint_max(w):
        w += 1
    if w > 8:
        raise ValueError(n)
    return w


def enc_size(n, width=None):
    if n is None:
        width = width or 1
        return ((1 << (7 * width + 1)) - 1).to_bytes(width, 'big')
    width = width or vint_width(n)
    if n > vint_max(width):
        raise ValueError((n, width))
    return (n | (1 << (7 * width))).to_bytes(width, 'big')


def first_len(b):
    """ Field length announced by a first byte. """
    for i in range(8):
        if b & (0x80 >> i):
            return i + 1
    return 8 if b == 1 else None


def enc_id(i):
    return i.to_bytes((i.bit_length() + 7) // 8 or 1, 'big')


def id_ok(i):
    """ Is this int a syntactically valid ID (1-4 bytes, right marker)? """
    b = enc_id(i)
    return len(b) <= 4 and first_len(b[0]) == len(b)


def min_uint(v):
    return max(1, (v.bit_length() + 7) // 8)


def min_int(v):
    n = 1
    while not -(1 << (8 * n - 1)) <= v < (1 << (8 * n - 1)):
        n += 1
    return n


def enc_uint(v, width=None):
    return v.to_bytes(min_uint(v) if width is None else width, 'big')


def enc_int(v, width=None):
    return v.to_bytes(min_int(v) if width is None else width, 'big', signed=True)


def date_ns(d):
    delta = d - EPOCH
    return ((delta.days * 86400 + delta.seconds) * 1000000 + delta.microseconds) * 1000


def dec_value(kind, data):
    """ Decode a complete payload. May raise for malformed content. """
    if kind == 'int':
        return int.from_bytes(data, 'big', signed=True)
    if kind == 'uint':
        return int.from_bytes(data, 'big')
    if kind == 'float':
        if len(data) == 0:
            return 0.0
        return struct.unpack({4: '>f', 8: '>d'}[len(data)], data)[0]
    if kind == 'str':
        return data.split(b'\0')[0].decode('ascii', 'replace')
    if kind == 'utf8':
        return data.split(b'\0')[0].decode('utf-8')
    if kind == 'date':
        if len(data) != 8:
            raise ValueError('date length')
        return EPOCH + _dt.timedelta(microseconds=int.from_bytes(data, 'big', signed=True) // 1000)
    if kind == 'void':
        return bytearray()
    return bytearray(data)


def same_value(a, b):
    """ Equality with types, NaN == NaN, sign of zero respected. """
    if isinstance(b, float):
        if not isinstance(a, float):
            return False
        if math.isnan(b):
            return math.isnan(a)
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    if isinstance(b, (bytes, bytearray)):
        return isinstance(a, (bytes, bytearray)) and bytes(a) == bytes(b)
    if isinstance(b, bool) or isinstance(a, bool):
        return a is b
    return type(a) is type(b) and a == b


# -------------------------------------------------------------------- schema

class Def:
    """ One element definition. """

    def __init__(self, id, name, kind, multiple=False, mandatory=False,
                 precache=None, length=None, glob=False, docs=None,
                 attribs=None):
        self.id, self.name, self.kind = id, name, kind
        self.multiple, self.mandatory = multiple, mandatory
        self.precache, self.length, self.glob = precache, length, glob
        self.docs = docs
        self.attribs = attribs or {}
        self.children = set()       # ids of declared children

    @property
    def is_void(self):
        return self.name == 'Void'

    @property
    def ekind(self):
        """ Kind an ebmlite element of this definition behaves as. """
        return 'void' if self.is_void else self.kind

    @property
    def cached(self):
        """ Effective 'precache' """
        if self.is_void:
            return False
        if self.precache is not None:
            return self.precache
        return self.kind in ('int', 'uint', 'float', 'date')

    def __repr__(self):
        return '<%s %s 0x%X>' % (self.kind, self.name, self.id)


class Model:
    """ A schema as the reference understands it. """

    def __init__(self):
        self.byId = {}
        self.byName = {}
        self.roots = set()
        self.globals = set()

    def add(self, d, parent=None):
        if d.id not in self.byId:
            self.byId[d.id] = d
            self.byName[d.name] = d
            if d.glob:
                self.globals.add(d.id)
        (parent.children if parent is not None else self.roots).add(d.id)
        return d

    def valid_child(self, parent, eid):
        """ May `eid` continue an unknown-size master `parent`? """
        if not parent.children:
            return False
        return eid in parent.children or eid in self.globals


def _truth(s, default):
    if s is None or not s.strip():
        return default
    return s.strip()[0] in 'Tt1'


def read_schema(src):
    """ Read a schema XML (either format) from a file name, stream or text. """
    if isinstance(src, str) and src.lstrip().startswith('<'):
        root = ET.fromstring(src)
    else:
        root = ET.parse(src).getroot()
    m = Model()

    def one(el, kind, parent):
        a = dict(el.attrib)
        eid = int(a['id'], 16) if 'id' in a else None
        name = a['name'].strip() if 'name' in a else None
        old = m.byName.get(name) or m.byId.get(eid)
        if old is not None:
            return m.add(old, parent)
        try:
            length = int(a['length'].strip(), 0)
        except (KeyError, ValueError):
            length = None
        glob = _truth(a.get('global'), None)
        if glob is None:
            glob = a.get('level', '').strip() == '-1'
        return m.add(Def(eid, name, kind, _truth(a.get('multiple'), False),
                         _truth(a.get('mandatory'), False),
                         _truth(a.get('precache'), None), length, glob,
                         el.text.strip() if el.text else None, a), parent)

    def crawl(el, parent):
        if el.tag not in KINDS:
            return
        d = one(el, KINDS[el.tag], parent)
        if d.kind == 'master':
            for ch in el:
                crawl(ch, d)

    if root.tag == 'table':
        for el in root.findall('element'):
            one(el, LEGACY[el.attrib['type'].strip()], None)
    else:
        for el in root:
            crawl(el, None)
    return m


# ------------------------------------------------------------ layout and text

class Node:
    """ An element to be laid out in bytes. `d` is its Def (None: unknown ID).
        Leaf: `payload` bytes (and `value`, what it means). Master: `children`.
        `sw`: width of the size field (None: minimal); `unk`: unknown size.
    """
    __slots__ = ('d', 'id', 'payload', 'value', 'children', 'sw', 'unk', 'tail')

    def __init__(self, d, id=None, payload=b'', value=None, children=None,
                 sw=None, unk=False):
        self.d = d
        self.id = d.id if d is not None else id
        self.payload, self.value = payload, value
        self.children = children
        self.sw, self.unk = sw, unk

    @property
    def kind(self):
        return 'unknown' if self.d is None else self.d.ekind

    @property
    def name(self):
        return 'UnknownElement' if self.d is None else self.d.name

    def body(self):
        if self.children is None:
            return self.payload
        return b''.join(c.bytes() for c in self.children)

    def bytes(self):
        b = self.body()
        if self.unk:
            size = enc_size(None, self.sw)
        else:
            w = vint_width(len(b))
            size = enc_size(len(b), max(w, self.sw or 0))
        return enc_id(self.id) + size + b

    def walk(self):
        yield self
        for c in self.children or ():
            yield from c.walk()

    def copy(self):
        kids = None if self.children is None else [c.copy() for c in self.children]
        return Node(self.d, self.id, self.payload, self.value, kids, self.sw, self.unk)

    def text(self):
        if self.children is None:
            v = self.payload if self.kind in ('bin', 'unknown', 'void') else self.value
            r = repr(v)
            return '%s(0x%X)=%s' % (self.name, self.id, r if len(r) < 60 else r[:57] + '...')
        return '%s(0x%X)%s[%s]' % (self.name, self.id, '~' if self.unk else '',
                                   ', '.join(c.text() for c in self.children))


class El:
    """ An element as found by the reference parser. """
    __slots__ = ('d', 'id', 'kind', 'name', 'off', 'hlen', 'idlen', 'size',
                 'value', 'children', 'data', 'unk', 'bad')

    @property
    def pay(self):
        return self.off + self.hlen

    @property
    def end(self):
        return self.off + self.hlen + self.size

    @property
    def raw(self):
        return self.data[self.off:self.end]

    @property
    def payload(self):
        return self.data[self.pay:self.end]

    def walk(self):
        yield self
        for c in self.children or ():
            yield from c.walk()

    def same_tree(self, node):
        return (self.id == node.id and
                ((self.children is None) == (node.children is None)) and
                (self.payload == node.payload if self.children is None else
                 len(self.children) == len(node.children) and
                 all(a.same_tree(b) for a, b in zip(self.children, node.children))))


class Truncated(Exception):
    pass


def read_head(data, pos):
    """ (id, idlen, size or None, sizelen) at `pos`. """
    if pos >= len(data):
        raise Truncated
    n = first_len(data[pos])
    if n is None or n > 4:
        raise ValueError('bad id at %d' % pos)
    if pos + n >= len(data):
        raise Truncated
    eid = int.from_bytes(data[pos:pos + n], 'big')
    p = pos + n
    w = first_len(data[p])
    if w is None:
        w = 8
    if p + w > len(data):
        raise Truncated
    v = int.from_bytes(data[p:p + w], 'big') & ((1 << (7 * w)) - 1)
    return eid, n, (None if v == (1 << (7 * w)) - 1 else v), w


def parse(data, model, start=0, end=None):
    """ Parse well-formed bytes into a list of `El`. """
    data = bytes(data)
    end = len(data) if end is None else end
    out = []
    pos = start
    while pos < end:
        el = _parse_el(data, model, pos)
        out.append(el)
        pos = el.end
    return out


def _parse_el(data, model, pos):
    eid, n, size, w = read_head(data, pos)
    el = El()
    el.d = model.byId.get(eid)
    el.id, el.off, el.idlen, el.hlen, el.data = eid, pos, n, n + w, data
    el.kind = 'unknown' if el.d is None else el.d.ekind
    el.name = 'UnknownElement' if el.d is None else el.d.name
    el.unk = size is None
    el.children = el.value = el.bad = None
    if el.kind == 'master':
        el.children = []
        p = el.pay
        if size is None:
            while p < len(data):
                ceid = read_head(data, p)[0]
                if not model.valid_child(el.d, ceid):
                    break
                c = _parse_el(data, model, p)
                el.children.append(c)
                p = c.end
            el.size = p - el.pay
        else:
            el.size = size
            if p + size > len(data):
                raise Truncated
            while p < el.pay + size:
                c = _parse_el(data, model, p)
                el.children.append(c)
                p = c.end
    else:
        if size is None:
            raise ValueError('unknown size leaf')
        el.size = size
        if el.end > len(data):
            raise Truncated
        try:
            el.value = dec_value(el.kind, el.payload)
        except Exception as ex:
            el.bad = ex
    return el


def tree_equals(els, nodes):
    return len(els) == len(nodes) and all(a.same_tree(b) for a, b in zip(els, nodes))
