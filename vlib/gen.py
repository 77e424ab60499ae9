"""
Seeded generators: schemata, documents (with hostile byte layouts), values, and
the API data (dicts, tuple lists...) that encodes a given tree.
"""
import collections
import datetime
import enum
import math
import os
import struct
from pathlib import Path
from xml.etree import ElementTree as ET
from xml.sax.saxutils import quoteattr, escape

from . import ref
from .ref import Def, Model, Node

# ------------------------------------------------------------------------ IDs

ID_CLASSES = [(0x81, 0xFE), (0x407F, 0x7FFE), (0x203FFF, 0x3FFFFE),
              (0x101FFFFF, 0x1FFFFFFE)]


def gen_id(rng, used):
    while True:
        lo, hi = rng.choice(ID_CLASSES)
        r = rng.random()
        if r < .15:
            i = lo + rng.randrange(3)
        elif r < .3:
            i = hi - rng.randrange(3)
        else:
            i = rng.randint(lo, hi)
        if i not in used:
            used.add(i)
            return i


HEADER = [(0x1A45DFA3, 'EBML', 'master'), (0x4286, 'EBMLVersion', 'uint'),
          (0x42F7, 'EBMLReadVersion', 'uint'), (0x42F2, 'EBMLMaxIDLength', 'uint'),
          (0x42F3, 'EBMLMaxSizeLength', 'uint'), (0x4282, 'DocType', 'str'),
          (0x4287, 'DocTypeVersion', 'uint'), (0x4285, 'DocTypeReadVersion', 'uint')]

LEAVES = ['int', 'uint', 'float', 'str', 'utf8', 'date', 'bin']


class SchemaSpec(Model):
    """ A generated schema: reference model + its XML text. """
    xml = None
    header = False


def gen_schema(rng, header=None, multiple_p=.6, length_p=.15, max_masters=5,
               leaf_dup=None, legacy=False, void=None, shared=True, precache_p=.1, master_precache=.1,
               all_kinds=False):
    """ A random schema. Nested masters, shared and recursive children,
        globals, explicit lengths and caching flags.
    """
    m = SchemaSpec()
    used = {h[0] for h in HEADER} | {0xEC}
    names = set()
    tree = []       # (Def, [children entries]) in definition order

    def name(kind):
        while True:
            n = rng.choice(['', '_']) * (rng.random() < .2) + rng.choice(
                ['Alpha', 'beta', 'Gam', 'Δelta', 'X', 'Ep-s', 'Zed.q', 'Eta_', 'K9'])
            n = n + {'master': 'M', 'bin': 'B'}.get(kind, '') + str(rng.randrange(1000))
            if n not in names:
                names.add(n)
                return n

    def leaf(kind=None):
        kind = kind or rng.choice(LEAVES)
        d = Def(gen_id(rng, used), name(kind), kind)
        d.multiple = rng.random() < multiple_p
        d.mandatory = rng.random() < .3
        if rng.random() < precache_p:
            d.precache = rng.random() < .5
        if rng.random() < length_p:
            d.length = {'int': rng.randint(1, 8), 'uint': rng.randint(1, 8),
                        'float': rng.choice([4, 8]), 'str': rng.randint(0, 40),
                        'utf8': rng.randint(0, 40), 'bin': rng.randint(0, 64),
                        'date': 8}[kind]
        return d

    masters = []

    def master(depth):
        d = Def(gen_id(rng, used), name('master'), 'master')
        d.multiple = rng.random() < max(multiple_p, .5)
        if rng.random() < master_precache:
            d.precache = rng.random() < .7
        masters.append(d)
        kids = []
        n = rng.choice([1, 2, 3, 3, 5, 8]) if depth else rng.randint(2, 6)
        for _ in range(n):
            if len(masters) < max_masters and depth < 4 and rng.random() < .35:
                kids.append(master(depth + 1))
            else:
                kids.append((leaf(), []))
        return (d, kids)

    m.header = rng.random() < .7 if header is None else header
    if m.header:
        kids = []
        defaults = {'EBMLVersion': rng.randint(1, 300),
                    'EBMLReadVersion': rng.randint(1, 4),
                    'EBMLMaxIDLength': 4, 'EBMLMaxSizeLength': 8,
                    'DocType': rng.choice(['mkv', 'test.doc', 'a', 'mide']) + str(rng.randrange(50)),
                    'DocTypeVersion': rng.randint(1, 70000),
                    'DocTypeReadVersion': rng.randint(1, 3)}
        for i, n, k in HEADER[1:]:
            d = Def(i, n, k, mandatory=True)
            if rng.random() < .85 or n == 'DocType':
                d.attribs['default'] = str(defaults[n])
            kids.append((d, []))
            names.add(n)
        tree.append((Def(*HEADER[0], mandatory=True), kids))
    void = rng.random() < .7 if void is None else void
    if void:
        tree.append((Def(0xEC, 'Void', 'bin', multiple=True,
                         glob=rng.random() < .8), []))
    for _ in range(rng.choice([0, 0, 1, 2])):
        d = leaf()
        d.glob = True
        tree.append((d, []))
    while len(masters) < max_masters and (not masters or rng.random() < .75):
        tree.append(master(0))
    for _ in range(rng.randint(0, 3)):
        tree.append((leaf(), []))
    if all_kinds:
        top = masters[0]
        for entry in tree:
            if entry[0] is top:
                for k in LEAVES:
                    d = leaf(k)
                    d.multiple = True
                    entry[1].append((d, []))

    # Additional (abbreviated) definitions: shared and recursive children.
    if shared and not legacy:
        flat = []

        def crawl(entries):
            for e in entries:
                flat.append(e)
                crawl(e[1])
        crawl(tree)
        pool = [e for e in flat if e[0].name not in [h[1] for h in HEADER]]
        hosts = [e for e in pool if e[0].kind == 'master']
        for _ in range(rng.choice([0, 1, 2, 4])):
            if not hosts:
                break
            host = rng.choice(hosts)
            d = rng.choice(pool)[0]
            if d not in [k[0] for k in host[1]]:
                host[1].append((d, None))       # None: a reference
    seen = []
    order = []
    if legacy:
        m.xml = _legacy_xml(tree, m)
    else:
        m.xml = _xml(rng, tree, m)
    m.tree = tree
    return m


def _attrs(rng, d, a=None):
    a = dict(d.attribs) if a is None else a
    if d.multiple or rng.random() < .3:
        a['multiple'] = rng.choice(['1', 'true', 'True']) if d.multiple else rng.choice(['0', 'false'])
    if d.mandatory or rng.random() < .2:
        a['mandatory'] = '1' if d.mandatory else '0'
    if d.precache is not None:
        a['precache'] = '1' if d.precache else '0'
    if d.length is not None:
        a['length'] = rng.choice(['%d', '0x%X']) % d.length
    if d.glob:
        if rng.random() < .7:
            a['global'] = rng.choice(['1', 'true', 'True'])
        else:
            a['level'] = '-1'
    elif rng.random() < .1:
        a['global'] = '0'
    return a


def _xml(rng, tree, m):
    out = ['<?xml version="1.0" encoding="utf-8"?>\n<Schema version="1">\n']
    defined = set()

    def emit(entries, parent, ind):
        for d, kids in entries:
            first = d.id not in defined
            defined.add(d.id)
            m.add(d, parent)
            tag = ref.TAGS[d.kind]
            if first:
                a = {'name': d.name, 'id': '0x%X' % d.id}
                a.update(_attrs(rng, d))
                d.attribs = a
            else:
                a = {'name': d.name} if rng.random() < .5 else {'id': '0x%X' % d.id}
            items = list(a.items())
            rng.shuffle(items)
            out.append('  ' * ind + '<%s %s>' % (tag, ' '.join(
                '%s=%s' % (k, quoteattr(v)) for k, v in items)))
            if first and rng.random() < .3:
                d.docs = 'Docs of %s & more' % d.name
                out.append(escape(d.docs))
            if kids:
                out.append('\n')
                emit(kids, d, ind + 1)
                out.append('  ' * ind)
            out.append('</%s>\n' % tag)
            if rng.random() < .1:
                out.append('  ' * ind + '<!-- comment -->\n')
    # References may come before the definition only if they hold everything;
    # so put each definition first: a reference seen first becomes the definition.
    done = set()

    def resolve(entries):
        res = []
        for d, kids in entries:
            if kids is None and d.id not in done:
                continue        # reference before the definition: leave out
            done.add(d.id)
            res.append((d, resolve(kids) if kids else []))
        return res
    tree[:] = resolve(tree)
    emit(tree, None, 1)
    out.append('</Schema>\n')
    return ''.join(out)


def _legacy_xml(tree, m):
    out = ['<?xml version="1.0" encoding="utf-8"?>\n<table>\n']
    rev = {v: k for k, v in ref.LEGACY.items()}

    def emit(entries, level):
        for d, kids in entries:
            m.add(d, None)
            a = {'name': d.name, 'id': '0x%X' % d.id, 'type': rev[d.kind],
                 'level': '-1' if d.glob else str(level),
                 'multiple': str(int(d.multiple)), 'mandatory': str(int(d.mandatory))}
            a.update(d.attribs)
            if d.precache is not None:
                a['precache'] = str(int(d.precache))
            if d.length is not None:
                a['length'] = str(d.length)
            d.attribs = a
            out.append('  <element %s/>\n' % ' '.join(
                '%s=%s' % (k, quoteattr(v)) for k, v in a.items()))
            emit(kids or [], level + 1)
    emit(tree, 0)
    out.append('</table>\n')
    return ''.join(out)


def clash(rng, text):
    """ Schema XML with the names and IDs of another, in different roles. """
    root = ET.fromstring(text)
    els = [e for e in root.iter() if e.tag in ref.KINDS and e.tag != 'MasterElement' and e.get('id') and e.get('name')
           and e.get('name') not in [h[1] for h in HEADER] + ['Void']]
    repeated = {e.get('name') for e in root.iter() if not e.get('id')} | {
        e.get('id') for e in root.iter() if not e.get('name')}
    els = [e for e in els if e.get('name') not in repeated and e.get('id') not in repeated]
    ids = [e.get('id') for e in els]
    rng.shuffle(ids)
    for e, x in zip(els, ids):
        e.set('id', x)
        if rng.random() < .4:
            e.tag = rng.choice([t for t in ref.KINDS if t != 'MasterElement'])
    for e in root.iter():
        e.attrib.pop('length', None)
    return ET.tostring(root, encoding='unicode')


# --------------------------------------------------------------------- values

BOUNDARY = sorted({0, 1, 2, 0x7E, 0x7F, 0x80, 0x81, 0xFE, 0xFF, 0x100, 0x3FFE,
                   0x3FFF, 0x4000} |
                  {(1 << k) + j for k in range(8, 64, 8) for j in (-1, 0, 1)} |
                  {(1 << (k - 1)) + j for k in range(8, 64, 8) for j in (-1, 0, 1)} |
                  {(1 << 63) - 1, (1 << 63) - 2})


def gen_uint(rng, width=8):
    lim = (1 << (8 * width)) - 1
    r = rng.random()
    if r < .45:
        v = rng.choice(BOUNDARY + [1 << 63, (1 << 63) + 1, (1 << 64) - 1, (1 << 64) - 2])
    else:
        v = rng.getrandbits(rng.randint(1, 8 * width))
    return v if v <= lim else v & lim


def gen_int(rng, width=8):
    lo, hi = -(1 << (8 * width - 1)), (1 << (8 * width - 1)) - 1
    r = rng.random()
    if r < .1:
        return rng.choice([lo, hi, lo + 1, hi - 1, 0, -1])
    if r < .5:
        v = rng.choice(BOUNDARY) * rng.choice([1, -1]) - rng.choice([0, 0, 1])
    else:
        v = rng.getrandbits(rng.randint(1, 8 * width - 1)) * rng.choice([1, -1])
    return v if lo <= v <= hi else rng.randint(lo, hi)


FLOATS = [0.0, -0.0, 1.0, -1.0, .1, math.pi, 1e308, -1e308, 5e-324, 2.2250738585072014e-308,
          1.7976931348623157e308, float('inf'), float('-inf'), float('nan'), 1e-45, 3.4e38,
          16777217.0, 1 / 3]


def f32(v):
    try:
        return struct.unpack('>f', struct.pack('>f', v))[0]
    except OverflowError:
        return math.copysign(3.4028234663852886e38, v)


def gen_float(rng, width=8):
    r = rng.random()
    if r < .5:
        v = rng.choice(FLOATS)
    elif r < .8:
        v = rng.uniform(-1e6, 1e6)
    else:
        v = struct.unpack('>d', rng.randbytes(8))[0]
    return f32(v) if width == 4 else v


ASCII = ''.join(map(chr, range(32, 127)))
UNI = 'aé߀漢字😀 <>&"\'\u200b\ufeff\u0301~Ωя\u2028]\xad\U0010ffffßİ'


def gen_str(rng, n=None):
    n = gen_len(rng) if n is None else n
    if n > 400:
        c = rng.choice(ASCII)
        return c * n
    return ''.join(rng.choice(ASCII) for _ in range(n))


def gen_utf8(rng, n=None, limit=None):
    n = gen_len(rng) if n is None else n
    if n > 400:
        s = rng.choice(UNI) * n
    else:
        s = ''.join(rng.choice(UNI + ASCII[:20]) for _ in range(n))
    if limit is not None:
        while len(s.encode()) > limit:
            s = s[:-1]
    return s


def gen_len(rng, big=True):
    r = rng.random()
    if r < .1:
        return 0
    if r < .6:
        return rng.randint(1, 20)
    if r < .8:
        return rng.choice([1, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130])
    if r < .945:
        return rng.randint(20, 200)
    if r < .96 or not big:
        if r > .998:
            return rng.choice([4095, 4096, 4097, 5000, 65535, 65536, 65537])
        return rng.choice([254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2048])
    if r < .995:
        return rng.choice([16378, 16379, 16380, 16381, 16382, 16383, 16384])
    return rng.choice([2097145, 2097150, 2097151, 2097152]) if rng.random() < .15 else 5000


def gen_bin(rng, n=None):
    n = gen_len(rng) if n is None else n
    return rng.choice([rng.randbytes(n), bytes(n), b'\xff' * n,
                       (b'\x1a\x45\xdf\xa3\x81' * (n // 5 + 1))[:n]])


def gen_date(rng):
    r = rng.random()
    e = ref.EPOCH
    if r < .2:
        return rng.choice([e, e + datetime.timedelta(microseconds=1),
                           e - datetime.timedelta(microseconds=1),
                           datetime.datetime(1970, 1, 1), datetime.datetime(2038, 1, 19, 3, 14, 7),
                           datetime.datetime(1900, 2, 28, 23, 59, 59, 999999),
                           datetime.datetime(2000, 12, 31, 23, 59, 59, 999999),
                           datetime.datetime(1709, 1, 1), datetime.datetime(2292, 12, 31)])
    us = rng.randint(-(1 << 63) // 1000 + 1, (1 << 63) // 1000 - 1)
    if r < .4:
        us = us // 1000000 * 1000000
    return e + datetime.timedelta(microseconds=us)


def gen_value(rng, d, big=True):
    """ A value that an element defined by `d` can hold (when encoding). """
    k, n = d.ekind, d.length
    if k == 'void':
        return b''
    if k == 'int':
        return gen_int(rng, n or 8)
    if k == 'uint':
        return gen_uint(rng, n or 8)
    if k == 'float':
        v = gen_float(rng, n or 8)
        return v if n else v + 0.0      # a default-length -0.0 is stored as 0.0
    if k == 'date':
        return gen_date(rng)
    size = gen_len(rng, big)
    if n is not None:
        size = min(size, n) if rng.random() < .7 else n
    if k == 'str':
        return gen_str(rng, size)
    if k == 'utf8':
        return gen_utf8(rng, size, n)
    return gen_bin(rng, size)


def encoded_payload(d, v):
    """ What the documentation says the payload for `v` is. """
    k, n = d.ekind, d.length
    if k == 'void':
        return b''
    if k == 'int':
        return ref.enc_int(v, n)
    if k == 'uint':
        return ref.enc_uint(v, n)
    if k == 'float':
        if n is None:
            return b'' if v == 0.0 else struct.pack('>d', v)
        return struct.pack('>f' if n == 4 else '>d', v)
    if k == 'date':
        return ref.enc_int(ref.date_ns(v), 8)
    if k in ('str', 'utf8'):
        b = v.encode('utf-8')
    else:
        b = bytes(v)
    return b if n is None else b.ljust(n, b'\0')


# --------------------------------------------------------- documents (layout)

def layout_leaf(rng, d, big=True):
    """ A leaf with an arbitrary legal byte layout (padding, widths...). """
    k = d.ekind
    if k == 'void':
        p = gen_bin(rng, gen_len(rng, big))
    elif k in ('int', 'uint'):
        w = rng.choice([0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 8])
        if w == 0:
            p = b''
        elif k == 'int':
            p = ref.enc_int(gen_int(rng, rng.randint(1, w)), w)
        else:
            p = ref.enc_uint(gen_uint(rng, rng.randint(1, w)), w)
    elif k == 'float':
        w = rng.choice([0, 4, 8, 8])
        p = b'' if w == 0 else struct.pack('>f' if w == 4 else '>d', gen_float(rng, w))
    elif k == 'date':
        p = ref.enc_int(ref.date_ns(gen_date(rng)) + rng.choice([0, 1, 999, 500]), 8)
    elif k == 'str':
        p = gen_str(rng).encode() + b'\0' * rng.choice([0, 0, 0, 1, 5]) \
            + (b'\0garbage' if rng.random() < .05 else b'')
    elif k == 'utf8':
        p = gen_utf8(rng).encode() + b'\0' * rng.choice([0, 0, 0, 1, 5]) \
            + (b'\0\xff\xfe' if rng.random() < .05 else b'')
    else:
        p = gen_bin(rng, gen_len(rng, big))
    return Node(d, payload=p, value=ref.dec_value(k, p), sw=size_width(rng))


def size_width(rng):
    return None if rng.random() < .6 else rng.randint(1, 8)


def gen_layout(rng, m, n_roots=None, unknown=True, infinite=True, depth=5,
               budget=60, big=True, header=True, wild=.08, huge=0, high=20, controls=0):
    """ Random well-formed document bytes of schema `m`, as root `Node`s; every
        reading rule is decided by the reference parser (unambiguous trees only).
    """
    left = [budget]
    defs = list(m.byId.values())

    def unk_leaf():
        while True:
            i = gen_id(rng, set(m.byId))
            if i not in m.byId:
                return Node(None, id=i, payload=(p := gen_bin(rng, gen_len(rng, big))),
                            value=bytearray(p), sw=size_width(rng))

    def node(d, dep):
        left[0] -= 1
        if d is None:
            return unk_leaf()
        if d.kind != 'master':
            return layout_leaf(rng, d, big)
        kids = []
        cand = [m.byId[i] for i in sorted(d.children)] or defs
        n = rng.choice([0, 1, 2, 3, 5, 8, 20])
        if dep >= depth:
            n = min(n, 3)
        for _ in range(n):
            if left[0] <= 0:
                break
            if kids and rng.random() < .06:
                c = rng.choice(kids).copy()         # the very same again
                left[0] -= sum(1 for _ in c.walk())
                kids.append(c)
                continue
            r = rng.random()
            if unknown and r < wild / 2:
                c = None
            elif r < wild:
                c = rng.choice(defs)
            elif m.globals and r < wild + .08:
                c = m.byId[rng.choice(sorted(m.globals))]
            else:
                c = rng.choice(cand)
            if c is not None and c.kind == 'master' and dep >= depth:
                continue
            if c is not None and c.name == 'EBML':
                continue
            kids.append(node(c, dep + 1))
        return Node(d, children=kids, sw=size_width(rng),
                    unk=infinite and rng.random() < .35)

    roots = []
    if header and getattr(m, 'header', 'EBML' in m.byName) and rng.random() < .8:
        h = m.byName['EBML']
        kids = []
        for i, n, k in HEADER[1:]:
            if rng.random() < .8:
                kids.append(layout_leaf(rng, m.byId[i], False))
        roots.append(Node(h, children=kids, sw=size_width(rng)))
    rootdefs = [m.byId[i] for i in sorted(m.roots) if m.byId[i].name != 'EBML']
    n_roots = rng.choice([0, 1, 2, 4, 7]) if n_roots is None else n_roots
    for _ in range(n_roots):
        r = rng.random()
        if unknown and r < wild / 2:
            d = None
        elif r < .6:
            d = rng.choice([x for x in rootdefs if x.kind == 'master'] or rootdefs)
        else:
            d = rng.choice(rootdefs)
        roots.append(node(d, 1))
        if rng.random() < .05:
            roots.append(roots[-1].copy())
    if controls and rng.random() < controls:
        control_text(rng, roots)
    settle(rng, roots, m)
    if huge and rng.random() < huge:
        enlarge(rng, roots, m, high=high, unknown=unknown)
    return roots


def settle(rng, roots, m, max_nest=3):
    """ Drop unknown-size flags until the tree reads back as intended. """
    def limit(n, k):
        if n.unk:
            k += 1
            if k > max_nest:
                n.unk = False
        for c in n.children or ():
            limit(c, k)
    for r in roots:
        limit(r, 0)
    # The first root is read by the constructor as a potential header
    while True:
        data = b''.join(r.bytes() for r in roots)
        try:
            if ref.tree_equals(ref.parse(data, m), roots):
                return roots
        except (ref.Truncated, ValueError):
            pass
        flagged = [n for r in roots for n in r.walk() if n.unk]
        if not flagged:
            raise AssertionError('generator: unreadable layout')
        for n in rng.sample(flagged, max(1, len(flagged) // 2)):
            n.unk = False


def control_text(rng, roots):
    """ Put line breaks, control and other special characters in the texts. """
    for n in [n for r in roots for n in r.walk()]:
        if n.children is None and n.d is not None and n.d.ekind in ('str', 'utf8') and n.name != 'DocType' and rng.random() < .6:
            chars = ['\n', '\t', '\r', '\r\n', '\x7f', '\x01', '\x1f', ' ', 'a', 'Z', '0']
            if n.d.ekind == 'utf8':
                chars += ['\x85', '\xa0', '\xad', '\u2028', '\u2029', '\ufeff', '\ufffd', '\U0010ffff', '\U00010000', 'e\u0301', '\xe9', 'ß', 'İ']
            n.payload = ''.join(rng.choice(chars) for _ in range(rng.randint(1, 12))).encode()
            n.value = ref.dec_value(n.d.ekind, n.payload)


def large_leaf(rng, d, high=20, xml=False):
    """ A binary or text leaf around the size of some buffer. """
    n = near_power(rng, 10, high)
    if d is not None and d.kind in ('str', 'utf8'):
        s = ''.join(gen_str(rng, 20) if d.kind == 'str' else gen_utf8(rng, 20) for _ in range(5)).replace('\0', '') or 'x'
        b = s.encode()
        b = b * (n // len(b)) + b'e' * (n % len(b))
        return Node(d, payload=b, value=b.decode(), sw=size_width(rng))
    p = gen_bin(rng, 50) + rng.randbytes(n)
    p = p[-n:]
    return Node(d, id=None if d is not None else 0x1FABCDE1, payload=p, value=bytearray(p), sw=size_width(rng))


def enlarge(rng, roots, m, how=None, high=20, wide=None, unknown=True):
    """ Make a document of `gen_layout()` big: a large value, very many
        siblings, or deep nesting.
    """
    how = how or rng.choice(['large', 'large', 'wide', 'wide', 'deep'])
    defs = [d for d in m.byId.values() if d.kind != 'master']
    masters = [n for r in roots for n in r.walk() if n.children is not None and n.name != 'EBML']

    def put(parent, new):
        kids = roots if parent is None else parent.children
        k = rng.choice([0, len(kids), rng.randint(0, len(kids))])
        if parent is None and kids and kids[0].name == 'EBML':
            k = max(k, 1)
        kids[k:k] = new

    def leaves(parent, kinds=None):
        """ Definitions of leaves that may be there. """
        c = [m.byId[i] for i in sorted(parent.d.children) if i in m.byId] if parent is not None and parent.d is not None else []
        c = [d for d in c if d.kind != 'master' and (kinds is None or d.ekind in kinds)]
        if parent is not None and parent.unk:
            return c
        return c or [d for d in defs if kinds is None or d.ekind in kinds]

    parent = rng.choice(masters + [None])
    if how == 'large':
        for _ in range(rng.choice([1, 1, 2])):
            c = leaves(parent, ('bin', 'str', 'utf8', 'void'))
            unk = unknown and not (parent is not None and parent.unk) and 0x1FABCDE1 not in m.byId
            if c or unk:
                d = rng.choice(c + [None] * unk)
                if d is not None and d.ekind == 'void':
                    p = rng.randbytes(near_power(rng, 10, high))
                    put(parent, [Node(d, payload=p, value=ref.dec_value('void', p), sw=size_width(rng))])
                else:
                    put(parent, [large_leaf(rng, d, high)])
    elif how == 'wide':
        c = leaves(parent)
        if c:
            n = wide or rng.choice([130, 257, 600, 1030, 2500, 5000] * 2 + [11000, 22000])
            some = [layout_leaf(rng, rng.choice(c), False) for _ in range(30)]
            some = [x for x in some if len(x.payload) < 300] or some[:1]
            put(parent, [rng.choice(some).copy() for _ in range(n)])
    else:
        md = [d for d in m.byId.values() if d.kind == 'master' and d.name != 'EBML']
        if md:
            n = None
            for _ in range(rng.choice([12, 33, 65, 101])):
                d = rng.choice(md)
                kids = [layout_leaf(rng, rng.choice(defs), False)] if rng.random() < .3 else []
                n = Node(d, children=kids + ([n] if n is not None else []), sw=size_width(rng))
            parent = rng.choice([x for x in masters if not x.unk] + [None])
            put(parent, [n])
    return settle(rng, roots, m)


def to_bytes(roots):
    return b''.join(r.bytes() for r in roots)


# ------------------------------------------------------------- API data trees

def gen_tree(rng, m, budget=40, depth=5, big=True, n_roots=None, of=None, huge=0, high=18):
    """ A tree of encodable values (`Node`s, layout as ebmlite should encode). """
    left = [budget]

    def node(d, dep):
        left[0] -= 1
        if d.kind != 'master':
            v = gen_value(rng, d, big)
            p = encoded_payload(d, v)
            if d.ekind == 'void':
                v = bytearray()
            elif d.kind == 'bin':
                v = bytearray(p)        # padding is part of a binary's value
            elif d.kind == 'float' and d.length == 4:
                v = f32(v)
            return Node(d, payload=p, value=v)
        cand = [m.byId[i] for i in sorted(d.children)] or list(m.byId.values())
        kids, counts = [], {}
        for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 20])):
            if left[0] <= 0:
                break
            c = rng.choice(cand)
            if c.kind == 'master' and dep >= depth:
                continue
            if not c.multiple and counts.get(c.id):
                continue
            counts[c.id] = 1
            kids.append(node(c, dep + 1))
        zeros = [c for c in cand if c.kind == 'float' and c.multiple and c.length]
        if zeros and rng.random() < .15:
            # siblings which compare equal but do not encode equally
            c, at = rng.choice(zeros), rng.randint(0, len(kids))
            kids[at:at] = [Node(c, payload=encoded_payload(c, v), value=v)
                           for v in rng.choice([(0.0, -0.0), (-0.0, 0.0), (-0.0, 0.0, -0.0)])]
        return Node(d, children=kids)

    rootdefs = [m.byId[i] for i in sorted(m.roots if of is None else of.children)]
    if not rootdefs:
        return []
    roots, counts = [], {}
    n_roots = rng.choice([1, 2, 3, 5, 9]) if n_roots is None else n_roots
    for _ in range(n_roots):
        d = rng.choice(rootdefs if rng.random() < .5 else
                       [x for x in rootdefs if x.kind == 'master'] or rootdefs)
        if d.kind == 'master' and d.name == 'EBML':
            continue
        if not d.multiple and counts.get(d.id):
            continue
        counts[d.id] = 1
        roots.append(node(d, 1))
    if huge and rng.random() < huge:
        parents = [(roots, rootdefs)] + [(n.children, [m.byId[i] for i in sorted(n.d.children)])
                                         for r in roots for n in r.walk() if n.children is not None]
        kids, cand = rng.choice(parents)
        if rng.random() < .5:
            some = [n for r in roots for n in r.walk() if n.children is None and n.kind in ('bin', 'str', 'utf8')
                    and n.d.length is None]
            for n in rng.sample(some, min(len(some), 2)):
                new = large_leaf(rng, n.d, high)
                n.payload, n.value = new.payload, new.value
        else:
            cand = [d for d in cand if d.kind != 'master' and d.multiple and d.ekind != 'void']
            if cand:
                left[0] = 100
                some = [node(rng.choice(cand), 9) for _ in range(30)]
                kids.extend(rng.choice(some).copy() for _ in range(rng.choice([130, 260, 1000, 2500, 6000])))
    return roots


class Int(int):
    pass


class Float(float):
    pass


class Text(str):
    pass


class Bytes(bytes):
    pass


class When(datetime.datetime):
    pass


class Dict(dict):
    pass


class Growing(collections.defaultdict):
    """ Remembers what it was asked for. """

    def __init__(self, pairs=()):
        super().__init__(list, pairs)


class Pair(tuple):
    pass


class Name(str):
    pass


class Place(type(Path())):
    """ A path of a type derived from the ordinary one. """


def as_str(rng, path):
    """ The path as text: mostly an ordinary str. """
    return Name(path) if rng.random() < .2 else str(path)


def as_path(rng, path):
    return Place(path) if rng.random() < .2 else Path(path)


def path_form(rng, path):
    return rng.choice([as_str, as_path])(rng, path)


def other_key(key):
    """ The same name or ID as another type. """
    if isinstance(key, str):
        return Name(key)
    return enum.IntEnum('Ids', {'it': key}).it


class List(list):
    pass


def other_value(rng, n, v):
    """ The same value as another accepted type. """
    if isinstance(v, int):
        new = [Int(v), enum.IntEnum('Number', {'it': v}).it]
        if v in (0, 1):
            new += [bool(v)] * 2
        if n.kind != 'date' and abs(v) < 1 << 53:
            new.append(float(v))
        return rng.choice(new)
    if isinstance(v, float):
        return rng.choice([Float(v), int(v) if v.is_integer() and str(v) != '-0.0' and abs(v) < 1 << 53 else Float(v)])
    if isinstance(v, str):
        return rng.choice([Text(v), enum.Enum('Word', {'it': v}, type=str).it, v.encode(), bytearray(v.encode())])
    if isinstance(v, datetime.datetime):
        return rng.choice([When(*v.timetuple()[:6], v.microsecond), v.replace(fold=1)])
    if n.kind == 'bin' and isinstance(v, (bytes, bytearray)):
        try:
            return rng.choice([Bytes(v), bytes(v).decode()])
        except UnicodeDecodeError:
            return Bytes(v)
    return v


def api_value(rng, n):
    """ The value given to encode() for one leaf. """
    v = plain_value(rng, n)
    return other_value(rng, n, v) if rng.random() < .12 else v


def plain_value(rng, n):
    v = n.value
    if n.kind in ('bin', 'void'):
        v = rng.choice([bytes, bytearray])(n.payload if n.d.length is None else
                                           n.payload.rstrip(b'\0')) if n.kind == 'bin' else b''
    return v


def group(rng, nodes, as_dict):
    """ Order-preserving or grouped entries [(key, [nodes])]. """
    if not as_dict:
        return [(n.d, [n]) for n in nodes]
    out = {}
    for n in nodes:
        out.setdefault(n.d.id, []).append(n)
    return [(v[0].d, v) for v in out.values()]


def regroup(nodes):
    """ Order in which a dict-form encoding writes them. """
    return [n for _d, g in group(None, nodes, True) for n in g]


def near_power(rng, low, high):
    """ A size at or around a (small multiple of a) power of two, or of a round number: where buffers end. """
    n = (1 << rng.randint(low, high)) if rng.random() < .75 else rng.choice([x for x in (
        1000, 4000, 5000, 10000, 50000, 65000, 100000, 500000, 1000000) if x <= 1 << high])
    if n << 2 <= 1 << high and rng.random() < .3:
        n *= rng.choice([2, 3])
    return n + rng.choice([-2, -1, 0, 1, 2, 5, rng.randint(0, n // 4)])


def api_data(rng, nodes, forms=None, root=False):
    """ (data, nodes in the order in which they will be written). """
    form = rng.choice(forms or (['dict', 'tuples', 'tuples', 'dicts'] if root else
                                ['dict', 'dict', 'tuples', 'tuples', 'none']))
    if form == 'none' and nodes:
        form = 'tuples'
    if form == 'tuples' and not nodes:
        form = 'dict'
    if form == 'none':
        return None, []
    if form == 'dicts':
        cut = rng.randint(0, len(nodes))
        a, na = api_data(rng, nodes[:cut], ['dict'])
        b, nb = api_data(rng, nodes[cut:], ['dict'])
        return [a, b], na + nb
    pairs, order = [], []
    for d, g in group(rng, nodes, form == 'dict'):
        vals, ns = [], []
        for n in g:
            if n.children is None:
                vals.append(api_value(rng, n))
                ns.append(n)
            else:
                v, ch = api_data(rng, n.children,
                                 ['dict', 'none'] if len(g) > 1 and rng.random() < .3 else None)
                vals.append(v)
                ns.append(Node(n.d, children=ch))
        key = d.name if rng.random() < .85 else d.id
        if rng.random() < .06:
            key = other_key(key)
        if len(g) == 1 and not (d.multiple and rng.random() < .2 and d.kind != 'master'):
            v = vals[0]
        elif d.kind == 'master':
            # a list of dicts, or a list of lists of tuples
            if len(vals) > 1 and all(isinstance(v, list) for v in vals):
                v = vals
            elif all(isinstance(v, dict) for v in vals):
                v = list(vals) if rng.random() < .7 else tuple(vals)
            else:
                for i, n in enumerate(ns):
                    vals[i], ch = api_data(rng, n.children, ['dict'])
                    ns[i] = Node(n.d, children=ch)
                v = list(vals)
        else:
            v = list(vals) if rng.random() < .7 else tuple(vals)
        pairs.append((key, v))
        order.extend(ns)
    if form == 'dict':
        if len({k for k, _ in pairs}) != len(pairs):
            raise AssertionError
        return rng.choice([dict] * 10 + [Dict, collections.OrderedDict, Growing, Growing])(pairs), order
    if pairs and rng.random() < .05:
        pairs = [Pair(p) for p in pairs]
    if pairs and rng.random() < .05:
        pairs = List(pairs)
    return (pairs if root or rng.random() < .8 else tuple(pairs)), order


ODD_NAMES = ['$HOME', '${HOME}', '$x.y', '%41', '%s', '%', 'a b', ' lead', 'trail ', 'tab\t', 'x~', '~x', '*', '[ab]', '?', '{0}', '{}', "it's", 'q"q',
             'é', '日本', '#1', 'a&b', 'a:b', 'a;b', 'a=b', '-o', 'con', 'a\\b', 'a\nb', '(x)', '@x', '!x', 'x..y', '...', 'UPPER', 'x' * 120]


def fs_name(name):
    """ Whether there can be a file of this name in this locale. """
    try:
        return bool(os.fsencode(name))
    except UnicodeError:
        return False


ODD_NAMES = [n for n in ODD_NAMES if fs_name(n)]


def odd_file(rng, d, name, data=None):
    """ Somewhere in directory d for a file of this name, maybe by an unusual
        path: (the path as text, the file meant, what is unusual). """
    kind = rng.choice(['name', 'folder', 'link', 'linked folder', 'around', 'dots', 'slashes', 'hard'])
    d = Path(d)
    stem, dot, ext = name.partition('.')
    if kind == 'name':
        real = d / (rng.choice(ODD_NAMES) + (dot + ext if rng.random() < .7 else ''))
        path = str(real)
    elif kind == 'folder':
        real = d / rng.choice(ODD_NAMES) / name
        path = str(real)
    elif kind in ('linked folder', 'around'):
        k = 0
        while (d / ('link%d' % k)).is_symlink() or (d / ('real%d' % k)).exists():
            k += 1
        inner = d / ('real%d' % k) / 'inner'
        inner.mkdir(parents=True)
        (d / ('link%d' % k)).symlink_to(inner)
        if kind == 'around':
            real, path = inner.parent / name, str(d / ('link%d' % k)) + '/../' + name
        else:
            real, path = inner / name, str(d / ('link%d' % k) / name)
    else:
        real = d / name
        path = str(real)
        if kind == 'dots':
            path = '%s/./sub/../%s' % (d, name)
            (d / 'sub').mkdir(exist_ok=True)
        elif kind == 'slashes':
            path = '%s//%s' % (d, name)
    real.parent.mkdir(exist_ok=True)
    if data is not None:
        if kind in ('link', 'hard'):
            target = d / ('t' + name)
            target.write_bytes(data)
            if real.exists() or real.is_symlink():
                real.unlink()
            if kind == 'link':
                real.symlink_to(rng.choice([str(target), target.name]))
            else:
                os.link(target, real)
        else:
            real.write_bytes(data)
    return path, real, kind


def clear(d):
    """ Remove what is in a scratch directory. """
    for p in sorted(Path(d).rglob('*'), reverse=True):
        p.unlink() if p.is_symlink() or not p.is_dir() else p.rmdir()
