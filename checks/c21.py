""" C21: crawling, indexing and pretty-printing visit each element exactly once. """
import io
import itertools

from vlib import gen, obs, ref, textref
from vlib.mon import REPO, Inconclusive, Section, short
from ebmlite import core, util, xml_codecs

LEVEL = 'exploration'
RULE = """A case parses a generated document of hostile layout and compares, with the independent parse: flatiter() of the
document and of elements for several depths (also several generators interleaved and abandoned), len(), iteration, value,
every index from far below to far above the range, slices, other index types, and the text of pprint() line by line (offset,
size, depth, name, ID, type, repr of the value, text of binary contents) for random options. 'far': documents gigabytes into a
stream; 'samples': files of the repository. Non-trivial: at least one element. Distinct: document bytes."""
REQUIRE = {'flatiter': 1000, 'flatiter element': 10000, 'index': 5000, 'slice': 500, 'refused': 2000, 'line': 5000,
           'codec text': 200, 'interleaved': 50, 'sample': 1,
           'odd indentation': 100, 'far': 100}
TYPES = {'int': 'int', 'uint': 'int', 'float': 'float', 'str': 'str', 'utf8': 'str', 'date': 'datetime', 'bin': 'bytearray',
         'void': 'bytearray', 'unknown': 'bytearray'}


def flat(refs, depth):
    """ Depth-first, down to a depth. """
    for r in refs:
        if depth == 0:
            return
        yield r
        if r.children is not None:
            yield from flat(r.children, depth - 1)


def same(ctx, got, want, what):
    got = [(e.id, e.offset, e.name) for e in got]
    want = [(r.id, r.off, r.name) for r in want]
    ctx.ev('flatiter')
    ctx.ev('flatiter element', len(want))
    ctx.check(got == want, '%s: %s, expected %s', what, short(got, 700), short(want, 700))


def crawl(ctx, rng, el, kids, what):
    """ flatiter() of an element (or document) whose children are `kids`. """
    for depth in rng.sample([None, -1, 0, 1, 2, 3, 5, 100, -7], 4):
        want = list(flat(kids, -1 if depth is None or depth < 0 else depth))
        if depth is None and rng.random() < .5:
            got = list(util.flatiter(el))
        else:
            got = list(util.flatiter(el, depth) if rng.random() < .5 else util.flatiter(el, depth=depth))
        same(ctx, got, want, '%s: flatiter(depth=%s)' % (what, depth))


def interleaved(ctx, rng, el, kids):
    """ Several generators at once, some abandoned. """
    want = [(r.id, r.off) for r in flat(kids, -1)]
    live = [(util.flatiter(el), []) for _ in range(3)]
    for _ in range(3 * len(want) + 3):
        g, seen = rng.choice(live)
        e = next(g, None)
        if e is None:
            ctx.check(seen == want, 'interleaved flatiter(): %s, expected %s', short(seen, 700), short(want, 700))
            ctx.ev('interleaved')
        else:
            seen.append((e.id, e.offset))
            ctx.check(seen[-1:] == want[len(seen) - 1:len(seen)], 'interleaved flatiter(): element %d is %s, expected %s',
                      len(seen), seen[-1], want[len(seen) - 1:len(seen)])


def index(ctx, rng, el, kids, is_doc, what):
    n = len(kids)
    key = lambda e: (e.id, e.offset, e.size)
    want = [(k.id, k.off, k.size) for k in kids]
    order = [lambda: ctx.eq(len(el), n, what + ': len()'),
             lambda: ctx.eq([key(e) for e in el], want, what + ': iteration'),
             lambda: ctx.eq([key(e) for e in el.value], want, what + ': value'),
             lambda: ctx.eq([key(e) for e in itertools.islice(el, 2)], want[:2], what + ': partial iteration')]
    rng.shuffle(order)
    for f in order:
        f()
    idx = list(range(n)) if n <= 12 else [0, 1, n // 2, n - 2, n - 1] + [rng.randrange(n) for _ in range(4)]
    for k in idx:
        ctx.eq(key(el[k]), want[k], '%s: [%d]' % (what, k))
        ctx.ev('index')
        if not is_doc:
            ctx.eq(key(el[k - n]), want[k], '%s: [%d]' % (what, k - n))
    for k in (n, n + 1, n + 100, -n - 1, -n - 5, 2**31, -2**63):
        ex = ctx.raises('%s: [%d]' % (what, k), lambda: el[k])
        ctx.check(isinstance(ex, IndexError), '%s: [%d] raised %s: %s instead of an IndexError', what, k, type(ex).__name__, ex)
        ctx.ev('refused')
    for k in ('0', 1.0, None, (0,), b'0', 'EBML'):
        ex = ctx.raises('%s: [%r]' % (what, k), lambda: el[k])
        ctx.check(isinstance(ex, TypeError), '%s: [%r] raised %s: %s instead of a TypeError', what, k, type(ex).__name__, ex)
        ctx.ev('refused')
    for _ in range(4):
        s = slice(*[rng.choice([None, 0, 1, -1, n, -n, n + 3, rng.randint(-n - 1, n + 1)]) for _ in range(2)] +
                  [rng.choice([None, None, 1, 2, -1])])
        if is_doc:
            ex = ctx.raises('%s: [%s]' % (what, s), lambda: el[s])
            ctx.check(isinstance(ex, IndexError), '%s: [%s] raised %s', what, s, type(ex).__name__)
            ctx.ev('refused')
            for k in range(-n - 2, 0):
                ctx.raises('%s: [%d]' % (what, k), lambda: el[k])
        else:
            ctx.eq([key(e) for e in el[s]], want[s], '%s: [%s]' % (what, s))
            ctx.ev('slice')
    ctx.eq(len(el), n, what + ': len() afterwards')


class Out(io.StringIO):
    """ Collects text; notices being closed. """


def printed(ctx, rng, el, r, kids, doc, what):
    """ pprint() of a document (`r` None) or element. """
    kw, o = {}, dict(values=True, indent='  ')
    if rng.random() < .5:
        o['values'] = kw['values'] = rng.random() < .7
    if rng.random() < .4:
        o['indent'] = kw['indent'] = rng.choice(['', ' ', '\t', '    '])
    codecs = {}
    for k in ('binary_codec', 'void_codec'):
        c = rng.choice([None, 'ignore', 'hex', 'base64', textref.make(xml_codecs.HexCodec, width=rng.choice([1, 2, 4]), cols=rng.choice([4, 8, 40, 0]), offsets=rng.random() < .5),
                        textref.make(xml_codecs.Base64Codec, cols=rng.choice([4, 60, 0])), 'percent',
                        textref.user_codec()(show=True)])
        if c is not None:
            kw[k] = c
        codecs[k] = xml_codecs.BINARY_CODECS[c]() if isinstance(c, str) else c or xml_codecs.IgnoreCodec()
    if 'indent' in kw and all(c.NAME == 'ignore' for c in codecs.values()):
        # (In contents, indentation must be something that can be taken for white space.)
        o['indent'] = kw['indent'] = rng.choice(['%', '%s ', '{}', '{0!r}', '| ', '\\n', '%%d', '\u2502 ', '%06s', kw['indent']])
        ctx.ev('odd indentation')
    out = Out()
    kw['out'] = out
    util.pprint(el, **kw) if rng.random() < .5 else util.pprint(el, o['values'], out, **{
        k: v for k, v in kw.items() if k not in ('values', 'out')})
    ctx.check(not out.closed, 'pprint() closed the output')
    text = out.getvalue()
    lines = []          # (line, element of which contents follow, codec, indent)
    head = text.split('\n')[:2]
    ctx.check(len(head) == 2 and head[0].startswith('Offset Size') and head[1].startswith('======'), 'pprint(): header is %r', head)
    ctx.check(('Value' in head[0]) == o['values'], 'pprint(): header is %r with values=%s', head[0], o['values'])

    def put(x, depth):
        tab = o['indent'] * depth
        line = '%06s %06s %s %s (ID 0x%X)' % (x.off, x.size, tab, x.name, x.id)
        if x.children is not None:
            lines.append((line + ': (master) %d subelements' % len(x.children), None, None, ''))
            for c in x.children:
                put(c, depth + 1)
            return
        line += ': (%s)' % TYPES[x.kind]
        if not o['values']:
            lines.append((line, None, None, ''))
        elif x.kind not in ('bin', 'void', 'unknown'):
            lines.append((line + ' %r' % (x.value,), None, None, ''))
        else:
            codec = codecs['binary_codec']
            if x.kind == 'void' and codecs['void_codec'].NAME != 'ignore':
                codec = codecs['void_codec']
            if codec.NAME == 'ignore':
                lines.append((line, None, None, ''))
            else:
                lines.append((line + ' <%s>' % codec.NAME, x, codec, tab + ' ' * 17))

    if r is None:
        lines.append(('%06s %06s  %s (Document, type %s)' % (doc.offset, doc.size, doc.name, doc.type), None, None, ''))
        for k in kids:
            put(k, 1)
    else:
        put(r, 0)
    pos = len('\n'.join(head)) + 1
    for n, (line, x, codec, ind) in enumerate(lines):
        ctx.check(text.startswith(line, pos), '%s: pprint(%s) line %d is %r, expected %r', what, kw, n,
                  text[pos:pos + len(line) + 40].split('\n')[0], line)
        pos += len(line)
        end = text.find('\n' + lines[n + 1][0], pos) if n + 1 < len(lines) else len(text) - 1
        ctx.check(end >= 0, '%s: pprint(%s): line %r does not follow %r', what, kw, lines[n + 1][0] if n + 1 < len(lines) else '', line)
        rest = text[pos:end]
        ctx.ev('line')
        if x is None:
            ctx.check(rest == '', '%s: pprint(%s): line %r goes on with %r', what, kw, line, rest[:200])
        else:
            why = textref.check(codec, rest, x.value, ind, x.off)
            ctx.check(why is None, '%s: pprint(%s): contents of %s: %s', what, kw, obs.where(x), why)
            ctx.ev('codec text')
        pos = end + 1
    ctx.check(pos == len(text) and text.endswith('\n'), '%s: pprint(%s) ends with %r', what, kw, text[pos - 1:])


def judge(ctx, rng, doc, show, cap=30):
    crawl(ctx, rng, doc, show, 'document')
    index(ctx, rng, doc, show, True, 'document')
    roots = doc.roots if hasattr(doc, 'roots') else list(doc)
    printed(ctx, rng, doc, None, show, doc, 'document')
    if rng.random() < .4:
        interleaved(ctx, rng, doc, show)
    todo = list(zip(roots, show))
    n = 0
    while todo and n < cap:
        e, r = todo.pop(rng.randrange(len(todo)))
        n += 1
        if r.children is None:
            if rng.random() < .3:
                crawl(ctx, rng, e, [], obs.where(r))
                printed(ctx, rng, e, r, [], doc, obs.where(r))
            continue
        acts = [lambda: crawl(ctx, rng, e, r.children, obs.where(r)),
                lambda: index(ctx, rng, e, r.children, False, obs.where(r)),
                lambda: rng.random() < .4 and printed(ctx, rng, e, r, r.children, doc, obs.where(r)),
                lambda: rng.random() < .3 and interleaved(ctx, rng, e, r.children)]
        rng.shuffle(acts)
        for a in acts:
            a()
        todo += list(zip(list(e), r.children))


def layout(ctx, rng, i):
    model = gen.gen_schema(rng)
    schema = obs.schema(model)
    roots = gen.gen_layout(rng, model, controls=.15, big=False, budget=rng.choice([0, 3, 8, 25, 60]), huge=.05, high=17)
    data = gen.to_bytes(roots)
    refs = ref.parse(data, model)
    h = rng.random() < .5
    show = refs if h or not refs or refs[0].name != 'EBML' else refs[1:]
    doc = schema.load(io.BytesIO(data), headers=h)
    ctx.case(data, ' '.join(n.text() for n in roots)[:400], bool(refs))
    judge(ctx, rng, doc, show)


def far(ctx, rng, i):
    """ Elements gigabytes into a file. """
    model = gen.gen_schema(rng)
    schema = obs.schema(model)
    data = gen.to_bytes(gen.gen_layout(rng, model, controls=.15, big=False, budget=20, high=17))
    src, refs = obs.Far.place(rng, data, ref.parse(data, model))
    doc = schema.load(src, headers=True)
    ctx.eq(doc.offset, src.base, 'offset of the document')
    ctx.case((data, src.base), '%s at %d' % ([r.name for r in refs], src.base), bool(refs))
    judge(ctx, rng, doc, refs)
    ctx.ev('far', len(refs))


def samples(ctx, rng, i):
    fn, sn = [('SSX46714-doesnot.IDE', 'mide_ide'), ('video-3.mkv', 'matroska')][i]
    p = REPO / 'tests' / fn
    if not p.exists():
        raise Inconclusive('sample file missing')
    sp = REPO / 'ebmlite' / 'schemata' / (sn + '.xml')
    model, schema = ref.read_schema(str(sp)), core.loadSchema(str(sp))
    with schema.load(str(p), headers=True) as doc:
        data = p.read_bytes()
        refs = ref.parse(data, model)
        same(ctx, util.flatiter(doc), list(flat(refs, -1)), fn)
        judge(ctx, rng, doc, refs, 4)
    ctx.ev('sample')
    ctx.case(data, p.name)


SECTIONS = [Section('layout', layout, 1500), Section('far', far, 100), Section('samples', samples, 1, 2)]
