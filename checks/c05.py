""" C05: unknown-size masters read like sized ones. """
import io

from vlib import gen, obs, ref
from vlib.mon import REPO, Section
from ebmlite import core

LEVEL = 'exploration'
RULE = """A case is a document with masters of unknown size (marker widths 1-8, nested up to 3, ended by a sibling,
another root, an unknown ID, an undeclared Void, the parent's end or the end of file). Every observation (size, len,
children, raw data, in random access order) is compared with an independent parser applying the documented rule,
and with the twin document in which the same masters carry their size. Schemata are also extended with addElement() between documents. 'far': gigabytes into a stream. Non-trivial: an unknown-size master was read.
Distinct: different bytes."""
REQUIRE = {'unknown-size master': 500, 'end of file': 30, 'ended by element': 100, 'nested': 50, 'global child': 20,
           'twin': 200, 'sample element': 1000, 'made by hand': 300, 'extended': 100, 'far': 30}


def observe(ctx, rng, el, r):
    """ All observations of a master, in random order. """
    ops = ['size', 'len', 'iter', 'value', 'raw', 'rawvalue', 'index', 'gc', 'iter']
    rng.shuffle(ops)
    kids = r.children
    if rng.random() < .4:
        # An element made by hand; its size is not known yet
        el = type(el)(el.stream, el.offset, None if r.unk else r.size, el.payloadOffset)
        ctx.ev('made by hand')
    for op in ops:
        ctx.ev('observation')
        if op == 'size':
            ctx.check(el.size == r.size, '%s: size is %s, expected %d', obs.where(r), el.size, r.size)
        elif op == 'len':
            ctx.check(len(el) == len(kids), '%s: len() is %s, expected %d', obs.where(r), len(el), len(kids))
        elif op in ('iter', 'value'):
            got = [(c.id, c.offset) for c in (el if op == 'iter' else el.value)]
            want = [(c.id, c.off) for c in kids]
            ctx.check(got == want, '%s: children (%s) are %s, expected %s', obs.where(r), op, got, want)
        elif op == 'raw':
            ctx.check(bytes(el.getRaw()) == r.raw, '%s: getRaw() is %s, expected %s', obs.where(r),
                      el.getRaw()[:60], r.raw[:60])
        elif op == 'rawvalue':
            ctx.check(bytes(el.getRawValue()) == r.payload, '%s: getRawValue() differs', obs.where(r))
        elif op == 'index' and kids:
            k = rng.randrange(len(kids))
            ctx.check(el[k].offset == kids[k].off, '%s: [%d] is at %s', obs.where(r), k, el[k].offset)
        elif op == 'gc':
            el.gc(rng.random() < .5)
    if r.unk:
        ctx.ev('unknown-size master')


def crawl(ctx, rng, els, refs):
    ctx.check([(e.id, e.offset) for e in els] == [(r.id, r.off) for r in refs], 'elements are %s, expected %s',
              [(e.name, e.offset) for e in els], [(r.name, r.off) for r in refs])
    for e, r in zip(els, refs):
        obs.check_meta(ctx, e, r) if rng.random() < .5 else None
        if r.children is None:
            obs.check_leaf(ctx, e, r)
        else:
            observe(ctx, rng, e, r)
            crawl(ctx, rng, list(e), r.children)


def judge(ctx, rng, model, schema, roots):
    data = gen.to_bytes(roots)
    refs = ref.parse(data, model)
    for r in refs:
        for x in r.walk():
            if not x.unk:
                continue
            ctx.ev('end of file' if x.end == len(data) else 'ended by element')
            if any(c.unk for c in x.walk() if c is not x):
                ctx.ev('nested')
            if any(c.id in model.globals and c.id not in x.d.children for c in x.children):
                ctx.ev('global child')
    doc = schema.load(rng.choice([io.BytesIO, obs.Stream])(data), headers=True)
    crawl(ctx, rng, list(doc), refs)
    # The twin with sizes
    unk = [n for r in roots for n in r.walk() if n.unk]
    for n in unk:
        n.unk, n.sw = False, None
    twin = gen.to_bytes(roots)
    a, b = schema.loads(data), schema.loads(twin)
    a, b = (schema.load(io.BytesIO(x), headers=True) for x in (data, twin))

    def same(x, y, path):
        ctx.ev('twin')
        xs, ys = list(x), list(y)
        ctx.check([e.id for e in xs] == [e.id for e in ys], '%s: children %s of unknown size, %s sized', path,
                  [e.name for e in xs], [e.name for e in ys])
        for p, q in zip(xs, ys):
            if isinstance(p, core.MasterElement):
                ctx.check(len(p) == len(q), '%s/%s: len() %d of unknown size, %d sized', path, p.name, len(p), len(q))
                same(p, q, path + '/' + p.name)
            else:
                ctx.check(ref.same_value(p.value, q.value) or p.value == q.value, '%s/%s: values differ', path, p.name)
    same(a, b, '')
    if not unk:
        ctx.ev('no unknown size')
    return data


def docs(ctx, rng, i):
    model = gen.gen_schema(rng, max_masters=8)
    schema = obs.schema(model)
    for _ in range(3):
        roots = gen.gen_layout(rng, model, infinite=True, big=False, budget=40, wild=.05, huge=.05)
        data = gen.to_bytes(roots)
        ctx.note('data=%s schema=%s' % (data.hex()[:3000], model.xml))
        ctx.case(data, [r.text() for r in roots][:3], any(n.unk for r in roots for n in r.walk()))
        judge(ctx, rng, model, schema, roots)


def far(ctx, rng, i):
    """ Gigabytes into a stream. """
    model = gen.gen_schema(rng, max_masters=8)
    schema = obs.schema(model)
    data = gen.to_bytes(gen.gen_layout(rng, model, infinite=True, big=False, budget=25))
    src, refs = obs.Far.place(rng, data, ref.parse(data, model))
    unk = sum(r.unk for q in refs for r in q.walk())
    ctx.note('at %d, data=%s schema=%s' % (src.base, data.hex()[:3000], model.xml))
    ctx.case((data, src.base), '%d masters of unknown size at %d' % (unk, src.base), unk > 0)
    obs.check_list(ctx, list(schema.load(src, headers=True)), refs, 'document at %d' % src.base, raw=True)
    ctx.ev('far', unk)


def targeted(ctx, rng, i):
    """ One unknown-size master (possibly nested) before a chosen terminator. """
    model = gen.gen_schema(rng, max_masters=8, void=rng.random() < .8, length_p=0)
    schema = obs.schema(model)
    masters = [d for d in model.byId.values() if d.kind == 'master' and d.children and d.name != 'EBML']
    for _ in range(6):
        d = rng.choice(masters)
        kids = []
        cand = [model.byId[c] for c in sorted(d.children) if model.byId[c].kind != 'master']
        cand += [model.byId[g] for g in sorted(model.globals) if model.byId[g].kind != 'master']
        for _ in range(rng.choice([0, 1, 2, 3, 10, 40])):
            if cand:
                kids.append(gen.layout_leaf(rng, rng.choice(cand), False))
        n = ref.Node(d, children=kids, sw=rng.randint(1, 8), unk=True)
        # nest in masters that may contain it
        for _ in range(rng.choice([0, 0, 1, 2])):
            hosts = [h for h in masters if n.d.id in h.children or n.d.id in model.globals]
            if not hosts:
                break
            h = rng.choice(hosts)
            sib = [model.byId[c] for c in sorted(h.children) if model.byId[c].kind != 'master']
            before = [gen.layout_leaf(rng, rng.choice(sib), False) for _ in range(rng.randrange(3)) if sib]
            after = [gen.layout_leaf(rng, rng.choice(sib), False) for _ in range(rng.randrange(3)) if sib]
            n = ref.Node(h, children=before + [n] + after, sw=rng.randint(1, 8), unk=rng.random() < .6)
        term = rng.choice(['eof', 'unknown', 'self', 'leaf', 'void', 'master'])
        roots = [n]
        if term == 'unknown':
            roots.append(ref.Node(None, id=gen.gen_id(rng, set(model.byId)), payload=gen.gen_bin(rng, rng.randint(0, 9))))
        elif term == 'self':
            roots.append(ref.Node(n.d, children=[], unk=rng.random() < .5))
        elif term == 'leaf':
            roots.append(gen.layout_leaf(rng, rng.choice([x for x in model.byId.values() if x.kind != 'master']), False))
        elif term == 'void' and 'Void' in model.byName:
            roots.append(gen.layout_leaf(rng, model.byName['Void'], False))
        elif term == 'master':
            roots.append(ref.Node(rng.choice(masters), children=[]))
        if rng.random() < .5 and len(roots) > 1:
            roots.append(gen.layout_leaf(rng, rng.choice([x for x in model.byId.values() if x.kind != 'master']), False))
        gen.settle(rng, roots, model)
        data = gen.to_bytes(roots)
        ctx.note('data=%s schema=%s' % (data.hex()[:3000], model.xml))
        ctx.case(data, '%s ended by %s' % (n.text()[:200], term), any(x.unk for r in roots for x in r.walk()))
        judge(ctx, rng, model, schema, roots)


XTYPE = {'uint': core.UIntegerElement, 'utf8': core.UnicodeElement, 'bin': core.BinaryElement}


def extended(ctx, rng, i):
    """ A schema extended by `addElement()` between documents: the new definitions hold from then on. """
    model = gen.gen_schema(rng, max_masters=8, length_p=0)
    schema = obs.schema(model)
    for step in range(4):
        if step:
            masters = [d for d in model.byId.values() if d.kind == 'master' and d.children and d.name != 'EBML']
            kind = rng.choice(sorted(XTYPE))
            d = ref.Def(gen.gen_id(rng, set(model.byId)), 'Late%d' % step, kind, multiple=True, glob=rng.random() < .6)
            host = None if d.glob or not masters or rng.random() < .1 else rng.choice(masters)
            a = {'id': hex(d.id), 'name': d.name, 'multiple': '1'}
            if d.glob:
                a['global'] = '1'
            schema.addElement(d.id, d.name, XTYPE[kind], a, parent=schema[host.id] if host else None)
            model.add(d, host)
            ctx.ev('extended')
            # in an unknown-size master
            hosts = [host] if host else masters
            if hosts:
                h = rng.choice(hosts)
                late = gen.layout_leaf(rng, d, False)
                sib = [model.byId[c] for c in sorted(h.children) if model.byId[c].kind != 'master']
                kids = [gen.layout_leaf(rng, rng.choice(sib), False) for _ in range(rng.randrange(3)) if sib]
                roots = [ref.Node(h, children=kids + [late] + kids[:1], sw=rng.randint(1, 8), unk=True)]
                if rng.random() < .5:
                    roots.append(ref.Node(None, id=gen.gen_id(rng, set(model.byId)), payload=b'x'))
                gen.settle(rng, roots, model)
                data = gen.to_bytes(roots)
                ctx.note('extended: %s data=%s schema=%s' % (a, data.hex()[:3000], model.xml))
                ctx.case(data, 'after addElement(): %s' % roots[0].text()[:200])
                judge(ctx, rng, model, schema, roots)
        roots = gen.gen_layout(rng, model, infinite=True, big=False, budget=30, wild=.05)
        data = gen.to_bytes(roots)
        ctx.note('step %d data=%s schema=%s' % (step, data.hex()[:3000], model.xml))
        ctx.case(data, [r.text() for r in roots][:3], any(n.unk for r in roots for n in r.walk()))
        judge(ctx, rng, model, schema, roots)


def samples(ctx, rng, i):
    """ The live-muxed sample files in the repository. """
    fn = ('video-2.mkv', 'video-3.mkv')[i]
    p = REPO / 'ebmlite' / 'schemata' / 'matroska.xml'
    model, schema = ref.read_schema(str(p)), core.loadSchema(str(p))
    data = (REPO / 'tests' / fn).read_bytes()
    refs = ref.parse(data, model)
    with schema.load(str(REPO / 'tests' / fn), headers=True) as doc:
        n0 = ctx.events['element']
        obs.check_list(ctx, list(doc), refs, fn)
        ctx.ev('sample element', ctx.events['element'] - n0)
    ctx.case(data, fn)


SECTIONS = [Section('docs', docs, 240, 1440), Section('targeted', targeted, 300, 1800), Section('extended', extended, 100, 600),
            Section('far', far, 60, 400), Section('samples', samples, 2, 2)]
