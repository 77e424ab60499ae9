""" C07: results do not depend on the order or history of access. """
import io

from vlib import gen, obs, ref
from vlib.mon import Section, short
from ebmlite import core, util

LEVEL = 'exploration'
RULE = """A case is a random history of 40-400 read operations (partial and interleaved iterators, indexing, slices,
len, size, value, raw data, dump, XML export, cache clearing, equality, outside moves of the shared stream) on elements of
one document, with element objects kept across operations; an online monitor compares every result with the reference
tree. Section 'gc' also models which values are cached. Non-trivial: at least 20 judged operations.
Distinct: document bytes and sequence of operations."""
REQUIRE = {'operation': 5000, 'iterator step': 800, 'op:gc': 200, 'gc count': 200, 'outside seek': 300}

OPS = ['iter', 'iter', 'next', 'next', 'next', 'next', 'list', 'index', 'slice', 'len', 'size', 'value', 'value', 'raw',
       'rawvalue', 'dump', 'gc', 'gcr', 'seek', 'xml', 'flat', 'reload', 'eq', 'meta', 'verify', 'repr']


class History:
    def __init__(self, ctx, rng, model, schema, data):
        self.ctx, self.rng, self.model, self.schema, self.data = ctx, rng, model, schema, data
        self.refs = ref.parse(data, model)
        self.stream = rng.choice([io.BytesIO, obs.Stream])(data)
        self.doc = schema.load(self.stream, headers=True)
        self.top = ref.El()
        self.top.children, self.top.kind, self.top.d = self.refs, 'doc', None
        self.top.name, self.top.id, self.top.off = 'Document', 0, 0
        self.held = [(self.doc, self.top)]
        self.iters = []
        self.log = []

    def hold(self, el, r):
        if len(self.held) > 60:
            self.held.pop(self.rng.randrange(1, len(self.held)))
        self.held.append((el, r))

    def kids(self, els, refs, what):
        got = [(e.id, e.offset) for e in els]
        want = [(r.id, r.off) for r in refs]
        if got != want:
            self.fail('%s shows %s, expected %s' % (what, short(got), short(want)))
        for e, r in zip(els, refs):
            if self.rng.random() < .3:
                self.hold(e, r)

    def fail(self, msg):
        self.ctx.fail('after %s: %s' % (' '.join(self.log[-40:]), msg))

    def step(self):
        ctx, rng = self.ctx, self.rng
        op = rng.choice(OPS)
        el, r = rng.choice(self.held)
        isdoc = el is self.doc
        master = r.children is not None
        self.log.append('%s@%s' % (op, '-' if isdoc else r.off))
        ctx.ev('operation')
        ctx.ev('op:' + op)
        w = 'the document' if isdoc else obs.where(r)
        if op == 'iter' and master:
            self.iters.append([iter(el), r.children, 0, w])
            if len(self.iters) > 8:
                self.iters.pop(0)
        elif op == 'flat' and master and self.data.__len__() < 20000:
            want = [x for c in r.children for x in c.walk()]
            self.iters.append([util.flatiter(el), want, 0, 'flatiter(%s)' % w])
        elif op == 'next' and self.iters:
            it = rng.choice(self.iters)
            ctx.ev('iterator step')
            for _ in range(rng.randint(1, 3)):
                try:
                    c = next(it[0])
                except StopIteration:
                    if it[2] != len(it[1]):
                        self.fail('iterator of %s ended after %d of %d' % (it[3], it[2], len(it[1])))
                    self.iters.remove(it)
                    break
                if it[2] >= len(it[1]):
                    self.fail('iterator of %s yields more than %d elements' % (it[3], len(it[1])))
                self.kids([c], [it[1][it[2]]], 'iterator of %s' % it[3])
                it[2] += 1
        elif op == 'list' and master:
            self.kids(list(el), r.children, 'iterating ' + w)
        elif op == 'index' and master:
            n = len(r.children)
            k = rng.randrange(-1 if isdoc else -n - 2, n + rng.choice([2, 2, 5]))
            ok = (0 if isdoc else -n) <= k < n
            try:
                c = el[k]
            except IndexError as ex:
                if ok:
                    self.fail('%s[%d] raised IndexError' % (w, k))
                if isdoc:
                    try:
                        self.schema.load(io.BytesIO(self.data), headers=True)[k]
                    except IndexError as fresh:
                        if str(ex) != str(fresh):
                            self.fail('%s[%d] says %r, on a freshly opened document %r' % (w, k, str(ex), str(fresh)))
            else:
                if not ok:
                    self.fail('%s[%d] of %d returned %r' % (w, k, n, c))
                self.kids([c], [r.children[k]], '%s[%d]' % (w, k))
        elif op == 'slice' and master and not isdoc:
            n = len(r.children)
            s = slice(*[rng.choice([None, rng.randint(-n - 1, n + 1)]) for _ in range(2)])
            self.kids(el[s], r.children[s], '%s[%s]' % (w, s))
        elif op == 'len':
            want = len(r.children) if master else len(r.value) if r.kind == 'utf8' else r.size
            if hasattr(type(el), '__len__'):
                if len(el) != want:
                    self.fail('len(%s) is %r, expected %d' % (w, len(el), want))
        elif op == 'size' and not isdoc:
            if el.size != r.size:
                self.fail('size of %s is %r' % (w, el.size))
        elif op == 'value':
            if master:
                self.kids(list(el.value), r.children, 'value of ' + w)
            elif not ref.same_value(el.value, r.value):
                self.fail('value of %s is %s, expected %s' % (w, short(el.value), short(r.value)))
        elif op == 'raw' and not isdoc:
            if bytes(el.getRaw()) != r.raw:
                self.fail('getRaw() of %s is %s' % (w, short(el.getRaw())))
        elif op == 'rawvalue' and not isdoc:
            if bytes(el.getRawValue()) != r.payload:
                self.fail('getRawValue() of %s is %s' % (w, short(el.getRawValue())))
        elif op == 'repr':
            t = repr(el)
            if not isinstance(t, str) or not isdoc and not (str(r.off) in t and str(r.size) in t):
                self.fail('repr of %s is %r' % (w, t))
        elif op == 'dump':
            got = el.dump()
            want = obs.dump_of(r.children) if master else r.value
            if not obs.same_dump(got, want):
                self.fail('dump of %s is %s, expected %s' % (w, short(got), short(want)))
        elif op in ('gc', 'gcr'):
            n = el.gc(recurse=op == 'gcr')
            if not isinstance(n, int) or n < 0 or el.gc(recurse=op == 'gcr') != 0:
                self.fail('gc() of %s returned %r, then not 0' % (w, n))
        elif op == 'seek':
            ctx.ev('outside seek')
            self.stream.seek(rng.choice([0, 1, len(self.data), len(self.data) + 10, rng.randint(0, len(self.data))]))
            if rng.random() < .3:
                self.stream.read(3)
        elif op == 'xml':
            x = util.toXml(el)
            got = [e.tag for e in x.iter()][1:]
            want = [y.name for c in (r.children or ()) for y in c.walk()]
            if got != want:
                self.fail('XML of %s has %s, expected %s' % (w, short(got), short(want)))
        elif op == 'reload' and not isdoc:
            # a second document on the same stream object
            self.stream.seek(0)
            d2 = self.schema.load(self.stream, headers=True)
            self.kids(list(d2), self.refs, 'second document')
        elif op == 'eq' and not isdoc:
            other = self.rng.choice(self.held[1:] or [(el, r)])
            same = r.off == other[1].off and r.id == other[1].id
            nan = isinstance(r.value, float) and r.value != r.value
            if not nan and not (r.kind == 'unknown' or other[1].kind == 'unknown') and (el == other[0]) != same:
                self.fail('%s == %s is %s' % (w, obs.where(other[1]), not same))
        elif op == 'meta' and not isdoc:
            obs.check_meta(ctx, el, r)
        elif op == 'verify' and rng.random() < .2:
            unknown = any(x.kind == 'unknown' for y in self.refs for x in y.walk())
            head = self.refs and self.refs[0].name == 'EBML' and any(
                x.kind == 'unknown' for x in self.refs[0].walk())
            if not unknown and self.schema.verify(self.data) is not True:
                self.fail('verify() is not True')


def histories(ctx, rng, i):
    model = gen.gen_schema(rng, max_masters=8, precache_p=.3)
    schema = obs.schema(model)
    roots = gen.gen_layout(rng, model, controls=.15, n_roots=rng.choice([1, 2, 3, 6]), big=False, budget=rng.choice([15, 40, 80]), huge=.03)
    data = gen.to_bytes(roots)
    ctx.note('data=%s schema=%s' % (data.hex()[:3000], model.xml))
    h = History(ctx, rng, model, schema, data)
    for _ in range(rng.choice([40, 100, 250])):
        h.step()
    ctx.case(data + ' '.join(h.log).encode(), ' '.join(h.log)[:400], len(h.log) >= 20)


def gc_model(ctx, rng, i):
    """ gc() returns the number of values that were cached, and only clears. """
    model = gen.gen_schema(rng, max_masters=8, precache_p=.4)
    schema = obs.schema(model)
    roots = gen.gen_layout(rng, model, n_roots=3, big=False, budget=40)
    data = gen.to_bytes(roots)
    refs = ref.parse(data, model)
    ctx.note('data=%s schema=%s' % (data.hex()[:3000], model.xml))
    doc = schema.load(io.BytesIO(data), headers=True)
    els = list(doc)

    class State:        # what must be cached
        def __init__(self, el, r):
            self.el, self.r = el, r
            self.cached = r.d.cached if r.d is not None else False
            self.kids = []

        def read(self):
            if not self.cached:
                self.cached = True
                if self.r.children is not None:
                    self.kids = [State(c, cr) for c, cr in zip(self.el.value, self.r.children)]
                else:
                    self.el.value
            return self

        def clear(self, recurse):
            n = 0
            if self.cached:
                self.cached, n = False, 1
                if recurse:
                    n += sum(k.clear(True) for k in self.kids)
                self.kids = []
            return n
    # masters are never pre-cached here: their children would be read at once
    states = [State(e, r) for e, r in zip(els, refs)]
    if any(s.r.children is not None and s.cached for x in states for s in [x]):
        pass
    for st in states:
        if any(x.d is not None and x.d.kind == 'master' and x.d.cached for x in st.r.walk()):
            continue
        todo = [st]
        for _ in range(rng.randint(1, 12)):
            s = rng.choice(todo)
            op = rng.randrange(4)
            if op == 0:
                s.read()
                todo += [k for k in s.kids if k not in todo]
            elif op == 1 and s.r.children:
                s.read()
                k = rng.randrange(len(s.r.children))
                ctx.check(s.el[k] is s.kids[k].el, '%s[%d] is not the cached element', obs.where(s.r), k)
                todo += [k for k in s.kids if k not in todo]
            elif op == 2 and s.r.children is None:
                s.read()
                v = s.el.value
                ctx.check(ref.same_value(v, s.r.value), 'value of %s is %s', obs.where(s.r), short(v))
            else:
                rec = rng.random() < .6
                want = s.clear(rec)
                got = s.el.gc() if not rec and rng.random() < .5 else s.el.gc(rec) if rng.random() < .5 else s.el.gc(recurse=rec)
                ctx.ev('gc count')
                ctx.check(got == want, 'gc(recurse=%s) of %s returned %r, %d values were cached', rec, obs.where(s.r),
                          got, want)
                ctx.check(s.el.gc(recurse=rec) == 0, 'second gc() of %s is not 0', obs.where(s.r))
                obs.check_el(ctx, s.el, s.r)
                s.cached, s.kids = True, []
                s.el.gc(recurse=True)
                s.cached = False
        rec = True
        s = st
        want = s.clear(rec)
        got = s.el.gc(recurse=rec)
        ctx.ev('gc count')
        ctx.check(got == want, 'gc(recurse=True) of %s returned %r, %d values were cached', obs.where(s.r), got, want)
    obs.check_list(ctx, els, refs, 'after gc()')
    ctx.check(doc.gc() == 0 and doc.gc(recurse=True) == 0, 'gc() of a document is not 0')
    ctx.case(('gc', data), [r.text() for r in roots][:3], bool(roots))


SECTIONS = [Section('histories', histories, 500, 3000), Section('gc', gc_model, 400, 2400)]
