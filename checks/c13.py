""" C13: ThreadAwareFile gives every thread its own independent read-only file. """
import _thread
import gc
import io
import os
import threading
import time

from vlib import gen, sched
from vlib.mon import Inconclusive, Section, Violation, short
from ebmlite import threaded_file
from ebmlite.threaded_file import ThreadAwareFile

LEVEL = 'exploration'
RULE = """'schedules': 2-5 worker threads run random scripts of file operations on one ThreadAwareFile under a
deterministic scheduler that may switch threads at every line (or byte code) of threaded_file.py; every result is compared
with the same operation on a private file of the thread (closes by closeAll() are tolerated where they overlap). Later
waves of threads start after earlier ones have ended. 'turns': operation-level turns with exact expectations,
open descriptors counted through the operating system. 'read only': every mode and writing method. Non-trivial: at
least two threads switched inside an operation. Distinct: sequence of (thread, line)."""
REQUIRE = {'operation': 2000, 'switch': 4000, 'wave': 100, 'write refused': 200, 'descriptor count': 100,
           'closeAll': 15, 'interleaving': 80, 'new thread, file gone': 40, 'undisturbed': 80,
           'big file': 3,
           'one of many': 50}
ASSUME = ['CPython executes one byte code of one thread at a time (GIL build)']

SRC = threaded_file.__file__


def content(rng):
    long = rng.random() < .2
    return b''.join(b'%d:%s\n' % (i, rng.randbytes(rng.randrange(1, 12 if not long or rng.random() < .9 else 9000)).replace(b'\n', b'_'))
                    for i in range(rng.choice([1, 20, 200])))


def outcome(fn):
    try:
        return 'ok', fn()
    except Violation:
        raise
    except sched.Stall:
        raise
    except Exception as ex:
        return 'raised', type(ex)


def readinto(f, n):
    b = bytearray(b'#' * n)
    r = f.readinto(b)
    return r, bytes(b)


def take(it, n):
    out = []
    for _ in range(n):
        try:
            out.append(next(it))
        except StopIteration:
            out.append(None)
            break
    return out


def attr(name):
    return lambda f: getattr(f, name)


def ops(rng, size):
    """ A random operation: (label, function of a file) """
    k = rng.randrange(20)
    n = rng.choice([0, 1, 3, 10, 100, size, size + 5, rng.choice([1200, 4096, 8000])])
    p = rng.choice([0, 1, size // 2, size, size + 3, rng.randint(0, size)])
    if k < 4:
        return 'read(%d)' % n, lambda f: f.read(n)
    if k < 7:
        return 'seek(%d)' % p, lambda f: f.seek(p)
    if k == 7:
        w = rng.choice([1, 2])
        d = rng.randint(-10, 5)
        return 'seek(%d, %d)' % (d, w), lambda f: f.seek(d, w)
    if k < 10:
        return 'tell', lambda f: f.tell()
    if k == 10:
        return 'read()', lambda f: f.read()
    if k == 11:
        return 'readline', lambda f: f.readline()
    if k == 12:
        return 'readline(%d)' % n, lambda f: f.readline(n)
    if k == 13:
        return 'readlines(%d)' % n, lambda f: f.readlines(n)
    if k == 14:
        return 'readinto(%d)' % n, lambda f: readinto(f, n)
    if k == 15:
        m = rng.randint(1, 4)
        return 'iterate %d' % m, lambda f: take(iter(f), m)
    if k == 16:
        return 'readall', lambda f: f.readall()
    if k == 17:
        m = rng.choice(['closed', 'name', 'mode', 'encoding', 'errors', 'newlines'])
        return m, attr(m)
    if k == 18:
        m = rng.choice(['readable', 'seekable', 'isatty', 'flush', 'writable'])
        return m + '()', lambda f: getattr(f, m)()
    m = rng.choice(['write', 'writelines', 'truncate'])
    a = {'write': (b'xxx',), 'writelines': ([b'x', b'y'],), 'truncate': rng.choice([(), (0,), (5,)])}[m]
    return '%s%r' % (m, a), lambda f: getattr(f, m)(*a)


class Worker:
    """ One thread: runs a script on the shared and on its private file. """

    def __init__(self, ctx, case, rng, n, steps, closes):
        self.ctx, self.case, self.rng, self.n, self.steps, self.closes = ctx, case, rng, n, steps, closes
        self.private = None
        self.log = []
        self.fresh = True       # no stream yet
        self.unsure = False     # closeAll() may have closed the stream
        self.adopted = None

    def fail(self, msg):
        raise Violation('thread %d, after %s: %s' % (self.n, ', '.join(self.log[-12:]), msg))

    def open(self, pos=0):
        if self.private is not None:
            self.private.close()
        self.private = io.FileIO(self.case.path)
        self.private.seek(pos)
        self.fresh = False

    def __call__(self):
        f = self.case.file
        try:
            self.script(f)
        finally:
            if self.private is not None:
                self.private.close()

    def resync(self, f):
        """ After closeAll() or close(): closed, or anew at the start. """
        case = self.case
        epoch = case.epoch
        if case.closing:
            return False
        try:
            p = f.tell()
        except ValueError:
            f.cleanup()
            try:
                p = f.tell()
            except ValueError:
                if case.closing or case.epoch != epoch:
                    return False
                self.fail('still closed after cleanup()')
        if case.closing or case.epoch != epoch:
            return False            # closeAll() came in between: try again
        self.unsure = False
        self.open(p)
        return True

    def script(self, f):
        ctx, case, rng = self.ctx, self.case, self.rng
        if self.adopted is None:
            r = outcome(lambda: f.closed)
            self.log.append('closed')
            if r != ('ok', True):
                self.fail('a new thread sees closed=%r before its first access' % (r,))
            epoch = case.epoch
            p = outcome(f.tell)
            self.log.append('tell')
            if case.closing or case.epoch != epoch:
                self.unsure = True
            elif p != ('ok', 0):
                self.fail('a new thread starts with tell() %r' % (p,))
            self.open()
        else:
            self.open(self.adopted)
        for _ in range(self.steps):
            epoch = case.epoch
            if case.closing or self.unsure:
                self.unsure = True
                if not self.resync(f):
                    outcome(lambda: f.read(3))      # whatever it gives
                    continue
            k = rng.random()
            if k < self.closes:
                try:
                    self.special(f)
                except ValueError:
                    if epoch == case.epoch and not case.closing:
                        raise
                    self.unsure = True      # closed by closeAll() meanwhile
                continue
            label, op = ops(rng, case.size)
            if label.startswith(('write', 'trunc')) and 'ritable' not in label:
                got = outcome(lambda: op(f))
                self.log.append(label)
                if got[0] != 'raised':
                    self.fail('%s was accepted: %r' % (label, got))
                ctx.ev('write refused')
                continue
            got = outcome(lambda: op(f))
            if case.closing or self.unsure or case.epoch != epoch:
                self.unsure = True
                self.log.append(label + '?')
                continue
            want = outcome(lambda: op(self.private))
            self.log.append(label)
            ctx.ev('operation')
            if label == 'writable()' and want == ('ok', False) or label == 'mode':
                pass
            if got != want or type(got[1]) is not type(want[1]):
                self.fail('%s gave %s, a private file gives %s' % (label, short(got), short(want)))
            if rng.random() < .2 and not case.closers:
                case.fds[self.n] = fd = f.fileno()
                st = os.fstat(fd)
                if case.epoch == epoch and not case.closers and [n for n, x in case.fds.items() if x == fd] != [self.n]:
                    self.fail('shares file descriptor %d with another thread' % fd)
                if (st.st_dev, st.st_ino) != case.inode and case.epoch == epoch:
                    self.fail('descriptor %d is another file' % fd)

    def special(self, f):
        """ Operations that close. """
        case, rng, ctx = self.case, self.rng, self.ctx
        k = rng.randrange(5)
        if k == 0:
            self.log.append('cleanup')
            f.cleanup()
        elif k == 1:
            self.log.append('close')
            case.fds.pop(self.n, None)
            f.close()
            if not f.closed:
                self.fail('not closed after close()')
            self.unsure = True
            if rng.random() < .3:
                f.close()
        elif k == 2:
            self.log.append('with')
            epoch = case.epoch
            with f as g:
                if g is not f:
                    self.fail('"with" gives %r' % (g,))
                p = f.tell()
                if epoch == case.epoch and not case.closing and p != self.private.tell():
                    self.fail('position %d inside "with", was %d' % (p, self.private.tell()))
                case.fds.pop(self.n, None)
            if not f.closed:
                self.fail('not closed after "with"')
            self.unsure = True
        elif k == 3 and case.closers:
            self.log.append('closeAll')
            ctx.ev('closeAll')
            case.closing += 1
            case.epoch += 1
            case.fds.clear()
            try:
                f.closeAll()
            finally:
                case.closing -= 1
                case.epoch += 1
            for w in case.workers:
                w.unsure = True
        else:
            self.log.append('repr')
            if not isinstance(repr(f), str) or (('closed' in repr(f)[:9]) != bool(f.closed)) and not case.closing \
                    and not self.unsure and not case.closers:
                self.fail('repr is %r, closed is %r' % (repr(f), f.closed))


class Case:
    pass


def schedules(ctx, rng, i):
    case = Case()
    data = content(rng)
    p = ctx.dir / 'shared.bin'
    p.write_bytes(data)
    case.path, case.size = str(p), len(data)
    st = os.stat(p)
    case.inode = (st.st_dev, st.st_ino)
    case.closing, case.epoch, case.fds = 0, 0, {}
    case.closers = rng.random() < .25
    old = sched.install(threaded_file)
    stall = None
    sigs = []
    try:
        kind, mine = rng.randrange(4), 0
        if kind == 0:
            src = open(p, 'rb', buffering=0)
            mine = rng.choice([0, rng.randint(0, len(data))])
            if mine or rng.random() < .3:
                src.seek(mine)
            case.file = ThreadAwareFile.makeThreadAware(src)
            if rng.random() < .5:
                ctx.check(case.file.tell() == src.tell() == mine, 'makeThreadAware() changed the position')
                ctx.check(ThreadAwareFile.makeThreadAware(case.file) is case.file, 'made thread aware twice')
        elif kind == 1:
            case.file = ThreadAwareFile(str(p))
        elif kind == 2:
            case.file = ThreadAwareFile(str(p), 'rb')
        else:
            case.file = ThreadAwareFile(str(p), mode='r')
        f = case.file
        if rng.random() < .6:
            mine = rng.randint(0, len(data))
            f.seek(mine)
        # else: the main thread comes back to a file it only opened
        for wave in range(rng.choice([1, 2, 3])):
            s = sched.Sched(rng, [SRC], stay=rng.choice([.2, .5, .8]), opcodes=rng.random() < .3)
            sched.Event.sched = s
            n = rng.choice([2, 2, 3, 5])
            closes = rng.choice([0, .1, .3])
            case.fds = {}
            case.workers = [Worker(ctx, case, __import__('random').Random(rng.random()), k, rng.randint(4, 14), closes)
                            for k in range(n)]
            s.run(list(case.workers))
            sched.Event.sched = None
            ctx.ev('wave')
            ctx.ev('switch', s.switches)
            if s.stuck:
                ctx.ev('blocked elsewhere')
            for k, ex in s.errors:
                if isinstance(ex, Violation):
                    raise ex
                if isinstance(ex, sched.Stall):
                    ctx.fail('thread %d, after %s: %s' % (k, ', '.join(case.workers[k].log[-10:]), ex))
                if isinstance(ex, sched.Trouble):
                    raise Inconclusive(str(ex))
                raise ex
            sigs.append((n, s.trace))
            if s.switches > 3:
                ctx.distinct.add(hash(repr(s.trace)))
                ctx.ev('interleaving')
        if not case.closers:
            # first ones that do not make it the main thread's turn to open its stream
            ctx.check(not f.closed, 'closed for the main thread, which never closed it')
            ctx.check(kind or not src.closed and src.tell() == mine, 'the stream made thread aware was moved or closed')
            ctx.check(f.tell() == mine, "the main thread's position is %r, was %d", f.tell(), mine)
            ctx.check(f.read() == data[mine:], 'the main thread reads something else')
        f.closeAll()
        ctx.check(f.closed, 'not closed after closeAll()')
        count = descriptors(case)
        ctx.ev('descriptor count')
        ctx.check(count == 0, '%d descriptors are open after closeAll()', count)
        ctx.check(p.read_bytes() == data, 'the file was changed')
    finally:
        sched.Event.sched = None
        sched.restore(threaded_file, old)
    ctx.case(repr(sigs)[:20000], '%d waves, %s' % (len(sigs), ['%d threads, %d steps' % (n, len(t)) for n, t in sigs]))


def descriptors(case):
    """ How many descriptors of this process refer to the file. """
    n = 0
    for fd in os.listdir('/proc/self/fd'):
        try:
            st = os.fstat(int(fd))
        except OSError:
            continue
        n += (st.st_dev, st.st_ino) == case.inode
    return n


class Puppet:
    """ A real thread that does what it is told, one thing at a time. """

    def __init__(self, rng):
        self.go, self.done, self.over = threading.Semaphore(0), threading.Semaphore(0), threading.Semaphore(0)
        self.job = None
        self.thread = None
        if rng.random() < .3:
            # not started by the threading module
            _thread.start_new_thread(self.run, ())
        else:
            self.thread = threading.Thread(target=self.run, daemon=True, name=rng.choice([None, 'reader', 'reader']))
            self.thread.start()

    def run(self):
        self.loop()
        self.over.release()

    def loop(self):
        while True:
            self.go.acquire()
            if self.job is None:
                return
            self.result = outcome(self.job)
            self.job = 0
            self.done.release()

    def do(self, fn):
        self.job = fn
        self.go.release()
        if not self.done.acquire(timeout=45):
            raise Violation('an operation does not return')
        return self.result

    def end(self):
        self.job = None
        self.go.release()
        self.over.acquire()
        if self.thread is not None:
            self.thread.join()
        else:
            time.sleep(.002)


def turns(ctx, rng, i):
    """ Operation by operation, exact expectations. """
    case = Case()
    data = content(rng)
    if i % 8 == 3:
        data *= max(1, gen.near_power(rng, 12, 18) // len(data))
        ctx.ev('big file')
    p = ctx.dir / 'turns.bin'
    p.write_bytes(data)
    st = os.stat(p)
    case.inode = (st.st_dev, st.st_ino)
    size = len(data)
    f = ThreadAwareFile(str(p), 'rb')
    ctx.check(descriptors(case) == 1, '%d descriptors after opening', descriptors(case))
    pos = {}
    puppets = {n: Puppet(rng) for n in range(rng.randint(2, 5))}
    log = []
    models = {}         # open private files
    try:
        for _ in range(rng.randint(20, 60)):
            n = rng.choice(sorted(puppets))
            t = puppets[n]
            r = rng.random()
            if r < .06:
                # the thread ends, another begins; nothing is inherited
                t.end()
                puppets[n] = t = Puppet(rng)
                log.append('%d ends' % n)
                if n in models:
                    models.pop(n).close()
                    ctx.ev('thread ended')
                    # its stream is still open; count it as lost
                    pos.setdefault('lost', 0)
                    pos['lost'] += 1
                r = t.do(lambda: (f.closed, f.tell()))
                ctx.check(r == ('ok', (True, 0)), 'after %s: a new thread sees closed, position %r', log[-8:], r)
                models[n] = open(p, 'rb', buffering=0)
                models[n].tell()        # as above: a file whose first seek fails calls itself not seekable
            elif r < .12:
                log.append('%d close' % n)
                had = n in models
                got = t.do(lambda: (f.close(), f.closed))
                ctx.check(got == ('ok', (None, True)), 'after %s: close() and closed give %r', log[-8:], got)
                if had:
                    models.pop(n).close()
            elif r < .15:
                log.append('%d closeAll' % n)
                ctx.ev('closeAll')
                t.do(f.closeAll)
                for m in models.values():
                    m.close()
                models.clear()
                pos.pop('lost', None)
                ctx.check(f.closed, 'the main thread is not closed after closeAll()')
                for k, q in puppets.items():
                    got = q.do(lambda: f.closed)
                    ctx.check(got == ('ok', True), 'after %s: thread %d sees closed=%r', log[-8:], k, got)
                ctx.check(descriptors(case) == 0, '%d descriptors open after closeAll()', descriptors(case))
                t.do(f.cleanup)
                # and it can be used again
                f.tell()
            elif r < .2:
                log.append('%d cleanup' % n)
                before = descriptors(case)
                t.do(f.cleanup)
                ctx.check(descriptors(case) == before, 'cleanup() changed the open descriptors')
            else:
                label, op = ops(rng, size)
                log.append('%d %s' % (n, label))
                if label.startswith(('write', 'trunc')) and 'ritable' not in label:
                    got = t.do(lambda: op(f))
                    ctx.check(got[0] == 'raised', '%s was accepted', label)
                    ctx.ev('write refused')
                    models.setdefault(n, None)
                    if models[n] is None:
                        del models[n]
                    continue
                if n not in models:
                    if label == 'closed':
                        got = t.do(lambda: op(f))
                        ctx.check(got == ('ok', True), 'after %s: closed is %r', log[-8:], got)
                        continue
                    models[n] = open(p, 'rb', buffering=0)
                    if label == 'writable()':
                        # needs no stream
                        models.pop(n).close()
                        ctx.check(t.do(lambda: op(f)) == ('ok', False), 'writable')
                        continue
                got = t.do(lambda: op(f))
                want = outcome(lambda: op(models[n]))
                ctx.ev('operation')
                ctx.check(got == want, 'after %s: %s, a private file gives %s', log[-10:], short(got), short(want))
            ctx.ev('descriptor count')
    finally:
        for t in puppets.values():
            t.end()
        for m in models.values():
            m.close()
        f.closeAll()
    ctx.check(descriptors(case) == 0, '%d descriptors open at the end', descriptors(case))
    ctx.check(p.read_bytes() == data, 'the file was changed')
    ctx.case(repr(log), ' '.join(log)[:300])


def crowd(ctx, rng, i):
    """ Very many threads at a time. """
    data = rng.randbytes(3000)
    p = ctx.dir / 'crowd.bin'
    p.write_bytes(data)
    case = Case()
    st = os.stat(p)
    case.inode = (st.st_dev, st.st_ino)
    f = ThreadAwareFile(str(p), 'rb')
    f.seek(77)
    n = rng.choice([20, 40, 70, 140, 270])
    gate = [threading.Barrier(n, timeout=300) for _ in range(3)]
    got = {}

    def work(k):
        steps = []
        try:
            steps.append(f.closed)
            f.seek(k * 10)
            steps.append(f.read(4) == data[k * 10:k * 10 + 4])
            gate[0].wait()          # all of them have a stream now
            steps.append((f.closed, f.tell(), f.read(5) == data[k * 10 + 4:k * 10 + 9]))
            gate[1].wait()
            if k % 3 == 0:
                f.close()
                steps.append(f.closed)
            gate[2].wait()
            if k % 3:
                steps.append((f.closed, f.tell()))
        except BaseException as ex:
            steps.append(repr(ex))
            for g in gate:
                g.abort()
        got[k] = steps

    threads = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(n)]
    for t in threads:
        t.start()
    for t in threads:
        t.join(400)
    for k in range(n):
        want = [True, True, (False, k * 10 + 4, True), True if k % 3 == 0 else (False, k * 10 + 9)]
        ctx.check(got.get(k) == want, 'thread %d of %d at a time sees %s, expected %s', k, n, short(got.get(k)), want)
        ctx.ev('one of many')
    ctx.check(not f.closed and f.tell() == 77, 'the main thread sees closed %r, position %r', f.closed, f.tell())
    f.closeAll()
    ctx.check(descriptors(case) == 0, '%d descriptors open after closeAll()', descriptors(case))
    ctx.case((n, data), '%d threads' % n)


def gone(ctx, rng, i):
    """ The file is deleted, moved or replaced while threads have it open; a thread that uses it for the first time then can't
    open it (or gets the file that is there), and the others don't notice. """
    data, other = rng.randbytes(rng.randint(1, 3000)), rng.randbytes(2000)
    p, q = ctx.dir / ('gone%d.bin' % i), ctx.dir / ('moved%d.bin' % i)
    p.write_bytes(data)
    case = Case()
    st = os.stat(p)
    case.inode = (st.st_dev, st.st_ino)
    if rng.random() < .5:
        f = ThreadAwareFile(str(p), 'rb')
    else:
        f = ThreadAwareFile.makeThreadAware(open(p, 'rb', buffering=rng.choice([0, 100])))
    old = [Puppet(rng) for _ in range(rng.randint(0, 3))]
    pos = {}
    for t in [None] + old:
        pos[t] = k = rng.randint(0, len(data))
        ok, r = outcome(lambda: f.seek(k)) if t is None else t.do(lambda: f.seek(k))
        ctx.check(ok == 'ok', 'seek raised %s', r)

    def undisturbed(what):
        for t in [None] + old:
            n = rng.randint(0, 9)
            fn = lambda: (f.closed, f.tell(), f.read(n))
            got = outcome(fn) if t is None else t.do(fn)
            want = (False, pos[t], data[pos[t]:pos[t] + n])
            ctx.check(got == ('ok', want), 'after %s, a thread that had the file open sees %s, expected %s', what, short(got), short(want))
            pos[t] += len(want[2])
            ctx.ev('undisturbed')

    how = rng.choice(['deleted', 'moved', 'replaced', 'directory'])
    if how == 'moved':
        os.rename(p, q)
    else:
        os.unlink(p)
    if how == 'replaced':
        p.write_bytes(other)
    elif how == 'directory':
        p.mkdir()
    undisturbed('the file was %s' % how)
    for _ in range(rng.randint(1, 4)):
        t = Puppet(rng)
        k = rng.randint(0, 40)
        op = rng.choice([lambda: (f.seek(k), f.tell(), f.read(7)), lambda: (f.read(k) and 0, f.tell(), f.read(7)), lambda: next(iter(f)),
                         lambda: f.close(), lambda: f.__enter__() and 0, lambda: f.fileno() and 0])
        ok, r = t.do(op)
        if ok == 'ok' and isinstance(r, tuple):
            now = other if how == 'replaced' else data
            want = (k, k, now[k:k + 7]) if r[0] else (0, min(k, len(now)), now[k:k + 7])
            ctx.check(r == want or r[1:] == want[1:], 'the file was %s; a new thread gets %s, expected an error or %s', how, r, want)
        ctx.ev('new thread, file gone')
        undisturbed('the file was %s and a new thread tried to use it' % how)
        t.end()
    if how in ('deleted', 'moved') and rng.random() < .7:
        p.write_bytes(data)
        t = Puppet(rng)
        got = t.do(lambda: (f.tell(), f.read(5)))
        ctx.check(got == ('ok', (0, data[:5])), 'the file is back, a new thread gets %s, expected %s', got, (0, data[:5]))
        undisturbed('the file came back')
        t.end()
    for t in old:
        t.end()
    f.closeAll()
    ctx.check(descriptors(case) == 0, '%d descriptors open at the end', descriptors(case))
    for x in (p, q):
        if x.is_dir():
            x.rmdir()
        elif x.exists():
            x.unlink()
    ctx.case((how, data), how)


def read_only(ctx, rng, i):
    p = ctx.dir / 'ro.bin'
    data = content(rng)
    p.write_bytes(data)
    missing = ctx.dir / 'missing.bin'
    modes = ['w', 'wb', 'a', 'ab', 'x', 'xb', 'r+', 'rb+', 'r+b', 'w+', 'w+b', 'a+b', '+', 'ab+', 'x+']
    for m in modes:
        for target in (str(p), str(missing)):
            for how in (lambda: ThreadAwareFile(target, m), lambda: ThreadAwareFile(target, mode=m)):
                ctx.raises('mode %r' % m, how)
                ctx.ev('write refused')
                ctx.check(not missing.exists() and p.read_bytes() == data, 'mode %r changed or created a file', m)
    ctx.raises('a missing file', lambda: ThreadAwareFile(str(missing), 'rb'))
    gone = ctx.dir / 'gone'
    gone.write_bytes(data)
    with open(gone, 'rb') as src:
        gone.unlink()
        f = ThreadAwareFile.makeThreadAware(src)
        ctx.check(f.read() == data and f.tell() == len(data) and not f.closed, 'made from an open file that was deleted')
    for m in ('r+b', 'ab'):
        with open(p, m, buffering=0) as src:
            try:
                f = ThreadAwareFile.makeThreadAware(src)
            except Exception:
                ctx.ev('write refused')
            else:
                for fn in (lambda: f.write(b'zz'), lambda: f.truncate(1)):
                    ctx.raises('writing to a file opened %r' % m, fn)
    for bad in (None, 'name', 5, object()):
        ctx.raises('makeThreadAware(%r)' % (bad,), ThreadAwareFile.makeThreadAware, bad)
    with ThreadAwareFile(str(p), 'rb') as f:
        for name, args in (('write', (b'x',)), ('writelines', ([b'x'],)), ('truncate', ()), ('truncate', (0,)),
                           ('writelines', ([],)), ('write', (b'',))):
            ctx.raises('%s%r' % (name, args), getattr(f, name), *args)
            ctx.ev('write refused')
        ctx.check(f.writable() is False and f.readable() is True, 'writable() %r, readable() %r', f.writable(), f.readable())
    ctx.check(f.closed, 'not closed after "with"')
    ctx.check(p.read_bytes() == data, 'the file was changed')
    ctx.case(('ro', data), 'all modes and writing methods')


SECTIONS = [Section('schedules', schedules, 110, 1500), Section('turns', turns, 80), Section('crowd', crowd, 5, 40), Section('gone', gone, 40, 400), Section('read only', read_only, 6, 12)]
