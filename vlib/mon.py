"""
Monitor framework: cases, event counters, verdicts, replay, evidence.

A check is a list of `Section`s. Each section runs seeded cases; a case drives
the real library and its monitors call `Ctx.ev()` for every event they judge and
`Ctx.fail()` (or raise) for a refutation. Verdicts are three-valued: violation
(exit 1), held on what was observed (exit 0), inconclusive (exit 3: a required
event was never observed, or the harness itself failed).
"""
import collections
import contextlib
import hashlib
import importlib
import json
import math
import os
import random
import re
import resource
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback
import warnings
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get('VERIF_REPO', '/repo')).resolve()
SHARE = .1              # of the cases is run again elsewhere
CASE_CPU = 60           # CPU seconds after which a case counts as not terminating

sys.dont_write_bytecode = True
sys.pycache_prefix = str(VERIF / '.no-pycache')     # never read stale byte code
if str(REPO) not in sys.path:
    sys.path.insert(0, str(REPO))


class Violation(Exception):
    """ The property was refuted; the message is the witness. """


class Inconclusive(Exception):
    """ The case could not be judged. """


class Blocked(BaseException):
    """ The code under test waits for something that does not come. """


class Hang(BaseException):
    """ The code under test used all of the (very generous) CPU time. """


class Section:
    def __init__(self, name, fn, quick, thorough=None, once=False):
        self.name, self.fn = name, fn
        self.quick, self.thorough = quick, thorough or quick * 12
        self.once = once        # a fixed enumeration, not repeated with seeds


def seed():
    try:
        return int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        return 1


def tier():
    return 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'


class Ctx:
    """ What the monitors of one check have seen. """

    def __init__(self, prop, rule):
        self.prop, self.rule = prop, rule
        self.events = collections.Counter()
        self.distinct = set()
        self.samples = []
        self.cases = 0
        self.skipped = collections.Counter()
        self.known_hits = collections.OrderedDict()
        self.known_list = load_known(prop)
        self.tier = tier()
        self.seed = seed()
        self.tmp = None
        self.case_wall = 300
        self.section = self.index = None
        self.rng = None
        self._note = None

    # -- for monitors
    def ev(self, name, n=1):
        self.events[name] += n

    def case(self, sig, sample=None, nontrivial=True):
        """ Describe the current case (for the evidence). """
        if nontrivial:
            if not isinstance(sig, (bytes, bytearray)):
                sig = repr(sig).encode('utf8', 'replace')
            self.distinct.add(hashlib.blake2b(sig, digest_size=8).digest())
        if sample is not None:
            self._note = sample
            if len(self.samples) < 12 and self.cases % 7 == 0 or len(self.samples) < 3:
                s = str(sample)
                self.samples.append({'section': self.section, 'index': self.index,
                                     'case': s if len(s) < 500 else s[:500] + '...'})

    def note(self, text):
        self._note = text

    def fail(self, msg):
        raise Violation(msg)

    def check(self, ok, msg, *args):
        if not ok:
            raise Violation(msg % args if args else msg)

    def eq(self, got, want, what):
        if got != want or type(got) is not type(want) and isinstance(want, (int, str, bool, float)):
            raise Violation('%s: got %s, expected %s' % (what, short(got), short(want)))

    def known(self, key, what):
        """ A recorded genuine defect reproduced; a violation if unlisted. """
        if key in self.known_list:
            self.known_hits[key] = self.known_list[key]
        else:
            raise Violation('%s (key=%s is not in KNOWN_FINDINGS.txt)' % (what, key))

    def raises(self, what, fn, *args, **kw):
        """ `fn` must refuse (raise any ordinary exception). """
        try:
            r = fn(*args, **kw)
        except Exception as ex:
            return ex
        raise Violation('%s was accepted, returned %s' % (what, short(r)))

    @property
    def dir(self):
        if self.tmp is None:
            self.tmp = tempfile.TemporaryDirectory(prefix='verif-%s-' % self.prop)
        return Path(self.tmp.name)


def short(x, n=300):
    try:
        s = repr(x)
    except Exception as ex:
        s = '<unreprable %s: %s>' % (type(x).__name__, ex)
    return s if len(s) <= n else s[:n] + '...(%d)' % len(s)


def load_known(prop):
    res = {}
    p = VERIF / 'KNOWN_FINDINGS.txt'
    if p.exists():
        for line in p.read_text().splitlines():
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


def _case_rng(prop, sd, section, index):
    return random.Random('%s:%s:%s:%s' % (prop, sd, section, index))


def _run_case(ctx, sec, index, sd):
    ctx.section, ctx.index = sec.name, index
    ctx._note = None
    ctx.rng = rng = _case_rng(ctx.prop, sd, sec.name, index)
    ctx.cases += 1

    def alarm(*_a):
        raise Hang()
    signal.signal(signal.SIGVTALRM, alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU)
    if threading.current_thread() is threading.main_thread():
        cpu0 = time.process_time()

        def wall(*_a):
            if time.process_time() - cpu0 < 3:
                raise Blocked()
        signal.signal(signal.SIGALRM, wall)
        signal.setitimer(signal.ITIMER_REAL, ctx.case_wall, ctx.case_wall)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            sec.fn(ctx, rng, index)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def _judge(ctx, sec, index, sd):
    """ Run a case; None if it held, else a description of the violation. """
    try:
        _run_case(ctx, sec, index, sd)
    except Inconclusive as ex:
        ctx.skipped[str(ex)[:80]] += 1
        return None
    except Hang:
        return 'no result within %d CPU seconds (normally milliseconds)' % CASE_CPU
    except Blocked:
        return 'no result within %d s: blocked (normally milliseconds)' % ctx.case_wall
    except Violation as ex:
        return str(ex)
    except KeyboardInterrupt:
        raise
    except (Exception, SystemExit) as ex:
        return 'unexpected %s: %s\n%s' % (type(ex).__name__, ex, traceback.format_exc(limit=-6))
    return None


@contextlib.contextmanager
def elsewhere():
    """ A quite different environment: no assertions or docstrings, other directory, time zone, permissions, locale and hash
        seed, no home and no input. """
    with tempfile.TemporaryDirectory(prefix='verif-else-') as d:
        env = {k: v for k, v in os.environ.items() if k not in ('HOME', 'USER', 'LOGNAME', 'COLUMNS', 'LANG')}
        env.update(VERIF_CHILD='1', PYTHONOPTIMIZE='2', PYTHONHASHSEED='12345', LC_ALL='C', PYTHONUTF8='0',
                   PYTHONCOERCECLOCALE='0', PYTHONPATH=str(VERIF), VERIF_REPO=str(REPO))
        yield [sys.executable, '-bb', str(VERIF / 'run.py')], dict(cwd=d, env=env, stdin=subprocess.DEVNULL, umask=0o077)


def run_elsewhere(ctx):
    """ A share of the cases in another environment. """
    with elsewhere() as (cmd, kw):
        p = subprocess.run(cmd + [ctx.prop], stdout=subprocess.PIPE, text=True, **kw)
    last = (p.stdout.splitlines() or [''])[-1]
    if p.returncode or not last.startswith('CHILD '):
        raise RuntimeError('no result from another environment: %d %s' % (p.returncode, p.stdout[-1000:]))
    r = json.loads(last[6:])
    ctx.events['cases in another environment'] += r['cases']
    ctx.events['events in another environment'] += r['events']
    for v in r['violations']:
        v['elsewhere'] = True
    return r['violations']


def main(argv=None):
    argv = list(sys.argv[1:] if argv is None else argv)
    replay = None
    if '--replay' in argv:
        i = argv.index('--replay')
        path = Path(argv[i + 1]).resolve()
        replay = json.loads(path.read_text())
        del argv[i:i + 2]
        argv = argv or [replay['property']]
    prop = argv[0]
    # A runaway allocation becomes a MemoryError here instead of taking the box.
    lim = 8 << 30
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    lim = lim if hard == resource.RLIM_INFINITY else min(lim, hard)
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
    # Dates are naive: where the computer is must not matter. (No zone has such an offset, so nothing can be right by chance.)
    child = os.environ.get('VERIF_CHILD')
    if replay and replay.get('elsewhere') and not child:
        with elsewhere() as (cmd, kw):
            return subprocess.run(cmd + ['--replay', str(path)], **kw).returncode
    os.environ['TZ'] = 'XST+8:17' if child else 'XST-3:47XDT-5:02,M3.4.0/2,M10.4.0/3'
    time.tzset()
    t0 = time.monotonic()
    mod = importlib.import_module('checks.' + prop.lower())
    ctx = Ctx(prop, mod.RULE)
    sd = replay['seed'] if replay else ctx.seed + 7919 * bool(child)
    ctx.seed = sd
    if replay:
        ctx.tier = replay.get('tier', ctx.tier)
    violations = []
    soft = float(os.environ.get('VERIF_TIME', 0)) or getattr(
        mod, 'SOFT', {}).get(ctx.tier, 240 if ctx.tier == 'quick' else 3000)
    try:
        for sec in mod.SECTIONS:
            if replay and sec.name != replay['section']:
                continue
            n = sec.quick if ctx.tier == 'quick' else sec.thorough
            if child and not replay:
                n = math.ceil(n * SHARE)
            s0 = time.monotonic()
            done = 0
            for i in range(n):
                if replay and i != replay['index']:
                    continue
                if time.monotonic() - t0 > soft and done >= 3:
                    ctx.skipped['soft time cap: %s ended after %d of %d' % (sec.name, i, n)] += 1
                    break
                w = _judge(ctx, sec, i, sd)
                done += 1
                if w is not None:
                    violations.append(dict(property=prop, section=sec.name, index=i, seed=sd,
                                           tier=ctx.tier, witness=w, case=str(ctx._note)[:4000]))
                    ctx.case_wall = min(ctx.case_wall, 40)
                    break       # the first witness of each section is enough
            ctx.events['cases:' + sec.name] += done
            if os.environ.get('VERIF_DEBUG'):
                print('  %-28s %5d cases %6.2f s' % (sec.name, done, time.monotonic() - s0))
            if violations and not replay and len(violations) >= 3:
                break
        finish = getattr(mod, 'finish', None)
        if finish and not violations and not replay and not child:
            finish(ctx)
        if not violations and not replay and not child:
            violations += run_elsewhere(ctx)
    except Violation as ex:
        violations.append(dict(property=prop, section='finish', index=0, seed=sd,
                               tier=ctx.tier, witness=str(ex), case=''))
    finally:
        if ctx.tmp is not None:
            try:
                ctx.tmp.cleanup()
            except OSError:
                pass
    wall = time.monotonic() - t0
    if child and not replay:
        print('CHILD ' + json.dumps(dict(cases=ctx.cases, events=sum(ctx.events.values()), violations=violations)))
        return 0
    missing = [] if replay else [k for k, v in getattr(mod, 'REQUIRE', {}).items()
                                 if ctx.events[k] < v]
    if not replay:
        write_evidence(ctx, mod, wall, violations)
    for k, text in ctx.known_hits.items():
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    if violations:
        d = Path(os.environ.get('VERIF_REPLAYS', str(VERIF / 'evidence' / 'replays')))
        d.mkdir(parents=True, exist_ok=True)
        for n, v in enumerate(violations):
            p = d / ('%s-%s-%d.json' % (prop, v['section'], v['index']))
            p.write_text(json.dumps(v, indent=1))
            print('%s [%s #%d seed %s]: %s' % (prop, v['section'], v['index'], v['seed'], v['witness'][:1500]))
            print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    if missing:
        print('INCONCLUSIVE property=%s: too few events of %s' % (
            prop, {k: ctx.events[k] for k in missing}))
        return 3
    print('%s held on %d cases (%d distinct, %d events) in %.1f s [%s, seed %s]' % (
        prop, ctx.cases, len(ctx.distinct), sum(ctx.events.values()), wall, ctx.tier, sd))
    return 0


def write_evidence(ctx, mod, wall, violations):
    d = Path(os.environ.get('VERIF_EVIDENCE', str(VERIF / 'evidence')))
    d.mkdir(exist_ok=True)
    ev = {
        'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed,
        'level': mod.LEVEL,
        'coverage': {
            'evaluations': ctx.cases,
            'distinct_nontrivial': len(ctx.distinct),
            'rule': ' '.join(mod.RULE.split()),
            'samples': ctx.samples or [{'case': 'none'}],
            'monitor_events': dict(sorted(ctx.events.items())),
            'not_judged': dict(ctx.skipped),
            'known_findings_seen': list(ctx.known_hits),
        },
        'assumptions': getattr(mod, 'ASSUME', []),
        'wall_s': round(wall, 3),
        'violations': len(violations),
    }
    (d / (ctx.prop + '.json')).write_text(json.dumps(ev, indent=1, default=str) + '\n')
