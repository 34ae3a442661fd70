"""
Simulation kernel.

One integer decides a run.  The kernel owns every source of nondeterminism the
library can see: the random module (every generator instance), numpy's legacy
global generator, OS entropy, uuid4, the clock, thread interleaving, the
solver process, stdout, and the place where an asynchronous fault lands.

Nothing in /repo is modified: the seams are the library's own callback
arguments (metric, center, reduction, objective, move strategy, local search),
the module attributes of the *standard library* it calls (random, time, os,
uuid, subprocess via pulp) and CPython's sys.monitoring events, restricted to
code objects that live under the repository.
"""
import _random
import hashlib
import io
import os
import struct
import sys
import threading

# --------------------------------------------------------------------------
# originals, saved before anything is patched
# --------------------------------------------------------------------------
import random as _random_mod
import time as _time_mod
import uuid as _uuid_mod

OrigRandom = _random_mod.Random
_real = {
    'time': _time_mod.time, 'monotonic': _time_mod.monotonic,
    'perf_counter': _time_mod.perf_counter, 'sleep': _time_mod.sleep,
    'process_time': _time_mod.process_time, 'time_ns': _time_mod.time_ns,
    'monotonic_ns': _time_mod.monotonic_ns,
    'perf_counter_ns': _time_mod.perf_counter_ns,
    'urandom': os.urandom, 'uuid4': _uuid_mod.uuid4,
}
wall = _real['perf_counter']

SIM = None            # the kernel of the run in progress (per process)


class Violation(Exception):
    """The property under test is broken."""

    def __init__(self, kind, detail=''):
        super().__init__('{}: {}'.format(kind, detail))
        self.kind = kind
        self.detail = str(detail)


class HarnessError(Exception):
    """The harness itself is broken (never reported as a violation)."""


class StepBudgetExceeded(BaseException):
    """The library used more steps than its budget."""


class InjectedFault(Exception):
    """Raised from a user callback by the simulator."""


class Prng(_random.Random):
    """The simulator's own generator (independent of the patched module)."""

    def __new__(cls, seed=0):
        return super().__new__(cls, 0)

    def __init__(self, seed=0):
        if not isinstance(seed, int):
            seed = stable_int(seed)
        super().seed(seed)

    def below(self, n):
        k = n.bit_length()
        r = self.getrandbits(k)
        while r >= n:
            r = self.getrandbits(k)
        return r

    def int(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def chance(self, p):
        return self.random() < p

    def choice(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        tot = sum(w for _, w in pairs)
        x = self.random() * tot
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]

    def shuffled(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = self.below(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def sample(self, seq, k):
        return self.shuffled(seq)[:k]

    def fork(self, tag):
        return Prng(stable_int((self.getrandbits(64), tag)))


def stable_int(obj):
    return int.from_bytes(
        hashlib.sha256(repr(obj).encode()).digest()[:8], 'big')


# --------------------------------------------------------------------------
# random module seam
# --------------------------------------------------------------------------
class SimRandom(OrigRandom):
    """
    Stand-in for random.Random.  Outside a run, and in 'faithful' mode, it is
    the ordinary generator, except that entropy for seed(None) comes from the
    kernel.  In 'owned' mode every draw is a decision of the kernel.
    """

    def seed(self, a=None, version=2):
        s = SIM
        if s is not None:
            s.seed_calls += 1
            if a is None:
                a = s.entropy_int()
        super().seed(a, version)

    def random(self):
        s = SIM
        if s is None or s.rng_mode == 'faithful':
            r = super().random()
            if s is not None:
                s.on_draw(self, 'f', r)
            return r
        return s.decide_float(self)

    def getrandbits(self, k):
        s = SIM
        if s is None or s.rng_mode == 'faithful':
            return super().getrandbits(k)
        if k == 0:
            return 0
        return s.decide_below(self, 1 << k)

    def _randbelow(self, n):
        s = SIM
        if s is None or s.rng_mode == 'faithful':
            k = n.bit_length()
            r = super().getrandbits(k)
            while r >= n:
                r = super().getrandbits(k)
            if s is not None:
                s.on_draw(self, n, r)
            return r
        return s.decide_below(self, n)


_FUNCS = ('seed', 'random', 'uniform', 'triangular', 'randint', 'choice',
          'randrange', 'sample', 'shuffle', 'choices', 'normalvariate',
          'lognormvariate', 'expovariate', 'vonmisesvariate', 'gammavariate',
          'gauss', 'betavariate', 'binomialvariate', 'paretovariate',
          'weibullvariate', 'getstate', 'setstate', 'getrandbits',
          'randbytes')


def install_random():
    inst = SimRandom(0)
    _random_mod.Random = SimRandom
    _random_mod._inst = inst
    for f in _FUNCS:
        if hasattr(_random_mod, f):
            setattr(_random_mod, f, getattr(inst, f))
    return inst


GLOBAL_RANDOM = install_random()


# --------------------------------------------------------------------------
# clock, entropy
# --------------------------------------------------------------------------
def _clk(name, scale=1):
    real = _real[name]

    def f():
        s = SIM
        if s is None:
            return real()
        return s.read_clock(name)
    return f


def _sleep(sec):
    s = SIM
    if s is None:
        return _real['sleep'](sec)
    s.now += max(0.0, float(sec))
    s.yield_point()


def _urandom(n):
    s = SIM
    if s is None:
        return _real['urandom'](n)
    s.counts['entropy_reads'] = s.counts.get('entropy_reads', 0) + 1
    return bytes(s.entropy.getrandbits(8) for _ in range(n))


def _uuid4():
    s = SIM
    if s is None:
        return _real['uuid4']()
    return _uuid_mod.UUID(bytes=_urandom(16), version=4)


def install_clock():
    for n in ('time', 'monotonic', 'perf_counter', 'process_time', 'time_ns',
              'monotonic_ns', 'perf_counter_ns'):
        setattr(_time_mod, n, _clk(n))
    _time_mod.sleep = _sleep
    os.urandom = _urandom
    _random_mod._urandom = _urandom
    _uuid_mod.uuid4 = _uuid4


# --------------------------------------------------------------------------
# sys.monitoring: ticks, preemption points, asynchronous fault points
# --------------------------------------------------------------------------
TOOL = 4
REPO = os.environ.get('DST_REPO', '/repo')
_codes = []


def _on_line(code, line):
    s = SIM
    if s is None:
        return
    s.ticks += 1
    if s.ticks >= s.next_stop:
        s.slow(code, line)


def _on_point(*a):
    s = SIM
    if s is None or not s.inj_on:
        return
    s.points += 1
    if s.sites is not None:
        s.sites.append((a[0].co_qualname, a[1] if len(a) > 1 else -1))
    if s.points == s.inj_at:
        s.fire_async(a[0])


def _on_jump(code, src, dst):
    if dst < src:
        _on_point(code, src)


def _walk(code, seen):
    if code in seen:
        return
    seen.add(code)
    for c in code.co_consts:
        if isinstance(c, type(code)):
            _walk(c, seen)


def find_code_objects():
    import gc
    import types
    root = os.path.join(os.path.realpath(REPO), 'region') + os.sep
    seen = set()
    for f in gc.get_objects():
        if isinstance(f, types.FunctionType):
            c = f.__code__
            if os.path.realpath(c.co_filename).startswith(root):
                _walk(c, seen)
    return sorted(seen, key=lambda c: (c.co_filename, c.co_firstlineno,
                                       c.co_qualname))


def install_monitoring():
    mon = sys.monitoring
    ev = mon.events
    mon.use_tool_id(TOOL, 'dst')
    mon.register_callback(TOOL, ev.LINE, _on_line)
    mon.register_callback(TOOL, ev.PY_START, _on_point)
    mon.register_callback(TOOL, ev.CALL, lambda *a: None)
    mon.register_callback(TOOL, ev.C_RETURN, _on_point)
    mon.register_callback(TOOL, ev.JUMP, _on_jump)
    _codes.extend(find_code_objects())
    if len(_codes) < 40:
        raise HarnessError('only {} code objects found'.format(len(_codes)))
    set_points(False)


_points_mode = None


def set_points(on):
    global _points_mode
    if _points_mode == on:
        return
    ev = sys.monitoring.events
    mask = ev.LINE | ((ev.PY_START | ev.CALL | ev.JUMP) if on else 0)
    for c in _codes:
        sys.monitoring.set_local_events(TOOL, c, mask)
    _points_mode = on


# --------------------------------------------------------------------------
# the kernel
# --------------------------------------------------------------------------
class NullOut(io.TextIOBase):
    """stdout of the simulated process; can start failing."""

    def __init__(self, sim):
        self.sim = sim
        self.n = 0
        self.fail_at = None

    def writable(self):
        return True

    def write(self, text):
        self.n += 1
        if self.fail_at is not None and self.n >= self.fail_at:
            self.sim.fault('stdout_write_error')
            raise BrokenPipeError(32, 'Broken pipe (simulated)')
        return len(text)

    def flush(self):
        pass


class Sim:
    """State of one simulated run."""

    def __init__(self, seed, rng='fair', rng_trace=None, clock='normal'):
        self.prng = Prng(stable_int(('run', seed)))
        self.entropy = Prng(stable_int(('entropy', seed)))
        self.rng_mode = rng
        self.rng_prng = Prng(stable_int(('rng', seed)))
        self.rng_trace = rng_trace          # explicit decisions, or None
        self.rng_log = []
        self.rng_pos = 0
        self.record_rng = True
        self.draw_hook = None
        self.seed_calls = 0
        self.draws = 0
        # steps
        self.ticks = 0
        self.next_stop = 1 << 62
        self.budget_at = 1 << 62
        self.preempt_at = 1 << 62
        # async fault
        self.inj_on = False
        self.inj_at = -1
        self.inj_exc = None
        self.async_exc = None
        self.points = 0
        self.sites = None         # a list: where the points are
        # clock
        self.now = 1.7e9
        self.clock = clock
        self.clock_prng = Prng(stable_int(('clock', seed)))
        self.clock_reads = 0
        self.sim_time = 0.0
        self.check_solver = False
        # bookkeeping
        self.counts = {}
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.h = hashlib.blake2b(digest_size=16)
        self.sched = None
        self.out = NullOut(self)

    # -- logging -----------------------------------------------------------
    def log(self, *items):
        self.h.update(repr(items).encode())

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.h.update(b'F' + kind.encode())

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def state(self, key):
        self.states.add(hash(key) & 0xffffffffffff)

    # -- randomness ---------------------------------------------------------
    def entropy_int(self):
        self.counts['entropy_reads'] = self.counts.get('entropy_reads', 0) + 1
        v = self.entropy.getrandbits(64)
        self.h.update(b'E%d' % v)
        return v

    def on_draw(self, gen, n, r):
        self.draws += 1
        self.h.update(struct.pack('<d', r))
        if self.draw_hook is not None:
            self.draw_hook(gen, n, r)

    def decide_below(self, gen, n):
        self.draws += 1
        pos = self.rng_pos
        self.rng_pos += 1
        t = self.rng_trace
        if t is not None:
            v = int(t[pos]) % n if pos < len(t) else 0
        else:
            m = self.rng_mode
            p = self.rng_prng
            if m == 'fair':
                v = p.below(n)
            elif m == 'first':
                v = 0
            elif m == 'last':
                v = n - 1
            elif m == 'alternate':
                v = 0 if pos & 1 else n - 1
            elif m == 'sticky':
                v = pos // 7 % n
            else:                            # 'mixed'
                r = p.random()
                v = 0 if r < .3 else n - 1 if r < .6 else p.below(n)
        if self.record_rng:
            self.rng_log.append(v)
        self.h.update(b'r%d/%d' % (v, n))
        if self.draw_hook is not None:
            self.draw_hook(gen, n, v)
        if self.sched is not None:
            self.yield_point()
        return v

    def decide_float(self, gen):
        self.draws += 1
        pos = self.rng_pos
        self.rng_pos += 1
        t = self.rng_trace
        if t is not None:
            v = min(max(float(t[pos]), 0.0), 1 - 2**-53) if pos < len(t) \
                else 0.0
        else:
            m = self.rng_mode
            p = self.rng_prng
            hi = 1 - 2**-53
            if m == 'fair':
                v = p.random()
            elif m == 'first':
                v = 0.0
            elif m == 'last':
                v = hi
            elif m == 'alternate':
                v = 0.0 if pos & 1 else hi
            elif m == 'sticky':
                v = (pos // 7 % 8) / 8.0
            else:
                r = p.random()
                v = 0.0 if r < .3 else hi if r < .6 else p.random()
        if self.draw_hook is not None:
            w = self.draw_hook(gen, None, v)
            if w is not None:
                v = w
        if self.record_rng:
            self.rng_log.append(v)
        self.h.update(b'u' + struct.pack('<d', v))
        return v

    # -- clock --------------------------------------------------------------
    def read_clock(self, name):
        self.clock_reads += 1
        base = self.now + self.ticks * 1e-6
        if self.clock == 'jumps' and self.clock_prng.chance(.5):
            j = self.clock_prng.choice([-3600.0, -1.0, 0.0, 1e-9, 86400.0,
                                        1e6])
            if name.startswith('time'):
                self.now += j
                self.fault('clock_jump')
            elif j > 0:
                self.now += j
                self.fault('clock_stall')
            base = self.now + self.ticks * 1e-6
        elif self.clock == 'frozen':
            base = 1.7e9
            self.fault('clock_frozen')
        self.sim_time = max(self.sim_time, abs(base - 1.7e9))
        return int(base * 1e9) if name.endswith('_ns') else base

    # -- steps ---------------------------------------------------------------
    def set_budget(self, n):
        self.budget_at = self.ticks + n if n is not None else 1 << 62
        self._restop()

    def _restop(self):
        self.next_stop = min(self.budget_at, self.preempt_at)

    def slow(self, code, line):
        if self.ticks >= self.budget_at:
            self.budget_at = 1 << 62
            self._restop()
            raise StepBudgetExceeded('{}:{}'.format(code.co_name, line))
        if self.sched is not None and self.ticks >= self.preempt_at:
            self.sched.preempt()

    def yield_point(self):
        """A place where another thread may run (callbacks, fake waits)."""
        if self.sched is not None:
            self.sched.maybe_preempt()

    # -- asynchronous faults ---------------------------------------------------
    def arm_async(self, at, exc):
        self.points = 0
        self.async_exc = None
        self.inj_at = at
        self.inj_exc = exc
        self.inj_on = True

    def disarm(self):
        self.inj_on = False
        self.sites = None
        return self.points

    def fire_async(self, code):
        exc = self.inj_exc
        self.inj_at = -1
        self.fault('async_' + exc)
        self.async_where = code.co_qualname
        if exc == 'KeyboardInterrupt':
            self.async_exc = KeyboardInterrupt('simulated')
        elif exc == 'MemoryError':
            self.async_exc = MemoryError('simulated')
        else:
            raise HarnessError(exc)
        raise self.async_exc

    # -- run control -------------------------------------------------------------
    def __enter__(self):
        global SIM
        import numpy as np
        import warnings
        self._np_state = np.random.get_state()
        np.random.seed(self.prng.getrandbits(32))
        self._warn = warnings.catch_warnings()
        self._warn.__enter__()
        warnings.simplefilter('ignore')
        self._stdout = sys.stdout
        self._gstate = GLOBAL_RANDOM.getstate()
        OrigRandom.seed(GLOBAL_RANDOM, self.prng.getrandbits(63))
        sys.stdout = self.out
        SIM = self
        return self

    def __exit__(self, *a):
        global SIM
        import numpy as np
        SIM = None
        sys.stdout = self._stdout
        self._warn.__exit__(None, None, None)
        np.random.set_state(self._np_state)
        GLOBAL_RANDOM.setstate(self._gstate)
        return False

    def digest(self):
        h = self.h.copy()
        h.update(b'T%d' % self.ticks)
        return h.hexdigest()


# --------------------------------------------------------------------------
# cooperative scheduler over real threads (one runnable at a time)
# --------------------------------------------------------------------------
class Sched:
    def __init__(self, sim, mode, segments=None, mean=40, pct=None):
        self.sim = sim
        self.mode = mode                  # 'random' | 'pct' | 'replay'
        self.p = Prng(stable_int(('sched', sim.prng.getrandbits(64))))
        self.mean = mean
        self.segments_in = segments
        self.seg_pos = 0
        self.log = []                     # [task, yields] segments
        self.tasks = []
        self.cur = None
        self.cur_yields = 0
        self.switches = 0
        self.done_lock = threading.Lock()
        self.quota = 0

    def spawn(self, fn):
        self.tasks.append({'fn': fn, 'lock': threading.Lock(), 'done': False,
                           'exc': None, 'res': None, 'prio': 0})

    def _runnable(self):
        return [i for i, t in enumerate(self.tasks) if not t['done']]

    def _pick(self):
        """Choose the next task and the number of ticks it may run."""
        r = self._runnable()
        if not r:
            return None, 0
        if self.mode == 'replay':
            while self.seg_pos < len(self.segments_in):
                t, q = self.segments_in[self.seg_pos]
                self.seg_pos += 1
                if t in r:
                    return t, q
            return r[0], 1 << 40
        t = self.p.choice(r)
        if self.mode == 'pct':
            q = self.p.choice([3, 30, 300, 3000, 30000])
            q = 1 + self.p.below(q)
        else:
            q = 1 + self.p.below(2 * self.mean)
        return t, q

    def _grant(self, t, q):
        sim = self.sim
        self.cur = t
        self.start = sim.ticks
        sim.preempt_at = sim.ticks + q
        sim._restop()

    def _close_segment(self, ended=0):
        n = self.sim.ticks - self.start + ended
        if self.log and self.log[-1][0] == self.cur:
            self.log[-1][1] += n
        else:
            self.log.append([self.cur, n])

    def preempt(self):
        me = self.cur
        self._close_segment()
        t, q = self._pick()
        self._grant(t, q)
        if t != me:
            self.switches += 1
            self.sim.h.update(b'S%d' % t)
            self.tasks[t]['lock'].release()
            self.tasks[me]['lock'].acquire()

    def maybe_preempt(self):
        self.sim.ticks += 1
        if self.sim.ticks >= self.sim.preempt_at:
            self.preempt()

    def _body(self, i):
        t = self.tasks[i]
        t['lock'].acquire()
        try:
            t['res'] = t['fn']()
        except BaseException as e:          # noqa
            t['exc'] = e
        t['done'] = True
        self._close_segment(1)
        n, q = self._pick()
        if n is None:
            self.done_lock.release()
        else:
            self._grant(n, q)
            self.switches += 1
            self.sim.h.update(b'D%d' % n)
            self.tasks[n]['lock'].release()

    def run(self):
        sim = self.sim
        threads = []
        for i, t in enumerate(self.tasks):
            t['lock'].acquire()
            th = threading.Thread(target=self._body, args=(i,), daemon=True)
            threads.append(th)
            th.start()
        self.done_lock.acquire()
        sim.sched = self
        try:
            n, q = self._pick()
            self._grant(n, q)
            self.tasks[n]['lock'].release()
            self.done_lock.acquire()
        finally:
            sim.sched = None
            sim.preempt_at = 1 << 62
            sim._restop()
        for th in threads:
            th.join()
        return self.tasks
