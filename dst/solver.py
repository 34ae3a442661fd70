"""
The solver process and its files, simulated.

subprocess.Popen is replaced: a start of cbc runs the real, bundled cbc
synchronously on the model pulp wrote (optionally with a tie-breaking
perturbation of the objective), and the simulator decides what the parent
process gets to see: exit code, solution file, status, rounding, damage.
The open() of the two pulp modules is replaced to inject disk errors.
"""
import builtins
import errno
import hashlib
import os
import re
import signal
import subprocess

from . import core
from .core import HarnessError, Prng

RealPopen = subprocess.Popen
_cache = {}

PROC_FAULTS = ('spawn_enoent', 'spawn_eacces', 'spawn_enomem', 'exit_1',
               'killed', 'segv', 'killed_partial', 'no_solution',
               'empty_solution', 'truncated', 'garbled', 'infeasible',
               'stopped', 'integer', 'unbounded', 'unknown_status',
               'interrupt_wait', 'flip', 'model_torn')
DISK_FAULTS = ('mps_open_enospc', 'mps_open_emfile', 'mps_write_enospc',
               'mps_write_eio', 'sol_open_eio', 'sol_read_eio')
# disturbances which a correct fit survives
BENIGN = ('slow', 'remove_error')


def gen_directive(p, fault=.5, ties=True):
    """What the simulator does to the next solver start."""
    d = {'tie': p.below(10**6) if ties and p.chance(.7) else None,
         'noise': p.choice([1e-9, 1e-7, 9e-7]) if p.chance(.4) else None,
         'seconds': p.choice([0, 1, 3600])}
    if p.chance(fault):
        d['fault'] = p.choice(PROC_FAULTS + DISK_FAULTS)
        d['arg'] = p.below(10**6)
    elif p.chance(.1):
        d['fault'] = 'remove_error'
    return d


class SolverSim:
    """Decides the fate of each solver start of a run."""

    def __init__(self, sim, directives):
        self.sim = sim
        self.directives = list(directives)
        self.k = 0
        self.cur = {}
        self.writes = 0
        self.starts = 0
        sim.solver = self

    def next(self):
        """Called by the harness before each fit."""
        self.cur = self.directives[self.k] if self.k < len(self.directives) \
            else {}
        self.k += 1
        self.writes = 0
        self.fired = False
        return self.cur

    def set(self, d):
        self.cur = d or {}
        self.writes = 0
        self.fired = False

    def fault(self):
        return self.cur.get('fault')

    def fire(self):
        f = self.fault()
        if not self.fired:
            self.fired = True
            self.sim.fault('solver_' + f)
        return f


class SolverTasks(SolverSim):
    """One directive per thread of the scheduler."""

    def __init__(self, sim, by_task):
        self.by_task = by_task            # task index -> directive
        self.hit = {}
        self.alone = None                 # task index outside the scheduler
        super().__init__(sim, [])

    def _task(self):
        s = self.sim.sched
        return s.cur if s is not None else self.alone

    @property
    def cur(self):
        return self.by_task.get(self._task()) or {}

    @cur.setter
    def cur(self, d):
        pass

    @property
    def fired(self):
        return self.hit.get(self._task(), False)

    @fired.setter
    def fired(self, v):
        self.hit[self._task()] = v


# --------------------------------------------------------------------------
# cbc
# --------------------------------------------------------------------------
def _perturb(text, seed):
    """Break ties of an objective with integer coefficients at random."""
    lines = text.split('\n')
    i0, i1 = lines.index('COLUMNS'), lines.index('RHS')
    obj = None
    for l in lines[:i0]:
        if l.startswith(' N '):
            obj = l.split()[1]
    cols, last = {}, {}
    for i in range(i0 + 1, i1):
        f = lines[i].split()
        if len(f) != 3 or f[1] == "'MARKER'":
            continue
        cols.setdefault(f[0], None)
        last[f[0]] = i
        if f[1] == obj:
            cols[f[0]] = i
    p = Prng(seed)
    # 0/1 variables are the BV bounds; only these are perturbed
    bv = {l.split()[2] for l in lines if l.startswith(' BV ')}
    names = sorted(c for c in cols if c in bv)
    delta = 0.4 / max(1, len(names))
    add = {}
    for c in names:
        e = delta * p.below(8) / 8
        if cols[c] is not None:
            v = float(lines[cols[c]].split()[2]) + e
            lines[cols[c]] = '    %-8s  %-8s  % .12e' % (c, obj, v)
        elif e:
            add[last[c]] = '    %-8s  %-8s  % .12e' % (c, obj, e)
    out = []
    for i, l in enumerate(lines):
        out.append(l)
        if i in add:
            out.append(add[i])
    return '\n'.join(out)


PLAIN = ['-cuts', 'off', '-heur', 'off', '-preprocess', 'off',
         '-maxNodes', '200000']


def _objective(sol):
    """The objective value a solution file claims to be optimal, or None."""
    m = re.match(r'Optimal - objective value\s+(\S+)', sol or '')
    try:
        return float(m.group(1)) if m else None
    except ValueError:
        return None


def _run_checked(sim, exe, text, opts):
    """
    cbc, and cbc as a plain branch and bound (no cuts, no heuristics) beside
    it: the bundled version now and then cuts off the optimum of a correct
    model.  The better of the two solutions is the one the library gets.
    """
    rc, sol = _run_cbc(exe, text, opts)
    i = opts.index('MPS') + 1
    rc2, sol2 = _run_cbc(exe, text, opts[:i] + PLAIN + opts[i:])
    a, b = _objective(sol), _objective(sol2)
    if a is not None and b is not None and b < a - 1e-6 * (1 + abs(a)):
        sim.probe('solver_itself_wrong')
        return rc2, sol2
    return rc, sol


def _run_cbc(exe, text, opts):
    key = hashlib.sha256((text + '\0' + ' '.join(opts)).encode()).digest()
    if key not in _cache:
        base = os.path.join(os.environ['TMPDIR'], 'real-{}-{}'.format(
            os.getpid(), key.hex()[:16]))
        with builtins.open(base + '.mps', 'w') as f:
            f.write(text)
        args = [exe] + [{'MPS': base + '.mps', 'SOL': base + '.sol'}.get(a, a)
                        for a in opts]
        pr = RealPopen(args, stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
        rc = pr.wait()          # no timeout: that would read the clock
        sol = None
        if os.path.exists(base + '.sol'):
            with builtins.open(base + '.sol') as f:
                sol = f.read()
            os.remove(base + '.sol')
        os.remove(base + '.mps')
        if len(_cache) > 3000:
            _cache.clear()
        _cache[key] = (rc, sol)
    return _cache[key]


def _columns(lines):
    """Indices of lines which hold the value of a variable."""
    out = []
    for i, l in enumerate(lines[1:], 1):
        f = l.split()
        if f and f[0] == '**':
            f = f[1:]
        if len(f) >= 4 and f[1].startswith('X'):
            out.append(i)
    return out


def _set_value(line, v):
    f = line.split()
    j = 3 if f[0] == '**' else 2
    f[j] = '%.10g' % v
    return '  '.join(f)


def _noisy(sol, amp, p):
    lines = sol.split('\n')
    for i in _columns(lines):
        f = lines[i].split()
        v = float(f[3 if f[0] == '**' else 2])
        lines[i] = _set_value(lines[i], v + amp * (p.below(3) - 1))
    return '\n'.join(lines)


class SimPopen:
    """A solver process."""

    def __new__(cls, args, *a, **kw):
        s = core.SIM
        exe = args[0] if isinstance(args, (list, tuple)) else str(args)
        if s is None or 'cbc' not in os.path.basename(exe):
            return RealPopen(args, *a, **kw)
        return super().__new__(cls)

    def __init__(self, args, *a, **kw):
        self.sim = sim = core.SIM
        self.args = args
        self.returncode = None
        self.stdout = self.stderr = self.stdin = None
        self.pid = 4242
        sv = getattr(sim, 'solver', None)
        if sv is None:
            sv = SolverSim(sim, [])
        self.sv = sv
        sv.starts += 1
        self.d = d = dict(sv.cur)
        sim.counts['solver_starts'] = sim.counts.get('solver_starts', 0) + 1
        f = d.get('fault')
        if f in ('spawn_enoent', 'spawn_eacces', 'spawn_enomem'):
            sv.fire()
            no = {'spawn_enoent': errno.ENOENT, 'spawn_eacces': errno.EACCES,
                  'spawn_enomem': errno.ENOMEM}[f]
            raise OSError(no, os.strerror(no), args[0])
        self.solpath = None
        if 'solution' in args:
            self.solpath = args[args.index('solution') + 1]
        self.mps = next((x for x in args[1:] if x.endswith(('.mps', '.lp'))),
                        None)
        if self.mps is None or self.solpath is None:
            raise HarnessError('cannot understand cbc call {}'.format(args))

    def wait(self, timeout=None):
        if self.returncode is None:
            sim = self.sim
            sim.now += self.d.get('seconds') or 0
            sim.sim_time += self.d.get('seconds') or 0
            # other threads run while the solver works; yield often
            for _ in range(self.d.get('yields', 3)):
                sim.yield_point()
            self.returncode = self.finish()
            sim.yield_point()
        return self.returncode

    def poll(self):
        return self.wait()

    def communicate(self, input=None, timeout=None):
        self.wait()
        return None, None

    def kill(self):
        pass
    terminate = kill

    def send_signal(self, s):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()

    def finish(self):
        d, sv, f = self.d, self.sv, self.d.get('fault')
        p = Prng(('sol', d.get('arg', 0)))
        if f == 'interrupt_wait':
            sv.fire()
            raise KeyboardInterrupt('simulated')
        if f in ('exit_1', 'killed', 'segv'):
            sv.fire()
            return {'exit_1': 1, 'killed': -signal.SIGKILL,
                    'segv': -signal.SIGSEGV}[f]
        if f == 'no_solution':
            sv.fire()
            return 0
        if f in ('empty_solution', 'garbled'):
            sv.fire()
            self.put('' if f == 'empty_solution' else p.choice(
                ['\x00\x01\x02\n\x03', '\n\n\n', 'cbc: cannot allocate\n',
                 'Optimal - objective value x\n  0 X0000000\n',
                 'Optimal - objective value 0\n  0 X0000000 nan_ 0\n']))
            return 0
        with builtins.open(self.mps) as fh:
            text = fh.read()
        self.sim.log('model', hashlib.sha256(text.encode()).hexdigest())
        if d.get('tie') is not None and self.mps.endswith('.mps') and \
                f != 'model_torn':
            text = _perturb(text, d['tie'])
        if f == 'model_torn' and 'ENDATA' in text:
            # the tail of the model file never reached the disk
            sv.fire()
            text = text[:p.below(text.index('ENDATA') - 1)]
        opts = ['MPS' if x == self.mps else 'SOL' if x == self.solpath else x
                for x in self.args[1:]]
        if self.sim.check_solver:
            rc, sol = _run_checked(self.sim, self.args[0], text, opts)
        else:
            rc, sol = _run_cbc(self.args[0], text, opts)
        if sol is None:
            return rc
        self.sim.log('solution', hashlib.sha256(sol.encode()).hexdigest())
        optimal = sol.startswith('Optimal')
        if d.get('noise') and optimal:
            self.sim.fault('solver_rounding_noise')
            sol = _noisy(sol, d['noise'], p)
        if f in ('killed_partial', 'truncated') and optimal:
            sv.fire()
            sol = sol[:p.below(max(1, len(sol) - 40))]
            self.put(sol)
            return -signal.SIGKILL if f == 'killed_partial' else rc
        words = {'infeasible': 'Infeasible - objective value 0',
                 'stopped': 'Stopped on time - objective value 0',
                 'integer': 'Integer infeasible - objective value 0',
                 'unbounded': 'Unbounded - objective value 0',
                 'unknown_status': 'Status unknown'}
        if f in words:
            sv.fire()
            head, _, rest = sol.partition('\n')
            sol = words[f] + '\n' + rest
        if f == 'flip' and optimal:
            lines = sol.split('\n')
            cols = _columns(lines)
            if cols:
                sv.fire()
                i = p.choice(cols)
                x = lines[i].split()
                v = float(x[3 if x[0] == '**' else 2])
                lines[i] = _set_value(lines[i], 0 if v > .5 else 1)
                sol = '\n'.join(lines)
        self.put(sol)
        return rc

    def put(self, text):
        with builtins.open(self.solpath, 'w') as fh:
            fh.write(text)


class FailingFile:
    """A file which fails at the k-th write or read."""

    def __init__(self, fh, sv, at, no):
        self.fh, self.sv, self.at, self.no = fh, sv, at, no
        self.k = 0

    def hit(self):
        self.k += 1
        if self.k >= self.at:
            self.sv.fire()
            raise OSError(self.no, os.strerror(self.no))

    def write(self, s):
        self.hit()
        return self.fh.write(s)

    def readline(self, *a):
        self.hit()
        return self.fh.readline(*a)

    def read(self, *a):
        self.hit()
        return self.fh.read(*a)

    def __iter__(self):
        return self

    def __next__(self):
        self.hit()
        return next(self.fh)

    def close(self):
        self.fh.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.fh.close()

    def __getattr__(self, name):
        return getattr(self.fh, name)


def sim_open(name, mode='r', *a, **kw):
    s = core.SIM
    sv = getattr(s, 'solver', None) if s is not None else None
    f = sv.fault() if sv is not None else None
    if f in DISK_FAULTS and isinstance(name, str):
        model = name.endswith(('.mps', '.lp')) and 'w' in mode
        sol = name.endswith('.sol') and 'r' in mode
        arg = sv.cur.get('arg', 0)
        if model and f == 'mps_open_enospc':
            sv.fire()
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), name)
        if model and f == 'mps_open_emfile':
            sv.fire()
            raise OSError(errno.EMFILE, os.strerror(errno.EMFILE), name)
        if model and f in ('mps_write_enospc', 'mps_write_eio'):
            no = errno.ENOSPC if f.endswith('enospc') else errno.EIO
            return FailingFile(builtins.open(name, mode, *a, **kw), sv,
                               1 + arg % 120, no)
        if sol and f == 'sol_open_eio':
            sv.fire()
            raise OSError(errno.EIO, os.strerror(errno.EIO), name)
        if sol and f == 'sol_read_eio':
            return FailingFile(builtins.open(name, mode, *a, **kw), sv,
                               1 + arg % 40, errno.EIO)
    return builtins.open(name, mode, *a, **kw)


_real_remove = os.remove


def _sim_remove(path, *a, **kw):
    s = core.SIM
    sv = getattr(s, 'solver', None) if s is not None else None
    if sv is not None and sv.fault() == 'remove_error' and \
            isinstance(path, str) and '-pulp.' in path:
        sv.fire()
        _real_remove(path, *a, **kw)
        raise OSError(errno.EBUSY, os.strerror(errno.EBUSY), path)
    return _real_remove(path, *a, **kw)


def leftovers():
    """Files in the scratch directory and the working directory."""
    out = []
    for d in (os.environ['TMPDIR'], os.getcwd()):
        for f in os.listdir(d):
            q = os.path.join(d, f)
            if os.path.isfile(q):
                out.append(q)
    return sorted(out)


def clean():
    """Remove what failed fits left behind."""
    for f in leftovers():
        try:
            _real_remove(f)
        except OSError:
            pass


def install():
    import pulp
    import pulp.pulp
    import pulp.solvers
    subprocess.Popen = SimPopen
    pulp.pulp.open = sim_open
    pulp.solvers.open = sim_open
    os.remove = _sim_remove
    if pulp.solvers.subprocess is not subprocess:
        pulp.solvers.subprocess = subprocess
