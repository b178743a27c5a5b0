"""Simulator core: staging and instrumented loading of the code under test, the
statement-level scheduler, fault-injecting backend seam, deterministic random choices
and digests.

Everything the code under test can observe goes through here:
  * which task runs next, and at which statement it is preempted (greenlets),
  * asynchronous interrupts (an exception raised at a chosen statement),
  * failures of the target backend (exception before or after the access took effect),
and all of it is decided by the scenario (plain JSON), which is decided by one seed.
"""
import ast
import builtins
import hashlib
import importlib
import os
import random
import shutil
import sys
import threading
import types

try:
    from greenlet import greenlet, getcurrent
except ImportError:                                        # pragma: no cover
    greenlet = None

REPO = os.environ.get('CMDIS_REPO', '/repo')
PKG = 'cmdis'
CODEFLAGS = 0

# ------------------------------------------------------------------- staging

def stage(dst):
    """Copy the package from the working tree to a scratch directory (so nothing we do
    can touch /repo).  -> dir containing cmdis/"""
    src = os.path.join(REPO, PKG)
    out = os.path.join(dst, 'src')
    os.makedirs(os.path.join(out, PKG))
    for root, dirs, files in os.walk(src):
        dirs[:] = [d for d in dirs if d != '__pycache__']
        rel = os.path.relpath(root, src)
        tgt = os.path.join(out, PKG, rel)
        os.makedirs(tgt, exist_ok=True)
        for f in files:
            if f.endswith('.py'):
                shutil.copyfile(os.path.join(root, f), os.path.join(tgt, f))
    v = os.path.join(out, PKG, '_version.py')
    if not os.path.exists(v):
        with open(v, 'w') as fh:
            fh.write("version = '0.1'\n")
    return out

def convert_main(root):
    """__main__.py is Python 2 source that the build converts with 2to3: do the same in
    the scratch copy."""
    from lib2to3 import refactor
    p = os.path.join(root, PKG, '__main__.py')
    with open(p, encoding='utf-8') as fh:
        src = fh.read()
    if not src.endswith('\n'):
        src += '\n'
    tool = refactor.RefactoringTool(refactor.get_fixers_from_package('lib2to3.fixes'))
    try:
        new = str(tool.refactor_string(src, p))
    except Exception:                   # not Python 2 source (any more)
        new = src
    with open(p, 'w', encoding='utf-8') as fh:
        fh.write(new)


# ---------------------------------------------------------- statement points

class SimHang(BaseException):
    """The code under test used more statements than any legitimate operation."""

class Ctl(object):
    """Per-task execution control: statement counter and the next event."""
    __slots__ = ('n', 'next', 'fire', 'budget')

    def __init__(self):
        self.n = 0
        self.next = 1 << 60
        self.fire = None
        self.budget = 1 << 60

CUR = Ctl()

class _Hook(object):
    cur = CUR

HOOK = _Hook()

def __simpt__():
    c = HOOK.cur
    c.n += 1
    if c.n >= c.next:
        c.fire(c)

builtins.__simpt__ = __simpt__

def __simv__(v):
    """A scheduling point between evaluating a value and storing or returning it."""
    c = HOOK.cur
    c.n += 1
    if c.n >= c.next:
        c.fire(c)
    return v

builtins.__simv__ = __simv__

class _Instrument(ast.NodeTransformer):
    """Insert a scheduling point before every statement of every function."""

    def __init__(self):
        self.depth = 0

    def _pt(self, node):
        e = ast.Expr(ast.Call(ast.Name('__simpt__', ast.Load()), [], []))
        for x in ast.walk(e):
            if isinstance(x, (ast.expr, ast.stmt)):
                x.lineno = node.lineno
                x.col_offset = 0
                x.end_lineno = node.lineno
                x.end_col_offset = 0
        return e

    def _block(self, body):
        out = []
        for k, st in enumerate(body):
            if isinstance(st, (ast.Global, ast.Nonlocal)) or (
                    isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)
                    and isinstance(st.value.value, str)):
                out.append(st)
                continue
            out.append(self._pt(st))
            if isinstance(st, (ast.Assign, ast.AugAssign)) and not isinstance(
                    st.value, (ast.Constant, ast.Name)) or isinstance(
                    st, ast.AugAssign):
                v = st.value
                f = ast.copy_location(ast.Name('__simv__', ast.Load()), v)
                st.value = ast.copy_location(ast.Call(f, [v], []), v)
            out.append(st)
        return out

    def generic_visit(self, node):
        infn = isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda))
        iscls = isinstance(node, ast.ClassDef)
        saved = self.depth
        if infn:
            self.depth += 1
        elif iscls:
            self.depth = 0
        super().generic_visit(node)
        if self.depth and not isinstance(node, ast.Lambda):
            for fld in ('body', 'orelse', 'finalbody'):
                b = getattr(node, fld, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    setattr(node, fld, self._block(b))
        self.depth = saved
        return node

_code_cache = {}

def _compiled(path, instrument):
    key = (path, instrument)
    c = _code_cache.get(key)
    if c is None:
        with open(path, 'rb') as fh:
            src = fh.read()
        tree = ast.parse(src, path)
        if instrument:
            tree = _Instrument().visit(tree)
            ast.fix_missing_locations(tree)
        c = compile(tree, path, 'exec', dont_inherit=True)
        _code_cache[key] = c
    return c

class _Finder(object):
    """Resolves cmdis and its submodules to the staged copy only."""

    def __init__(self, root, instrument, after=None):
        self.root, self.instrument, self.after = root, instrument, after

    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + '.'):
            return None
        import importlib.machinery
        rel = name.split('.')
        p = os.path.join(self.root, *rel)
        if os.path.isdir(p):
            f, pk = os.path.join(p, '__init__.py'), True
        else:
            f, pk = p + '.py', False
        if not os.path.exists(f):
            raise ModuleNotFoundError('No module named %r' % name, name=name)
        spec = importlib.machinery.ModuleSpec(name, self, origin=f, is_package=pk)
        spec.has_location = True
        if pk:
            spec.submodule_search_locations = [p]
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        exec(_compiled(module.__spec__.origin, self.instrument), module.__dict__)
        if self.after is not None:
            self.after(module.__name__, module)

def quiet_logging():
    import logging
    logging.disable(logging.CRITICAL)

class Package(object):
    """One isolated import of the package (its own module objects and globals)."""
    MODULES = ('bitstring', 'utilities', 'helpers', 'registers', 'model', 'mock_cpu',
               'formatter', 'decoder', 'instructions', 'disasm')

    def __init__(self, root, instrument=True, on_module=None, extra=()):
        self.root = root
        saved = {k: sys.modules.pop(k) for k in list(sys.modules)
                 if k == PKG or k.startswith(PKG + '.')}
        finder = _Finder(root, instrument, on_module)
        sys.meta_path.insert(0, finder)
        outer = HOOK.cur
        HOOK.cur = Ctl()
        real = threading.Lock, threading.RLock, threading.local
        threading.Lock, threading.RLock, threading.local = SimLock, SimRLock, SimLocal
        try:
            self.top = importlib.import_module(PKG)
            for m in self.MODULES:
                mod = importlib.import_module(PKG + '.' + m)
                assert mod.__file__.startswith(root), mod.__file__
                setattr(self, m, mod)
            for m in extra:
                importlib.import_module(PKG + '.' + m)
        finally:
            threading.Lock, threading.RLock, threading.local = real
            HOOK.cur = outer
            sys.meta_path.remove(finder)
            self.modules = {k: sys.modules.pop(k) for k in list(sys.modules)
                            if k == PKG or k.startswith(PKG + '.')}
            sys.modules.update(saved)

    def activate(self):
        """Make this copy the one `import cmdis` finds (for late imports)."""
        for k in list(sys.modules):
            if k == PKG or k.startswith(PKG + '.'):
                del sys.modules[k]
        sys.modules.update(self.modules)

    @property
    def UndefinedInstructionError(self):
        return self.decoder.UndefinedInstructionError

    @property
    def UnpredictableError(self):
        return self.decoder.UnpredictableError

# ------------------------------------------------------------ fault injection

class SimBusFault(Exception):
    pass

class SimTargetLost(IOError):
    pass

class SimNMI(BaseException):
    """An asynchronous interrupt that is not an Exception (like KeyboardInterrupt)."""

FAULT_EXC = {
    'SimBusFault': SimBusFault, 'SimTargetLost': SimTargetLost, 'OSError': OSError,
    'KeyError': KeyError, 'ValueError': ValueError, 'TimeoutError': TimeoutError,
    'MemoryError': MemoryError, 'RuntimeError': RuntimeError, 'TypeError': TypeError,
    'EOFError': EOFError, 'AssertionError': AssertionError,
    'ZeroDivisionError': ZeroDivisionError,
    'NotImplementedError': NotImplementedError,
    'IndexError': IndexError, 'AttributeError': AttributeError,
    'KeyboardInterrupt': KeyboardInterrupt, 'SimNMI': SimNMI,
}
FAULT_NAMES = sorted(FAULT_EXC)
# errors of a byte source: not IndexError, which a sequence raises at its end
READ_FAULTS = [n for n in FAULT_NAMES if n != 'IndexError']
IRQ_NAMES = ['KeyboardInterrupt', 'SimNMI', 'MemoryError', 'SimTargetLost']

def make_exc(name):
    return FAULT_EXC[name]('injected')

class FaultyDelegate(object):
    """Seam between the CPU model and its backend.  Forwards every access to the real
    backend; at the access chosen by the scenario, raises the chosen error before the
    access or after it took effect."""

    def __init__(self, real):
        self.real = real
        self.arm = None              # [kind, nth, mode, exc instance]
        self.fired = False
        self.accesses = 0            # of the armed kind, since arming
        self.reg_accesses = 0
        self.mem_accesses = 0
        self.log = None              # [write?, address, bytes] of every memory access

    def set_fault(self, kind, nth, mode, exc):
        self.arm = [kind, nth, mode, exc]
        self.fired = False
        self.accesses = 0

    def clear(self):
        self.arm = None

    def _go(self, kind, fn, *a, **k):
        arm = self.arm
        if kind == 'reg':
            self.reg_accesses += 1
        else:
            self.mem_accesses += 1
        if arm is not None and arm[0] == kind and not self.fired:
            self.accesses += 1
            if self.accesses == arm[1]:
                self.fired = True
                if arm[2] == 'after':
                    fn(*a, **k)
                raise arm[3]
        return fn(*a, **k)

    def read_register(self, reg):
        return self._go('reg', self.real.read_register, reg)

    def write_register(self, reg, value):
        return self._go('reg', self.real.write_register, reg, value)

    def note(self, write, addr, n):
        if self.log is not None:
            self.log.append((write, addr, n))

    def read_memory(self, addr, size=32):
        self.note(0, addr, size // 8)
        return self._go('mem', self.real.read_memory, addr, size)

    def write_memory(self, addr, value, size=32):
        self.note(1, addr, size // 8)
        return self._go('mem', self.real.write_memory, addr, value, size)

    def read_memory_block(self, addr, length):
        self.note(0, addr, length)
        return self._go('mem', self.real.read_memory_block, addr, length)

    def write_memory_block(self, addr, data):
        self.note(1, addr, len(data))
        return self._go('mem', self.real.write_memory_block, addr, data)

    def __getattr__(self, name):
        return getattr(self.real, name)

class Violation(Exception):
    """What the code under test did wrong in one run."""

    def __init__(self, kind, detail, **info):
        Exception.__init__(self, '%s: %s' % (kind, detail))
        self.kind, self.detail, self.info = kind, detail, info


# ------------------------------------------------------- bounded, interruptible

BUDGET = 2000000

def run_guarded(fn, irq=None, budget=BUDGET, ctl=None):
    """Call fn(); statement budget; optional asynchronous interrupt irq=(at, exc) raised
    at the at-th statement executed inside.  -> (value, exc, statements, irq_fired)"""
    c = Ctl()
    fired = [False]

    def fire(c):
        if irq is not None and not fired[0] and c.n >= irq[0]:
            fired[0] = True
            c.next = budget
            raise irq[1]
        if c.n >= budget:
            c.next = c.n + 1000
            raise SimHang('statement budget exceeded')
    c.fire = fire
    c.next = min(irq[0], budget) if irq is not None else budget
    outer = HOOK.cur
    HOOK.cur = c
    try:
        try:
            v = fn()
            return v, None, c.n, fired[0]
        except BaseException as e:
            if isinstance(e, SystemExit) and False:
                raise
            return None, e, c.n, fired[0]
    finally:
        HOOK.cur = outer

# ------------------------------------------------------------------ scheduler

class Task(object):
    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.ctl = Ctl()
        self.pre = []               # absolute statement numbers at which to preempt
        self.irq = None
        self.g = None
        self.exc = None

class Scheduler(object):
    """Runs tasks as greenlets.  A task is switched out at the statements listed in
    task.pre and at explicit pause() calls; `picks` chooses who runs next.  A task can
    also be given one asynchronous exception."""

    def __init__(self, tasks, picks, budget=4000000, on_switch=None):
        self.tasks = tasks
        self.picks = picks
        self.pi = 0
        self.budget = budget
        self.trace = []
        self.switches = 0
        self.on_switch = on_switch

    def _fire(self, t):
        def fire(c):
            if c.n >= self.budget:
                c.next = c.n + 1000
                raise SimHang('statement budget exceeded')
            if t.irq is not None and c.n >= t.irq[0]:
                exc = t.irq[1]
                t.irq = None
                self._next(t)
                raise exc
            while t.pre and t.pre[0] <= c.n:
                t.pre.pop(0)
            self._next(t)
            self.switches += 1
            if self.on_switch is not None:
                self.on_switch(t)
            self.main.switch()
        return fire

    def _next(self, t):
        n = self.budget
        if t.pre:
            n = min(n, t.pre[0])
        if t.irq is not None:
            n = min(n, t.irq[0])
        t.ctl.next = n

    def arm(self, t, offsets):
        """preempt task t at these statement offsets from now"""
        base = t.ctl.n
        t.pre = sorted(base + max(1, o) for o in offsets)
        self._next(t)

    def irq(self, t, at, exc):
        t.irq = None if at is None else (at, exc)
        self._next(t)

    def pause(self):
        self.main.switch()

    def _body(self, t):
        def body():
            try:
                t.fn(t)
            except BaseException as e:
                t.exc = e
        return body

    def run(self):
        self.main = getcurrent()
        outer = HOOK.cur
        for t in self.tasks:
            t.ctl.fire = self._fire(t)
            t.ctl.next = self.budget
            t.g = greenlet(self._body(t))
        live = list(self.tasks)
        SimLock.scheduler = self
        try:
            while live:
                if self.pi < len(self.picks):
                    t = live[self.picks[self.pi] % len(live)]
                    self.pi += 1
                else:
                    # afterwards: run each to its next pause in turn
                    t = live[len(self.trace) % len(live)]
                self.trace.append((t.name, t.ctl.n))
                if len(self.trace) > 200000:
                    raise Violation('hang', 'the callers never finish (waiting for each '
                                            'other)')
                HOOK.cur = t.ctl
                t.g.switch()
                HOOK.cur = outer
                if t.g.dead:
                    live.remove(t)
        finally:
            HOOK.cur = outer
            SimLock.scheduler = None
            for d in SimLocal.instances:        # namespaces of callers that are gone
                for k in list(d):
                    if k != id(self.main):
                        del d[k]
        return self.trace


class SimLock(object):
    """Stand-in for threading.Lock/RLock inside the simulated package: a caller that has
    to wait is switched out, instead of blocking the whole (single-threaded) simulation."""
    scheduler = None
    reentrant = False

    def __init__(self):
        self.owner, self.depth = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = getcurrent()
        while self.owner is not None and not (self.reentrant and self.owner is me):
            if not blocking or timeout >= 0:
                return False
            if SimLock.scheduler is None:
                raise SimHang('deadlock: waiting for a lock nobody will release')
            SimLock.scheduler.pause()
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        if self.owner is None or (self.reentrant and self.owner is not getcurrent()):
            raise RuntimeError('release unlocked lock')
        self.depth -= 1
        if not self.depth:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    reentrant = True


class SimLocal(object):
    """Stand-in for threading.local: one namespace per simulated caller."""

    instances = []

    def __getattribute__(self, name):
        d = object.__getattribute__(self, '__dict__')
        if not d:
            SimLocal.instances.append(d)
        me = d.setdefault(id(getcurrent()), {})
        if name == '__dict__':
            return me
        if name in me:
            return me[name]
        return object.__getattribute__(self, name)

    def __setattr__(self, name, v):
        object.__getattribute__(self, '__dict__').setdefault(id(getcurrent()), {})[name] = v

    def __delattr__(self, name):
        try:
            del object.__getattribute__(self, '__dict__')[id(getcurrent())][name]
        except KeyError:
            raise AttributeError(name)


# -------------------------------------------------------------------- utility

def h64(*parts):
    m = hashlib.blake2b(digest_size=8)
    for p in parts:
        m.update(repr(p).encode())
        m.update(b'\0')
    return int.from_bytes(m.digest(), 'big')

def rng_for(*parts):
    return random.Random(h64(*parts))

class Digest(object):
    """Event log digest; keeps the last events for diagnosis."""

    def __init__(self, keep=0):
        self.m = hashlib.blake2b(digest_size=16)
        self.keep = keep
        self.log = []
        self.n = 0

    def add(self, *parts):
        s = repr(parts)
        self.n += 1
        self.m.update(s.encode())
        if self.keep:
            self.log.append(s)
            if len(self.log) > self.keep:
                del self.log[:-self.keep]

    def hex(self):
        return self.m.hexdigest()

BOUNDARY = [0, 1, 2, 3, 4, 0x1f, 0x20, 0x21, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000,
            0xffff, 0x10000, 0x3fffffff, 0x40000000, 0x7ffffffe, 0x7fffffff, 0x80000000,
            0x80000001, 0xaaaaaaaa, 0x55555555, 0xc0000000, 0xfffffffe, 0xffffffff]

def value32(r):
    k = r.random()
    if k < 0.45:
        return r.choice(BOUNDARY)
    if k < 0.6:
        return (r.choice(BOUNDARY) + r.randint(-3, 3)) & 0xffffffff
    if k < 0.7:
        return 1 << r.randrange(32)
    if k < 0.8:
        return r.getrandbits(8) * 0x01010101
    return r.getrandbits(32)
