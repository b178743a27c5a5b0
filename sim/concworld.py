"""World: several callers at once (property I01).

Each task is a caller with its own CPU, backend and formatter.  All share one global
decoder and a list of decoded instructions.  Tasks run as greenlets; the scenario decides
who runs next and at which statements each operation is preempted.  What each task
observes must be what it observes when it runs alone (in a second, isolated import of the
package, with decoded instructions of its own).

  {"world": "conc", "prop": "I01", "shared": [[hex, addr], ...],
   "tasks": [{"machine": {...}, "ops": [op, ...]}, ...], "picks": [int, ...]}

ops ([..., pre] = preemption points, per mille of the length of the operation's heart - the
execution, decoding, formatting - when alone)
  ["x", k, regs, pre]        execute shared instruction k (its address as PC)
  ["X", k, regs, irq, pre]   the same, but interrupted (irq = [permille, exception]),
                             then the state restored and executed again
  ["s", at, pre]             fetch, decode with the global decoder, execute
  ["d", hex, addr, pre]      decode only
  ["D", hex, addr, pre]      disassemble a whole buffer
  ["f", k, pre]              format shared instruction k
  ["F", hex, addr, pre]      disassemble and print a whole buffer
  ["r", reg, val] / ["w", addr, size, val]   debugger writes
"""
import core
import ref
import execgen
from core import Scheduler, Task, Violation, SimHang, rng_for, make_exc, run_guarded
from execworld import Machine, IX_PC, diff_state


def generate(prop, seed, tier):
    r = rng_for('conc', prop, seed)
    g = execgen.Gen('E01', seed, tier)
    nt = r.choice((2, 2, 3, 3, 4)) if r.random() < 0.96 else 7
    shared = []
    classes = [r.choice(('E01', 'E02', 'E03', 'E04', 'E05')) for _ in range(2)]
    while len(shared) < r.choice((2, 4, 8)):
        k = r.choice(classes) if r.random() < 0.6 else r.choice(
            ('E01', 'E01', 'E02', 'E03', 'E04', 'E05'))
        i = execgen.pick_ins(r, execgen.BYPROP[k])
        if i is not None:
            shared.append([ref.words_bytes(i.words).hex(), 0x40])
    density = r.choice((0, 1, 2, 3, 5))
    # everybody is busy with encodings of one kind
    kind = None
    if r.random() < 0.5:
        kind = [r.choice(execgen.ALL)]
        nt = r.choice((2, 2, 3))
        density = r.choice((1, 2, 3))
        same = [execgen.pick_ins(r, kind) for _ in range(r.choice((1, 1, 2)))]
        if None in same:
            kind = None
        else:
            shared = [[ref.words_bytes(i.words).hex(), 0x40] for i in same]

    def pre():
        return sorted(r.randrange(1000) for _ in range(r.randint(1 if kind else 0, density)))

    def buf(n):
        b = b''
        while len(b) < n:
            if r.random() < 0.93:
                b += r.choice(execgen.code_pool(r.choice((
                    'E01', 'E02', 'E03', 'E04', 'E05', 'E01', 'E02', 'E03', None))))
            else:
                b += bytes((r.getrandbits(8), r.getrandbits(8)))
        return b[:n + r.choice((0, 0, 1))].hex()

    tasks = []
    mode = r.choice(('mixed', 'mixed', 'exec', 'text', 'decode'))
    # first use: everybody meets a package nobody has used yet (nothing decoded before)
    first = kind is None and r.random() < 0.08
    if kind:
        mode = 'kind'
    if first:
        mode, density = 'first', max(density, 2)
        shared = []
    for t in range(nt):
        g.regions, g.machines = [], []
        m = g.machine()
        regs0 = g.regions[0]
        ops = []
        for _ in range(r.choice((8, 12, 16) if kind else (4, 8, 12))):
            k = r.random()
            if k < 0.12:
                if r.random() < 0.6:
                    ops.append(['r', r.choice(list(range(13)) + [14, 16]), core.value32(r)])
                else:
                    s, n = regs0[1]
                    ops.append(['w', s + 4 * r.randrange(n // 4), 32, r.getrandbits(32)])
                continue
            what = r.choice({'mixed': 'xxxXssdDfF', 'exec': 'xxxXs', 'text': 'fFFD',
                             'decode': 'ddDs', 'first': 'dDFsd', 'kind': 'xxxxXdf'}[mode])
            if what in 'xX':
                j = r.randrange(len(shared))
                i = ref.decode(bytes.fromhex(shared[j][0]), shared[j][1])
                g.regions = [regs0]
                g.r = r
                st = g.setup(i, 0, None)
                if what == 'x':
                    ops.append(['x', j, st, pre()])
                else:
                    ops.append(['X', j, st, [r.randrange(1000), r.choice(core.IRQ_NAMES)],
                                pre()])
            elif what == 's':
                s, n = regs0[0]
                at = s + 2 * r.randrange(0, n // 2 - 2) if r.random() < 0.7 else None
                ops.append(['s', at, pre()])
            elif what == 'd':
                i = execgen.pick_ins(r, kind or execgen.ALL)
                if i is None:
                    continue
                ops.append(['d', ref.words_bytes(i.words).hex(), r.choice((0, 0x40, 0x8002)),
                            pre()])
            elif what in 'DF':
                ops.append([what, buf(r.choice((8, 16, 32))), r.choice((0, 0x40, 0x8002)),
                            [x for _ in range(3) for x in pre()]])
            else:
                ops.append(['f', r.randrange(len(shared)), pre()])
        tasks.append({'machine': m, 'ops': ops})
    picks = [r.randrange(1 << 16) for _ in range(r.choice((0, 40, 200)))]
    return {'world': 'conc', 'prop': prop, 'shared': shared, 'tasks': tasks, 'picks': picks,
            'first': int(first)}


class Caller(object):
    """One task's own CPU, backend, formatter; performs operations and logs what it saw."""

    def __init__(self, pkg, task):
        self.pkg = pkg
        md = task['machine']
        self.m = Machine(pkg, [(s, bytes.fromhex(h)) for s, h in md['regions']],
                         md.get('ext', ()))
        for i, v in md['regs']:
            self.m.cpu.write_register(i, v)
        self.fmt = pkg.formatter.Formatter(self.m.cpu)
        self.dis = pkg.disasm.Disassembler()
        self.ops = task['ops']
        self.log = []

    def describe(self, i):
        return (bytes(i.bytes).hex(), i.size, i.address, i.mnemonic, len(i.operands))

    def op(self, op, shared, interrupt=None, focus=lambda fn: fn()):
        """Perform one operation.  focus runs its heart - where it is preempted."""
        m, cpu = self.m, self.m.cpu
        k = op[0]
        try:
            if k in 'xX':
                for reg, v in op[2]:
                    cpu.write_register(reg, v)
                i = shared[op[1]]
                cpu.pc = i.address
                if k == 'X' and interrupt is not None:
                    st = m.state()
                    interrupt(op[3], lambda: i.execute(cpu))
                    m.set_state(st)
                focus(lambda: i.execute(cpu))
                out = m.state()
            elif k == 's':
                if op[1] is not None:
                    cpu.pc = op[1]
                pc = cpu.pc.unsigned & ~1
                b = cpu.read_memory_block(pc, 4)
                if b is None:
                    return 'unmapped'

                def step():
                    i = self.pkg.disasm.decoder.decode(bytes(b), pc)
                    i.execute(cpu)
                    return i
                i = focus(step)
                out = self.describe(i), m.state()
            elif k == 'd':
                def both():
                    i = self.pkg.disasm.decoder.decode(bytes.fromhex(op[1]), op[2])
                    return self.describe(i), self.fmt.format(i)
                out = focus(both)
            elif k == 'D':
                out = []

                def lines():
                    for i in self.dis.disasm(bytes.fromhex(op[1]), op[2]):
                        out.append(self.describe(i))
                focus(lines)
            elif k == 'F':
                out = []

                def listing():
                    for i in self.dis.disasm(bytes.fromhex(op[1]), op[2]):
                        out.append(self.fmt.format(i))
                focus(listing)
            elif k == 'f':
                out = focus(lambda: self.fmt.format(shared[op[1]]))
            elif k == 'r':
                cpu.write_register(op[1], op[2])
                out = None
            elif k == 'w':
                cpu.write_memory(op[1], op[3], op[2])
                out = None
            return out
        except (SimHang, core.greenlet.GreenletExit if hasattr(core.greenlet, 'GreenletExit')
                else SimHang):
            raise
        except Exception as e:
            return 'raised ' + type(e).__name__, m.state()


def decode_shared(pkg, shared):
    out = []
    for h, a in shared:
        out.append(pkg.disasm.decoder.decode(bytes.fromhex(h), a))
    return out


class ConcRun(object):
    def __init__(self, sc, pkgs, stats, digest):
        self.sc, self.stats, self.dig = sc, stats, digest
        self.A, self.B = pkgs
        self.sigs = set()
        self.known = {}

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def run(self):
        sc = self.sc
        # alone, in the other import
        want, length = [], []
        first = sc.get('first')
        if first:
            self.A = core.Package(self.A.root)
            self.count('first_use')
        for td in sc['tasks']:
            if first:
                self.B = core.Package(self.B.root)

            def solo():
                c = Caller(self.B, td)
                sh = decode_shared(self.B, sc['shared'])
                log, lens = [], []

                def measure(fn):
                    a = core.HOOK.cur.n
                    try:
                        return fn()
                    finally:
                        lens[-1] = core.HOOK.cur.n - a
                for op in td['ops']:
                    lens.append(1)
                    log.append(c.op(op, sh, None, measure))
                return log, lens, c.m.state()
            v, e, n, _ = run_guarded(solo, budget=4000000)
            self.count('statements', n)
            if isinstance(e, SimHang):
                raise Violation('hang', 'a caller alone does not finish')
            if e is not None:
                raise e
            want.append(v)
        # together
        v, e, n, _ = run_guarded(lambda: decode_shared(self.A, sc['shared']))
        if e is not None:
            raise Violation('interference', 'decoding %r raised %r, not so in a fresh import' % (
                sc['shared'], e))
        shared = v
        callers = []
        v, e, n, _ = run_guarded(lambda: [Caller(self.A, td) for td in sc['tasks']])
        if e is not None:
            raise e
        callers = v
        tasks = []
        got = [[] for _ in callers]
        where = [None] * len(callers)
        overlap = set()

        def body(ti):
            c, td = callers[ti], sc['tasks'][ti]
            lens = want[ti][1]

            def interrupt(irq, fn):
                # an asynchronous exception at the given point of fn
                t = tasks[ti]
                keep = t.ctl.fire
                at = t.ctl.n + 1 + irq[0] * max(1, lens[where[ti][0]]) // 1000
                self.sched.irq(t, at, make_exc(irq[1]))
                try:
                    fn()
                except BaseException as x:
                    if isinstance(x, SimHang):
                        raise
                    if getattr(x, 'args', None) == ('injected',):
                        self.count('fault.irq.' + irq[1])
                finally:
                    self.sched.irq(t, None, None)

            def go(t):
                for k, op in enumerate(td['ops']):
                    where[ti] = (k, op[0])
                    pre = op[-1] if op[0] not in 'rw' else []

                    def focus(fn):
                        self.sched.arm(t, [1 + p * max(1, lens[k]) // 1000 for p in pre])
                        try:
                            return fn()
                        finally:
                            self.sched.arm(t, [])
                    got[ti].append(c.op(op, shared, interrupt, focus))
                    where[ti] = None
                    self.sched.pause()
            return go
        for ti in range(len(callers)):
            tasks.append(Task(ti, body(ti)))

        def on_switch(t):
            cur = where[t.name]
            if cur:
                for o in range(len(where)):
                    if o != t.name and where[o]:
                        overlap.add((cur[1], where[o][1]))
                        self.count('overlaps')
                self.count('fault.preempt')
        self.sched = Scheduler(tasks, sc['picks'], on_switch=on_switch)
        trace = self.sched.run()
        self.count('ops', sum(len(t['ops']) for t in sc['tasks']))
        self.count('statements', sum(t.ctl.n for t in tasks))
        self.count('switches', self.sched.switches)
        self.dig.add(trace)
        self.sigs.add(tuple(trace))
        for ti, t in enumerate(tasks):
            if t.exc is not None:
                if isinstance(t.exc, SimHang):
                    raise Violation('hang', 'caller %d never finishes when run with others: '
                                    '%s' % (ti, t.exc), task=ti)
                raise t.exc
            self.dig.add(ti, got[ti])
            for k, (g, w) in enumerate(zip(got[ti], want[ti][0])):
                if g != w:
                    raise Violation('interference', 'caller %d operation %d %r: %s' % (
                        ti, k, self.sc['tasks'][ti]['ops'][k][:3], self.show(g, w)), task=ti)
            d = diff_state(callers[ti].m.state(), want[ti][2])
            if d:
                raise Violation('interference', 'caller %d final state got/alone %s' % (
                    ti, ' '.join(d)), task=ti)

    def show(self, g, w):
        try:
            d = diff_state(g, w)
            if d:
                return 'state got/alone ' + ' '.join(d)
        except Exception:
            pass
        return 'observed %.300r, alone %.300r' % (g, w)


def make(sc, pkgs, stats, digest):
    return ConcRun(sc, pkgs, stats, digest)


def fresh(root):
    return core.Package(root), core.Package(root)
