"""World: machines executing Armv7-M code (properties E01-E05, F01-F04, I02, M03).

A scenario is plain JSON:
  {"world": "exec", "prop": P,
   "machines": [{"regions": [[start, hexbytes], ...], "regs": [[idx, val], ...]}, ...],
   "ops": [op, ...]}

Operations (m = machine index, ext = dict with optional fault description):
  ["x", m, at, hexbytes, [[reg, val]...], ext]  debugger sets registers, plants the
                   instruction at PC (at, when not null) and steps once
  ["s", m, at, ext]        step whatever is at PC (or at `at`)
  ["a", m, k, ext]         execute decoded instruction number k of the pool again
  ["R", m, at, [hex...], regs, how, ext]   plant straight-line code and hand the decoded
                   instructions to CpuModel.execute (how: list, iterator or disassembler)
  ["r", m, reg, val]       debugger register write
  ["w", m, addr, size, val] / ["b", m, addr, hex]   debugger memory writes
  ["n", m]                 throw the CPU object away, attach a new one
  ["c", m, k]              switch to the k-th of several CPU objects on this backend
  ["p", m, slot] / ["q", m, slot]    snapshot / roll back the backend
  ["f", k]                 format pool instruction k
  ["z", m, addr, bit]      flip one bit of memory (corruption), ["zr", m] repair all flips

ext: {"flt": [[kind, permille, mode, exc], ...]}  backend errors on successive attempts
     {"irq": [permille, exc]}                     asynchronous interrupt inside the step
"""
import core
import ref
from core import (FaultyDelegate, run_guarded, make_exc, rng_for, value32, SimHang, Violation)
from execgen import generate

REGS = ref.ALL_REGS
CORE = [i for i in REGS if i < 0x40]
FLOATS = [i for i in REGS if i >= 0x40]
IX_PC = REGS.index(15)
IX_SP = REGS.index(13)
IX_XPSR = REGS.index(16)


def extended(pkg, ext):
    """The CPU model class, as an embedding program derives it for a processor with the
    DSP ('dsp') or floating-point ('fp') extension, or one that stands inside an IT block."""
    if not ext:
        return pkg.model.CpuModel
    body = {'in_it_block' if e == 'it' else 'has_%s_ext' % e: property(lambda self: True)
            for e in ext}
    return type('CpuModel', (pkg.model.CpuModel,), body)


class Machine(object):
    """A backend (real MockCpuModelDelegate behind the fault seam) plus CPU objects."""

    def __init__(self, pkg, regions, ext=()):
        self.pkg = pkg
        self.ext = tuple(ext)       # extensions the simulated processor has
        self.regions = [(s, len(b)) for s, b in regions]
        self.real = pkg.mock_cpu.MockCpuModelDelegate()
        for s, n in self.regions:
            self.real.add_memory(s, n)
        self.seam = FaultyDelegate(self.real)
        self.cpus = [self.new_cpu()]
        self.cpu = self.cpus[0]
        for s, b in regions:
            self.cpu.write_memory_block(s, bytearray(b))

    def new_cpu(self):
        c = extended(self.pkg, self.ext)()
        c.delegate = self.seam
        return c

    def regs(self):
        rd = self.real.read_register
        return [rd(i) for i in REGS]

    def cpu_regs(self):
        c = self.cpu
        return [c.read_register(i).unsigned for i in REGS]

    def mem(self):
        c = self.real
        out = []
        for s, n in self.regions:
            b = c.read_memory_block(s, n)
            out.append(bytes(b) if b is not None else None)
        return out

    def state(self):
        """What the backend holds (and so what a newly attached CPU object sees)."""
        return self.regs(), self.mem()

    def rollback(self, st):
        """Restore an earlier backend state underneath the CPU objects."""
        keep, self.cpu = self.cpu, self.new_cpu()
        try:
            self.set_state(st)
        finally:
            self.cpu = keep

    def move(self):
        """The CPU objects move to another backend in the same state; the one they leave then
        holds something else everywhere."""
        old, st = self.real, self.state()
        self.real = self.pkg.mock_cpu.MockCpuModelDelegate()
        for s, n in self.regions:
            self.real.add_memory(s, n)
        self.seam = FaultyDelegate(self.real)
        self.rollback(st)
        for c in self.cpus:
            c.delegate = self.seam
        for i, v in zip(REGS, st[0]):
            old.write_register(i, v ^ 0x5a5a5a5b)
        for (s, n), b in zip(self.regions, st[1]):
            old.write_memory_block(s, bytearray(x ^ 0xa5 for x in b or b''))

    def set_state(self, st):
        regs, mem = st
        c = self.cpu
        v = dict(zip(REGS, regs))
        for i in (-4, 17, 18):
            c.write_register(i, v[i])
        for i in REGS:
            if i not in (-4, 17, 18, 13):
                c.write_register(i, v[i])
        for (s, n), b in zip(self.regions, mem):
            c.write_memory_block(s, bytearray(b))


def diff_state(a, b, pcmask=~0):
    """Human-readable differences between two states."""
    out = []
    for i, x, y in zip(REGS, a[0], b[0]):
        if i == 15:
            x, y = x & pcmask, y & pcmask
        if x != y:
            out.append('%s=%#x/%#x' % (ref.NAME_OF[i], x, y))
    for k, (p, q) in enumerate(zip(a[1], b[1])):
        if p != q:
            if p is None or q is None or len(p) != len(q):
                out.append('region%d length %s/%s' % (k, p and len(p), q and len(q)))
            else:
                bad = [j for j in range(len(p)) if p[j] != q[j]]
                out.append('region%d[%s]' % (k, ','.join(
                    '%#x:%02x/%02x' % (j, p[j], q[j]) for j in bad[:6])))
    return out


def between(st, pre, post):
    """Items of st that hold neither their old nor their new value."""
    out = []
    for i, x, a, b in zip(REGS, st[0], pre[0], post[0]):
        if x == a or x == b:
            continue
        if i == 16 and (x & ~(a | b)) == 0 and (x & a & b) == (a & b):
            continue                          # xPSR: bit by bit
        out.append('%s=%#x (was %#x, would be %#x)' % (ref.NAME_OF[i], x, a, b))
    for k, (x, a, b) in enumerate(zip(st[1], pre[1], post[1])):
        if x == a or x == b:
            continue
        if x is None or len(x) != len(a):
            out.append('region%d changed size' % k)
            continue
        for j in range(len(x)):
            if x[j] != a[j] and x[j] != b[j]:
                out.append('region%d+%#x=%02x (was %02x, would be %02x)'
                           % (k, j, x[j], a[j], b[j]))
                if len(out) > 6:
                    break
    return out


class ExecRun(object):
    """One simulated run."""

    def __init__(self, sc, pkgs, stats, digest):
        self.sc = sc
        self.prop = sc['prop']
        self.A, self.B = pkgs
        self.stats = stats
        self.dig = digest
        self.pool = []          # (instr, ident, words)
        self.ms = []
        self.refs = []
        self.snaps = {}
        self.flips = {}
        self.known = {}
        self.sigs = set()
        self.opno = -1

    # ---- plumbing

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def fail(self, kind, detail, **info):
        raise Violation(kind, detail, op=self.opno, **info)

    def build(self):
        for md in self.sc['machines']:
            regions = [(s, bytes.fromhex(h)) for s, h in md['regions']]
            m = Machine(self.A, regions, md.get('ext', ()))
            if m.ext:
                self.count('machines.ext')
            for i, v in md.get('regs', ()):
                m.cpu.write_register(i, v)
            self.ms.append(m)
            r = ref.Ref([(s, len(b)) for s, b in regions], m.ext)
            for x, (s, b) in zip(r.regions, regions):
                x.data[:] = b
            for i, v in md.get('regs', ()):
                r.w(i, v)
            self.refs.append(r)

    def resync(self, m):
        regs, mem = self.ms[m].state()
        r = self.refs[m]
        for i, v in zip(REGS, regs):
            if i != 13:
                r.g[i] = v & ref.M32
        for x, b in zip(r.regions, mem):
            if b is not None and len(b) == len(x.data):
                x.data[:] = b

    def rstate(self, m):
        r = self.refs[m]
        return r.regs(), [bytes(x.data) for x in r.regions]

    def twin(self, m, st=None):
        mm = self.ms[m]
        st = st or mm.state()
        t = Machine(self.B, [(s, b) for (s, n), b in zip(mm.regions, st[1])], mm.ext)
        t.set_state(st)
        return t

    def fetch(self, m):
        """-> pc, bytes at pc (via the CPU model)"""
        mm = self.ms[m]
        pc = mm.cpu.pc.unsigned & ~1
        b = mm.cpu.read_memory_block(pc, 4)
        return pc, (bytes(b) if b is not None else None)

    def ident(self, i):
        f = self.A.formatter.Formatter(self.ms[0].cpu)
        return (bytes(i.bytes), i.size, i.address, i.mnemonic, f.format(i))

    # ---- run

    def run(self):
        # hang protection for everything outside the guarded steps as well
        v, e, n, _f = run_guarded(self._run, budget=20000000)
        self.count('statements', n)
        if isinstance(e, Violation):
            raise e
        if isinstance(e, SimHang):
            raise Violation('hang', 'statement budget exceeded outside a step', op=self.opno)
        if e is not None:
            raise e
        return v

    def _run(self):
        self.build()
        for k, op in enumerate(self.sc['ops']):
            self.opno = k
            self.count('ops')
            getattr(self, 'op_' + op[0])(*op[1:])
            if self.prop == 'F03' and isinstance(op[1], int):
                self.views(op[1])
        self.opno = len(self.sc['ops'])
        self.finish()

    def views(self, m):
        """F03: every attached CPU object shows what the backend holds."""
        if m >= len(self.ms):
            return
        mm = self.ms[m]
        v = dict(zip(REGS, mm.regs()))
        ps = v[16]
        want = [bool(not v[-4] & 1), v[-4], ps, ps >> 31, ps >> 30 & 1, ps >> 29 & 1,
                ps >> 28 & 1, ps & 0x1ff, v[13], v[14], v[15], v[17], v[18]]
        s, n = mm.regions[1]
        hot = s + 4 * (self.opno // 16 % 4)
        if self.opno % 3 == 0 and any(x <= hot and hot + 4 <= x + y for x, y in mm.regions):
            mm.cpus[self.opno // 3 % len(mm.cpus)].write32(hot, self.opno * 0x1010101 & ref.M32)
        a = s + (self.opno * 7) % max(1, n - 4)
        want.append(mm.real.read_memory(a, 32))
        # one more register, and the word of memory that every CPU object reads time and
        # again while the others change it
        q = REGS[self.opno % len(REGS)]
        want.append(mm.real.read_register(q))
        want += [mm.real.read_memory(hot, 32)] * 2
        for k, c in enumerate(mm.cpus):
            shared = c.read32(hot).unsigned
            p = c.apsr
            got = [bool(c.is_privileged), c.control.unsigned, c.xpsr.unsigned,
                   p.n.unsigned, p.z.unsigned, p.c.unsigned, p.v.unsigned, c.ipsr.unsigned,
                   c.sp.unsigned, c.lr.unsigned, c.pc.unsigned, c.msp.unsigned,
                   c.psp.unsigned, c.read32(a).unsigned, c.read_register(q).unsigned,
                   c.read32(hot).unsigned, shared]
            if got != want:
                names = ('privileged control xpsr n z c v ipsr sp lr pc msp psp word %s '
                         'shared-word shared-word-first' % ref.NAME_OF[q]).split()
                self.fail('cpu-view-differs', 'CPU object %d of %d: %s' % (
                    k, len(mm.cpus), ' '.join('%s=%#x, backend %#x' % (q, x, y)
                                              for q, x, y in zip(names, got, want) if x != y)))
        self.count('views', len(mm.cpus))

    def finish(self):
        for m, mm in enumerate(self.ms):
            self.dig.add('end', m, mm.state())
            # the CPU object in use must agree with the backend it is attached to
            view = mm.cpu_regs()
            if view != mm.regs():
                self.fail('cpu-view-differs', ' '.join(
                    '%s=%#x/%#x' % (ref.NAME_OF[i], x, y)
                    for i, x, y in zip(REGS, view, mm.regs()) if x != y))

    # ---- debugger operations

    def op_r(self, m, reg, val):
        self.ms[m].cpu.write_register(reg, val)
        self.refs[m].w(reg, val)

    def op_w(self, m, addr, size, val):
        self.ms[m].cpu.write_memory(addr, val, size)
        self.refs[m].wm(addr, val, size // 8)

    def op_b(self, m, addr, hx):
        self.ms[m].cpu.write_memory_block(addr, bytearray.fromhex(hx))
        self.refs[m].wblock(addr, bytes.fromhex(hx))

    def op_n(self, m):
        mm = self.ms[m]
        mm.cpus = [mm.new_cpu()]
        mm.cpu = mm.cpus[0]
        self.count('reattach')

    def op_c(self, m, k):
        mm = self.ms[m]
        if len(mm.cpus) < 3:
            mm.cpus.append(mm.new_cpu())
        mm.cpu = mm.cpus[k % len(mm.cpus)]
        self.count('cpu_switch')

    def op_D(self, m):
        self.ms[m].move()
        self.count('backend_replaced')

    def op_p(self, m, slot):
        self.snaps[m, slot] = self.ms[m].state()
        self.count('snapshot')

    def op_q(self, m, slot):
        st = self.snaps.get((m, slot))
        if st is not None:
            self.ms[m].rollback(st)
            self.resync(m)
            self.count('rollback')

    def op_f(self, k):
        if self.pool:
            i = self.pool[k % len(self.pool)]
            self.A.formatter.Formatter(self.ms[0].cpu).format(i[0])
            self.count('format')

    def op_z(self, m, addr, bit):
        mm = self.ms[m]
        b = mm.cpu.read_memory_block(addr, 1)
        if b:
            self.flips.setdefault(m, []).append((addr, b[0]))
            mm.cpu.write_memory(addr, b[0] ^ (1 << bit), 8)
            self.refs[m].wm(addr, b[0] ^ (1 << bit), 1)
            self.count('fault.bitflip')

    def op_zr(self, m):
        for addr, v in reversed(self.flips.pop(m, [])):
            self.ms[m].cpu.write_memory(addr, v, 8)
            self.refs[m].wm(addr, v, 1)
            self.count('repair')

    # ---- steps

    def place(self, m, at, hx=None):
        mm = self.ms[m]
        if at is not None:
            mm.cpu.pc = at
            self.refs[m].g[15] = at
        if hx is not None:
            pc = mm.cpu.pc.unsigned & ~1
            if not any(s <= pc and pc + len(hx) // 2 <= s + n for s, n in mm.regions):
                s, n = mm.regions[0]
                pc = s + ((pc & ~1) % max(2, n - 4) & ~1)
                mm.cpu.pc = pc
                self.refs[m].g[15] = pc
            mm.cpu.write_memory_block(pc, bytearray.fromhex(hx))
            self.refs[m].wblock(pc, bytes.fromhex(hx))

    def op_x(self, m, at, hx, regs, ext):
        mm = self.ms[m]
        for i, v in regs:
            mm.cpu.write_register(i, v)
            self.refs[m].w(i, v)
        self.place(m, at, hx)
        self.step(m, ext)

    def op_s(self, m, at, ext):
        mm = self.ms[m]
        self.place(m, at)
        pc = mm.cpu.pc.unsigned & ~1
        if self.prop != 'F04' and not any(s <= pc < s + n for s, n in mm.regions):
            s, n = mm.regions[0]
            self.place(m, s + (pc % max(2, n - 4) & ~1))
        self.step(m, ext)

    def op_a(self, m, k, ext):
        if not self.pool:
            return
        i, ident, words = self.pool[k % len(self.pool)]
        self.count('reuse')
        self.execute(m, i, words, ext, reuse=k % len(self.pool))

    def op_L(self, m, k, n, seed):
        """One decoded instruction over and over, on changing operands."""
        if not self.pool:
            return
        r = rng_for('loop', seed)
        i, ident, words = self.pool[k % len(self.pool)]
        mm = self.ms[m]
        self.count('reuse', n)
        for _ in range(n):
            rf = self.refs[m]
            if r.random() < 0.4:
                q, v = r.randrange(13), r.choice((value32(r), r.randrange(64)))
                if rf.find(rf.r(q)) is None:        # base registers stay
                    mm.cpu.write_register(q, v)
                    rf.w(q, v)
            self.execute(m, i, words, {}, reuse=k % len(self.pool))

    def step(self, m, ext):
        pc, code = self.fetch(m)
        if code is None:
            self.count('unmapped_pc')
            return
        ri = ref.decode(code, pc)
        v, e, n, _ = run_guarded(lambda: self.A.disasm.decoder.decode(code, pc))
        if e is not None:
            if isinstance(e, SimHang):
                self.fail('hang', 'decoding %s does not end' % code.hex())
            self.refused(m, pc, code, ri, e)
            return
        i = v
        words = ri.words if isinstance(ri, ref.Ins) else None
        if self.prop[0] in 'FI' and bytes(i.bytes) != code[:i.size]:
            self.fail('stale-decode', 'decoded %s from bytes %s' %
                      (bytes(i.bytes).hex(), code.hex()), pc=pc)
        if len(self.pool) < 64:
            self.pool.append((i, self.ident(i), code[:i.size]))
        self.execute(m, i, code[:i.size], ext)

    def refused(self, m, pc, code, ri, e):
        """decode raised"""
        ok = (self.A.UndefinedInstructionError, self.A.UnpredictableError)
        self.count('refused')
        if isinstance(ri, ref.Ins) and ri.ok and ri.prop == self.prop:
            self.fail('supported-encoding-refused', '%s refused: %r' % (ri.line(), e),
                      ins=ri.kind)
        # move on past it (debugger)
        nxt = pc + (4 if isinstance(ri, ref.Ins) and ri.size == 4 else 2)
        self.ms[m].cpu.pc = nxt & ref.M32
        self.refs[m].g[15] = nxt & ref.M32

    def go(self, mm, i):
        """One execution, through either of the two ways the CPU model offers."""
        if self.opno % 4 == 3:
            return lambda: mm.cpu.execute([i])
        return lambda: i.execute(mm.cpu)

    def op_R(self, m, at, codes, regs, how, ext):
        mm = self.ms[m]
        for i, v in regs:
            mm.cpu.write_register(i, v)
            self.refs[m].w(i, v)
        self.place(m, at, ''.join(codes))
        pc = mm.cpu.pc.unsigned & ~1
        a, ins = pc, []
        for h in codes:
            code = bytes.fromhex(h)
            v, e, _n, _ = run_guarded(lambda: self.A.disasm.decoder.decode(code, a))
            if e is not None:
                break                               # single steps judge refusals
            ins.append((v, code, a))
            a += len(code)
        ins = self.straight(m, ins)
        if len(ins) < 2:
            return
        self.count('batches')
        self.batch(m, ins, how, ext)

    def batch_of(self, ins, how):
        """the instructions as the caller hands them to CpuModel.execute"""
        lst = [i for i, _c, _a in ins]
        if how == 'list':
            return lst
        if how == 'iter':
            return iter(lst)
        return self.A.disasm.Disassembler().disasm(
            b''.join(c for _i, c, _a in ins), ins[0][2])

    # ---- execution with oracle; overridden per property family

    def execute(self, m, i, code, ext, reuse=None):
        raise NotImplementedError


class RefExec(ExecRun):
    """E01-E05: every executed instruction refines the reference model."""

    def execute(self, m, i, code, ext, reuse=None):
        mm, r = self.ms[m], self.refs[m]
        rawpc = mm.cpu.pc.unsigned
        pc = rawpc & ~1
        ri = ref.decode(code, pc)
        judged = isinstance(ri, ref.Ins) and ri.ok and ri._run is not None
        mine = judged and (ri.prop == self.prop)
        want = None
        pre = self.rstate(m)
        if judged:
            want = r.copy()
            want.g[15] = rawpc
            if ri.run(want) is False:
                judged = mine = False
        # injected backend error / interrupt first, then restore and retry
        faulted = False
        if ext:
            faulted = self.disturb(m, i, ext, pre)
        v, e, n, _ = run_guarded(self.go(mm, i))
        self.dig.add('x', self.opno, code, repr(e), n)
        self.count('executed')
        if e is not None:
            self.count('exec_error')
            if isinstance(e, SimHang) and (mine or (self.prop == 'E02' and judged)):
                self.fail('hang', '%s does not finish' % ri.line(), ins=ri.kind)
            if mine:
                self.fail('execute-raises', '%s at %#x raised %r' % (ri.line(), pc, e),
                          ins=ri.kind)
            mm.set_state(pre)
            self.resync(m)
            mm.cpu.pc = (pc + i.size) & ref.M32
            r.g[15] = (pc + i.size) & ref.M32
            return
        regs, mem = mm.state()
        self.dig.add(regs, mem)
        if not judged:
            self.count('unjudged')
            self.resync(m)
            return
        wantst = want.regs(), [bytes(x.data) for x in want.regions]
        gotst = regs, mem
        d = diff_state(gotst, wantst, pcmask=~1)
        if mine or self.prop == 'E02':
            self.count('judged')
            fl = pre[0][IX_XPSR] >> 28
            self.sigs.add((ri.kind, fl, reuse is not None, faulted, self.opclass(ri, pre)))
        if d:
            pcbad = [x for x in d if x.startswith('pc=')]
            rest = [x for x in d if not x.startswith('pc=')]
            if ri.quirk and self.quirk(ri, r, rawpc, gotst):
                self.known['add-pc-operand'] = self.known.get('add-pc-operand', 0) + 1
            else:
                bad = []
                if mine:
                    # PC of an instruction of another class belongs to E02
                    bad = rest if self.prop != 'E02' else d
                    if self.prop != 'E02' and not rest:
                        bad = []
                elif self.prop == 'E02':
                    bad = pcbad
                if bad:
                    self.fail('wrong-effect', '%s at %#x%s: got/want %s' % (
                        ri.line(), pc, ' (after injected fault and retry)' if faulted else
                        ' (re-executed)' if reuse is not None else '', ' '.join(bad)),
                        ins=ri.kind)
            self.count('foreign_mismatch')
            self.resync(m)
            if pcbad:
                # keep the run going where the architecture would be
                mm.cpu.pc = want.g[15]
                r.g[15] = want.g[15]
            return
        self.refs[m] = want
        want.g[15] = regs[IX_PC]

    def straight(self, m, ins):
        """longest prefix whose effect the reference model defines and that does not
        branch"""
        r = self.refs[m].copy()
        r.g[15] = self.ms[m].cpu.pc.unsigned
        self.want = None
        out = []
        for i, code, a in ins:
            ri = ref.decode(code, a)
            if not (isinstance(ri, ref.Ins) and ri.ok and ri._run is not None) or ri.quirk:
                break
            if ri.prop != self.prop and self.prop not in ('E02', 'M03'):
                break
            n = r.copy()
            if ri.run(n) is False or n.g[15] & ~1 != (a + ri.size) & ref.M32:
                break
            r = self.want = n
            out.append((i, code, a))
        return out

    def batch(self, m, ins, how, ext):
        mm = self.ms[m]
        pre = self.rstate(m)
        text = '; '.join(ref.decode(c, a).line() for _i, c, a in ins)
        seq = self.batch_of(ins, how)
        _v, e, n, _ = run_guarded(lambda: mm.cpu.execute(seq))
        self.dig.add('R', self.opno, text, repr(e), n)
        self.count('executed', len(ins))
        st = mm.state()
        self.dig.add(st)
        if e is not None and self.prop != 'E02':
            self.fail('execute-raises', 'executing %s raised %r' % (text, e), ins='batch')
        d = diff_state(st, (self.want.regs(), [bytes(x.data) for x in self.want.regions]),
                       pcmask=~1)
        bad = [x for x in d if x.startswith('pc=') == (self.prop == 'E02')]
        if self.prop == 'E02' and e is not None:
            bad = []
        if bad:
            self.fail('wrong-effect', 'executing %s: got/want %s' % (text, ' '.join(bad)),
                      ins='batch')
        self.count('judged', len(ins))
        self.sigs.add(('batch', how, len(ins)))
        self.resync(m)

    def quirk(self, ri, r, rawpc, got):
        alt = r.copy()
        alt.g[15] = rawpc
        nxt = ri._run(alt, rawpc, 0)
        alt.g[15] = (rawpc + ri.size if nxt is None else nxt) & ref.M32
        return not diff_state(got, (alt.regs(), [bytes(x.data) for x in alt.regions]), ~1)

    def opclass(self, ri, pre):
        """coarse operand class, for the distinctness measure"""
        out = []
        for k in 'nmd':
            if k in ri.f and ri.f[k] < 13:
                v = pre[0][ri.f[k]]
                out.append(0 if v == 0 else 1 if v == 0x7fffffff else 2 if v == 0x80000000
                           else 3 if v == 0xffffffff else 4 if v < 256 else
                           5 if v >> 31 else 6)
        return tuple(out)

    def disturb(self, m, i, ext, pre):
        mm = self.ms[m]
        hit = False
        for kind, pm, mode, en in ext.get('flt', ()):
            t = self.twin(m)
            t.seam.reg_accesses = t.seam.mem_accesses = 0
            _v, e, n, _f = run_guarded(lambda: i.execute(t.cpu))
            tot = t.seam.reg_accesses if kind == 'reg' else t.seam.mem_accesses
            if tot == 0:
                continue
            mm.seam.set_fault(kind, 1 + pm * tot // 1000, mode, make_exc(en))
            _v, e, n, _f = run_guarded(self.go(mm, i))
            if mm.seam.fired:
                hit = True
                self.count('fault.%s.%s.%s' % (kind, mode, en))
            mm.seam.clear()
            mm.set_state(pre)
        if 'irq' in ext:
            pm, en = ext['irq']
            t = self.twin(m)
            _v, e, n, _f = run_guarded(lambda: i.execute(t.cpu))
            _v, e, n, f = run_guarded(self.go(mm, i),
                                      irq=(1 + pm * n // 1000, make_exc(en)))
            if f:
                hit = True
                self.count('fault.irq.' + en)
            mm.set_state(pre)
        return hit


class AccessExec(RefExec):
    """M03: the memory accesses that reach the target."""

    def watch(self, m):
        self.ms[m].seam.log = []

    def seen(self, m):
        s = self.ms[m].seam
        log, s.log = s.log, None
        return log

    def compare(self, m, what, want, got, ins=None):
        """want, got: [(write?, address, bytes)]"""
        a, b = accessed(want), accessed(got)
        for k in sorted(set(a) | set(b)):
            x, y = a.get(k, 0), b.get(k, 0)
            if x != y:
                self.fail('wrong-accesses', '%s: byte %#x %s %d times, should be %d '
                          '(accesses: %s)' % (
                              what, k[1], 'written' if k[0] else 'read', y, x,
                              ' '.join('%s%d@%#x' % ('rw'[w], n, z) for w, z, n in got)),
                          ins=ins)
        for w, z, n in want if ins != 'batch' else ():
            if n in (2, 4) and z % n == 0:
                for w2, z2, n2 in got:
                    if w2 == w and z2 < z + n and z < z2 + n2 and not (
                            z2 <= z and z + n <= z2 + n2):
                        self.fail('torn-access', '%s: aligned %d bytes at %#x %s in pieces '
                                  '(accesses: %s)' % (
                                      what, n, z, 'written' if w else 'read',
                                      ' '.join('%s%d@%#x' % ('rw'[x], q, y)
                                               for x, y, q in got)), ins=ins)
        self.count('access_checks')

    def _asked(self, m, what, want, fn):
        self.watch(m)
        try:
            return fn()
        finally:
            log = self.seen(m)
            self.compare(m, what, want, log)

    def op_w(self, m, addr, size, val):
        self._asked(m, 'CPU model write of %d bits' % size, [(1, addr, size // 8)],
                    lambda: RefExec.op_w(self, m, addr, size, val))
        self._asked(m, 'CPU model read of %d bits' % size, [(0, addr, size // 8)],
                    lambda: self.ms[m].cpu.read_memory(addr, size))

    def op_b(self, m, addr, hx):
        self._asked(m, 'CPU model block write', [(1, addr, len(hx) // 2)],
                    lambda: RefExec.op_b(self, m, addr, hx))
        self._asked(m, 'CPU model block read', [(0, addr, len(hx) // 2)],
                    lambda: self.ms[m].cpu.read_memory_block(addr, len(hx) // 2))

    def op_r(self, m, reg, val):
        self._asked(m, 'register write', [], lambda: RefExec.op_r(self, m, reg, val))
        self._asked(m, 'register read', [], lambda: self.ms[m].cpu.read_register(reg))

    def op_f(self, k):
        self._asked(0, 'formatting', [], lambda: RefExec.op_f(self, k))

    def ident(self, i):
        return self._asked(0, 'formatting', [], lambda: RefExec.ident(self, i))

    def execute(self, m, i, code, ext, reuse=None):
        mm, r = self.ms[m], self.refs[m]
        rawpc = mm.cpu.pc.unsigned
        pc = rawpc & ~1
        ri = ref.decode(code, pc)
        judged = isinstance(ri, ref.Ins) and ri.ok and ri._run is not None
        pre = self.rstate(m)
        if judged:
            want = r.copy()
            want.g[15] = rawpc
            want.log = []
            if ri.run(want) is False:
                judged = False
        faulted = bool(ext) and self.disturb(m, i, ext, pre)
        self.watch(m)
        try:
            _v, e, n, _ = run_guarded(self.go(mm, i))
        finally:
            log = self.seen(m)
        st = mm.state()
        self.dig.add('x', self.opno, code, repr(e), n, log, st)
        self.count('executed')
        if e is None and judged:
            self.count('judged')
            if log:
                self.count('judged_accesses')
            self.sigs.add((ri.kind, len(log), reuse is not None, faulted, len(mm.cpus),
                           tuple((w, z & 3, n) for w, z, n in log[:2])))
            # wrong addresses or registers are other properties' business: what the
            # instruction should access is what the architecture says for this state
            self.compare(m, '%s at %#x%s' % (
                ri.line(), pc, ' (after injected fault and retry)' if faulted else
                ' (re-executed)' if reuse is not None else ''), want.log, log, ri.kind)
        if e is not None:
            mm.set_state(pre)
            mm.cpu.pc = (pc + i.size) & ref.M32
        self.resync(m)

    def batch(self, m, ins, how, ext):
        mm = self.ms[m]
        r = self.refs[m].copy()
        r.g[15] = mm.cpu.pc.unsigned
        r.log = []
        text = '; '.join(ref.decode(c, a).line() for _i, c, a in ins)
        for _i, c, a in ins:
            ref.decode(c, a).run(r)
        seq = self.batch_of(ins, how)
        self.watch(m)
        try:
            _v, e, n, _ = run_guarded(lambda: mm.cpu.execute(seq))
        finally:
            log = self.seen(m)
        self.dig.add('R', self.opno, text, repr(e), n, log)
        self.count('executed', len(ins))
        if e is None and not diff_state(mm.state(), (
                r.regs(), [bytes(x.data) for x in r.regions]), pcmask=~1):
            self.compare(m, 'executing ' + text, r.log, log, 'batch')
            self.count('judged', len(ins))
            self.sigs.add(('batch', how, len(ins), len(log)))
        self.resync(m)


def accessed(log):
    """-> {(write?, byte address): how often}"""
    out = {}
    for w, a, n in log:
        for k in range(n):
            z = w, (a + k) & ref.M32
            out[z] = out.get(z, 0) + 1
    return out


class DiffExec(ExecRun):
    """F01-F04, I02: behaviour against a fresh, undisturbed machine running the same real
    code (a second, isolated import of the package)."""

    def fresh_step(self, m, code, pre=None):
        """Effect of a freshly decoded copy on a fresh machine in the same state.
        -> (machine, exc, statements, reg accesses, mem accesses)"""
        t = self.twin(m, pre)
        pc = t.cpu.pc.unsigned & ~1
        try:
            i = self.B.disasm.decoder.decode(code, pc)
        except Exception as e:
            return t, e, 0, 0, 0
        t.seam.reg_accesses = t.seam.mem_accesses = 0
        _v, e, n, _f = run_guarded(lambda: i.execute(t.cpu))
        return t, e, n, t.seam.reg_accesses, t.seam.mem_accesses

    def execute(self, m, i, code, ext, reuse=None):
        mm = self.ms[m]
        pre = mm.state()
        pc = pre[0][IX_PC] & ~1
        t, te, n, nreg, nmem = self.fresh_step(m, code, pre)
        post = t.state() if te is None else None
        name = i.mnemonic
        # what is left behind is judged for encodings the architecture defines
        ri = ref.decode(code, pc)
        self.defined = isinstance(ri, ref.Ins) and ri.ok
        self.dig.add('x', self.opno, code, repr(te), n)
        self.count('executed')
        if te is not None:
            # the undisturbed machine cannot execute it either
            self.count('exec_error')
            if self.prop == 'F04' and not isinstance(
                    te, (self.B.UndefinedInstructionError, self.B.UnpredictableError)):
                self.fail('undocumented-error', 'executing %s raised %r' % (
                    code.hex(), te), ins=name)
            if self.prop == 'F04' and diff_state(pre, t.state()):
                self.fail('refused-but-changed', '%s: %s' % (
                    code.hex(), diff_state(pre, t.state())), ins=name)
            self.skip(m, pre, i)
            return
        if ext:
            if 'flt' in ext:
                for kind, pm, mode, en in ext['flt']:
                    tot = nreg if kind == 'reg' else nmem
                    if tot:
                        self.fault(m, i, code, kind, 1 + pm * tot // 1000, mode, en, pre,
                                   post)
            if 'irq' in ext:
                self.irq(m, i, code, 1 + ext['irq'][0] * n // 1000, ext['irq'][1], pre, post)
        _v, e, n2, _f = run_guarded(self.go(mm, i))
        if isinstance(e, SimHang):
            self.fail('hang', 'executing %s does not end' % code.hex(), ins=name)
        if e is not None:
            self.fail('raises-unlike-fresh', '%s at %#x raised %r; a fresh machine in the '
                      'same state executes it' % (self.text(i), pc, e), ins=name)
        got = mm.state()
        self.dig.add(got)
        d = diff_state(got, post)
        if d:
            self.fail('differs-from-fresh', '%s at %#x: got/fresh %s' % (
                self.text(i), pc, ' '.join(d)), ins=name)
        self.count('judged')
        kind = ri.kind if isinstance(ri, ref.Ins) else name
        self.sigs.add((kind, reuse is not None, repr(sorted(ext)) if ext else '',
                       len(mm.cpus)))
        if self.prop == 'I02':
            self.check_ident(i, code, reuse)

    def straight(self, m, ins):
        """prefix a fresh machine executes without error and without branching; leaves the
        states at its instruction boundaries in self.chain"""
        t = self.twin(m)
        self.chain = [t.state()]
        self.accesses = [0, 0, 0]
        out = []
        for i, code, a in ins:
            t.seam.reg_accesses = t.seam.mem_accesses = 0
            j = self.B.disasm.decoder.decode(code, a)
            _v, e, n, _f = run_guarded(lambda: j.execute(t.cpu))
            st = t.state()
            if e is not None or st[0][IX_PC] & ~1 != (a + len(code)) & ref.M32:
                break
            ri = ref.decode(code, a)
            if not (isinstance(ri, ref.Ins) and ri.ok):
                break
            for k, v in enumerate((t.seam.reg_accesses, t.seam.mem_accesses, n)):
                self.accesses[k] += v
            out.append((i, code, a))
            self.chain.append(st)
        return out

    def batch(self, m, ins, how, ext):
        mm = self.ms[m]
        text = '; '.join(self.text(i) for i, _c, _a in ins)
        seq = self.batch_of(ins, how)
        nreg, nmem, nst = self.accesses
        exc = irq = None
        what = ''
        if ext.get('flt'):
            kind, pm, mode, en = ext['flt'][0]
            tot = nreg if kind == 'reg' else nmem
            if tot:
                exc = make_exc(en)
                mm.seam.set_fault(kind, 1 + pm * tot // 1000, mode, exc)
                what = ' with %s access %d failing (%s)' % (kind, 1 + pm * tot // 1000, mode)
        elif ext.get('irq'):
            pm, en = ext['irq']
            exc = make_exc(en)
            irq = (1 + pm * nst // 1000, exc)
            what = ' interrupted at statement %d' % irq[0]
        _v, e, n, fired = run_guarded(lambda: mm.cpu.execute(seq), irq=irq)
        fired = fired or mm.seam.fired
        mm.seam.clear()
        st = mm.state()
        self.dig.add('R', self.opno, text, repr(e), n, st)
        self.count('executed', len(ins))
        if fired and exc is not None:
            self.count('fault.batch')
            if self.prop in ('F01', 'F02'):
                self.surfaced(e, exc, 'executing %s%s' % (text, what))
            pairs = list(zip(self.chain, self.chain[1:]))
            if self.prop == 'F01' and irq is None and kind == 'mem':
                at = [k for k, (p, q) in enumerate(pairs)
                      if st[0] == p[0] and not between((p[0], st[1]), p, q)]
                if not at:
                    self.fail('fault-not-precise', 'executing %s%s leaves a state that is '
                              'not at an instruction boundary: before/now %s' % (
                                  text, what, ' '.join(diff_state(self.chain[0], st))),
                              ins='batch')
                # a retry of the rest, from where it stopped, completes the work
                rest = [i for i, _c, _a in ins[at[-1]:]]
                _v, e, n, _f = run_guarded(lambda: mm.cpu.execute(rest))
                st = mm.state()
                if e is not None or diff_state(st, self.chain[-1]):
                    self.fail('differs-from-fresh', 'executing %s%s, then the rest: %r '
                              'got/fresh %s' % (text, what, e, ' '.join(
                                  diff_state(st, self.chain[-1]))), ins='batch')
                self.count('judged', len(ins))
                return
            if self.prop == 'F02':
                best = min((between(st, p, q) for p, q in pairs), key=len)
                if best:
                    self.fail('fault-garbage', 'executing %s%s: %s' % (
                        text, what, '; '.join(best)), ins='batch')
            mm.set_state(self.chain[0])
            seq = self.batch_of(ins, how)
            _v, e, n, _f = run_guarded(lambda: mm.cpu.execute(seq))
            st = mm.state()
        if e is not None:
            self.fail('raises-unlike-fresh', 'executing %s raised %r; a fresh machine in the '
                      'same state executes it' % (text, e), ins='batch')
        d = diff_state(st, self.chain[-1])
        if d:
            self.fail('differs-from-fresh', 'executing %s: got/fresh %s' % (
                text, ' '.join(d)), ins='batch')
        self.count('judged', len(ins))
        self.sigs.add(('batch', how, len(ins), repr(sorted(ext))))

    def text(self, i):
        try:
            return self.A.formatter.Formatter(self.ms[0].cpu).format(i)
        except Exception as e:
            return '<unformattable %s: %r>' % (bytes(i.bytes).hex(), e)

    def skip(self, m, pre, i):
        mm = self.ms[m]
        mm.set_state(pre)
        mm.cpu.pc = ((pre[0][IX_PC] & ~1) + i.size) & ref.M32

    def refused(self, m, pc, code, ri, e):
        ok = (self.A.UndefinedInstructionError, self.A.UnpredictableError)
        self.count('refused')
        if self.prop == 'F04':
            self.dig.add('refused', code, type(e).__name__)
            if not isinstance(e, ok):
                self.fail('undocumented-error', 'decoding %s at %#x raised %r' % (
                    code.hex(), pc, e))
            self.sigs.add(('refused', type(e).__name__, len(code), code[:2].hex()[2:]))
        nxt = pc + (4 if len(code) >= 2 and ref.is_wide(code[0] | code[1] << 8) else 2)
        self.ms[m].cpu.pc = nxt & ref.M32

    def check_ident(self, i, code, reuse):
        for k, (j, ident, c) in enumerate(self.pool):
            if j is i:
                now = self.ident(i)
                if now != ident:
                    self.fail('instruction-changed', 'was %r, now %r' % (ident, now),
                              ins=ident[3])

    # -- faults

    def fault(self, m, i, code, kind, nth, mode, en, pre, post):
        mm = self.ms[m]
        exc = make_exc(en)
        mm.seam.set_fault(kind, nth, mode, exc)
        _v, e, n, _f = run_guarded(self.go(mm, i))
        fired = mm.seam.fired
        mm.seam.clear()
        if not fired:
            # completed with fewer accesses than the undisturbed machine
            if e is None:
                mm.set_state(pre)
            return
        self.count('fault.%s.%s.%s' % (kind, mode, en))
        st = mm.state()
        self.dig.add('flt', kind, nth, mode, en, st)
        what = '%s with %s access %d failing (%s the access, %s)' % (
            self.text(i), kind, nth, mode, en)
        if self.prop == 'F01' and kind == 'mem':
            self.sigs.add((i.mnemonic, nth, mode, en))
            self.surfaced(e, exc, what)
            d = diff_state((st[0], pre[1]), pre)
            if d and self.defined:
                self.fail('fault-not-precise', '%s: now/before %s' % (what, ' '.join(d)),
                          ins=i.mnemonic)
            bad = between((pre[0], st[1]), pre, post)
            if bad and self.defined:
                self.fail('fault-garbage', '%s: %s' % (what, '; '.join(bad)),
                          ins=i.mnemonic)
            # not restored: the retry must cope with what the fault left
            if not self.defined:
                mm.set_state(pre)
            return
        if self.prop == 'F02':
            self.sigs.add((i.mnemonic, kind, nth, mode))
            self.surfaced(e, exc, what)
            bad = between(st, pre, post)
            if bad and self.defined:
                self.fail('fault-garbage', '%s: %s' % (what, '; '.join(bad)),
                          ins=i.mnemonic)
        mm.set_state(pre)

    def irq(self, m, i, code, at, en, pre, post):
        mm = self.ms[m]
        exc = make_exc(en)
        _v, e, n, fired = run_guarded(self.go(mm, i), irq=(at, exc))
        if not fired:
            mm.set_state(pre)
            return
        self.count('fault.irq.' + en)
        st = mm.state()
        self.dig.add('irq', at, en, st)
        if self.prop == 'F02':
            what = '%s interrupted (%s) at statement %d' % (self.text(i), en, at)
            self.sigs.add((i.mnemonic, 'irq', at, en))
            self.surfaced(e, exc, what)
            bad = between(st, pre, post)
            if bad and self.defined:
                self.fail('irq-garbage', '%s: %s' % (what, '; '.join(bad)), ins=i.mnemonic)
        mm.set_state(pre)

    def surfaced(self, e, exc, what):
        if e is None:
            self.fail('error-swallowed', what)
        if e is not exc:
            self.fail('error-replaced', '%s: caller got %r' % (what, e))


def make(sc, pkgs, stats, digest):
    cls = (AccessExec if sc['prop'] == 'M03' else RefExec if sc['prop'][0] == 'E'
           else DiffExec)
    return cls(sc, pkgs, stats, digest)


def fresh(root):
    return core.Package(root), core.Package(root)
