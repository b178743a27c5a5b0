"""World: byte streams, disassemblers and formatters (properties D01, D02).

D01  {"streams": [hex, ...], "readers": [[stream, address], ...], "ops": [...]}
  ["feed", r, n]            n more bytes arrive for reader r (short reads, any cut)
  ["open", r, kind, d]      start disassembling, at the last boundary, what has arrived
  ["next", r, k, ext]       take up to k instructions;  ext: {"irq": [at, exc]}
                            {"read": [nth, exc]} the stream's own read fails,
                            {"pre": [[at, op]]} other readers' operations in between
  ["stop", r]               abandon the current pass
  ["skip", r]               step over an instruction that was refused
  ["use", r, ext]           format and execute the last instruction delivered
D02  {"ins": [[hex, addr], ...], "ops": [...]}
  ["fmt", f, i, ext]        format instruction i with formatter f
  ["bad", f, i, at, exc]    format a line one of whose operands fails
  ["exec", i, seed]         execute it; absolute targets must be the ones shown
  ["new", i, hex, addr]     decode another one
  ["move", i, addr]         give instruction i another address
"""
import core
import ref
import execgen
from core import rng_for, make_exc
from backworld import Base
from execworld import Machine

SIZES = (0, 1, 1, 2, 2, 3, 4, 4, 5, 6, 8, 16, 64)


# ------------------------------------------------------------------------- D01

def gen_stream(r):
    n = r.choice((6, 16, 40, 100)) if r.random() < 0.95 else r.choice((600, 2500))
    b = b''
    junk = r.choice((0, 0.03, 0.15, 0.6))
    while len(b) < n:
        k = r.random()
        if k >= junk:
            cls = r.choice(('E01', 'E01', 'E02', 'E03', 'E04', 'E05', 'E01', 'E02', 'E03',
                            'E04', None))
            b += r.choice(execgen.code_pool(cls))
        elif r.random() < 0.5:
            b += bytes((r.getrandbits(8), r.choice((0xf8, 0xf0, 0xe8, 0xbf, 0xde, 0xb7, 0xff))
                        | r.getrandbits(1)))
        else:
            b += bytes((r.getrandbits(8), r.getrandbits(8)))
    return b.hex()


def generate_d01(r):
    streams = [gen_stream(r) for _ in range(r.choice((1, 2)))]
    readers = []
    for _ in range(r.choice((1, 2, 3))):
        k = r.randrange(len(streams))
        n = len(streams[k]) // 2
        # also: up to the very end of the address space, and across its middle
        readers.append([k, r.choice((0, 0x40, 0x8000, 0x8002, 0x20000000, 0x7fffffe0,
                                     0xfffffe00, 0x100000000 - n & ~1, 0x80000000 - n & ~1))])
    ops = []
    p = r.choice((0, 0.2, 0.5))
    big = r.random() < 0.3
    huge = max(len(s) for s in streams) > 400
    for _ in range(r.choice((30, 80))):
        k = r.random()
        q = r.randrange(len(readers))
        if k < 0.25:
            ops.append(['feed', q, r.choice(SIZES) * (4 if big else 1) * (16 if huge else 1), {}])
        elif k < 0.42:
            ops.append(['open', q, r.choice(('bytes', 'bytearray', 'source', 'source')), r.randrange(2),
                        {}])
        elif k < 0.8:
            ext = {}
            if r.random() < p:
                z = r.random()
                if z < 0.35:
                    ext['irq'] = [r.randint(1, 70), r.choice(core.IRQ_NAMES)]
                elif z < 0.7:
                    ext['read'] = [r.choice((1, 1, 1, 2, 3)), r.choice(core.READ_FAULTS)]
                else:
                    ext['pre'] = [[r.randint(1, 70), r.choice((
                        ['next', r.randrange(len(readers)), r.choice((1, 3)), {}],
                        ['open', r.randrange(len(readers)), 'bytes', r.randrange(2), {}],
                        ['use', r.randrange(len(readers)), {}]))]]
            ops.append(['next', q, r.choice((1, 1, 2, 5, 50) if not huge else (1, 2, 50, 600)), ext])
        elif k < 0.86:
            ops.append(['stop', q, {}])
        elif k < 0.94:
            ops.append(['skip', q, {}])
        else:
            ops.append(['use', q, {}])
    return {'world': 'stream', 'prop': 'D01', 'streams': streams, 'readers': readers,
            'ops': ops}


class Source(bytearray):
    """A byte source whose reads fail when told to."""
    arm = None

    def __getitem__(self, k):
        a = Source.arm
        if a is not None and not a[2]:
            a[0] -= 1
            if a[0] <= 0:
                a[2] = True
                raise a[1]
        return bytearray.__getitem__(self, k)


class Reader(object):
    def __init__(self, data, addr):
        self.data, self.addr = data, addr
        self.have = 0               # bytes that have arrived
        self.pos = 0                # boundary: everything before was delivered
        self.gen = None
        self.end = 0                # bytes the current pass can see
        self.busy = False
        self.last = None
        self.refused = False


class StreamRun(Base):
    def __init__(self, sc, pkgs, stats, digest):
        A, self.B = pkgs
        Base.__init__(self, sc, A, stats, digest)
        self.rd = [Reader(bytes.fromhex(sc['streams'][s]), a) for s, a in sc['readers']]
        self.dis = [A.disasm.Disassembler() for _ in range(2)]
        self.fmts = A.formatter.Formatter(self.cpus[0])
        self.truth = {}
        self.kept = []           # (instruction, address, bytes) as delivered

    def expected(self, rd, pos, end):
        """What lies at pos, given bytes up to end: ('ins', size, text) | ('rest',) |
        ('undef',) | ('unpred',) | ('quiet',)  (undefined, in the last 3 bytes)"""
        left = rd.data[pos:end]
        if len(left) < 2:
            return ('rest',)
        size = 4 if ref.is_wide(left[0] | left[1] << 8) else 2
        if len(left) < size:
            return ('rest',)
        key = (left[:size], rd.addr + pos)
        if key not in self.truth:
            self.truth[key] = self.isolated(*key)
        t = self.truth[key]
        if t[0] == 'undef' and len(left) < 4:
            return ('quiet',)
        return t

    def isolated(self, code, addr):
        try:
            i = self.B.disasm.decoder.decode(code, addr)
            text = self.B.formatter.Formatter(None).format(i)
        except self.B.UndefinedInstructionError:
            i = None
        except self.B.UnpredictableError:
            return ('unpred',)
        ri = ref.decode(code, addr)
        if isinstance(ri, ref.Ins) and ri.ok:
            # the reference knows the text of every supported instruction; a different
            # text is another property's concern
            return ('ins', ri.size, text if i is not None else None)
        if i is None:
            return ('undef',)
        return ('ins', len(code), text)

    def op_feed(self, op, ext):
        rd = self.rd[op[1]]
        rd.have = min(len(rd.data), rd.have + op[2])
        if op[2] < 4:
            self.count('fault.short_read')

    def op_open(self, op, ext):
        rd = self.rd[op[1]]
        if rd.busy:
            return
        b = rd.data[rd.pos:rd.have]
        b = {'bytes': bytes, 'bytearray': bytearray, 'source': Source}[op[2]](b)
        rd.gen = self.dis[op[3]].disasm(b, rd.addr + rd.pos)
        rd.end = rd.have
        rd.kind = op[2]
        self.count('passes')

    def op_stop(self, op, ext):
        rd = self.rd[op[1]]
        if rd.gen is not None and not rd.busy:
            rd.gen.close()
            rd.gen = None

    def op_skip(self, op, ext):
        rd = self.rd[op[1]]
        if rd.busy or not rd.refused:
            return
        left = rd.data[rd.pos:rd.have]
        rd.pos += 4 if ref.is_wide(left[0] | left[1] << 8) else 2
        rd.refused = False
        rd.gen = None

    def op_use(self, op, ext):
        i = self.rd[op[1]].last
        if i is None:
            return
        m = Machine(self.P, [(0x20000000, bytes(64))])
        m.cpu.sp = 0x20000020

        def go():
            self.fmts.format(i)
            i.execute(m.cpu)
        self.guarded(go, {}, None)

    def nest(self, op):
        self.one(op)

    def op_next(self, op, ext):
        rd = self.rd[op[1]]
        if rd.busy:
            return
        if rd.gen is None:
            self.op_open(['open', op[1], 'bytes', 0, {}], {})
        rd.busy = True
        try:
            for _ in range(op[2]):
                if not self.take(rd, ext):
                    break
                ext = {}
        finally:
            rd.busy = False

    def take(self, rd, ext):
        gen = rd.gen
        if 'read' in ext and rd.kind == 'source':
            Source.arm = [ext['read'][0], make_exc(ext['read'][1]), False]
        stop = object()
        v, e, irq = self.guarded(lambda: next(gen, stop), ext, self.nest)
        arm, Source.arm = Source.arm, None
        where = 'at offset %d (address %#x) of %s, cut at %d' % (
            rd.pos, rd.addr + rd.pos, rd.data.hex(), rd.end)
        x = self.expected(rd, rd.pos, rd.end)
        if arm is not None and arm[2]:
            self.count('fault.read.' + type(arm[1]).__name__)
            self.sigs.add(('read fault', type(arm[1]).__name__, x[0]))
            if e is None:
                self.fail('read-error-lost', '%s: read failed with %r, caller got %r' % (
                    where, arm[1], 'the end' if v is stop else v))
            rd.gen = None
            return False
        if irq:
            self.sigs.add(('irq', ext['irq'][0] // 8, x[0]))
            rd.gen = None
            return False
        self.sigs.add((x[0], x[1] if x[0] == 'ins' else min(4, rd.end - rd.pos), rd.kind,
                       rd.pos > 0, rd.have - rd.pos < 8, 'pre' in ext,
                       x[2][:20].split()[-1] if x[0] == 'ins' and x[2] else ''))
        self.dig.add(rd.pos, rd.end, x[0], repr(e))
        self.count('judged')
        if x[0] == 'ins':
            if e is not None or v is stop:
                self.fail('instruction-missing', '%s: %s instead of %s' % (
                    where, repr(e) if e is not None else 'stopped', x[2]))
            self.deliver(rd, v, x, where)
            return True
        if x[0] in ('rest', 'quiet'):
            if e is not None:
                if x[0] == 'quiet' and isinstance(e, self.P.UndefinedInstructionError):
                    pass
                else:
                    self.fail('error-on-incomplete-rest', '%s: %r' % (where, e))
            elif v is not stop:
                self.fail('instruction-invented', '%s: delivered %s' % (
                    where, self.show(v)))
            rd.gen = None
            return False
        ok = self.P.UndefinedInstructionError if x[0] == 'undef' else \
            self.P.UnpredictableError
        if e is None:
            self.fail('undefined-not-reported', '%s: %s' % (
                where, 'stopped' if v is stop else 'delivered ' + self.show(v)))
        if not isinstance(e, ok):
            self.fail('wrong-error', '%s: %r' % (where, e))
        rd.refused = True
        rd.gen = None
        return False

    def show(self, i):
        return '%s at %#x' % (bytes(i.bytes).hex(), i.address)

    def deliver(self, rd, i, x, where):
        size = x[1]
        if i.size != size or i.address != rd.addr + rd.pos or \
                bytes(i.bytes) != rd.data[rd.pos:rd.pos + size]:
            self.fail('wrong-tile', '%s: delivered %s, %d bytes' % (
                where, self.show(i), i.size))
        if x[2] is not None:
            t = self.P.formatter.Formatter(None).format(i)
            if t != x[2]:
                self.fail('depends-on-cut', '%s: %r, decoded alone %r' % (where, t, x[2]))
        # those delivered before stay what they were
        self.check_kept(self.kept[-3:])
        self.kept.append((i, rd.addr + rd.pos, rd.data[rd.pos:rd.pos + size]))
        rd.pos += size
        rd.last = i

    def check_kept(self, kept):
        for i, a, b in kept:
            if i.address != a or bytes(i.bytes) != b or i.size != len(b):
                self.fail('wrong-tile', 'delivered as %s at %#x, has become %s' % (
                    b.hex(), a, self.show(i)))

    def run(self):
        Base.run(self)
        self.check_kept(self.kept)
        # every reader, once its stream has arrived completely, gets to the end
        for k, rd in enumerate(self.rd):
            self.opno = len(self.sc['ops']) + k
            rd.have = len(rd.data)
            rd.gen = None
            for _ in range(len(rd.data) + 2):
                if rd.refused:
                    self.op_skip(['skip', k, {}], {})
                before = rd.pos
                self.op_open(['open', k, 'bytes', 0, {}], {})
                while self.take(rd, {}):
                    pass
                if not rd.refused and rd.pos == before:
                    break
            self.check_kept(self.kept)
            x = self.expected(rd, rd.pos, rd.have)
            if x[0] not in ('rest', 'quiet'):
                self.fail('no-progress', 'reader %d stuck at %d of %d' % (
                    k, rd.pos, len(rd.data)))


# ------------------------------------------------------------------------- D02

ADDRS = (0, 2, 4, 6, 0x40, 0x42, 0x1000, 0x7ffe, 0x8002, 0x20000000, 0x20000006, 0x7ffffffe,
         0x80000000, 0xffffff00, 0xfffffffc)
LABEL = None


def label_pats():
    global LABEL
    if LABEL is None:
        LABEL = []
        r = rng_for('label')
        for p in execgen.ALL:
            i = execgen.pick_ins(r, [p], 0x1000)
            if i is not None and any(o.startswith('.') or '[pc' in o or o.startswith('[.')
                                     for o in i.ops):
                LABEL.append(p)
    return LABEL


def gen_ins(r):
    while True:
        k = r.random()
        pats = label_pats() if k < 0.35 else \
            execgen.BYPROP[r.choice(('E01',) * 6 + ('E02', 'E03', 'E04', 'E05') * 2 + (None,))]
        a = r.choice(ADDRS)
        i = execgen.pick_ins(r, pats, a)
        if i is not None:
            return [ref.words_bytes(i.words).hex(), a]


def generate_d02(r):
    long = r.random() < 0.04
    n = r.choice((3, 8, 16)) if not long else 80
    ins = [gen_ins(r) for _ in range(n)]
    if r.random() < 0.3:                    # the same encodings elsewhere
        ins += [[h, r.choice(ADDRS)] for h, a in ins]
    ops = []
    p = r.choice((0, 0.15, 0.4))
    for _ in range(r.choice((30, 80)) if not long else 500):
        k = r.random()
        f, i = r.randrange(3), r.randrange(len(ins))
        if k < 0.7:
            ext = {}
            if r.random() < p:
                if r.random() < 0.6:
                    ext['irq'] = [r.randint(1, 60), r.choice(core.IRQ_NAMES)]
                else:
                    ext['pre'] = [[r.randint(1, 60), ['fmt', (f + 1) % 3,
                                                      r.randrange(len(ins)), {}]]]
            ops.append(['fmt', f, i, ext])
        elif k < 0.8:
            ops.append(['bad', f, i, r.randrange(3), r.choice(core.FAULT_NAMES), {}])
        elif k < 0.94:
            ops.append(['exec', i, r.getrandbits(32), {}])
        elif k < 0.97:
            ops.append(['move', i, r.choice(ADDRS), {}])
        else:
            ops.append(['new', i] + gen_ins(r) + [{}])
    return {'world': 'stream', 'prop': 'D02', 'ins': ins, 'ops': ops}


class TextRun(Base):
    def __init__(self, sc, pkgs, stats, digest):
        A, self.B = pkgs
        Base.__init__(self, sc, A, stats, digest)
        self.f = [A.formatter.Formatter(self.cpus[0]), A.formatter.Formatter(self.cpus[1]),
                  A.formatter.Formatter(None)]
        self.ins = []
        self.executed = set()
        for h, a in sc['ins']:
            self.ins.append(self.decode(h, a))

    def decode(self, h, a):
        code = bytes.fromhex(h)
        ri = ref.decode(code, a)
        v, e, _ = self.guarded(lambda: self.P.disasm.decoder.decode(code, a), {}, None)
        if e is not None or not (isinstance(ri, ref.Ins) and ri.ok):
            return None                       # refusals belong to other properties
        return v, ri, code

    def nest(self, op):
        self.one(op)

    def op_new(self, op, ext):
        _n, i, h, a, _e = op
        self.ins[i % len(self.ins)] = self.decode(h, a)
        self.executed.discard(i % len(self.ins))

    def op_move(self, op, ext):
        """the caller says the instruction is somewhere else (code copied to RAM)"""
        _n, k, a, _e = op
        k %= len(self.ins)
        if self.ins[k] is None:
            return
        i, _ri, code = self.ins[k]
        ri = ref.decode(code, a)
        if not (isinstance(ri, ref.Ins) and ri.ok):
            return
        i.address = a
        self.count('moved')
        self.ins[k] = i, ri, code

    def op_fmt(self, op, ext):
        _n, f, k, _e = op
        x = self.ins[k % len(self.ins)]
        if x is None:
            return
        i, ri, code = x
        v, e, irq = self.guarded(lambda: self.f[f].format(i), ext, self.nest)
        if irq:
            self.sigs.add(('irq', ri.kind, ext['irq'][0] // 4))
            return
        self.count('judged')
        want = ri.line()
        self.dig.add(k, f, want)
        self.sigs.add((ri.kind, ri.pat.name, tuple(sorted(ext)), k in self.executed,
                       tuple(o[:1] for o in ri.ops)))
        if e is not None:
            self.fail('format-raises', '%s at %#x: %r' % (want, i.address, e))
        if v != want:
            self.fail('wrong-text', '%s at %#x formatted as %r, should be %r' % (
                code.hex(), i.address, v, want))

    def op_bad(self, op, ext):
        """a line whose formatting fails half-way must not leak into later ones"""
        _n, f, k, at, en, _e = op
        x = self.ins[k % len(self.ins)]
        if x is None:
            return
        i, ri, code = x
        j = self.P.disasm.decoder.decode(code, i.address)
        exc = make_exc(en)

        class Broken(self.P.formatter.Operand):
            def format(self, formatter):
                formatter.add_comment('leak')
                raise exc
        # its own list: the instruction is not ours to change
        ops = list(j.operands)
        ops.insert(min(at, len(ops)), Broken())
        j.operands = ops
        _v, e, _i = self.guarded(lambda: self.f[f].format(j), {}, None)
        self.count('fault.operand.' + en)
        self.sigs.add(('bad', ri.kind, en))

    def op_exec(self, op, ext):
        _n, k, seed, _e = op
        k %= len(self.ins)
        x = self.ins[k]
        if x is None:
            return
        i, ri, code = x
        r = rng_for('d02', seed)
        m = Machine(self.P, [(0x20000000, bytes(r.getrandbits(8) for _ in range(128)))])
        for q in range(13):
            m.cpu.write_register(q, r.choice((0x20000000 + 4 * r.randrange(16),
                                              core.value32(r))))
        m.cpu.sp = 0x20000040
        m.cpu.pc = i.address
        m.cpu.xpsr = 0x01000000 | r.getrandbits(4) << 28
        text = self.P.formatter.Formatter(m.cpu).format(i)
        reads = []
        inner = m.seam.real

        class Watch(object):
            def read_memory(self, addr, size=32):
                reads.append(addr)
                return inner.read_memory(addr, size)

            def read_memory_block(self, addr, length):
                reads.append(addr)
                return inner.read_memory_block(addr, length)

            def __getattr__(self, n):
                return getattr(inner, n)
        m.cpu.delegate = Watch()
        pre = m.regs()
        _v, e, _ = self.guarded(lambda: i.execute(m.cpu), {}, None)
        self.executed.add(k)
        self.count('executions')
        if e is not None:
            return
        # a line with a label shows one absolute target
        if not any(o.startswith('.') for o in i_ops(text)):
            return
        shown = text.split(';')[-1].strip().split()[-1]
        target = int(shown, 16)
        post = m.regs()
        from execworld import REGS, IX_PC
        pc = post[IX_PC] & ~1
        nxt = (i.address + i.size) & ref.M32
        cand = set(reads) | {pc}
        for q in range(15):
            if post[REGS.index(q)] != pre[REGS.index(q)]:
                cand.add(post[REGS.index(q)])
        self.count('targets')
        self.sigs.add(('target', ri.pat.name, i.address & 2, target < i.address))
        if target in cand:
            return
        if ri.prop == 'E02':
            if pc == nxt:
                return                        # a conditional branch not taken
            self.fail('wrong-target', '%r at %#x: execution goes to %#x' % (
                text, i.address, pc))
        if ri.prop == 'E03':
            self.fail('wrong-target', '%r at %#x: execution reads %s' % (
                text, i.address, ' '.join('%#x' % a for a in reads)))
        # address generation: the destination may have held the value already
        if target not in post[:15]:
            self.fail('wrong-target', '%r at %#x: execution computes %s' % (
                text, i.address, ' '.join('%#x' % a for a in sorted(cand))))


def i_ops(text):
    """operands in a formatted line"""
    body = text.split(';')[0][13:].split(None, 1)
    return [o.strip(' []') for o in body[1].split(',')] if len(body) > 1 else []


def generate(prop, seed, tier):
    r = rng_for('stream', prop, seed)
    return generate_d01(r) if prop == 'D01' else generate_d02(r)


def make(sc, pkgs, stats, digest):
    return (StreamRun if sc['prop'] == 'D01' else TextRun)(sc, pkgs, stats, digest)


def fresh(root):
    return core.Package(root), core.Package(root)
