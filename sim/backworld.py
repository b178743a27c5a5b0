"""World: several clients of one mock backend (properties M01 memory, M02 registers).

  {"world": "back", "prop": "M01"|"M02", "ops": [op, ...]}
every op ends in ext: {"pre": [[at, op], ...]}  other clients' operations at statement
`at` inside this one; {"irq": [at, exception]}  the operation is cut short there.
"""
import core
from core import Violation, SimHang, rng_for, make_exc, Ctl, HOOK

M32 = 0xffffffff


class Base(object):
    def __init__(self, sc, pkg, stats, digest):
        self.sc, self.stats, self.dig, self.P = sc, stats, digest, pkg
        self.sigs = set()
        self.known = {}
        self.opno = -1
        self.dele = pkg.mock_cpu.MockCpuModelDelegate()
        self.cpus = []
        for _ in range(2):
            c = pkg.model.CpuModel()
            c.delegate = self.dele
            self.cpus.append(c)

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def fail(self, kind, detail):
        raise Violation(kind, detail, op=self.opno)

    def guarded(self, fn, ext, nest):
        """-> value, exception, interrupted?"""
        c = Ctl()
        pre = sorted(ext.get('pre', ()), key=lambda x: x[0])
        irq = ext.get('irq')
        st = [0, False]

        def nxt():
            n = 3000000
            if st[0] < len(pre):
                n = min(n, pre[st[0]][0])
            if irq and not st[1]:
                n = min(n, irq[0])
            c.next = n

        def fire(c):
            if c.n >= 3000000:
                c.next = c.n + 1000
                raise SimHang('statement budget exceeded')
            while st[0] < len(pre) and pre[st[0]][0] <= c.n:
                k = st[0]
                st[0] += 1
                nxt()
                self.count('fault.preempt')
                outer = HOOK.cur
                HOOK.cur = Ctl()
                try:
                    nest(pre[k][1])
                finally:
                    HOOK.cur = outer
            if irq and not st[1] and c.n >= irq[0]:
                st[1] = True
                nxt()
                self.count('fault.irq.' + irq[1])
                raise make_exc(irq[1])
        c.fire = fire
        nxt()
        outer = HOOK.cur
        HOOK.cur = c
        try:
            try:
                return fn(), None, st[1]
            except Violation:
                raise
            except BaseException as e:
                if isinstance(e, SimHang):
                    self.fail('hang', 'operation does not end')
                return None, e, st[1]
        finally:
            HOOK.cur = outer
            self.count('statements', c.n)

    def run(self):
        for k, op in enumerate(self.sc['ops']):
            self.opno = k
            self.count('ops')
            self.one(op)

    def one(self, op):
        getattr(self, 'op_' + op[0])(op, op[-1])


# ------------------------------------------------------------------ M01 memory

def gen_mem(r):
    ops = []
    top = r.random() < 0.2
    overlap = r.random() < 0.3
    starts = [0x20000000]
    if top:
        starts.append(0xffffff00)
    else:
        starts.append(0)
    starts += [0x8000, 0x40000000]
    regions = []
    nops = r.choice((20, 60, 120))
    most = 6
    big = r.random() < 0.04         # now and then a long history, many or large regions
    if big:
        nops, most = 400, 40

    def newregion():
        k = r.random()
        n = r.choice((1, 2, 3, 4, 7, 8, 16, 33, 64))
        if big and r.random() < 0.1:
            n = r.choice((128, 256, 300, 1024))
        if regions and k < 0.35:                      # directly behind or before another
            s0, n0 = r.choice(regions)
            s = s0 + n0 if r.random() < 0.6 else s0 - n
        elif regions and k < 0.5:                     # a gap of a few bytes
            s0, n0 = r.choice(regions)
            s = s0 + n0 + r.randint(1, 3)
        else:
            s = r.choice(starts) + r.randrange(0, 16)
        if s < 0 or s + n > 1 << 32:
            return None
        if overlap and regions and r.random() < 0.4:
            # over, inside or around another: the bytes it has keep belonging to it
            s0, n0 = r.choice(regions)
            s = max(0, s0 + r.randint(-n, n0))
        if not overlap and any(s < a + b and a < s + n for a, b in regions):
            return None
        regions.append((s, n))
        return ['add', s, n]

    def addr():
        if not regions or r.random() < 0.06:
            return r.choice((0x60000000, 0x10, 0xfffff000, 0x1fffffff))
        s, n = r.choice(regions)
        return max(0, min(M32, r.choice((s + r.randrange(n), s + r.randrange(n),
                                         s + r.randrange(n), s + n - r.randint(1, 4),
                                         s - r.randint(1, 4), s + n, s))))

    def access(nested=False):
        k = r.random()
        how = r.randrange(4)
        c = r.randrange(2)
        if k < 0.4:
            size = r.choice((8, 16, 32))
            v = r.choice((r.getrandbits(size), (1 << size) - 1, r.getrandbits(32)))
            return ['w', c, how, addr(), size, v]
        if k < 0.66:
            return ['r', c, how, addr(), r.choice((8, 16, 32))]
        if k < 0.86 and regions:
            s, n = r.choice(regions)
            o = r.randrange(n)
            ln = r.choice((0, 1, 2, 5, 8, n - o, n - o + 1, n - o + 9))
            return ['wb', c, r.randrange(3), s + o, bytes(r.getrandbits(8)
                                                          for _ in range(ln)).hex()]
        return ['rb', c, addr(), r.choice((0, 1, 2, 4, 5, 16, 40, 80, 300 if big else 80))]

    p = r.choice((0, 0.2, 0.5))
    for _ in range(r.choice((1, 2, 3))):
        a = newregion()
        if a:
            ops.append(a + [{}])
    while len(ops) < nops:
        if len(regions) < most and r.random() < (0.12 if big else 0.06):
            op = newregion()
            if op is None:
                continue
            ext = {}
        else:
            op = access()
            ext = {}
            if r.random() < p:
                if r.random() < 0.5:
                    ext['irq'] = [r.randint(1, 40), r.choice(core.IRQ_NAMES)]
                if r.random() < 0.6:
                    ext['pre'] = [[r.randint(1, 40), access(True)]
                                  for _ in range(r.choice((1, 1, 2)))]
        ops.append(op + [ext])
    return ops


class MemRun(Base):
    def __init__(self, *a):
        Base.__init__(self, *a)
        self.mem = {}            # every mapped byte -> value
        self.regions = []
        self.readers = []        # open reads: {addr: set of acceptable values}
        self.open = None         # the write in progress: {addr: set}
        self.lost = set()        # bytes two writers raced for

    # model of one write that has completed while others may be open
    def wrote(self, items):
        for a, v in items:
            if a not in self.mem:
                continue
            if self.open is not None and a in self.open:
                self.open[a].add(v)
                self.lost.add(a)
            self.mem[a] = v
            for rd in self.readers:
                if a in rd:
                    rd[a].add(v)

    def check_all(self, what):
        for s, n in self.regions:
            b = self.dele.read_memory_block(s, n)
            if b is None or len(b) != n:
                self.fail('region-size-changed', '%s: region %#x+%#x reads %s bytes' % (
                    what, s, n, b and len(b)))
            for k in range(n):
                if b[k] != self.mem[s + k]:
                    self.fail('wrong-byte', '%s: byte %#x (region %#x+%#x) is %#04x, last '
                              'written %#04x' % (what, s + k, s, n, b[k], self.mem[s + k]))

    def op_add(self, op, ext):
        _n, s, n, _e = op
        v, e, irq = self.guarded(lambda: self.dele.add_memory(s, n), {}, None)
        if e is not None:
            self.fail('add-fails', '%#x+%#x: %r' % (s, n, e))
        self.regions.append((s, n))
        for k in range(n):
            self.mem.setdefault(s + k, 0)
        self.sigs.add(('add', len(self.regions), n))
        self.check_all('add %#x+%#x' % (s, n))

    def nest(self, op):
        self.do(op, {}, True)

    def one(self, op):
        if op[0] == 'add':
            self.op_add(op, op[-1])
        else:
            self.do(op[:-1], op[-1], False)

    def place(self, a, n):
        """where an access lies, for the distinctness measure"""
        inside = [x in self.mem for x in range(a, a + n)]
        al = a % 4 if n in (2, 4) else 0
        if all(inside):
            same = any(s <= a and a + n <= s + l for s, l in self.regions)
            return ('in' if same else 'span', al)
        if not any(inside):
            return ('out', al)
        return ('past' if inside[0] else 'into', al)

    def do(self, op, ext, nested):
        k = op[0]
        if k in ('w', 'wb'):
            self.write(op, ext, nested)
        else:
            self.read(op, ext, nested)
        if not nested:
            self.dig.add(op)
            self.check_all(repr(op))

    def write(self, op, ext, nested):
        if op[0] == 'w':
            _k, c, how, a, size, v = op
            n = size // 8
            data = [(v >> (8 * i)) & 255 for i in range(n)]
            cpu = self.cpus[c]
            B = self.P.bitstring.bitstring
            if how == 0:
                fn = lambda: cpu.write_memory(a, v, size)
            elif how == 1:
                fn = lambda: cpu.write_memory(B(a), B(v), size)
            elif how == 2:
                fn = lambda: {8: cpu.write8, 16: cpu.write16, 32: cpu.write32}[size](a, v)
            else:
                fn = lambda: self.dele.write_memory(a, v, size)
            extra = None
        else:
            _k, c, how, a, hx = op
            data = list(bytes.fromhex(hx))
            n = len(data)
            obj = (bytearray, bytes, bytearray)[how](data)
            cpu = self.cpus[c]
            if how < 2:
                fn = lambda: cpu.write_memory_block(a, obj)
            else:
                fn = lambda: self.dele.write_memory_block(a, obj)
            # a block ends where the mapped bytes end
            m = 0
            while m < n and a + m in self.mem:
                m += 1
            data = data[:m]
            extra = obj
        items = [(a + i, d) for i, d in enumerate(data) if a + i in self.mem]
        what = repr(op)
        if not nested:
            self.open = {x: {self.mem[x], v} for x, v in items}
            self.lost = set()
        else:
            self.count('nested_write')
        # readers in progress may see the new bytes from now on
        for rd in self.readers:
            for x, nv in items:
                if x in rd:
                    rd[x].add(nv)
        place = self.place(a, max(1, n))
        _v, e, irq = self.guarded(fn, ext, self.nest)
        self.sigs.add((op[0], op[2], place, min(n, 6), tuple(sorted(ext)), nested))
        if e is not None and not irq:
            self.fail('access-raises', '%s raised %r' % (what, e))
        if isinstance(extra, bytearray):
            for i in range(len(extra)):
                extra[i] ^= 0xff                # the caller reuses its buffer
        if nested:
            self.wrote(items)
            return
        allowed, self.open = self.open, None
        for x, nv in items:
            got = self.dele.read_memory_block(x, 1)[0]
            ok = allowed[x] if (irq or x in self.lost) else {nv}
            if got not in ok:
                self.fail('wrong-byte', '%s%s: byte %#x is %#04x, not one of %s' % (
                    what, ' (cut short)' if irq else '', x, got,
                    ' '.join('%#04x' % q for q in sorted(ok))))
            self.mem[x] = got

    def read(self, op, ext, nested):
        if op[0] == 'r':
            _k, c, how, a, size = op
            n = size // 8
            cpu = self.cpus[c]
            if how == 0:
                fn = lambda: cpu.read_memory(a, size)
            elif how == 1:
                fn = lambda: cpu.read_memory(self.P.bitstring.bitstring(a), size)
            elif how == 2:
                fn = lambda: {8: cpu.read8, 16: cpu.read16, 32: cpu.read32}[size](a)
            else:
                fn = lambda: self.dele.read_memory(a, size)
        else:
            _k, c, a, n = op
            fn = lambda: self.cpus[c].read_memory_block(a, n)
        exp = {}
        for x in range(a, a + n):
            if x in self.mem:
                exp[x] = {self.mem[x]}
                if self.open is not None and x in self.open:
                    exp[x] |= self.open[x]
        self.readers.append(exp)
        v, e, irq = self.guarded(fn, ext, self.nest)
        self.readers.pop()
        self.sigs.add((op[0], op[2] if op[0] == 'r' else 0, self.place(a, max(n, 1)),
                       min(n, 6), tuple(sorted(ext)), nested))
        if irq:
            return
        what = repr(op)
        if e is not None:
            self.fail('access-raises', '%s raised %r' % (what, e))
        if op[0] == 'r':
            if op[2] != 3:
                if v.width != op[4]:
                    self.fail('wrong-width', '%s: %d bits' % (what, v.width))
                v = v.unsigned
            got = [(v >> (8 * i)) & 255 for i in range(n)]
            if v >> (8 * n):
                self.fail('wrong-width', '%s: %#x' % (what, v))
        else:
            if v is None:
                v = b''
            elif len(v) > n:
                self.fail('wrong-length', '%s: %d bytes' % (what, len(v)))
            got = list(v)
            if isinstance(v, bytearray):
                for i in range(len(v)):
                    v[i] ^= 0xff                # the caller modifies what it got
        self.dig.add('got', got)
        for i in range(n):
            x = a + i
            if x in exp:
                if i >= len(got):
                    # blocks stop at the first byte that is not mapped
                    if all(y in exp for y in range(a, x)) and n:
                        self.fail('short-read', '%s: byte %#x missing' % (what, x))
                    break
                if got[i] not in exp[x]:
                    self.fail('wrong-read', '%s: byte %#x read as %#04x, last written %s' % (
                        what, x, got[i], ' '.join('%#04x' % q for q in sorted(exp[x]))))
            elif i < len(got) and got[i]:
                self.fail('wrong-read', '%s: unmapped byte %#x read as %#04x' % (
                    what, x, got[i]))


# --------------------------------------------------------------- M02 registers

NAMES = dict([('r%d' % i, i) for i in range(16)] + [
    ('sp', 13), ('lr', 14), ('pc', 15), ('xpsr', 16), ('msp', 17), ('psp', 18),
    ('control', -4), ('faultmask', -3), ('basepri', -2), ('primask', -1), ('fpscr', 33)]
    + [('s%d' % i, 0x40 + i) for i in range(32)])
INDEX = sorted(set(NAMES.values()))
BOGUS = ('r16', 'foo', '', 's32', 'r-1', 'xpsr ', 'cpsr', 'd0', 34, 100, 0x60, 19, -5, 32)
PROPS = {'pc': 15, 'lr': 14, 'sp': 13, 'msp': 17, 'psp': 18, 'xpsr': 16}


def gen_reg(r):
    def value(idx):
        if idx == -4:
            return r.choice((0, 1, 2, 3, 2, 0, 4, 6, 7))
        v = core.value32(r)
        k = r.random()
        if k < 0.1:
            v |= r.getrandbits(8) << 32
        elif k < 0.15:
            v = -1 - v
        if idx == 15:
            v &= ~1
        return v

    hot = r.choice((None, (13, 17, 18, -4), (-1, -2, -3, -4, 16), tuple(range(13))))

    def idx():
        if hot and r.random() < 0.6:
            return r.choice(hot)
        return r.choice(INDEX)

    def write():
        k = r.random()
        c = r.randrange(2)
        bs = int(r.random() < 0.3)
        if k < 0.34:
            i = idx()
            name = r.choice([n for n in NAMES if NAMES[n] == i])
            if r.random() < 0.2:
                name = r.choice((name.upper(), name.capitalize()))
            return ['w', c, 'name', name, i, value(i), bs]
        if k < 0.52:
            i = idx()
            return ['w', c, r.choice(('index', 'delegate')), i, i, value(i), bs]
        if k < 0.64:
            i = r.randrange(16)
            return ['w', c, 'r', i, i, value(i), bs]
        if k < 0.7:
            i = r.randrange(32)
            return ['w', c, 's', i, 0x40 + i, value(0x40 + i), bs]
        if k < 0.8:
            n = r.choice(sorted(PROPS))
            return ['w', c, 'prop', n, PROPS[n], value(PROPS[n]), bs]
        if k < 0.86:
            return ['flag', c, r.choice('nzcv'), r.randrange(2)]
        if k < 0.92:
            return ['mov', c, r.choice(list(range(13)) + [13, 13, 14]), r.randrange(15)]
        return ['read', c]

    ops = []
    p = r.choice((0, 0.15, 0.4))
    for _ in range(r.choice((20, 50, 100)) if r.random() < 0.96 else 600):
        if r.random() < 0.07:
            ops.append(['bogus', r.randrange(2), r.choice(('name', 'name', 'r', 's')),
                        r.choice(BOGUS), r.getrandbits(32), r.randrange(2), {}])
            continue
        op = write()
        ext = {}
        if r.random() < p and op[0] != 'read':
            if r.random() < 0.5:
                ext['irq'] = [r.randint(1, 20), r.choice(core.IRQ_NAMES)]
            else:
                for _t in range(20):
                    o2 = write()
                    if touches(op).isdisjoint(touches(o2)):
                        ext['pre'] = [[r.randint(1, 20), o2]]
                        break
        ops.append(op + [ext])
    return ops


def touches(op):
    """registers an operation reads or writes (coarsely), to keep nested ones apart"""
    if op[0] == 'w':
        i = op[4]
        return {13, 17, 18, -4} if i in (13, 17, 18, -4) else {i}
    if op[0] == 'flag':
        return {16}
    if op[0] == 'mov':
        s = {15, op[2], op[3]}
        return s | {13, 17, 18, -4} if 13 in s else s
    return set()


class RegRun(Base):
    def __init__(self, *a):
        Base.__init__(self, *a)
        self.m = {i: 0 for i in INDEX if i != 13}
        self.m[16] = 0x01000000

    def bank(self):
        return 18 if self.m[-4] & 2 else 17

    def get(self, i):
        return self.m[self.bank() if i == 13 else i]

    def cut(self, i, v):
        v &= M32
        if i in (-1, -3):
            return v & 1
        if i == -2:
            return v & 0xff
        if i in (13, 17, 18):
            return v & ~3
        return v

    def set(self, i, v):
        self.m[self.bank() if i == 13 else i] = self.cut(i, v)

    def check_all(self, what, cpu=None):
        for i in INDEX:
            if cpu is None:
                v = self.dele.read_register(i)
            else:
                v = cpu.read_register(i).unsigned
            if v != self.get(i):
                self.fail('wrong-register', '%s: register %d is %#x, should be %#x '
                          '(control=%#x)' % (what, i, v, self.get(i), self.m[-4]))

    def nest(self, op):
        self.do(op, {}, True)

    def one(self, op):
        self.do(op[:-1], op[-1], False)

    def do(self, op, ext, nested):
        getattr(self, 'op_' + op[0])(op, ext, nested)
        if not nested:
            self.dig.add(op)
            self.check_all(repr(op))

    def val(self, v, bs):
        if bs:
            return self.P.bitstring.bitstring(v & M32, 32) if v < 0 or v <= M32 else \
                self.P.bitstring.bitstring(v, 64)
        return v

    def finish_write(self, what, i, v, e, irq, nested):
        """i now holds v, or, when the write was cut short, what it held before"""
        if e is not None and not irq:
            self.fail('write-raises', '%s raised %r' % (what, e))
        if irq:
            got = self.dele.read_register(i)
            if got not in (self.get(i), self.cut(i, v)):
                self.fail('torn-register', '%s cut short: register %d is %#x, was %#x' % (
                    what, i, got, self.get(i)))
            if i == -4:
                self.m[-4] = got
            else:
                self.set(i, got)
        else:
            self.set(i, v)

    def op_w(self, op, ext, nested):
        _k, c, how, key, i, v, bs = op
        cpu = self.cpus[c]
        x = self.val(v, bs)
        if how == 'name' or how == 'index':
            fn = lambda: cpu.write_register(key, x)
        elif how == 'delegate':
            fn = lambda: self.dele.write_register(key, v)
        elif how == 'r':
            def fn():
                cpu.r[key] = x
        elif how == 's':
            def fn():
                cpu.s[key] = x
        else:
            def fn():
                setattr(cpu, key, x)
        _v, e, irq = self.guarded(fn, ext, self.nest)
        self.finish_write(repr(op), i, v, e, irq, nested)
        self.sigs.add(('w', how, i, bs, self.m[-4] & 3, tuple(sorted(ext)), nested,
                       (v < 0) - (v > M32)))

    def op_flag(self, op, ext, nested):
        _k, c, f, b = op
        cpu = self.cpus[c]
        n = {'n': 31, 'z': 30, 'c': 29, 'v': 28}[f]
        want = self.m[16] & ~(1 << n) | b << n
        _v, e, irq = self.guarded(lambda: setattr(cpu.apsr, f, b), ext, self.nest)
        self.finish_write(repr(op), 16, want, e, irq, nested)
        self.sigs.add(('flag', f, b, tuple(sorted(ext)), nested))

    def op_mov(self, op, ext, nested):
        """a program instruction: mov Rd, Rm"""
        _k, c, d, m = op
        cpu = self.cpus[c]
        hw = 0x4600 | (d & 8) << 4 | m << 3 | d & 7
        code = bytes((hw & 255, hw >> 8))
        ins = self.P.disasm.decoder.decode(code, 0)
        v, pc = self.get(m), (self.get(15) + 2) & M32
        # an interrupted program step may or may not have advanced PC
        _v, e, irq = self.guarded(lambda: ins.execute(cpu), ext, self.nest)
        self.finish_write(repr(op), d, v, e, irq, nested)
        self.finish_write(repr(op), 15, pc, e, irq, nested)
        self.sigs.add(('mov', d, m, self.m[-4] & 2, tuple(sorted(ext)), nested))

    def op_read(self, op, ext, nested):
        """every way to read a register"""
        cpu = self.cpus[op[1]]
        if nested:
            return
        what = repr(op)
        self.check_all(what, cpu)
        for n, i in NAMES.items():
            for nm in (n, n.upper()):
                v = cpu.read_register(nm)
                if v.unsigned != self.get(i) or v.width != 32:
                    self.fail('wrong-register', '%s: %s reads %r, should be %#x' % (
                        what, nm, v, self.get(i)))
        for i in range(16):
            if cpu.r[i].unsigned != self.get(i):
                self.fail('wrong-register', '%s: r[%d] reads %r' % (what, i, cpu.r[i]))
        for i in range(32):
            if cpu.s[i].unsigned != self.get(0x40 + i):
                self.fail('wrong-register', '%s: s[%d] reads %r' % (what, i, cpu.s[i]))
        for n, i in PROPS.items():
            if getattr(cpu, n).unsigned != self.get(i):
                self.fail('wrong-register', '%s: %s reads %r' % (what, n, getattr(cpu, n)))
        if cpu.control.unsigned != self.m[-4]:
            self.fail('wrong-register', '%s: control' % what)
        for f, b in (('n', 31), ('z', 30), ('c', 29), ('v', 28)):
            if getattr(cpu.apsr, f).unsigned != self.m[16] >> b & 1:
                self.fail('wrong-register', '%s: apsr.%s' % (what, f))
        if cpu.ipsr.unsigned != self.m[16] & 0x1ff:
            self.fail('wrong-register', '%s: ipsr' % what)
        if cpu.is_privileged != (not self.m[-4] & 1):
            self.fail('wrong-register', '%s: is_privileged' % what)
        # what a reader does with the value it got must not matter
        v = cpu.read_register(op[1])
        v += 1
        w = cpu.xpsr
        w[31] = 1 - (self.m[16] >> 31)
        self.count('full_read')

    def op_bogus(self, op, ext, nested):
        """accesses to registers that do not exist change nothing"""
        _k, c, how, key, v, wr = op
        cpu = self.cpus[c]
        if how != 'name' and not isinstance(key, int):
            key = 16 if how == 'r' else 32

        def fn():
            if how == 'name':
                return cpu.write_register(key, v) if wr else cpu.read_register(key)
            o = cpu.r if how == 'r' else cpu.s
            k = key
            if how == 'r' and 0 <= k <= 15 or how == 's' and 0 <= k <= 31:
                k += 64
            if wr:
                o[k] = v
            else:
                return o[k]
        _v, e, irq = self.guarded(fn, ext, None)
        self.count('fault.bogus_register')
        self.sigs.add(('bogus', how, key, wr))


def generate(prop, seed, tier):
    r = rng_for('back', prop, seed)
    return {'world': 'back', 'prop': prop,
            'ops': gen_mem(r) if prop == 'M01' else gen_reg(r)}


def make(sc, pkg, stats, digest):
    return (MemRun if sc['prop'] == 'M01' else RegRun)(sc, pkg, stats, digest)


def fresh(root):
    return core.Package(root)
