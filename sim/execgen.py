"""Scenario generator for the exec world."""
import ref
from core import rng_for, value32, FAULT_NAMES, IRQ_NAMES, BOUNDARY

BYPROP = {}
for _p in ref.TABLE16 + ref.TABLE32:
    BYPROP.setdefault(_p.prop, []).append(_p)

# patterns weighted so that families of near-identical encodings do not drown others
ALL = [p for k in ('E01', 'E02', 'E03', 'E04', 'E05') for p in BYPROP[k]]
TRANSFER = BYPROP['E03'] + BYPROP['E04']


def field_value(r, letter, width, p):
    if letter in 'dnmt' and width in (3, 4):
        if width == 4 and r.random() < 0.08:
            return r.choice((13, 14, 15))
        return r.randrange(13 if width == 4 else 8)
    if letter == 's' and p.name in ('mrs', 'msr'):
        return r.choice(sorted(ref.SPECIAL))
    if letter == 'r':
        k = r.random()
        if k < 0.25:
            return 1 << r.randrange(width)
        if k < 0.4:
            return ((1 << r.randint(1, width)) - 1) << 0 & ((1 << width) - 1)
        if k < 0.45:
            return (1 << width) - 1
        return r.getrandbits(width) & (r.getrandbits(width) if r.random() < .5 else -1)
    k = r.random()
    top = (1 << width) - 1
    if k < 0.15:
        return 0
    if k < 0.25:
        return top
    if k < 0.35:
        return 1 << r.randrange(width)
    return r.getrandbits(width)


def pick_ins(r, pats, addr=0, tries=30):
    for _ in range(tries):
        p = r.choice(pats)
        f = {k: field_value(r, k, len(bs), p) for k, bs in p.fields.items()}
        words = ref.encode(p, f)
        i = ref.decode_word(words, addr)
        if i is not None and i.ok and (i._run is not None or p.prop is None):
            return i
    return None


_pools = {}


def code_pool(cls):
    """A fixed stock of valid instructions of one class, for filling code images."""
    if cls not in _pools:
        r = rng_for('code-pool', cls)
        out = []
        while len(out) < 500:
            i = pick_ins(r, BYPROP[cls])
            if i:
                out.append(ref.words_bytes(i.words))
        _pools[cls] = out
    return _pools[cls]


class Gen(object):
    def __init__(self, prop, seed, tier):
        self.prop = prop
        self.r = rng_for('exec', prop, seed)
        r = self.r
        self.nm = 1 if r.random() < 0.6 else 2
        self.machines = []
        self.regions = []
        self.recent = {}        # data addresses used so far, per machine
        for _ in range(self.nm):
            self.machines.append(self.machine())

    def machine(self):
        r = self.r
        cs = r.choice((0, 0, 0x8000, 0x08000000))
        cl = r.choice((0x100, 0x180, 0x200))
        ds = r.choice((0x20000000, 0x1fff8000, 0x20000000))
        dl = r.choice((0x80, 0x100, 0x200))
        regs = [(cs, cl), (ds, dl)]
        if r.random() < 0.25:
            regs.append(r.choice(((0xffffff00, 0xf0), (0x40000000, 0x21), (0x7fffffc0, 0x80),
                                  (0x3001, 0x43))))
        self.regions.append(regs)
        out = []
        for k, (s, n) in enumerate(regs):
            mode = r.random()
            if k == 0 and mode < 0.7:
                b = self.code(s, n)
            elif mode < 0.3:
                b = bytes(n)
            elif mode < 0.5:
                b = bytes((i * 7 + 1) & 0xff for i in range(n))
            else:
                b = bytes(r.getrandbits(8) for _ in range(n))
            out.append([s, b.hex()])
        rv = []
        for i in range(13):
            if r.random() < 0.6:
                rv.append([i, value32(r)])
        rv.append([17, ds + r.choice((dl // 2, dl, 0x40)) & ~3])
        rv.append([18, ds + r.choice((dl // 4, 0x20)) & ~3])
        rv.append([16, self.xpsr()])
        rv.append([14, cs + 1])
        if r.random() < 0.35:
            rv.append([-4, r.choice((2, 1, 3, 0, 4, 6))])
        rv.append([15, cs + 2 * r.randrange(0, cl // 4) + r.choice((0, 0, 0, 1))])
        for i in range(2):
            rv.append([0x40 + r.randrange(32), r.getrandbits(32)])
        rv.append([33, r.getrandbits(32)])
        md = {'regions': out, 'regs': rv}
        if r.random() < 0.35:       # a processor with extensions, or inside an IT block
            md['ext'] = r.choice((['dsp'], ['fp'], ['dsp', 'fp'], ['it'], ['it', 'dsp']))
        return md

    def code(self, s, n):
        r = self.r
        out = b''
        cls = r.choice((None, self.prop))
        while len(out) < n:
            if r.random() < 0.9:
                k = cls if cls and cls in BYPROP and r.random() < 0.6 else \
                    r.choice(('E01', 'E01', 'E01', 'E02', 'E03', 'E04', 'E05'))
                out += r.choice(code_pool(k))
            else:
                out += bytes((r.getrandbits(8), r.getrandbits(8)))
        return out[:n]

    def xpsr(self):
        r = self.r
        v = (r.getrandbits(4) << 28) | 0x01000000
        if r.random() < 0.4:
            v |= r.getrandbits(28) & 0x080f01ff
        return v

    def target(self, m, size, aligned=False):
        """an interesting data address"""
        r = self.r
        regs = self.regions[m]
        seen = self.recent.setdefault(m, [])
        if seen and r.random() < 0.3:
            a = r.choice(seen[-3:])              # the same few bytes again and again
            return a & ~3 if aligned else a
        s, n = r.choice(regs[1:] if r.random() < 0.85 else regs)
        k = r.random()
        if k < 0.75:
            a = s + r.randrange(max(1, n - size))
            if r.random() < 0.6:
                a &= ~(size - 1) if size in (1, 2, 4) else ~3
        elif k < 0.84:
            a = s + n - r.randint(1, size)           # straddles the end
        elif k < 0.9:
            a = s - r.randint(1, size)
        else:
            a = r.choice((0x60000000, 0xfffffff4, s + n + 16))
        a &= 0xffffffff
        seen.append(a)
        return a & ~3 if aligned else a

    def setup(self, i, m, at):
        """register writes that give instruction i interesting operands"""
        r = self.r
        f = i.f
        out = []

        def put(reg, v):
            out.append([reg, v & 0xffffffff])
        if r.random() < 0.5:
            put(16, self.xpsr())
        if i.prop == 'E03':
            _a, size, load = i.mem
            a = self.target(m, size)
            if not load and f['t'] not in (13, 15) and r.random() < 0.6:
                if f['t'] not in (f.get('n'), f.get('m')):
                    put(f['t'], value32(r))
            if 'n' in f and 'm' in f:
                sh = f.get('i', 0) if i.size == 4 else 0
                off = r.choice((0, 1, 4, 8, 0xfffffffc, 0xffffffff, 0x80000000, value32(r)))
                if f['n'] == f['m']:
                    if sh == 0:
                        put(f['n'], a >> 1 if a % 2 == 0 else (a + 1) >> 1)
                elif f['n'] != 13:
                    put(f['m'], off)
                    put(f['n'], a - (off << sh))
                else:
                    put(f['m'], (a - 0x20000000) >> sh)
            elif 'n' in f:
                put(f['n'], a - f['i'] * size)
            elif i.kind.endswith('.sp'):
                put(13, a - f['i'] * 4)
        elif i.prop == 'E04':
            n = f.get('n', 13)
            if i.pat.name in ('push', 'pop', 'push.w', 'pop.w'):
                n = 13
            if r.random() < (0.35 if n == 13 else 0.9):
                a = self.target(m, 4 * len(i.mem[1]), aligned=True)
                if i.pat.name.startswith('push'):
                    a += 4 * len(i.mem[1])
                put(n, a)
            if r.random() < 0.5:
                for k in i.mem[1]:
                    if k < 13 and k != n:
                        put(k, value32(r))
        elif i.prop == 'E02':
            for k in 'm':
                if k in f and f[k] < 13:
                    s, n = self.regions[m][0]
                    put(f[k], r.choice((s + 2 * r.randrange(n // 2) + 1, s + 8,
                                        value32(r))))
        else:
            for k in 'dnm':
                if k in f and f[k] < 13 and r.random() < 0.7:
                    put(f[k], value32(r))
                    if k == 'm' and i.prop == 'E01' and r.random() < 0.5:
                        if i.kind in ('lsls', 'lsrs', 'asrs', 'rors'):
                            out[-1][1] = r.choice((0, 1, 2, 31, 32, 33, 63, 64, 96, 128, 255,
                                                   256, 257, 0x120, 8, 16))
                elif k in f and f[k] == 13 and r.random() < 0.3:
                    s, n = self.regions[m][1]
                    put(13, s + 4 * r.randrange(n // 4))
            if i.kind in ('mov.hi', 'add.hi') and (f.get('D', 0) << 3 | f.get('d', 0)) == 15:
                if f.get('m', 13) < 13:
                    s, n = self.regions[m][0]
                    put(f['m'], s + 2 * r.randrange(n // 2) + r.choice((0, 1)))
            if i.prop == 'E05':
                if r.random() < 0.5:
                    put(-4, r.choice((0, 0, 1, 2, 3, 5)))
                for reg in (-1, -2, -3):
                    if r.random() < 0.4:
                        put(reg, r.choice((0, 1, 0xff, r.getrandbits(8))))
        return out

    def at(self, m, p=0.3):
        r = self.r
        if r.random() < p:
            s, n = self.regions[m][0]
            return s + 2 * r.randrange(0, n // 2 - 2)
        return None

    def faults(self, kinds, n, p=None):
        r = self.r
        out = []
        for _ in range(n):
            out.append([r.choice(kinds), r.randrange(1000),
                        r.choice(('before', 'before', 'after')), r.choice(FAULT_NAMES)])
        return out

    def ext(self):
        r = self.r
        P = self.prop
        if P[0] == 'E' or P == 'M03':
            if r.random() < self.fault_rate:
                if r.random() < 0.7:
                    return {'flt': self.faults(('reg', 'mem'), 1)}
                return {'irq': [r.randrange(1000), r.choice(IRQ_NAMES)]}
            return {}
        if P == 'F01':
            if r.random() < 0.85:
                return {'flt': self.faults(('mem',), r.choice((1, 1, 1, 2, 3)))}
            return {}
        if P == 'F02':
            e = {}
            if r.random() < 0.5:
                e['flt'] = self.faults(('reg', 'reg', 'reg', 'mem'), 1)
            if r.random() < 0.7:
                e['irq'] = [r.randrange(1000), r.choice(IRQ_NAMES)]
            return e
        if P in ('I02', 'F03'):
            e = {}
            if r.random() < 0.12:
                e['irq'] = [r.randrange(1000), r.choice(IRQ_NAMES)]
            if r.random() < 0.08:
                e['flt'] = self.faults(('reg', 'mem'), 1)
            return e
        if P == 'F04':
            return {}
        return {}

    def scenario(self, nops):
        r = self.r
        P = self.prop
        self.fault_rate = r.choice((0, 0, 0, 0.05, 0.25))
        own = BYPROP.get(P)
        if P in ('F01', 'M03'):
            own = TRANSFER
        bias = r.choice((0.55, 0.8, 0.95)) if own else 0
        subset = None
        if own and r.random() < 0.4:
            subset = [r.choice(own) for _ in range(r.randint(1, 4))]
        w_step = r.choice((0.1, 0.25, 0.5)) if P != 'F04' else 0.75
        w_again = r.choice((0.05, 0.2, 0.35)) if P in ('E01', 'E02', 'E03', 'E04', 'E05', 'M03') \
            else 0.6 if P == 'I02' else 0.1 if P != 'F04' else 0
        w_dbg = r.choice((0.02, 0.1))
        w_batch = r.choice((0, 0.05, 0.15))
        w_cell = r.choice((0, 0.03, 0.1))
        ops = []
        if P == 'F04':
            return self.corrupt(nops)
        while len(ops) < nops:
            m = r.randrange(self.nm)
            k = r.random()
            if k < w_dbg:
                ops.append(self.debug(m))
            elif P in ('E03', 'E04', 'F01', 'M03') and r.random() < w_cell:
                self.cell(m, ops)
            elif P == 'F03' and k < w_dbg + 0.35:
                z = r.random()
                if z < 0.11:
                    ops.append(['n', m])
                elif z < 0.17:
                    ops.append(['D', m])
                elif z < 0.3:
                    reg = r.choice((-4, -4, 16, 13, 17, 18, -1, -2, -3, 14))
                    ops.append(['r', m, reg, r.choice((0, 1, 2, 3, 4, 7)) if reg == -4 else
                                self.xpsr() if reg == 16 else value32(r)])
                elif z < 0.6:
                    ops.append(['c', m, r.randrange(3)])
                elif z < 0.8:
                    ops.append(['p', m, r.randrange(2)])
                else:
                    ops.append(['q', m, r.randrange(2)])
            elif P == 'M03' and k > 0.96:
                ops.append(r.choice((['n', m], ['D', m], ['c', m, r.randrange(3)],
                                     ['c', m, r.randrange(3)])))
            elif r.random() < w_batch:
                pats = own or BYPROP[r.choice(('E01', 'E03', 'E04', 'E05'))]
                if P == 'E02' or (P[0] in 'FIM' and r.random() < 0.5):
                    pats = [p for p in ALL if p.prop != 'E02' or r.random() < 0.3]
                at = self.at(m)
                codes, regs = [], []
                for _ in range(r.choice((2, 3, 4, 6))):
                    i = pick_ins(r, pats)
                    if i is not None:
                        codes.append(ref.words_bytes(i.words).hex())
                        regs += self.setup(i, m, at)
                ops.append(['R', m, at, codes, regs, r.choice(('list', 'iter', 'dis')),
                            self.ext() if P[0] not in 'EM' else {}])
            elif (P[0] == 'E' or P in ('F03', 'I02', 'M03')) and r.random() < (0.008 if P == 'I02' else 0.004):
                # the same instruction over and over
                ops.append(['L', m, r.randrange(24), r.choice((20, 70, 70, 150, 300)),
                            r.getrandbits(32)])
            elif r.random() < w_again:
                ops.append(['a', m, r.randrange(24), self.ext()])
            elif r.random() < w_step:
                ops.append(['s', m, self.at(m, 0.1), self.ext()])
            else:
                if subset and r.random() < 0.8:
                    pats = subset
                elif own and r.random() < bias:
                    pats = own
                else:
                    pats = BYPROP[r.choice(('E01', 'E02', 'E03', 'E04', 'E05'))]
                i = pick_ins(r, pats)
                if i is None:
                    continue
                at = self.at(m)
                ops.append(['x', m, at, ref.words_bytes(i.words).hex(),
                            self.setup(i, m, at), self.ext()])
                if i.prop == 'E04' and i.pat.name.startswith('push') and r.random() < 0.4:
                    self.pop_of(i, m, ops)
            if P in ('I02', 'M03') and r.random() < 0.2:
                ops.append(['f', r.randrange(24)])
        return {'world': 'exec', 'prop': P, 'machines': self.machines, 'ops': ops}

    # [Rn] forms: store and load of a word, halfword and byte through r1, and of a list
    CELL = {('s', 4): 0x6000, ('l', 4): 0x6800, ('s', 2): 0x8000, ('l', 2): 0x8800,
            ('s', 1): 0x7000, ('l', 1): 0x7800, ('s', 8): 0xc000, ('l', 8): 0xc800}

    def cell(self, m, ops):
        """A few bytes of memory reached in turn by program stores and loads, debugger
        writes, block writes, other CPU objects and rollbacks."""
        r = self.r
        s, n = r.choice(self.regions[m][1:])
        a = (s + r.randrange(max(1, n - 12)) + 3) & ~3
        if a + 8 > s + n:
            return
        size = r.choice((4, 4, 2, 1, 8) if self.prop != 'E04' else (8,))
        for _ in range(r.choice((3, 5, 8))):
            k = r.random()
            if k < 0.65:
                what = r.choice('sll')
                sz = size if r.random() < 0.8 else r.choice((1, 2, 4, 8))
                op = self.CELL[what, sz]
                if sz == 8:
                    # stm/ldm rn!, {..} of one to three registers without the base
                    b = r.randrange(8)
                    lst = r.choice((2, 6, 0x82, 0xc0, 0x50)) & ~(1 << b) or 1 << (b ^ 1)
                    op |= b << 8 | lst
                else:
                    b, t = r.sample(range(8), 2)
                    op |= b << 3 | t
                regs = [[b, a]]
                if what == 's':
                    regs += [[q, value32(r)] for q in range(8) if q != b and r.random() < 0.5]
                ops.append(['x', m, None, ref.words_bytes((op,)).hex(), regs,
                            self.ext() if self.prop == 'F01' else {}])
            elif k < 0.75:
                ops.append(['b', m, a, bytes(r.getrandbits(8) for _ in range(
                    r.choice((1, 2, 4, 8)))).hex()])
            elif k < 0.85:
                z = r.choice((8, 16, 32))
                ops.append(['w', m, a, z, r.getrandbits(z)])
            elif k < 0.92:
                ops.append(['c', m, r.randrange(3)])
            elif k < 0.96:
                ops.append(['p', m, 0])
            else:
                ops.append(['q', m, 0])

    def pop_of(self, i, m, ops):
        """later pop of the same list (balanced nesting)"""
        lst = i.mem[1]
        mask = sum(1 << k for k in lst)
        if i.size == 2 and not mask & 0x4000:
            hx = ref.words_bytes((0xbc00 | mask,)).hex()
        elif len(lst) >= 2:
            hx = ref.words_bytes((0xe8bd, mask)).hex()
        else:
            return
        for k in lst:
            if k < 13 and self.r.random() < 0.7:
                ops.append(['r', m, k, value32(self.r)])
        ops.append(['x', m, None, hx, [], self.ext()])

    def debug(self, m):
        r = self.r
        k = r.random()
        if k < 0.5:
            reg = r.choice(list(range(13)) + [13, 14, 16, 17, 18, -4, -3, -2, -1, 33, 0x40,
                                              0x5f])
            v = value32(r) if reg != 16 else self.xpsr()
            if reg in (13, 17, 18):
                s, n = self.regions[m][1]
                v = s + 4 * r.randrange(n // 4)
            if reg == -4:
                v = r.choice((0, 1, 2, 3, 4, 6, 7))
            return ['r', m, reg, v]
        if k < 0.85:
            size = r.choice((8, 16, 32))
            return ['w', m, self.target(m, size // 8), size, r.getrandbits(size)]
        s, n = r.choice(self.regions[m])
        o = r.randrange(n)
        if self.recent.get(m) and r.random() < 0.5:
            a = r.choice(self.recent[m][-3:])
            for s2, n2 in self.regions[m]:
                if s2 <= a < s2 + n2:
                    s, n, o = s2, n2, max(0, a - s2 - r.choice((0, 0, 0, 1, 4)))
        ln = min(n - o, r.randint(1, 12))
        return ['b', m, s + o, bytes(r.getrandbits(8) for _ in range(ln)).hex()]

    def corrupt(self, nops):
        """F04: bit flips, data as code, truncated fetches, repairs"""
        r = self.r
        ops = []
        while len(ops) < nops:
            m = r.randrange(self.nm)
            s, n = self.regions[m][0]
            k = r.random()
            if k < 0.25:
                ops.append(['s', m, self.at(m, 0.3), {}])
            elif k < 0.6:
                at = s + 2 * r.randrange(0, n // 2 - 2)
                z = r.random()
                if z < 0.45:
                    h1 = r.getrandbits(16)
                    if r.random() < 0.6:
                        h1 = r.choice((0xe800, 0xf000, 0xf800)) | (h1 & 0x7ff)
                    hx = ref.words_bytes((h1, r.getrandbits(16))).hex()
                else:
                    # near-valid: a supported encoding with one or two bits flipped
                    p = r.choice(ref.TABLE32 if r.random() < .6 else ref.TABLE16)
                    f = {q: field_value(r, q, len(b), p) for q, b in p.fields.items()}
                    w = bytearray(ref.words_bytes(ref.encode(p, f)))
                    for _ in range(r.choice((0, 1, 1, 2))):
                        w[r.randrange(len(w))] ^= 1 << r.randrange(8)
                    hx = bytes(w).hex()
                ops.append(['b', m, at, hx])
                ops.append(['s', m, at, {}])
            elif k < 0.72:
                at = s + 2 * r.randrange(0, n // 2 - 2)
                for _ in range(r.choice((1, 1, 2))):
                    ops.append(['z', m, at + r.randrange(4), r.randrange(8)])
                ops.append(['s', m, at, {}])
                if r.random() < 0.5:
                    ops.append(['zr', m])
                    ops.append(['s', m, at, {}])
            elif k < 0.86:
                # truncated fetch at the end of a region
                s2, n2 = r.choice(self.regions[m])
                back = r.choice((1, 2, 2, 3, 4))
                if r.random() < .7:
                    b = bytes((r.getrandbits(8), r.choice((0xf8, 0xf0, 0xe8, 0xbf, 0x18, 0xb5))
                               | r.getrandbits(2))) * 2
                    ops.append(['b', m, s2 + n2 - back, b[:back].hex()])
                ops.append(['s', m, s2 + n2 - back, {}])
            elif k < 0.93:
                s2, n2 = r.choice(self.regions[m])
                ops.append(['s', m, s2 + r.randrange(n2), {}])    # data executed as code
            else:
                ops.append(['zr', m])
        return {'world': 'exec', 'prop': 'F04', 'machines': self.machines, 'ops': ops}


def generate(prop, seed, tier):
    g = Gen(prop, seed, tier)
    n = g.r.choice((12, 25, 40, 60))
    if g.r.random() < 0.02:         # now and then a long run
        n = 400
    return g.scenario(n)
