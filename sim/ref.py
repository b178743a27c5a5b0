"""Independent executable reference model of the Armv7-M subset cmdis supports.

Written from the Armv7-M Architecture Reference Manual, on plain integers; it
imports nothing from the code under test.  It provides

  * Ref       - registers + memory, with stack-pointer banking and register widths
  * decode()  - word(s) -> Ins (pattern, fields, property class, status)
  * Ins.run() - architectural effect on a Ref
  * Ins.text()- mnemonic, operand strings and comments of a listing line
  * Ins.target() - absolute address an executed label instruction reaches
"""

M32 = 0xffffffff

REGNAMES = ['r0', 'r1', 'r2', 'r3', 'r4', 'r5', 'r6', 'r7', 'r8', 'r9', 'r10',
            'r11', 'r12', 'sp', 'lr', 'pc']
CONTROL, FAULTMASK, BASEPRI, PRIMASK = -4, -3, -2, -1
XPSR, MSP, PSP, FPSCR = 16, 17, 18, 33
ALL_REGS = list(range(19)) + [-4, -3, -2, -1, 33] + list(range(0x40, 0x60))
NAME_OF = {i: n for i, n in enumerate(REGNAMES)}
NAME_OF.update({16: 'xpsr', 17: 'msp', 18: 'psp', -4: 'control', -3: 'faultmask',
                -2: 'basepri', -1: 'primask', 33: 'fpscr'})
NAME_OF.update({0x40 + i: 's%d' % i for i in range(32)})
INDEX_OF = {n: i for i, n in NAME_OF.items()}
INDEX_OF.update({'r13': 13, 'r14': 14, 'r15': 15})

# CONTROL bits
NPRIV, SPSEL = 1, 2


def clip(reg, value):
    """Value a register holds after `value` is written to it."""
    value &= M32
    if reg in (FAULTMASK, PRIMASK):
        return value & 1
    if reg == BASEPRI:
        return value & 0xff
    if reg in (13, MSP, PSP):
        return value & ~3 & M32
    return value


class Region(object):
    __slots__ = ('start', 'data')

    def __init__(self, start, data):
        self.start = start
        self.data = data


class Ref(object):
    """Machine state."""

    def __init__(self, regions=(), ext=()):
        self.ext = tuple(ext)
        self.keepflags = False
        self.log = None             # [write?, address, bytes] of every memory access
        self.g = {i: 0 for i in ALL_REGS if i != 13}
        self.g[XPSR] = 0x01000000
        self.regions = [Region(s, bytearray(n)) for s, n in regions]

    def copy(self):
        r = Ref.__new__(Ref)
        r.ext = self.ext
        r.keepflags = False
        r.log = None
        r.g = dict(self.g)
        r.regions = [Region(x.start, bytearray(x.data)) for x in self.regions]
        return r

    # -- registers
    def bank(self):
        return PSP if self.g[CONTROL] & SPSEL else MSP

    def r(self, i):
        if i == 13:
            return self.g[self.bank()]
        return self.g[i]

    def w(self, i, v):
        v = clip(i, v)
        if i == 13:
            self.g[self.bank()] = v
        else:
            self.g[i] = v

    def regs(self):
        return [self.r(i) for i in ALL_REGS]

    # -- memory
    def find(self, a):
        for x in self.regions:
            if x.start <= a < x.start + len(x.data):
                return x
        return None

    def rb(self, a):
        x = self.find(a)
        return x.data[a - x.start] if x else 0

    def wb(self, a, v):
        x = self.find(a)
        if x:
            x.data[a - x.start] = v & 0xff

    def rm(self, a, n):
        """n bytes, little endian; addresses past the end of a region read as zero"""
        if self.log is not None:
            self.log.append((0, a, n))
        v = 0
        for i in range(n):
            v |= self.rb(a + i) << (8 * i)
        return v

    def wm(self, a, v, n):
        if self.log is not None:
            self.log.append((1, a, n))
        for i in range(n):
            self.wb(a + i, v >> (8 * i))

    def block(self, a, n):
        x = self.find(a)
        if not x:
            return None
        o = a - x.start
        return bytes(x.data[o:o + n])

    def wblock(self, a, data):
        x = self.find(a)
        if x:
            o = a - x.start
            n = min(len(data), len(x.data) - o)
            x.data[o:o + n] = data[:n]

    # -- flags
    def flag(self, b):
        return (self.g[XPSR] >> b) & 1

    def setf(self, n=None, z=None, c=None, v=None):
        if self.keepflags:
            return
        x = self.g[XPSR]
        for bit, val in ((31, n), (30, z), (29, c), (28, v)):
            if val is not None:
                x = (x & ~(1 << bit)) | (int(bool(val)) << bit)
        self.g[XPSR] = x


# ---------------------------------------------------------------- arithmetic

def s32(x):
    return x - (1 << 32) if x & 0x80000000 else x


def add_with_carry(x, y, c):
    u = x + y + c
    s = s32(x) + s32(y) + c
    r = u & M32
    return r, int(r != u), int(s32(r) != s)


LSL, LSR, ASR, ROR, RRX = 1, 2, 3, 4, 5
SHIFT_NAME = {1: 'LSL', 2: 'LSR', 3: 'ASR', 4: 'ROR', 5: 'RRX'}


def shift_c(x, t, n, c):
    if t == RRX:
        return ((c << 31) | (x >> 1)), x & 1
    if n == 0:
        return x, c
    if t == LSL:
        e = x << n
        return e & M32, (e >> 32) & 1
    if t == LSR:
        return x >> n, (x >> (n - 1)) & 1
    if t == ASR:
        s = s32(x)
        return (s >> n) & M32, (s >> (n - 1)) & 1
    if t == ROR:
        m = n % 32
        r = ((x >> m) | (x << (32 - m))) & M32
        return r, r >> 31
    raise AssertionError(t)


def imm_shift(t, imm5):
    if t == 0:
        return LSL, imm5
    if t == 1:
        return LSR, imm5 or 32
    if t == 2:
        return ASR, imm5 or 32
    return (ROR, imm5) if imm5 else (RRX, 1)


def expand_imm_c(i12, c):
    """-> imm32, carry, predictable"""
    if i12 >> 10 == 0:
        k, b = (i12 >> 8) & 3, i12 & 0xff
        v = (b, b | b << 16, b << 8 | b << 24, b | b << 8 | b << 16 | b << 24)[k]
        return v, c, (k == 0 or b != 0)
    b = 0x80 | (i12 & 0x7f)
    n = i12 >> 7
    v = ((b >> n) | (b << (32 - n))) & M32
    return v, v >> 31, True


def sext(v, bits, to=32):
    if v & (1 << (bits - 1)):
        v |= ((1 << to) - 1) & ~((1 << bits) - 1)
    return v


COND = ['eq', 'ne', 'cs', 'cc', 'mi', 'pl', 'vs', 'vc', 'hi', 'ls', 'ge', 'lt',
        'gt', 'le']


def cond_holds(k, m):
    n, z, c, v = m.flag(31), m.flag(30), m.flag(29), m.flag(28)
    r = [z, c, n, v, c and not z, n == v, (n == v) and not z][k >> 1]
    return bool(r) != bool(k & 1)


# ------------------------------------------------------------ text fragments

def imm_op(v, comments, hide=False):
    if v == 0 and hide:
        return None
    if v > 9:
        comments.append('0x%x' % v)
    return '#%d' % v


def reglist_op(regs):
    out, i = [], 0
    while i < 16:
        if regs >> i & 1:
            j = i
            while j + 1 < 16 and regs >> (j + 1) & 1:
                j += 1
            out.append(REGNAMES[i] if i == j else '%s-%s' % (REGNAMES[i], REGNAMES[j]))
            i = j + 1
        else:
            i += 1
    return '{' + ','.join(out) + '}'


SPECIAL = {0: 'APSR', 1: 'IAPSR', 2: 'EAPSR', 3: 'XPSR', 5: 'IPSR', 6: 'EPSR',
           7: 'IEPSR', 8: 'MSP', 9: 'PSP', 16: 'PRIMASK', 17: 'BASEPRI',
           18: 'BASEPRI_MAX', 19: 'FAULTMASK', 20: 'CONTROL'}


# -------------------------------------------------------------- instructions

class Ins(object):
    __slots__ = ('pat', 'f', 'words', 'addr', 'size', 'mn', 'prop', 'ok', 'ops',
                 'comments', '_run', 'label', 'kind', 'quirk', 'mem')

    def run(self, m):
        """Architectural effect, including PC, on Ref m."""
        pc = m.g[15] & ~1
        m.g[15] = pc
        # inside an IT block the 16-bit forms leave the flags alone, except compares and
        # movs (register), which set them anywhere
        m.keepflags = ('it' in m.ext and self.size == 2 and self.prop == 'E01' and
                       self.mn.endswith('s') and self.kind != 'movs.reg')
        nxt = self._run(m, pc)
        m.keepflags = False
        if nxt == 'skip':
            return False                     # not judged (e.g. unaligned multiple)
        m.g[15] = (pc + self.size if nxt is None else nxt) & M32 & ~1
        return True

    def line(self):
        b = ' '.join('%04x' % w for w in self.words)
        s = '{0:<12} {1:<8}'.format(b, self.mn) + ', '.join(self.ops)
        if self.comments:
            s = '{0:<36} ; {1}'.format(s, ' '.join(self.comments))
        return s


TABLE16, TABLE32 = [], []


class Pat(object):
    __slots__ = ('name', 'mask', 'match', 'fields', 'build', 'prop', 'wide', 'weight',
                 'bits')


def _compile(bits):
    """'000 11 10 iii nnn ddd' -> mask, match, {letter: (shift, width)}"""
    s = bits.replace(' ', '')
    n = len(s)
    assert n in (16, 32), (bits, n)
    mask = match = 0
    pos = {}
    for k, ch in enumerate(s):
        b = n - 1 - k
        if ch in '01':
            mask |= 1 << b
            match |= int(ch) << b
        else:
            pos.setdefault(ch, []).append(b)
    fields = {}
    for ch, bs in pos.items():
        fields[ch] = bs          # msb first; may be split
    return mask, match, fields, n == 32


def pat(name, bits, prop, **kw):
    """Decorator: build(i, f) fills an Ins; i.ok False -> architecturally
    unpredictable or outside the modelled subset (not judged)."""
    def deco(fn):
        p = Pat()
        p.name, p.prop = name, prop
        p.mask, p.match, p.fields, p.wide = _compile(bits)
        p.bits = bits
        p.build = (lambda i, f, fn=fn, kw=kw: fn(i, f, **kw)) if kw else fn
        (TABLE32 if p.wide else TABLE16).append(p)
        return fn
    return deco


def _popcount(x):
    return bin(x).count('1')


def _finish():
    for t in (TABLE16, TABLE32):
        t.sort(key=lambda p: -_popcount(p.mask))


def decode_word(words, addr=0):
    """words: (hw1,) or (hw1, hw2). Returns Ins or None (no supported encoding)."""
    if len(words) == 2:
        w = (words[0] << 16) | words[1]
        table = TABLE32
    else:
        w = words[0]
        table = TABLE16
    for p in table:
        if w & p.mask == p.match:
            f = {}
            for k, bs in p.fields.items():
                v = 0
                for b in bs:
                    v = v << 1 | (w >> b & 1)
                f[k] = v
            i = Ins()
            i.pat, i.f, i.words, i.addr = p, f, tuple(words), addr
            i.size = 2 * len(words)
            i.mn, i.prop, i.ok = p.name, p.prop, True
            i.ops, i.comments, i.label, i.kind, i.quirk, i.mem = [], [], None, p.name, None, None
            if p.build(i, f) is False:
                continue                     # see another encoding
            return i
    return None


def is_wide(hw1):
    return hw1 & 0xf800 in (0xe800, 0xf000, 0xf800)


def decode(data, addr=0):
    """bytes -> Ins, None (undefined/unsupported) or 'short'."""
    if len(data) < 2:
        return 'short'
    h1 = data[0] | data[1] << 8
    if not is_wide(h1):
        return decode_word((h1,), addr)
    if len(data) < 4:
        return 'short'
    return decode_word((h1, data[2] | data[3] << 8), addr)


R = REGNAMES


# ---- data processing, register, 16 bit

def _nz(m, r, **kw):
    m.setf(n=r >> 31, z=r == 0, **kw)


def _dp_reg(i, f, fn):
    d, s = f['d'], f['m']
    i.ops = [R[d], R[s]]

    def run(m, pc):
        fn(m, d, m.r(d), m.r(s))
    i._run = run


def _logic(op):
    def fn(m, d, a, b):
        r = op(a, b) & M32
        m.w(d, r)
        _nz(m, r)
    return fn


def _arith(fn2):
    def fn(m, d, a, b):
        r, c, v = fn2(m, a, b)
        m.w(d, r)
        _nz(m, r, c=c, v=v)
    return fn


def _shreg(t):
    def fn(m, d, a, b):
        r, c = shift_c(a, t, b & 0xff, m.flag(29))
        m.w(d, r)
        _nz(m, r, c=c)
    return fn


for _n, _op, _fn in (
        ('ands', '0000', _logic(lambda a, b: a & b)),
        ('eors', '0001', _logic(lambda a, b: a ^ b)),
        ('lsls', '0010', _shreg(LSL)),
        ('lsrs', '0011', _shreg(LSR)),
        ('asrs', '0100', _shreg(ASR)),
        ('adcs', '0101', _arith(lambda m, a, b: add_with_carry(a, b, m.flag(29)))),
        ('sbcs', '0110', _arith(lambda m, a, b: add_with_carry(a, b ^ M32, m.flag(29)))),
        ('rors', '0111', _shreg(ROR)),
        ('orrs', '1100', _logic(lambda a, b: a | b)),
        ('bics', '1110', _logic(lambda a, b: a & ~b))):
    pat(_n, '010000 %s mmm ddd' % _op, 'E01', fn=_fn)(_dp_reg)


def _addsub(m, a, b, sub):
    return add_with_carry(a, b ^ M32, 1) if sub else add_with_carry(a, b, 0)


@pat('adds', '0001110 iii nnn ddd', 'E01', sub=0)
@pat('subs', '0001111 iii nnn ddd', 'E01', sub=1)
def _(i, f, sub):
    d, n, k = f['d'], f['n'], f['i']
    i.ops = [R[d], R[n], imm_op(k, i.comments)]

    def run(m, pc):
        r, c, v = _addsub(m, m.r(n), k, sub)
        m.w(d, r)
        _nz(m, r, c=c, v=v)
    i._run = run


@pat('adds', '00110 ddd iiiiiiii', 'E01', sub=0)
@pat('subs', '00111 ddd iiiiiiii', 'E01', sub=1)
def _(i, f, sub):
    d, k = f['d'], f['i']
    i.ops = [R[d], imm_op(k, i.comments)]

    def run(m, pc):
        r, c, v = _addsub(m, m.r(d), k, sub)
        m.w(d, r)
        _nz(m, r, c=c, v=v)
    i._run = run


@pat('adds', '0001100 mmm nnn ddd', 'E01', sub=0)
@pat('subs', '0001101 mmm nnn ddd', 'E01', sub=1)
def _(i, f, sub):
    d, n, k = f['d'], f['n'], f['m']
    i.ops = [R[d], R[n], R[k]]

    def run(m, pc):
        r, c, v = _addsub(m, m.r(n), m.r(k), sub)
        m.w(d, r)
        _nz(m, r, c=c, v=v)
    i._run = run


def _hireg_add(i, d, n, k):
    """ADD d, n, k on any registers; n/k read PC as address+4"""
    pcop = 15 in (n, k)
    i.ok = not (n == 15 and k == 15)

    def run(m, pc, bias=4):
        g = lambda x: (pc + bias) & M32 if x == 15 else m.r(x)
        r = (g(n) + g(k)) & M32
        if d == 15:
            return r & ~1
        m.w(d, r)
    i._run = run
    if pcop:
        # documented deviation (see known_findings.json): PC operand without the +4
        i.quirk = 'add-pc-operand'


@pat('add', '01000100 D mmmm ddd', 'E01')
def _(i, f):
    d, k = f['D'] << 3 | f['d'], f['m']
    i.ops = [R[d], R[k]]
    i.kind = 'add.hi'
    _hireg_add(i, d, d, k)


@pat('add', '01000100 D 1101 ddd', 'E01')
def _(i, f):
    d = f['D'] << 3 | f['d']
    i.ops = [R[d], 'sp', R[d]]
    i.kind = 'add.hi'
    _hireg_add(i, d, 13, d)


@pat('add', '01000100 1 mmmm 101', 'E01')
def _(i, f):
    if f['m'] == 13:
        return False
    i.ops = ['sp', R[f['m']]]
    i.kind = 'add.hi'
    _hireg_add(i, 13, 13, f['m'])


@pat('add', '10101 ddd iiiiiiii', 'E01')
def _(i, f):
    d, k = f['d'], f['i'] * 4
    i.ops = [R[d], 'sp', imm_op(k, i.comments)]
    i.kind = 'add.sp'

    def run(m, pc):
        m.w(d, m.r(13) + k)
    i._run = run


@pat('add', '101100000 iiiiiii', 'E01', sub=0)
@pat('sub', '101100001 iiiiiii', 'E01', sub=1)
def _(i, f, sub):
    k = f['i'] * 4
    i.ops = ['sp', imm_op(k, i.comments)]
    i.kind = 'addsub.spimm'

    def run(m, pc):
        m.w(13, m.r(13) - k if sub else m.r(13) + k)
    i._run = run


@pat('lsls', '00000 iiiii mmm ddd', 'E01', t=0)
@pat('lsrs', '00001 iiiii mmm ddd', 'E01', t=1)
@pat('asrs', '00010 iiiii mmm ddd', 'E01', t=2)
def _(i, f, t):
    d, k = f['d'], f['m']
    st, sn = imm_shift(t, f['i'])
    i.ops = [R[d], R[k], imm_op(sn, i.comments)]
    i.kind = i.mn + '.imm'

    def run(m, pc):
        r, c = shift_c(m.r(k), st, sn, m.flag(29))
        m.w(d, r)
        _nz(m, r, c=c)
    i._run = run


def _rsb(i, d, n, k, flags):
    def run(m, pc):
        r, c, v = add_with_carry(m.r(n) ^ M32, k, 1)
        m.w(d, r)
        if flags:
            _nz(m, r, c=c, v=v)
    i._run = run


@pat('rsbs', '0100001001 nnn ddd', 'E01')
def _(i, f):
    i.ops = [R[f['d']], R[f['n']], imm_op(0, i.comments)]
    _rsb(i, f['d'], f['n'], 0, True)


@pat('rsb', '11110 i 01110 S nnnn 0 jjj dddd kkkkkkkk', 'E01')
def _(i, f):
    d, n = f['d'], f['n']
    k, _c, p = expand_imm_c(f['i'] << 11 | f['j'] << 8 | f['k'], 0)
    i.mn = 'rsbs.w' if f['S'] else 'rsb.w'
    i.ok = p and d not in (13, 15) and n not in (13, 15)
    i.ops = [R[d], R[n], imm_op(k, i.comments)]
    _rsb(i, d, n, k, f['S'])


def _mul(i, d, n, k, flags):
    def run(m, pc):
        r = (m.r(n) * m.r(k)) & M32
        m.w(d, r)
        if flags:
            _nz(m, r)
    i._run = run


@pat('muls', '0100001101 nnn ddd', 'E01')
def _(i, f):
    d, n = f['d'], f['n']
    i.ops = [R[d], R[n], R[d]]
    _mul(i, d, n, d, True)


@pat('mul', '111110110000 nnnn 1111 dddd 0000 mmmm', 'E01')
def _(i, f):
    d, n, k = f['d'], f['n'], f['m']
    i.ok = not {13, 15} & {d, n, k}
    i.ops = [R[d], R[n], R[k]]
    _mul(i, d, n, k, False)


def _adr(i, d, k):
    t = (((i.addr + 4) & ~3) + k) & M32
    i.label = t
    i.comments = ['0x%x' % t]
    i.ops = [R[d], '.%+d' % (((i.addr + 4) & ~3) + k - i.addr)]

    def run(m, pc):
        m.w(d, ((pc + 4) & ~3) + k)
    i._run = run


@pat('adr', '10100 ddd iiiiiiii', 'E01')
def _(i, f):
    _adr(i, f['d'], f['i'] * 4)


@pat('adr.w', '11110 i 10101 0 1111 0 jjj dddd kkkkkkkk', 'E01', sub=1)
@pat('adr.w', '11110 i 10000 0 1111 0 jjj dddd kkkkkkkk', 'E01', sub=0)
def _(i, f, sub):
    k = f['i'] << 11 | f['j'] << 8 | f['k']
    i.ok = f['d'] not in (13, 15)
    _adr(i, f['d'], -k if sub else k)


def _ext(i, d, k, rot, w, signed):
    def run(m, pc):
        x = m.r(k)
        x = ((x >> rot) | (x << (32 - rot))) & ((1 << w) - 1)
        m.w(d, sext(x, w) if signed else x)
    i._run = run


for _n, _o, _o2, _w, _s in (('sxth', '00', '000', 16, 1), ('sxtb', '01', '100', 8, 1),
                            ('uxth', '10', '001', 16, 0), ('uxtb', '11', '101', 8, 0)):
    @pat(_n, '10110010 %s mmm ddd' % _o, 'E01', w=_w, s=_s)
    def _(i, f, w, s):
        i.ops = [R[f['d']], R[f['m']]]
        _ext(i, f['d'], f['m'], 0, w, s)

    @pat(_n + '.w', '111110100 %s 1111 1111 dddd 10 rr mmmm' % _o2, 'E01', w=_w, s=_s)
    def _(i, f, w, s):
        i.ok = not {13, 15} & {f['d'], f['m']}
        i.ops = [R[f['d']], R[f['m']]]
        if f['r']:
            i.ops.append('ROR #%d' % (8 * f['r']))
        _ext(i, f['d'], f['m'], 8 * f['r'], w, s)


def _rev(i, d, k, mode):
    def run(m, pc):
        x = m.r(k)
        b = [x >> 8 * j & 0xff for j in range(4)]
        if mode == 0:
            r = b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3]
        elif mode == 1:
            r = b[2] << 24 | b[3] << 16 | b[0] << 8 | b[1]
        else:
            r = sext(b[0] << 8 | b[1], 16)
        m.w(d, r)
    i._run = run


for _n, _o, _o2, _m in (('rev', '00', '000', 0), ('rev16', '01', '001', 1),
                        ('revsh', '11', '011', 2)):
    @pat(_n, '10111010 %s mmm ddd' % _o, 'E01', mode=_m)
    def _(i, f, mode):
        i.ops = [R[f['d']], R[f['m']]]
        _rev(i, f['d'], f['m'], mode)

    @pat(_n + '.w', '111110101001 mmmm 1111 dddd 1 %s nnnn' % _o2, 'E01', mode=_m)
    def _(i, f, mode):
        i.ok = f['m'] == f['n'] and not {13, 15} & {f['d'], f['m']}
        i.ops = [R[f['d']], R[f['m']]]
        _rev(i, f['d'], f['m'], mode)


# ---- moves

@pat('mov', '01000110 D mmmm ddd', 'E01')
def _(i, f):
    d, k = f['D'] << 3 | f['d'], f['m']
    i.ops = [R[d], R[k]]
    i.kind = 'mov.hi'

    def run(m, pc):
        x = (pc + 4) & M32 if k == 15 else m.r(k)
        if d == 15:
            return x & ~1
        m.w(d, x)
    i._run = run


@pat('movs', '0000000000 mmm ddd', 'E01')
def _(i, f):
    d, k = f['d'], f['m']
    i.ops = [R[d], R[k]]
    i.kind = 'movs.reg'

    def run(m, pc):
        m.w(d, m.r(k))
        _nz(m, m.r(d))
    i._run = run


@pat('mov', '11101010010 S 1111 0 000 dddd 0000 mmmm', 'E01')
def _(i, f):
    d, k, S = f['d'], f['m'], f['S']
    i.mn = 'movs.w' if S else 'mov.w'
    i.kind = 'mov.w.reg'
    i.ok = not (15 in (d, k) or (13 in (d, k) and S) or (d == 13 and k == 13))
    i.ops = [R[d], R[k]]

    def run(m, pc):
        x = m.r(k)
        m.w(d, x)
        if S:
            _nz(m, x)
    i._run = run


@pat('movs', '00100 ddd iiiiiiii', 'E01')
def _(i, f):
    d, k = f['d'], f['i']
    i.ops = [R[d], imm_op(k, i.comments)]
    i.kind = 'movs.imm'

    def run(m, pc):
        m.w(d, k)
        _nz(m, k)
    i._run = run


@pat('mov', '11110 i 00010 S 1111 0 jjj dddd kkkkkkkk', 'E01')
def _(i, f):
    d, S = f['d'], f['S']
    imm = f['i'] << 11 | f['j'] << 8 | f['k']
    v, _c, p = expand_imm_c(imm, 0)
    i.mn = 'movs.w' if S else 'mov.w'
    i.kind = 'mov.w.imm'
    i.ok = p and d not in (13, 15)
    i.ops = [R[d], imm_op(v, i.comments)]

    def run(m, pc):
        x, c, _p = expand_imm_c(imm, m.flag(29))
        m.w(d, x)
        if S:
            _nz(m, x, c=c)
    i._run = run


@pat('movw', '11110 i 100100 nnnn 0 jjj dddd kkkkkkkk', 'E01')
def _(i, f):
    d = f['d']
    v = f['n'] << 12 | f['i'] << 11 | f['j'] << 8 | f['k']
    i.ok = d not in (13, 15)
    i.ops = [R[d], imm_op(v, i.comments)]

    def run(m, pc):
        m.w(d, v)
    i._run = run


@pat('mvns', '0100001111 mmm ddd', 'E01')
def _(i, f):
    d, k = f['d'], f['m']
    i.ops = [R[d], R[k]]

    def run(m, pc):
        x = m.r(k) ^ M32
        m.w(d, x)
        _nz(m, x)
    i._run = run


@pat('mvn', '11101010011 S 1111 0 jjj dddd kk tt mmmm', 'E01')
def _(i, f):
    d, k, S = f['d'], f['m'], f['S']
    st, sn = imm_shift(f['t'], f['j'] << 2 | f['k'])
    i.mn = 'mvns.w' if S else 'mvn.w'
    i.kind = 'mvn.w'
    i.ok = not {13, 15} & {d, k}
    i.ops = [R[d], R[k], '%s #%d' % (SHIFT_NAME[st], sn)]

    def run(m, pc):
        x, c = shift_c(m.r(k), st, sn, m.flag(29))
        x ^= M32
        m.w(d, x)
        if S:
            _nz(m, x, c=c)
    i._run = run


# ---- compares and tests

def _cmp(i, n, get, neg):
    def run(m, pc):
        y = get(m)
        r, c, v = add_with_carry(m.r(n), y, 0) if neg else add_with_carry(m.r(n), y ^ M32, 1)
        _nz(m, r, c=c, v=v)
    i._run = run


@pat('cmp', '00101 nnn iiiiiiii', 'E01')
def _(i, f):
    i.ops = [R[f['n']], imm_op(f['i'], i.comments)]
    i.kind = 'cmp.imm'
    _cmp(i, f['n'], lambda m: f['i'], False)


@pat('cmp', '0100001010 mmm nnn', 'E01', neg=False)
@pat('cmn', '0100001011 mmm nnn', 'E01', neg=True)
def _(i, f, neg):
    i.ops = [R[f['n']], R[f['m']]]
    _cmp(i, f['n'], lambda m: m.r(f['m']), neg)


@pat('cmp', '01000101 N mmmm nnn', 'E01')
def _(i, f):
    n, k = f['N'] << 3 | f['n'], f['m']
    i.ok = not (n < 8 and k < 8) and n != 15 and k != 15
    i.ops = [R[n], R[k]]
    i.kind = 'cmp.hi'
    _cmp(i, n, lambda m: m.r(k), False)


@pat('cmp.w', '11110 i 011011 nnnn 0 jjj 1111 kkkkkkkk', 'E01', neg=False)
@pat('cmn', '11110 i 010001 nnnn 0 jjj 1111 kkkkkkkk', 'E01', neg=True)
def _(i, f, neg):
    n = f['n']
    v, _c, p = expand_imm_c(f['i'] << 11 | f['j'] << 8 | f['k'], 0)
    i.ok = p and n != 15
    i.kind = i.mn + '.w.imm'
    i.ops = [R[n], imm_op(v, i.comments)]
    _cmp(i, n, lambda m: v, neg)


def _tst(i, n, k, st, sn):
    def run(m, pc):
        s, c = shift_c(m.r(k), st, sn, m.flag(29)) if st else (m.r(k), None)
        _nz(m, m.r(n) & s, c=c)
    i._run = run


@pat('tst', '0100001000 mmm nnn', 'E01')
def _(i, f):
    i.ops = [R[f['n']], R[f['m']]]
    _tst(i, f['n'], f['m'], 0, 0)


@pat('tst.w', '111010100001 nnnn 0 jjj 1111 kk tt mmmm', 'E01')
def _(i, f):
    n, k = f['n'], f['m']
    st, sn = imm_shift(f['t'], f['j'] << 2 | f['k'])
    i.ok = not {13, 15} & {n, k}
    i.ops = [R[n], R[k]]
    if sn:
        i.ops.append('%s #%d' % (SHIFT_NAME[st], sn))
    _tst(i, n, k, st, sn)


# ---- branches

def _branch(i, off, cond=None, link=False):
    t = (i.addr + 4 + off) & M32
    i.label = t
    i.comments = ['0x%x' % t]
    i.ops = ['.%+d' % (off + 4)]

    def run(m, pc):
        if cond is not None and not cond_holds(cond, m):
            return None
        if link:
            m.w(14, (pc + 4) | 1)
        return pc + 4 + off
    i._run = run


def _s(v, bits):
    return v - (1 << bits) if v >> (bits - 1) & 1 else v


@pat('b', '1101 cccc iiiiiiii', 'E02')
def _(i, f):
    if f['c'] >= 14:
        return False
    i.mn = 'b' + COND[f['c']]
    i.kind = i.mn
    _branch(i, _s(f['i'] << 1, 9), cond=f['c'])


@pat('b', '11100 iiiiiiiiiii', 'E02')
def _(i, f):
    _branch(i, _s(f['i'] << 1, 12))


@pat('bl', '11110 S iiiiiiiiii 11 J 1 K jjjjjjjjjjj', 'E02')
def _(i, f):
    i1 = 1 ^ f['J'] ^ f['S']
    i2 = 1 ^ f['K'] ^ f['S']
    _branch(i, _s(f['S'] << 24 | i1 << 23 | i2 << 22 | f['i'] << 12 | f['j'] << 1, 25),
            link=True)


@pat('blx', '010001111 mmmm 000', 'E02', link=True)
@pat('bx', '010001110 mmmm 000', 'E02', link=False)
def _(i, f, link):
    k = f['m']
    i.ok = k != 15
    i.ops = [R[k]]

    def run(m, pc):
        t = m.r(k)
        if link:
            m.w(14, (pc + 2) | 1)
        return t & ~1
    i._run = run


# ---- single loads and stores

def _ldst(i, t, addr_of, size, load, signed=False):
    i.mem = (addr_of, size, load)
    if load:
        def run(m, pc):
            v = m.rm(addr_of(m, pc), size)
            if signed:
                v = sext(v, 8 * size)
            if t == 15:
                return v & ~1
            m.w(t, v)
    else:
        def run(m, pc):
            m.wm(addr_of(m, pc), m.r(t), size)
    i._run = run


for _n, _o, _sz, _ld, _sg in (
        ('str', '000', 4, 0, 0), ('strh', '001', 2, 0, 0), ('strb', '010', 1, 0, 0),
        ('ldrsb', '011', 1, 1, 1), ('ldr', '100', 4, 1, 0), ('ldrh', '101', 2, 1, 0),
        ('ldrb', '110', 1, 1, 0), ('ldrsh', '111', 2, 1, 1)):
    @pat(_n, '0101 %s mmm nnn ttt' % _o, 'E03', a=(_sz, _ld, _sg))
    def _(i, f, a):
        t, n, k = f['t'], f['n'], f['m']
        i.ops = [R[t], '[%s, %s]' % (R[n], R[k])]
        i.kind = i.mn + '.reg'
        _ldst(i, t, lambda m, pc: (m.r(n) + m.r(k)) & M32, *a)


for _n, _o, _sz, _ld, _sg in (
        ('ldrb.w', '000 001', 1, 1, 0), ('ldrh.w', '000 011', 2, 1, 0),
        ('ldr.w', '000 101', 4, 1, 0), ('ldrsb.w', '010 001', 1, 1, 1),
        ('ldrsh.w', '010 011', 2, 1, 1), ('strb.w', '000 000', 1, 0, 0),
        ('strh.w', '000 010', 2, 0, 0), ('str.w', '000 100', 4, 0, 0)):
    # 11111 00 s 0 ss l
    @pat(_n, '11111 0%s nnnn tttt 000000 ii mmmm' % _o.replace(' ', ''), 'E03',
         a=(_sz, _ld, _sg))
    def _(i, f, a):
        t, n, k, sh = f['t'], f['n'], f['m'], f['i']
        if n == 15:
            return False
        i.ok = k not in (13, 15) and t != 15 and not (t == 13 and a != (4, 1, 0)
                                                      and a != (4, 0, 0))
        if t == 15 and a == (4, 1, 0) and k not in (13, 15):
            i.ok = True
            i.prop = 'E03'
        i.ops = [R[t], '[%s, %s, LSL #%d]' % (R[n], R[k], sh)]
        i.kind = i.mn + '.reg'
        _ldst(i, t, lambda m, pc: (m.r(n) + (m.r(k) << sh)) & M32, *a)


for _n, _o, _sz, _ld in (('str', '01100', 4, 0), ('ldr', '01101', 4, 1),
                         ('strb', '01110', 1, 0), ('ldrb', '01111', 1, 1),
                         ('strh', '10000', 2, 0), ('ldrh', '10001', 2, 1)):
    @pat(_n, _o + ' iiiii nnn ttt', 'E03', a=(_sz, _ld))
    def _(i, f, a):
        t, n, k = f['t'], f['n'], f['i'] * a[0]
        im = imm_op(k, i.comments, hide=True)
        i.ops = [R[t], '[%s%s]' % (R[n], ', ' + im if im else '')]
        i.kind = i.mn + '.imm'
        _ldst(i, t, lambda m, pc: (m.r(n) + k) & M32, *a)


@pat('ldr', '01001 ttt iiiiiiii', 'E03')
def _(i, f):
    k = f['i'] * 4
    i.ops = [R[f['t']], '[pc, %s]' % imm_op(k, i.comments)]
    i.kind = 'ldr.lit'
    _ldst(i, f['t'], lambda m, pc: (((pc + 4) & ~3) + k) & M32, 4, 1)


for _n, _o, _o2, _sz, _sg in (('ldr.w', '0', '10', 4, 0), ('ldrh.w', '0', '01', 2, 0),
                              ('ldrb.w', '0', '00', 1, 0), ('ldrsh.w', '1', '01', 2, 1),
                              ('ldrsb.w', '1', '00', 1, 1)):
    @pat(_n, '1111100 %s U %s 1 1111 tttt iiiiiiiiiiii' % (_o, _o2), 'E03', a=(_sz, 1, _sg))
    def _(i, f, a):
        t = f['t']
        if t == 15:
            return False
        i.ok = not (t == 13 and a[0] != 4)
        k = f['i'] if f['U'] else -f['i']
        im = imm_op(k, i.comments, hide=True)
        i.ops = [R[t], '[pc%s]' % (', ' + im if im else '')]
        i.kind = i.mn + '.lit'
        _ldst(i, t, lambda m, pc: (((pc + 4) & ~3) + k) & M32, *a)


@pat('str', '10010 ttt iiiiiiii', 'E03', ld=0)
@pat('ldr', '10011 ttt iiiiiiii', 'E03', ld=1)
def _(i, f, ld):
    k = f['i'] * 4
    im = imm_op(k, i.comments, hide=True)
    i.ops = [R[f['t']], '[sp%s]' % (', ' + im if im else '')]
    i.kind = i.mn + '.sp'
    _ldst(i, f['t'], lambda m, pc: (m.r(13) + k) & M32, 4, ld)


# ---- stack and multiple transfers

def _regs(mask):
    return [k for k in range(16) if mask >> k & 1]


def _store_multi(i, mask, base, down, wback):
    lst = _regs(mask)
    i.mem = ('multi', lst, False)

    def run(m, pc):
        a = m.r(base)
        if down:
            a = (a - 4 * len(lst)) & M32
        if a & 3:
            return 'skip'
        vals = [m.r(k) for k in lst]
        for j, v in enumerate(vals):
            m.wm((a + 4 * j) & M32, v, 4)
        if wback:
            m.w(base, a if down else a + 4 * len(lst))
    i._run = run


def _load_multi(i, mask, base, wback):
    lst = _regs(mask)
    i.mem = ('multi', lst, True)

    def run(m, pc):
        a = m.r(base)
        if a & 3:
            return 'skip'
        vals = [m.rm((a + 4 * j) & M32, 4) for j in range(len(lst))]
        if wback:
            m.w(base, a + 4 * len(lst))
        nxt = None
        for k, v in zip(lst, vals):
            if k == 15:
                nxt = v & ~1
            else:
                m.w(k, v)
        return nxt
    i._run = run


@pat('push', '1011010 M rrrrrrrr', 'E04')
def _(i, f):
    mask = f['M'] << 14 | f['r']
    i.ok = mask != 0
    i.ops = [reglist_op(mask)]
    _store_multi(i, mask, 13, True, True)


@pat('push.w', '1110100100101101 0 M 0 rrrrrrrrrrrrr', 'E04')
def _(i, f):
    mask = f['M'] << 14 | f['r']
    i.ok = _popcount(mask) >= 2
    i.ops = [reglist_op(mask)]
    _store_multi(i, mask, 13, True, True)


@pat('push.w', '1111100001001101 tttt 1 101 00000100', 'E04')
def _(i, f):
    i.ok = f['t'] not in (13, 15)
    i.ops = [reglist_op(1 << f['t'])]
    i.kind = 'push.w.one'
    _store_multi(i, 1 << f['t'], 13, True, True)


@pat('pop', '1011110 P rrrrrrrr', 'E04')
def _(i, f):
    mask = f['P'] << 15 | f['r']
    i.ok = mask != 0
    i.ops = [reglist_op(mask)]
    _load_multi(i, mask, 13, True)


@pat('pop.w', '1110100010111101 P M 0 rrrrrrrrrrrrr', 'E04')
def _(i, f):
    mask = f['P'] << 15 | f['M'] << 14 | f['r']
    i.ok = _popcount(mask) >= 2 and not (f['P'] and f['M'])
    i.ops = [reglist_op(mask)]
    _load_multi(i, mask, 13, True)


@pat('pop.w', '1111100001011101 tttt 1 011 00000100', 'E04')
def _(i, f):
    i.ok = f['t'] != 13
    i.ops = [reglist_op(1 << f['t'])]
    i.kind = 'pop.w.one'
    _load_multi(i, 1 << f['t'], 13, True)


@pat('stm', '11000 nnn rrrrrrrr', 'E04')
def _(i, f):
    n, mask = f['n'], f['r']
    i.ok = mask != 0 and not (mask >> n & 1 and mask & ((1 << n) - 1))
    i.ops = [R[n] + '!', reglist_op(mask)]
    _store_multi(i, mask, n, False, True)


@pat('ldm', '11001 nnn rrrrrrrr', 'E04')
def _(i, f):
    n, mask = f['n'], f['r']
    wb = not mask >> n & 1
    i.ok = mask != 0
    i.ops = [R[n] + ('!' if wb else ''), reglist_op(mask)]
    _load_multi(i, mask, n, wb)


@pat('stm.w', '11101000 10 W 0 nnnn 0 M 0 rrrrrrrrrrrrr', 'E04')
def _(i, f):
    n, mask, W = f['n'], f['M'] << 14 | f['r'], f['W']
    i.ok = n != 15 and _popcount(mask) >= 2 and not (W and mask >> n & 1)
    i.ops = [R[n] + ('!' if W else ''), reglist_op(mask)]
    _store_multi(i, mask, n, False, W)


@pat('ldm.w', '11101000 10 W 1 nnnn P M 0 rrrrrrrrrrrrr', 'E04')
def _(i, f):
    n, mask, W = f['n'], f['P'] << 15 | f['M'] << 14 | f['r'], f['W']
    if W and n == 13:
        return False
    i.ok = (n != 15 and _popcount(mask) >= 2 and not (f['P'] and f['M'])
            and not (W and mask >> n & 1))
    i.ops = [R[n] + ('!' if W else ''), reglist_op(mask)]
    _load_multi(i, mask, n, W)


# ---- system

@pat('cps', '10110110011 i 00 I F', 'E05')
def _(i, f):
    i.mn = 'cpsid' if f['i'] else 'cpsie'
    i.ok = bool(f['I'] or f['F'])
    i.ops = [('i' if f['I'] else '') + ('f' if f['F'] else '')]

    def run(m, pc):
        if m.g[CONTROL] & NPRIV:
            return
        if f['I']:
            m.w(PRIMASK, f['i'])
        if f['F']:
            m.w(FAULTMASK, f['i'])
    i._run = run


@pat('mrs', '1111001111101111 1000 dddd ssssssss', 'E05')
def _(i, f):
    d, s = f['d'], f['s']
    i.ok = d not in (13, 15) and s in SPECIAL
    i.ops = [R[d], SPECIAL.get(s, '')]

    def run(m, pc):
        priv = not m.g[CONTROL] & NPRIV
        x = m.g[XPSR]
        v = 0
        if s < 8:
            if s & 1:
                v |= x & 0x1ff
            if not s & 4:
                v |= x & 0xf8000000
                if 'dsp' in m.ext:
                    v |= x & 0x000f0000
        elif s in (8, 9):
            v = m.g[MSP if s == 8 else PSP] if priv else 0
        elif s == 16:
            v = m.g[PRIMASK] if priv else 0
        elif s in (17, 18):
            v = m.g[BASEPRI] if priv else 0
        elif s == 19:
            v = m.g[FAULTMASK] if priv else 0
        elif s == 20:
            v = m.g[CONTROL] & (7 if 'fp' in m.ext else 3)
        m.w(d, v)
    i._run = run


@pat('msr', '111100111000 nnnn 1000 ww 00 ssssssss', None)
def _(i, f):
    n, s, w = f['n'], f['s'], f['w']
    i.ok = (n not in (13, 15) and s in SPECIAL and w != 0 and (w == 2 or s < 4))
    t = SPECIAL.get(s, '')
    if s < 4:
        t += {1: '_g', 2: '_nzcvq', 3: '_nzcvqg'}.get(w, '')
    i.ops = [t, R[n]]
    i._run = None


def _nop(m, pc):
    return None


for _n, _k in (('nop', 0), ('yield', 1), ('wfe', 2), ('wfi', 3), ('sev', 4)):
    @pat(_n, '10111111' + format(_k, '04b') + '0000', 'E05')
    def _(i, f):
        i._run = _nop

for _n, _k in (('dsb', '0100'), ('dmb', '0101'), ('isb', '0110')):
    @pat(_n, '1111001110111111 10001111 %s oooo' % _k, 'E05')
    def _(i, f):
        i.ops = ['sy' if f['o'] == 15 else '#%d' % f['o']]
        i._run = _nop

for _n, _k in (('bkpt', '10111110'), ('udf', '11011110'), ('svc', '11011111')):
    @pat(_n, _k + 'iiiiiiii', None)
    def _(i, f):
        i.ops = [imm_op(f['i'], i.comments)]
        i._run = None


@pat('udf.w', '111101111111 nnnn 1010 iiiiiiiiiiii', None)
def _(i, f):
    i.ops = [imm_op(f['n'] << 12 | f['i'], i.comments)]
    i._run = None


_finish()


def encode(p, fields):
    """fields: letter -> value; missing letters are zero.  -> words tuple"""
    w = p.match
    for k, bs in p.fields.items():
        v = fields.get(k, 0)
        n = len(bs)
        for j, b in enumerate(bs):
            if v >> (n - 1 - j) & 1:
                w |= 1 << b
    return (w >> 16, w & 0xffff) if p.wide else (w,)


def words_bytes(words):
    b = bytearray()
    for w in words:
        b.append(w & 0xff)
        b.append(w >> 8)
    return bytes(b)
