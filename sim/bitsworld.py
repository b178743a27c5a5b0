"""World: a pool of shared bit strings (property I03).

A history of operations by callers that share a pool of bit strings.  Each entry has a
model (width, value) of plain integers.  After every operation every entry must equal its
model: an operation that is not in-place changes nothing, an in-place one only its target,
a failing or interrupted one nothing.  Results become entries of their own, so a result
that aliases an operand is found out by later in-place operations.  A caller inside a
not-in-place operation is preempted by other callers' operations (nested), or interrupted.

  {"world": "bits", "prop": "I03", "ops": [[name, args..., ext], ...]}
  ext: {"pre": [[at, op], ...]} other operations run at statement `at` of this one
       {"irq": [at, exception]}
"""
import core
from core import Violation, SimHang, rng_for, make_exc, Ctl, HOOK

BIN = ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'shr', 'cat', 'div')
UN = ('signed', 'unsigned', 'inverted', 'reversed', 'tilde', 'binary_string', 'bytes',
      'bit_count', 'is_zero', 'is_ones', 'is_zero_bit', 'is_ones_bit', 'lowest', 'highest',
      'int', 'index', 'len', 'iter', 'bool', 'repr', 'hash', 'mask', 'copy', 'base')
CMP = ('eq', 'ne', 'lt', 'le', 'gt', 'ge')
WIDTHS = (1, 2, 3, 5, 7, 8, 12, 16, 31, 32, 32, 32, 33, 48, 64)
MAXW = 130
PY = {'add': '__add__', 'sub': '__sub__', 'mul': '__mul__', 'and': '__and__',
      'or': '__or__', 'xor': '__xor__', 'shl': '__lshift__', 'shr': '__rshift__',
      'cat': '__mod__', 'div': '__floordiv__'}


# ------------------------------------------------------------------ generator

def gen_int(r, w=32):
    k = r.random()
    if k < 0.3:
        return r.choice((0, 1, 1, 2, 3))
    if k < 0.5:
        return (1 << w) - r.randint(0, 2)
    if k < 0.65:
        return 1 << r.randrange(w)
    if k < 0.75:
        return -r.choice((1, 2, 3, 1 << (w - 1)))
    return r.getrandbits(w)


def gen_operand(r, op):
    k = r.random()
    if op in ('shl', 'shr'):
        if k < 0.9:
            return ['i', r.choice((0, 1, 2, 7, 8, 31, 32, 33, 40, 64))]
        return r.choice((['i', -1], ['o', r.randrange(64)], ['bad']))
    if k < 0.6:
        return ['o', r.randrange(64)]
    if k < 0.8:
        if op == 'cat':
            return ['i', r.choice((0, 1, 1, 0, 2))]
        if op == 'div':
            return ['i', r.choice((0, 1, 2, 3, 10, 255, 1 << 16))]
        return ['i', gen_int(r, r.choice((4, 8, 32, 40)))]
    if k < 0.94:
        w = r.choice((1, 2, 4, 8, 32))
        return ['s', format(r.getrandbits(w), '0%db' % w)]
    return ['bad']


def gen_op(r, nested=False):
    k = r.random()
    i = r.randrange(64)
    if k < 0.08:
        kind = r.choice(('int', 'intw', 'str', 'list', 'bytes', 'copy', 'zeros', 'ones'))
        w = r.choice(WIDTHS)
        v = gen_int(r, w)
        return ['new', kind, w, v, i]
    if k < 0.33:
        op = r.choice(BIN)
        return ['bin', op, i, gen_operand(r, op)]
    if k < 0.37:
        return ['rbin', r.choice(BIN[:6] + ('cat',)), abs(gen_int(r)), i]
    if k < 0.52:
        op = r.choice(BIN)
        return ['ip', op, i, gen_operand(r, op)]
    if k < 0.67:
        return ['un', r.choice(UN), i]
    if k < 0.74:
        return ['slice', i, r.randint(-3, 34), r.randint(-3, 34),
                r.choice((1, 1, 1, 1, 2, -1, 3))]
    if k < 0.78:
        return ['bit', i, r.randint(-4, 40)]
    if k < 0.82:
        return ['setbit', i, r.randint(-4, 40), r.choice((['i', r.randrange(4)],
                                                         ['o', r.randrange(64)], ['bad']))]
    if k < 0.86:
        return ['setslice', i, r.randint(0, 33), r.randint(0, 34), r.choice((1, 1, 1, 1, 2)),
                gen_operand(r, 'add')]
    if k < 0.92:
        return [r.choice(('sext', 'zext')), i, r.choice(WIDTHS + (40, 72))]
    if k < 0.96:
        return ['cmp', r.choice(CMP), i, gen_operand(r, 'add')]
    if k < 0.98:
        return ['helper', r.randrange(10), i, r.randrange(64), r.randint(1, 40)]
    return ['self', r.choice(('reverse', 'invert', 'set', 'value', 'width')), i,
            r.randrange(64)]


def generate(prop, seed, tier):
    r = rng_for('bits', prop, seed)
    ops = []
    n = r.choice((20, 60, 120)) if r.random() < 0.97 else 800
    # a small pool raises the chance that operands are shared
    size = r.choice((3, 6, 12))
    for _ in range(size):
        w = r.choice(WIDTHS)
        ops.append(['new', r.choice(('str', 'intw', 'list')), w, gen_int(r, w), 0, {}])
    p_dist = r.choice((0, 0.15, 0.5))
    weights = r.random()
    for _ in range(n):
        op = gen_op(r)
        if weights < 0.3 and op[0] not in ('bin', 'ip', 'un', 'slice', 'sext', 'zext') \
                and r.random() < 0.7:
            continue
        ext = {}
        if r.random() < p_dist:
            if r.random() < 0.6:
                ext['pre'] = [[r.randint(1, 25), gen_op(r, True)]
                              for _ in range(r.choice((1, 1, 2)))]
            else:
                ext['irq'] = [r.randint(1, 25), r.choice(core.IRQ_NAMES)]
        ops.append(op + [ext])
    return {'world': 'bits', 'prop': prop, 'pool': size + r.choice((2, 6, 20)), 'ops': ops}


# ----------------------------------------------------------------------- model

def msk(w):
    return (1 << w) - 1


def sgn(w, v):
    return v - (1 << w) if w and v >> (w - 1) & 1 else v


NOJUDGE = object()
FAILS = object()


class Bad(object):
    """something no bit-string operation accepts"""


class BitsRun(object):
    def __init__(self, sc, pkg, stats, digest):
        self.sc, self.stats, self.dig = sc, stats, digest
        self.P = pkg
        self.bs = pkg.bitstring.bitstring
        self.sigs = set()
        self.known = {}
        self.objs = [pkg.bitstring.bit0, pkg.bitstring.bit1]     # shared constants
        self.model = [[1, 0], [1, 1]]
        self.locked = {0, 1}
        self.opno = -1

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def fail(self, kind, detail):
        raise Violation(kind, detail, op=self.opno)

    def ix(self, i):
        return i % len(self.objs)

    def target(self, i):
        """an entry that may be changed in place: never a module constant, nor an operand
        of an operation in progress"""
        free = [k for k in range(len(self.objs)) if k not in self.locked]
        return free[i % len(free)] if free else None

    def operand(self, o):
        """-> (actual operand, (kind, width, value))"""
        if o[0] == 'o':
            j = self.ix(o[1])
            return self.objs[j], ('o', self.model[j][0], self.model[j][1], j)
        if o[0] == 'i':
            return o[1], ('i', None, o[1], None)
        if o[0] == 's':
            return o[1], ('s', len(o[1]), int(o[1], 2), None)
        return Bad(), ('bad', None, None, None)

    def check_pool(self, what):
        for k, (o, (w, v)) in enumerate(zip(self.objs, self.model)):
            if o.width != w or o.unsigned != v:
                self.fail('value-changed', '%s: entry %d is now %d bits %#x, should be '
                          '%d bits %#x' % (what, k, o.width, o.unsigned, w, v))
            if o.unsigned >> o.width or o.unsigned < 0:
                self.fail('value-exceeds-width', '%s: %#x in %d bits' % (
                    what, o.unsigned, o.width))

    def add(self, obj, w, v):
        if len(self.objs) < self.sc['pool'] + 2:
            self.objs.append(obj)
            self.model.append([w, v])
        else:
            free = [k for k in range(2, len(self.objs)) if k not in self.locked]
            if free:
                k = free[(self.opno * 7) % len(free)]
                self.objs[k] = obj
                self.model[k] = [w, v]

    # ---- running one operation, disturbed or not

    def guarded(self, fn, ext, depth):
        c = Ctl()
        pre = sorted(ext.get('pre', ()), key=lambda x: x[0])
        irq = ext.get('irq')
        state = [0, False]

        def nxt():
            n = 3000000
            if state[0] < len(pre):
                n = min(n, pre[state[0]][0])
            if irq and not state[1]:
                n = min(n, irq[0])
            c.next = n

        def fire(c):
            if c.n >= 3000000:
                c.next = c.n + 1000
                raise SimHang('statement budget exceeded')
            if irq and not state[1] and c.n >= irq[0]:
                state[1] = True
                nxt()
                self.count('fault.irq.' + irq[1])
                raise make_exc(irq[1])
            while state[0] < len(pre) and pre[state[0]][0] <= c.n:
                k = state[0]
                state[0] += 1
                nxt()
                self.count('fault.preempt')
                outer = HOOK.cur
                HOOK.cur = Ctl()
                try:
                    self.one(pre[k][1] + [{}], depth + 1)
                finally:
                    HOOK.cur = outer
        c.fire = fire
        nxt()
        outer = HOOK.cur
        HOOK.cur = c
        try:
            try:
                return fn(), None, state[1]
            except Violation:
                raise
            except BaseException as e:
                return None, e, state[1]
        finally:
            HOOK.cur = outer
            self.count('statements', c.n)

    def one(self, op, depth=0):
        ext = op[-1]
        getattr(self, 'op_' + op[0])(op, ext, depth)

    def pure(self, op, ext, depth, used, fn, want, what, sig=()):
        """A not-in-place operation.  want: NOJUDGE, FAILS, or ('bs', w, v) / ('val', x)"""
        added = set(used) - self.locked
        self.locked |= added
        try:
            v, e, irq = self.guarded(fn, ext, depth)
        finally:
            self.locked -= added
        if isinstance(e, SimHang):
            self.fail('hang', what)
        if irq and e is not None and e.args == ('injected',):
            self.sigs.add((op[0], 'irq') + sig)
            self.check_pool('%s, interrupted' % what)
            return
        self.sigs.add((op[0], bool(ext), depth) + sig)
        if e is None and isinstance(v, self.bs) and not 0 <= v.unsigned < 1 << v.width:
            self.fail('too-wide', '%s: gives %#x in %d bits' % (what, v.unsigned, v.width))
        if want is FAILS:
            self.count('fault.bad_operand')
            if e is None:
                self.check_pool(what)
                return              # which operands are refused is not judged
        elif e is not None:
            if want is not NOJUDGE:
                self.fail('operation-raises', '%s: %r' % (what, e))
            self.check_pool(what)
            return
        elif want is not NOJUDGE:
            if want[0] == 'bs':
                if not isinstance(v, self.bs):
                    self.fail('wrong-result', '%s: %r' % (what, v))
                if (v.width, v.unsigned) != want[1:]:
                    self.fail('wrong-result', '%s: got %d bits %#x, want %d bits %#x' % (
                        what, v.width, v.unsigned, want[1], want[2]))
                self.add(v, want[1], want[2])
            elif want[0] == 'in':
                if v not in want[1]:
                    self.fail('wrong-result', '%s: got %r' % (what, v))
            elif v != want[1] or type(v) is bool and want[1] is not v:
                self.fail('wrong-result', '%s: got %r, want %r' % (what, v, want[1]))
        elif isinstance(v, self.bs) and not any(v is o for o in self.objs):
            pass
        self.dig.add(what, repr(want) if not (want is NOJUDGE or want is FAILS) else '')
        self.check_pool(what)

    def inplace(self, op, depth, t, fn, want, what, sig=()):
        """An in-place operation on entry t.  want: FAILS, NOJUDGE or (w, v)"""
        v, e, _ = self.guarded(fn, {}, depth)
        if isinstance(e, SimHang):
            self.fail('hang', what)
        self.sigs.add((op[0], depth) + sig)
        if want is FAILS:
            self.count('fault.bad_operand')
            if e is None and (self.objs[t].width, self.objs[t].unsigned) != \
                    tuple(self.model[t]):
                # accepted after all: not judged, but nothing else may change
                self.model[t] = [self.objs[t].width, self.objs[t].unsigned]
        elif want is NOJUDGE:
            self.model[t] = [self.objs[t].width, self.objs[t].unsigned]
        else:
            if e is not None:
                self.fail('operation-raises', '%s: %r' % (what, e))
            self.model[t] = list(want)
        self.dig.add(what, repr(self.model[t]))
        self.check_pool(what)

    # ---- operations

    def op_new(self, op, ext, depth):
        _n, kind, w, v, i, _e = op
        B = self.bs
        m = v & msk(w)
        used = ()
        if kind == 'int':
            fn, want = (lambda: B(v)), ('bs', 64 if v >= 1 << 32 else 32,
                                        v & msk(64 if v >= 1 << 32 else 32))
        elif kind == 'intw':
            fn, want = (lambda: B(v, w)), ('bs', w, m)
        elif kind == 'str':
            s = format(m, '0%db' % w)
            fn, want = (lambda: B(s)), ('bs', w, m)
        elif kind == 'list':
            l = [int(c) for c in format(m, '0%db' % w)]
            fn, want = (lambda: B(l)), ('bs', w, m)
        elif kind == 'bytes':
            n = (w + 7) // 8
            b = bytearray((m >> (8 * k)) & 255 for k in range(n))
            fn, want = (lambda: B(b)), ('bs', 8 * n, m)
        elif kind == 'copy':
            i = self.ix(i)
            o, used = self.objs[i], (i,)
            fn, want = (lambda: B(o)), ('bs',) + tuple(self.model[i])
        elif kind == 'zeros':
            fn, want = (lambda: self.P.bitstring.zeros(w)), ('bs', w, 0)
        else:
            fn, want = (lambda: self.P.bitstring.ones(w)), ('bs', w, msk(w))
        self.pure(op, ext, depth, used, fn, want, 'new %s %d %#x' % (kind, w, v), (kind, w))

    def value_of(self, op, w, v, od):
        """model of: (w, v) op operand"""
        k, ow, ov, _j = od
        if k == 'bad':
            return FAILS
        if op in ('shl', 'shr'):
            if k != 'i' or ov < 0:
                return FAILS
            return (w, (v << ov if op == 'shl' else v >> ov) & msk(w))
        if op == 'cat':
            if k == 'i':
                if ov not in (0, 1):
                    return FAILS
                return (w + 1, v << 1 | ov)
            return (w + ow, v << ow | ov)
        if op == 'div':
            if ov == 0:
                return FAILS
            if ov < 0:
                return NOJUDGE
            return (w, v // ov & msk(w))
        if op in ('or', 'xor') and k == 'o':
            nw = max(w, ow)
        else:
            nw = w
        x = {'add': v + ov, 'sub': v - ov, 'mul': v * ov, 'and': v & ov, 'or': v | ov,
             'xor': v ^ ov}[op]
        return (nw, x & msk(nw))

    def apply(self, op, a, b):
        if op == 'add':
            return a + b
        if op == 'sub':
            return a - b
        if op == 'mul':
            return a * b
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shl':
            return a << b
        if op == 'shr':
            return a >> b
        if op == 'cat':
            return a % b
        return a // b

    def op_bin(self, op, ext, depth):
        _n, o, i, oper, _e = op
        i = self.ix(i)
        w, v = self.model[i]
        b, od = self.operand(oper)
        want = self.value_of(o, w, v, od)
        if type(want) is tuple:
            if want[0] > MAXW:
                return
            want = ('bs',) + want
        a = self.objs[i]
        used = (i,) if od[3] is None else (i, od[3])
        rel = 'same' if od[3] == i else od[0] if od[0] != 'o' else \
            (od[1] > w) - (od[1] < w)
        self.pure(op, ext, depth, used, lambda: self.apply(o, a, b), want,
                  '%d bits %#x %s %r' % (w, v, o, od[:3]), (o, rel, min(w, 65) // 16))

    def op_rbin(self, op, ext, depth):
        _n, o, x, i, _e = op
        i = self.ix(i)
        w, v = self.model[i]
        a = self.objs[i]
        lw = 64 if x >= 1 << 32 else 32
        want = self.value_of(o, lw, x & msk(lw), ('o', w, v, i))
        if type(want) is tuple:
            if want[0] > MAXW:
                return
            want = ('bs',) + want
        self.pure(op, ext, depth, (i,), lambda: self.apply(o, x, a), want,
                  '%d %s %d bits %#x' % (x, o, w, v), (o,))

    def op_ip(self, op, ext, depth):
        _n, o, i, oper, _e = op
        t = self.target(i)
        if t is None:
            return
        w, v = self.model[t]
        b, od = self.operand(oper)
        want = self.value_of(o, w, v, od)
        if type(want) is tuple and want[0] > MAXW:
            return
        a = self.objs[t]

        def fn():
            x = a
            if o == 'add':
                x += b
            elif o == 'sub':
                x -= b
            elif o == 'mul':
                x *= b
            elif o == 'and':
                x &= b
            elif o == 'or':
                x |= b
            elif o == 'xor':
                x ^= b
            elif o == 'shl':
                x <<= b
            elif o == 'shr':
                x >>= b
            elif o == 'cat':
                x %= b
            else:
                x //= b
            if want is not FAILS and want is not NOJUDGE and x is not a:
                self.fail('not-in-place', '%s= returned another object' % o)
        rel = 'same' if od[3] == t else od[0] if od[0] != 'o' else \
            (od[1] > w) - (od[1] < w)
        self.inplace(op, depth, t, fn, want, 'entry %d: %d bits %#x %s= %r' % (
            t, w, v, o, od[:3]), (o, rel, min(w, 65) // 16))

    def op_un(self, op, ext, depth):
        _n, u, i, _e = op
        i = self.ix(i)
        w, v = self.model[i]
        a = self.objs[i]
        bits = [(v >> k) & 1 for k in range(w)]
        s = ''.join(str(b) for b in reversed(bits))
        want = NOJUDGE
        if u == 'signed':
            fn = lambda: a.signed
            # one bit: cmdis says 0, two's complement -1 for a set bit
            want = ('val', sgn(w, v)) if w > 1 else ('in', (0, -v))
        elif u == 'unsigned':
            fn, want = (lambda: a.unsigned), ('val', v)
        elif u == 'inverted':
            fn, want = (lambda: a.inverted), ('bs', w, v ^ msk(w))
        elif u == 'tilde':
            fn, want = (lambda: ~a), ('bs', w, v ^ msk(w))
        elif u == 'reversed':
            fn = lambda: a.reversed
            if w:
                want = ('bs', w, int(s[::-1], 2))
        elif u == 'binary_string':
            fn, want = (lambda: a.binary_string), ('val', s)
        elif u == 'bytes':
            fn = lambda: bytes(a.bytes)
            want = ('val', v.to_bytes((w + 7) // 8, 'little'))
        elif u == 'bit_count':
            fn, want = (lambda: a.bit_count()), ('val', s.count('1'))
        elif u == 'is_zero':
            fn, want = (lambda: a.is_zero()), ('val', v == 0)
        elif u == 'is_ones':
            fn, want = (lambda: a.is_ones()), ('val', v == msk(w))
        elif u == 'is_zero_bit':
            fn, want = (lambda: a.is_zero_bit()), ('bs', 1, int(v == 0))
        elif u == 'is_ones_bit':
            fn, want = (lambda: a.is_ones_bit()), ('bs', 1, int(v == msk(w)))
        elif u == 'lowest':
            fn = lambda: a.lowest_set_bit()
            want = ('val', bits.index(1) if v else w)
        elif u == 'highest':
            fn, want = (lambda: a.highest_set_bit()), ('val', v.bit_length() - 1)
        elif u == 'int':
            fn, want = (lambda: int(a)), ('val', v)
        elif u == 'index':
            fn, want = (lambda: a.__index__()), ('val', v)
        elif u == 'len':
            fn, want = (lambda: len(a)), ('val', w)
        elif u == 'iter':
            fn, want = (lambda: list(a)), ('val', bits)
        elif u == 'bool':
            fn, want = (lambda: bool(a)), ('val', v != 0)
        elif u == 'repr':
            fn = lambda: repr(a)
        elif u == 'hash':
            fn = lambda: hash(a) == hash(self.bs(a))
            want = ('val', True)
        elif u == 'mask':
            fn, want = (lambda: a.mask), ('val', msk(w))
        elif u == 'copy':
            fn, want = (lambda: self.bs(a)), ('bs', w, v)
        else:
            fn = lambda: a.base_string(16)
        self.pure(op, ext, depth, (i,), fn, want, '%s of %d bits %#x' % (u, w, v),
                  (u, min(w, 65) // 16))

    def op_slice(self, op, ext, depth):
        _n, i, x, y, st, _e = op
        i = self.ix(i)
        w, v = self.model[i]
        a = self.objs[i]
        rng = range(*slice(x, y, st).indices(w))
        val = 0
        for k, b in enumerate(rng):
            val |= ((v >> b) & 1) << k
        self.pure(op, ext, depth, (i,), lambda: a[x:y:st], ('bs', len(rng), val),
                  '[%d:%d:%d] of %d bits %#x' % (x, y, st, w, v), (st, len(rng) > 0))

    def op_bit(self, op, ext, depth):
        _n, i, k, _e = op
        i = self.ix(i)
        w, v = self.model[i]
        a = self.objs[i]
        want = NOJUDGE
        if -w <= k < w:
            want = ('bs', 1, (v >> (k if k >= 0 else w + k)) & 1)
        fn, how = (lambda: a[k]), 'bit'
        form = (7 * k + w + i) % 4
        if form == 1:
            fn, how = (lambda: a.get_bit(k)), 'get_bit'
        elif form == 2 and k >= 0:
            fn, how = (lambda: a.get_bit_value(k)), 'get_bit_value'
            want = ('val', (v >> k) & 1)
        self.pure(op, ext, depth, (i,), fn, want, '%s [%d] of %d bits %#x' % (how, k, w, v),
                  (k < 0, k < w, how))

    def op_setbit(self, op, ext, depth):
        _n, i, k, oper, _e = op
        t = self.target(i)
        if t is None:
            return
        w, v = self.model[t]
        a = self.objs[t]
        b, od = self.operand(oper)
        want = FAILS
        if od[0] != 'bad' and (od[0] == 'i' or od[1] == 1) and k < w:
            if k >= -w:
                p = k if k >= 0 else w + k
                want = (w, v & ~(1 << p) | (od[2] & 1) << p)

        def fn():
            a[k] = b
        self.inplace(op, depth, t, fn, want, 'entry %d[%d] = %r' % (t, k, od[:3]),
                     (k < 0, k < w, od[0]))

    def op_setslice(self, op, ext, depth):
        _n, i, x, y, st, oper, _e = op
        t = self.target(i)
        if t is None:
            return
        w, v = self.model[t]
        a = self.objs[t]
        b, od = self.operand(oper)
        s, e, _q = slice(x, y, st).indices(w)
        want = FAILS
        if st == 1 and od[0] != 'bad':
            if e < s:
                want = NOJUDGE
            else:
                m = msk(e - s) << s
                val = od[2]
                if od[0] == 'i':
                    val &= msk(64 if val >= 1 << 32 else 32)
                want = (w, v & ~m | (val << s) & m)

        def fn():
            if st == 1:
                a[x:y] = b
            else:
                a[x:y:st] = b
        self.inplace(op, depth, t, fn, want, 'entry %d[%d:%d:%d] = %r' % (
            t, x, y, st, od[:3]), (st, od[0], want is FAILS))

    def ext_op(self, op, ext, depth, signed):
        _n, i, nw, _e = op
        i = self.ix(i)
        w, v = self.model[i]
        a = self.objs[i]
        if nw < w:
            want = FAILS
        elif w == 0:
            want = NOJUDGE
        else:
            want = ('bs', nw, (sgn(w, v) if signed else v) & msk(nw))
        self.pure(op, ext, depth, (i,),
                  (lambda: a.sign_extend(nw)) if signed else (lambda: a.zero_extend(nw)),
                  want, '%s %d bits %#x to %d' % (op[0], w, v, nw), ((nw > w) - (nw < w),))

    def op_sext(self, op, ext, depth):
        self.ext_op(op, ext, depth, True)

    def op_zext(self, op, ext, depth):
        self.ext_op(op, ext, depth, False)

    def op_cmp(self, op, ext, depth):
        _n, c, i, oper, _e = op
        i = self.ix(i)
        w, v = self.model[i]
        a = self.objs[i]
        b, od = self.operand(oper)
        k, ow, ov, j = od
        want = NOJUDGE
        if k == 'i':
            x = sgn(w, v) if ov < 0 else v
            if ov >= 0 or w > 1:
                want = {'eq': x == ov, 'ne': x != ov, 'lt': x < ov, 'le': x <= ov,
                        'gt': x > ov, 'ge': x >= ov}[c]
        elif k in 'os':
            p, q = (v, w), (ov, ow)
            want = {'eq': p == q, 'ne': p != q, 'lt': p < q, 'le': p <= q,
                    'gt': p > q, 'ge': p >= q}[c]
        if want is not NOJUDGE:
            want = ('val', want)

        def fn():
            return {'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b,
                    'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b}[c]()
        self.pure(op, ext, depth, (i,) if j is None else (i, j), fn, want,
                  '%d bits %#x %s %r' % (w, v, c, od[:3]), (c, k))

    def op_helper(self, op, ext, depth):
        """architecture helpers that take bit strings: no operand may change"""
        _n, h, i, j, n, _e = op
        i, j = self.ix(i), self.ix(j)
        a, b = self.objs[i], self.objs[j]
        H, one = self.P.helpers, self.objs[n % 2]
        (wa, va), (wb, vb) = self.model[i], self.model[j]
        S = H.SRType
        fns = [lambda: H.AddWithCarry(a, b, one), lambda: H.LSL_C(a, n),
               lambda: H.LSR_C(a, n), lambda: H.ASR_C(a, n), lambda: H.ROR_C(a, n),
               lambda: H.RRX_C(a, one), lambda: H.ThumbExpandImm_C(a, one),
               lambda: H.Shift_C(a, S.SRType_LSL, n - 1, one),
               lambda: H.Align(a, 4), lambda: H.DecodeImmShift('01', a)]
        self.pure(op, ext, depth, (i, j, n % 2), fns[h], NOJUDGE, 'helper %d' % h, (h,))

    def op_self(self, op, ext, depth):
        _n, what, i, j, _e = op
        t = self.target(i)
        if t is None:
            return
        j = self.ix(j)
        w, v = self.model[t]
        a, b = self.objs[t], self.objs[j]
        if what == 'reverse':
            fn = a.reverse
            want = (w, int(format(v, '0%db' % w)[::-1], 2)) if w else NOJUDGE
        elif what == 'invert':
            fn, want = a.invert, (w, v ^ msk(w))
        elif what == 'set':
            fn, want = (lambda: a.set(b)), tuple(self.model[j])
        elif what == 'value':
            def fn():
                a.value = 0x1a5a5a5a5
            want = (w, 0x1a5a5a5a5 & msk(w))
        else:
            nw = WIDTHS[j % len(WIDTHS)]

            def fn():
                a.width = nw
            want = (nw, v & msk(nw))
        self.inplace(op, depth, t, fn, want, 'entry %d %s' % (t, what), (what,))

    def run(self):
        for k, op in enumerate(self.sc['ops']):
            self.opno = k
            self.count('ops')
            self.one(op)


def make(sc, pkg, stats, digest):
    return BitsRun(sc, pkg, stats, digest)


def fresh(root):
    return core.Package(root)
