"""World: interactive console sessions (properties C01, C02, C03).

  {"world": "cons", "prop": P, "img": IMAGE, "args": [...], "lines": [LINE, ...]}
IMAGE: null (no image argument) | {"hex": h} | {"n": length, "seed": s, "sp": v, "pc": v}
       with optional "err": [where, exception]   opening or reading it fails
LINE:  [[command, ...], ext]     commands are joined with semicolons; no command: empty line
       ext: {"irq": permille}    Ctrl-C inside the line, {"prompt": n} n times Ctrl-C at the
       prompt first, {"flt": [kind, permille, mode, exception]} a target access fails,
       {"pad": text} spaces around the line
COMMAND (plain data, rendered to text by render()):
  ["reg", name|null] ["name", name] ["wreg", name, V] ["reset", extra]
  ["read", alias, width, V, V|null] ["write", alias, width, V, [V...]]
  ["step", alias] ["dis", alias, center, V|null, V|null] ["log", level]
  ["py", text, kind, ...] ["help", ..] ["bad", text] ["exit", word] ["misc", text]
V: ["n", value, notation] ["r", name] ["d", V, offset|null]
The session runs the console's own main() with simulated standard input, output, image
file and target; end of input comes after the last line.
"""
import builtins
import importlib
import io
import logging
import os
import re
import sys
import zlib

from greenlet import greenlet, getcurrent

import core
import execgen
import ref
from core import (rng_for, make_exc, Violation, SimHang, Ctl, HOOK, value32)
from execworld import REGS, between, diff_state

RAM = 0x1fff8000
ERRS = ['SimBusFault', 'SimTargetLost', 'OSError', 'KeyError', 'ValueError', 'TimeoutError',
        'MemoryError', 'RuntimeError', 'TypeError', 'EOFError', 'AssertionError',
        'ZeroDivisionError', 'NotImplementedError']

ALIASES = {8: ('read8', 'read', 'r', 'rb'), 16: ('read16', 'r16', 'rh'),
           32: ('read32', 'r32', 'rw')}
WALIASES = {8: ('write8', 'write', 'w', 'wb'), 16: ('write16', 'w16', 'wh'),
            32: ('write32', 'w32', 'ww')}
LEVELS = {'debug': 10, 'info': 20, 'warning': 30, 'error': 40, 'critical': 50}
NAMES = sorted(ref.INDEX_OF)
TABLE = ['r0', 'r1', 'r2', 'r3', 'r4', 'r5', 'r6', 'r7', 'r8', 'r9', 'r10', 'r11', 'r12',
         'sp', 'lr', 'pc', 'msp', 'psp', 'xpsr', 'control', 'primask', 'faultmask', 'basepri']


# ------------------------------------------------------------------- rendering

def render_value(v):
    if v[0] == 'n':
        n, how = v[1], v[2]
        s = '-' if n < 0 else ''
        a = abs(n)
        if how == 'x':
            return s + '0x%x' % a
        if how == 'X':
            return s + '0X%X' % a
        if how == '_':
            h = '%08x' % a
            return s + '0x' + h[:-4] + '_' + h[-4:]
        if how == 'b':
            return s + bin(a)
        if how == 'o':
            return s + oct(a)
        return s + str(a)
    if v[0] == 'r':
        return v[1]
    inner = render_value(v[1])
    if v[2] is None:
        return '[%s]' % inner
    return '[%s,%s]' % (inner, render_value(v[2]))


def render(c):
    k = c[0]
    if k == 'reg':
        return 'reg' if c[1] is None else 'reg ' + c[1]
    if k == 'name':
        return c[1]
    if k == 'wreg':
        return 'wreg %s %s' % (c[1], render_value(c[2]))
    if k == 'reset':
        return 'reset' + c[1]
    if k == 'read':
        return ' '.join([c[1], render_value(c[3])] + ([render_value(c[4])] if c[4] else []))
    if k == 'write':
        return ' '.join([c[1], render_value(c[3])] + [render_value(x) for x in c[4]])
    if k == 'step':
        return c[1]
    if k == 'dis':
        a = [c[1]] + ([c[2]] if c[2] else [])
        if c[3]:
            a.append(render_value(c[3]))
            if c[4]:
                a.append(render_value(c[4]))
        return ' '.join(a)
    if k == 'log':
        return 'log ' + c[1]
    return c[1]


# ------------------------------------------------------------------- generator

class Gen(object):
    def __init__(self, prop, seed, tier):
        self.prop = prop
        self.r = rng_for('cons', prop, seed)

    def image(self):
        r = self.r
        P = self.prop
        k = r.random()
        if k < (0.1 if P != 'C03' else 0.12):
            return None
        img = {'seed': r.randrange(1000)}
        if P == 'C03':
            n = r.choice((0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 100, 1000, 0xffff, 0x10000,
                          0x10001, 0x10002, 0x12345, r.randrange(70000)))
        else:
            n = r.choice((0x40, 0x100, 0x200, 0x400))
        img['n'] = n
        z = r.random()
        if z < 0.45:
            sp = RAM + 4 * r.randrange(1, 0x3000)
        elif z < 0.6:
            sp = RAM + r.choice((4, 0x10000, 0x10004, 0x20000, 0x0fffc, 0x10001, 2, 3, 5, 0))
        elif z < 0.75:
            sp = r.choice((0, 1, 4, 8, 0x100, 0x10000, 0x10004, 0x40000 if n > 0x12000 else 2))
        elif z < 0.8:
            sp = r.choice((0x20080000, 0x20100000))
        else:
            sp = r.choice((0x1fff7ffc, 0x10000000, 0x1000, 0xc, 0x1fff8001))
        z = r.random()
        if z < 0.6:
            pc = (8 + 2 * r.randrange(max(1, min(n, 0x400) // 2))) | r.choice((0, 1, 1))
        elif z < 0.7:
            pc = RAM + 2 * r.randrange(0x200) + 1
        else:
            pc = r.choice((0, 1, 0xffff, 0x10000, 0x10001, 0xffffffff, 0x08000001, 0x1fff7fff,
                           0x12344, n & ~1, n | 1, RAM + 0xffff, RAM + 0x10000))
        img['sp'], img['pc'] = sp, pc
        if P == 'C03' and r.random() < 0.15:
            img['err'] = [r.choice(('open', 'open', 'read', 'read', 'missing')),
                          r.choice(('OSError', 'OSError', 'TimeoutError', 'MemoryError',
                                    'KeyboardInterrupt'))]
            if img['err'][0] == 'open':
                img['err'][1] = 'OSError'
        return img

    # -- values

    def num(self, n):
        return ['n', n, self.r.choice('xxxxdXb_o')]

    def offset(self):
        r = self.r
        return ['n', r.choice((0, 4, 8, 1, -4, 12, -8, 0x20, -1, -2, 3, -3, 6, -6, -0x20, 0x100,
                               r.randint(-40, 40))), r.choice('xxdddbo')]

    def case(self, s):
        return s if self.r.random() < 0.85 else s.upper()

    def regname(self, any_=False):
        r = self.r
        if any_ or r.random() < 0.2:
            return self.case(r.choice(NAMES))
        return self.case(r.choice(('r0', 'r1', 'r2', 'r3', 'r4', 'r7', 'r8', 'r12')))

    def addr(self, size=4):
        """an address value"""
        r = self.r
        k = r.random()
        if k < 0.35:
            a = r.choice((RAM, RAM + 0x100, 0x20000000)) + r.randrange(0x60)
        elif k < 0.6:
            a = r.randrange(0x80)
        elif k < 0.68:
            a = r.choice((0, 4, 8))
        elif k < 0.76:
            a = r.choice((0x10000, RAM + 0x10000)) - r.randint(0, 8)
        elif k < 0.8:
            a = r.choice((RAM - 2, 0x40000000, 0xfffffffc, 0x10000, -4, 1 << 32))
        elif k < 0.92:
            return ['r', self.regname()]
        else:
            return self.deref(.7)
        if r.random() < 0.6:
            a &= ~(size - 1)
        return self.num(a)

    def deref(self, p):
        r = self.r
        return ['d', self.simple(), self.offset() if r.random() < p else None]

    def simple(self):
        r = self.r
        if r.random() < 0.5:
            return ['r', self.regname()]
        return self.num(r.choice((0, 4, 8, 0x10, RAM, RAM + 4, RAM + 0x10,
                                  RAM + r.randrange(0x60))))

    def data(self, width):
        r = self.r
        k = r.random()
        if k < 0.85:
            v = value32(r) & ((1 << width) - 1)
            return self.num(v)
        if width == 32:
            if k < 0.91:
                return ['r', self.regname(True)]
            return self.deref(.7)
        if width == 16 and k < 0.9:
            return ['n', -r.randint(1, 5), 'd']
        return self.num(r.getrandbits(width))

    # -- commands

    def command(self):
        r = self.r
        k = r.random()
        w = r.choice((8, 16, 32))
        if k < 0.09:
            return ['reg', None] if r.random() < .3 else ['reg', self.regname(True)]
        if k < 0.14:
            return ['name', self.regname(True)]
        if k < 0.28:
            n = self.regname(r.random() < 0.4)
            v = self.data(32)
            i = ref.INDEX_OF[n.lower()]
            if i in (13, 17, 18) and r.random() < .7:
                v = self.num(RAM + 4 * r.randrange(0x200))
            elif i == -4:
                v = self.num(r.randrange(4))
            elif i == 15:
                v = self.num(r.choice((2 * r.randrange(0x80), 2 * r.randrange(0x80) + 1, RAM)))
            elif r.random() < 0.35:
                v = self.num(r.choice((RAM, RAM + 0x100, 0, 0x10)) + r.randrange(0x40))
            elif r.random() < 0.1:
                v = self.num(r.choice((-1, -5, 1 << 32, (1 << 33) + 7)))
            return ['wreg', n, v]
        if k < 0.42:
            ln = None
            if r.random() < 0.7:
                ln = self.num(r.choice((0, 1, 2, 3, 4, 6, 7, 8, 12, 16, 17, 20, 32, 33, 40, 64,
                                       65, 70, 130, r.randrange(300), r.choice((256, 257, 1000, 4096)))))
            return ['read', self.case(r.choice(ALIASES[w])), w, self.addr(w // 8), ln]
        if k < 0.58:
            return ['write', self.case(r.choice(WALIASES[w])), w, self.addr(w // 8),
                    [self.data(w) for _ in range(r.choice((1, 1, 1, 2, 2, 3, 3, 5, 8, 17, 40)))]]
        if k < 0.74:
            return ['step', self.case(r.choice(('step', 's', 's')))]
        if k < 0.84:
            a = l = None
            if r.random() < 0.85:
                a = self.addr(2)
                if r.random() < 0.8:
                    l = self.num(r.choice((0, 1, 2, 3, 4, 5, 6, 8, 12, 20, 30, 150)))
            return ['dis', self.case(r.choice(('disasm', 'd'))),
                    r.choice((None, None, None, '-c', '--center')), a, l]
        if k < 0.88:
            return ['reset', r.choice(('', '', ' -h', ' --halt'))]
        if k < 0.905:
            return ['log', self.case(r.choice(sorted(LEVELS)))]
        if k < 0.935:
            return self.python()
        if k < 0.95:
            return ['misc', r.choice(('help', '?', 'info', 'i', 'HELP', 'help step', 'map',
                                      'help nosuch'))]
        return ['bad', self.bad()]

    def counted(self):
        """a length, or an address, that is held by a register or a word of memory"""
        r = self.r
        n = r.choice((0, 1, 2, 4, 5, 8, 12, 16, 33))
        if r.random() < 0.5:
            reg = 'r%d' % r.randrange(13)
            out = ['wreg', reg, self.num(n)]
            v = ['r', self.case(reg)]
        else:
            a, o = RAM + 0x30 + r.randrange(0x60), self.offset()
            out = ['write', 'w32', 32, self.num(a + o[1]), [self.num(n)]]
            v = ['d', self.num(a), o]
        w = r.choice((8, 16, 32))
        if r.random() < 0.7:
            return [out, ['read', self.case(r.choice(ALIASES[w])), w, self.addr(w // 8), v]]
        return [out, ['dis', 'd', r.choice((None, '-c')), self.addr(2), v]]

    def python(self):
        r = self.r
        k = r.randrange(6)
        sp = r.choice(('', '', ' '))
        n = r.randrange(13)
        a = r.choice((0x10, RAM, RAM + 8))
        if k == 0:
            return ['py', '$%scpu.r[%d].unsigned' % (sp, n), 'reg', n]
        if k == 1:
            return ['py', '$%scpu.read32(%#x).unsigned' % (sp, a), 'mem', a]
        if k == 2:
            v = r.getrandbits(32)
            return ['py', '$%scpu.write32(%#x, %#x)' % (sp, a, v), 'wmem', a, v]
        if k == 3:
            v = r.getrandbits(32)
            return ['py', '$%scpu.write_register("r%d", %#x)' % (sp, n, v), 'wreg', n, v]
        if k == 4:
            v = r.getrandbits(31)
            return ['py', '$%s%d + 1' % (sp, v), 'val', v + 1]
        return ['py', '$' + sp + r.choice(('1/0', 'cpu.nosuch', 'nosuch', 'x = 1', '(', '')),
                'err']

    def bad(self):
        r = self.r
        a = render_value(self.addr())
        n = self.regname()
        return r.choice((
            'frobnicate', 'wreg', 'wreg ' + n, 'wreg nosuch 1', 'wreg %s zz' % n, 'read',
            'read zz', 'read8 0x', 'r16 [', 'rw []', 'write', 'write ' + a, 'w %s zz' % a,
            'w %s 1 2 zz' % a, 'w %s 256' % a, 'w %s -1' % a, 'w16 %s 1 2 oops' % a,
            'w32 %s 1 [zz]' % a, 'w32 %s 1 [r0,zz]' % a, 'reg nosuch', 'disasm --nosuch',
            'disasm zz', 'd 0 zz', 'd -x 0', 'd --center=3 0', 'log', 'log loud', 'read 0 zz',
            'status', 'wreg %s [r0' % n, 'w32 zz 1', 'wreg %s 0b12' % n, 'wreg %s 09' % n,
            'wreg %s _' % n, 'rw [r0,1,2]', 'steps', 'r17', 'write8 %s 0x100 1' % a,
            'w %s 1 2 3 300' % a, 'exitnow', '.', '\x00', 'wreg %s 1e3' % n, 'd -c -c -q'))

    def line(self):
        r = self.r
        k = r.random()
        n = 0 if k < 0.1 else 1 if k < 0.7 else r.choice((2, 2, 3, 4))
        cmds = [self.command() for _ in range(n)]
        if n and r.random() < 0.06:
            cmds += self.counted()
        ext = {}
        if r.random() < 0.15:
            ext['pad'] = r.choice((' ', '\t', '  '))
        if n and r.random() < 0.05:
            cmds.insert(r.randrange(n + 1), ['misc', r.choice(('', ' ', ';'))])
        return [cmds, ext]

    def setup(self):
        """plant code and point PC at it"""
        r = self.r
        out = []
        at = r.choice((0x20, 0x40, 0x100, RAM + 0x40, RAM + 0x100))
        b = b''
        while len(b) < 24:
            b += r.choice(execgen.code_pool(r.choice(('E01', 'E01', 'E02', 'E03', 'E04',
                                                      'E05'))))
        b = b[:24]
        if r.random() < .5:
            out.append([[['write', 'w32', 32, self.num(at),
                          [self.num(int.from_bytes(b[k:k + 4], 'little'))
                           for k in range(0, 24, 4)]]], {}])
        else:
            out.append([[['write', 'w16', 16, self.num(at),
                          [self.num(int.from_bytes(b[k:k + 2], 'little'))
                           for k in range(0, 24, 2)]]], {}])
        out.append([[['wreg', 'pc', self.num(at)]], {}])
        if r.random() < 0.5:
            out.append([[['wreg', 'sp', self.num(RAM + 0x200 + 4 * r.randrange(8))],
                         ['wreg', 'r%d' % r.randrange(8), self.num(RAM + 0x40)]], {}])
        return out

    def plant(self):
        """one instruction with operands set up for it, stepped"""
        r = self.r
        i = execgen.pick_ins(r, execgen.ALL)
        if i is None:
            return []
        at = r.choice((0x20, 0x22, 0x40, RAM + 0x42))
        b = ref.words_bytes(i.words)
        cmds = [['write', 'w16', 16, self.num(at),
                 [self.num(int.from_bytes(b[k:k + 2], 'little'))
                  for k in range(0, len(b), 2)]],
                ['wreg', 'pc', self.num(at)]]
        for k in 'nm':
            if k in i.f and i.f[k] < 13 and r.random() < .6:
                cmds.append(['wreg', 'r%d' % i.f[k],
                             self.num(RAM + r.randrange(0x100) if i.mem else value32(r))])
        if r.random() < .2:
            cmds.append(['wreg', 'xpsr', self.num(0x01000000 | r.getrandbits(4) << 28)])
        out = [[cmds, {}]]
        out.append([[['step', 's']], {}])
        return out

    def scenario(self):
        r = self.r
        P = self.prop
        img = self.image()
        lines = []
        n = r.choice((6, 15, 30)) if P != 'C03' else r.choice((3, 8, 15))
        if r.random() < 0.02:
            n = 150
        while len(lines) < n:
            k = r.random()
            if P != 'C03' and k < 0.06:
                lines += self.setup()
            elif P != 'C03' and k < 0.25:
                lines += self.plant()
            elif P == 'C03' and k < 0.5:
                z = r.random()
                if z < 0.5:
                    a = r.choice((0, 0, 4, 4, 2, 5))
                    v = r.choice((RAM + 0x100, RAM + 4, RAM + 0x10000, 0x10000, 0x10004, 0,
                                  0x21, 0x1fff7ffc, 0xffffffff, 0x80000000, 1, 5, RAM + 6,
                                  value32(r)))
                    lines.append([[['write', 'w32', 32, self.num(a), [self.num(v)]]], {}])
                    if r.random() < 0.7:
                        lines.append([[['reset', '']], {}])
                else:
                    lines.append([[['reset', r.choice(('', ' -h'))]], {}])
                    if r.random() < 0.3:
                        lines.append([[], {}])
            else:
                lines.append(self.line())
        if P != 'C03':
            for l in lines:
                if not l[0]:
                    continue
                k = r.random()
                if P == 'C01':
                    if k > 0.08:
                        continue
                    k = 0.4
                if k < 0.3:
                    l[1]['irq'] = r.randrange(1000)
                elif k < 0.5:
                    l[0] = l[0][:1]
                    l[1]['flt'] = [r.choice(('reg', 'mem')), r.randrange(1000),
                                   r.choice(('before', 'before', 'after')), r.choice(ERRS)]
                    if r.random() < 0.6:
                        l[0].append(['wreg', 'r11', self.num(r.getrandbits(32))])
                elif k < 0.62:
                    l[1]['prompt'] = r.choice((1, 1, 2))
        z = r.random()
        if z < (0.5 if P == 'C02' else 0.2):
            cmds = [['exit', self.case(r.choice(('exit', 'quit')))]]
            if r.random() < .4:
                cmds.insert(0, self.command())
            if r.random() < .4:
                cmds.append(['wreg', 'r0', self.num(0x77)])
            lines.append([cmds, {}])
        args = []
        if r.random() < 0.15:
            args = [r.choice(('-d', '--debug')), r.choice(sorted(LEVELS))]
        return {'world': 'cons', 'prop': P, 'img': img, 'args': args, 'lines': lines}


def generate(prop, seed, tier):
    return Gen(prop, seed, tier).scenario()


def image_bytes(img):
    if 'hex' in img:
        return bytes.fromhex(img['hex'])
    r = rng_for('image', img['seed'])
    b = bytearray()
    n = min(img['n'], 0x200)
    while len(b) < n:
        b += r.choice(execgen.code_pool(r.choice(('E01', 'E01', 'E02', 'E03', 'E05'))))
    if img['n'] > n:
        k = (img['n'] - n) // 251 + 2
        b += bytes(range(1, 252)) * k
    b = b[:img['n']]
    v = img['sp'].to_bytes(4, 'little') + img['pc'].to_bytes(4, 'little')
    b[:min(8, len(b))] = v[:len(b)]
    return bytes(b)


# --------------------------------------------------------------------- doubles

class Stop(BaseException):
    """The harness ends the session."""


class SimOut(io.StringIO):
    before = 0              # statement count at the last output but the prompt

    def write(self, s):
        if s != PROMPT:
            self.before = HOOK.cur.n
        return io.StringIO.write(self, s)

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def isatty(self):
        return False


class SimIn(object):
    encoding = 'utf-8'
    errors = 'strict'
    closed = False

    def __init__(self, session):
        self.s = session

    def readline(self, *a):
        return self.s.prompted()

    def read(self, *a):
        return self.s.prompted()

    def __iter__(self):
        return self

    def __next__(self):
        l = self.s.prompted()
        if not l:
            raise StopIteration
        return l

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation('fileno')


class SimFile(io.BytesIO):
    err = None
    reads = 0

    def _go(self):
        self.reads += 1
        if self.err is not None:
            e = self.err
            raise e

    def read(self, *a):
        self._go()
        return io.BytesIO.read(self, *a)

    def readinto(self, b):
        self._go()
        return io.BytesIO.readinto(self, b)

    def readline(self, *a):
        self._go()
        return io.BytesIO.readline(self, *a)

    def __iter__(self):
        self._go()
        return io.BytesIO.__iter__(self)


def seam_class(real):
    """The mock backend with a fault seam at every public access."""

    class SimBackend(real):
        instances = []

        def __init__(self, *a, **k):
            self.sim_regions = []
            self.sim_arm = None
            self.sim_fired = False
            self.sim_n = {'reg': 0, 'mem': 0}
            self.sim_depth = 0
            self.sim_last = 0
            SimBackend.instances.append(self)
            real.__init__(self, *a, **k)

        def add_memory(self, start, length):
            self.sim_regions.append((start, length))
            return real.add_memory(self, start, length)

        def _go(self, kind, fn, *a, **k):
            if self.sim_depth:
                return fn(self, *a, **k)
            self.sim_depth += 1
            try:
                self.sim_n[kind] += 1
                self.sim_last = HOOK.cur.n
                arm = self.sim_arm
                if arm is not None and arm[0] == kind and self.sim_n[kind] == arm[1] \
                        and not self.sim_fired:
                    self.sim_fired = True
                    if arm[2] == 'after':
                        fn(self, *a, **k)
                    raise arm[3]
                return fn(self, *a, **k)
            finally:
                self.sim_depth -= 1

    def wrap(name, kind):
        fn = getattr(real, name)

        def method(self, *a, **k):
            return self._go(kind, fn, *a, **k)
        method.__name__ = name
        setattr(SimBackend, name, method)
    for name, kind in (('read_register', 'reg'), ('write_register', 'reg'),
                       ('read_memory', 'mem'), ('write_memory', 'mem'),
                       ('read_memory_block', 'mem'), ('write_memory_block', 'mem')):
        wrap(name, kind)
    SimBackend.__name__ = real.__name__
    return SimBackend


class Env(object):
    def __init__(self, root):
        self.A = self.load(root)
        self.B = self.load(root)
        self.path = os.path.join(os.path.dirname(root), 'image-%d.bin' % os.getpid())

    def load(self, root):
        def on_module(name, mod):
            if name == core.PKG + '.mock_cpu':
                mod.MockCpuModelDelegate = seam_class(mod.MockCpuModelDelegate)
        p = core.Package(root, on_module=on_module, extra=('__main__',))
        p.main_module = p.modules[core.PKG + '.__main__']
        p.backend = p.mock_cpu.MockCpuModelDelegate
        return p


def fresh(root):
    return Env(root)


# --------------------------------------------------------------------- session

BUDGET = 4000000        # statements one line may use
START_BUDGET = 60000000 # loading the image and clearing memory may be done byte by byte
PROMPT = '>>> '
ABANDONED = []          # never resumed


class Session(object):
    """One run of the console's main(); `driver` is called at every prompt with the output
    since the last one and returns the next line, None for end of input, or raises."""

    def __init__(self, pkg, argv, driver, path=None, data=None, err=None):
        self.pkg, self.argv, self.driver = pkg, argv, driver
        self.path, self.data, self.err = path, data, err
        self.prompts = 0
        self.ended = False
        self.backend = None
        self.file = None
        self.ctl = Ctl()
        self.ctl.fire = self.fire
        self.budget = START_BUDGET
        self.ctl.next = self.budget
        self.irq = None
        self.irq_fired = False
        self.frames = ()
        self.total = 0
        self.pending = None

    # statement hook

    def fire(self, c):
        if c.n >= self.budget:
            self.leave(SimHang('statement budget exceeded'))
        if self.irq is None or c.n < self.irq:
            c.next = self.budget if self.irq is None else min(self.budget, self.irq)
            return
        # only inside what the read loop called, not in the loop itself
        f = sys._getframe(2)
        g = f
        while g is not None and not any(g is x for x in self.frames):
            g = g.f_back
        if g is None or g is f:
            c.next = c.n + 1
            return
        self.irq = None
        self.irq_fired = True
        c.next = self.budget
        raise KeyboardInterrupt('injected')

    def leave(self, exc):
        """abandon the session, whatever handlers it has"""
        self.aborted = exc
        ABANDONED.append(getcurrent())
        self.home.switch()

    def prompted(self):
        c = self.ctl
        n = c.n
        self.total += n
        c.next = 1 << 60
        self.irq = None
        out = self.out.getvalue()
        self.out_last = self.out.before
        self.out.before = 0
        self.out.seek(0)
        self.out.truncate()
        if self.prompts == 0 and self.pkg.backend.instances:
            self.backend = self.pkg.backend.instances[-1]
        self.prompts += 1
        self.budget = BUDGET
        HOOK.cur = Ctl()
        try:
            if self.ended:
                self.leave(Stop('asked for input after the end of input'))
            try:
                line = self.driver(self, out, n)
            except KeyboardInterrupt:
                raise
            except BaseException as e:
                self.leave(e)
        finally:
            HOOK.cur = c
            c.n = 0
            c.next = BUDGET if self.irq is None else min(self.irq, BUDGET)
            fs, f = [], sys._getframe(1)
            while f is not None:
                if f.f_code.co_filename.endswith('__main__.py') \
                        and f.f_globals is self.pkg.main_module.__dict__:
                    fs.append(f)
                f = f.f_back
            self.frames = tuple(fs)
        if line is None:
            self.ended = True
            return ''
        return line + '\n'

    def open(self, real):
        def fake(path, mode='r', *a, **k):
            if path != self.path or self.path is None:
                return real(path, mode, *a, **k)
            if self.err and self.err[0] == 'open':
                raise make_exc(self.err[1])
            if self.err and self.err[0] == 'missing':
                raise FileNotFoundError(2, 'No such file or directory', path)
            f = SimFile(self.data)
            if self.err:
                f.err = make_exc(self.err[1])
            self.file = f
            return f if 'b' in mode else io.TextIOWrapper(f)
        return fake

    def run(self):
        """-> (exit status, exception)"""
        pkg = self.pkg
        del pkg.backend.instances[:]
        self.out, self.errs = SimOut(), SimOut()
        saved = sys.stdin, sys.stdout, sys.stderr, sys.argv, builtins.open
        root = logging.getLogger()
        level, handlers = root.level, root.handlers[:]
        root.handlers[:] = []
        outer = HOOK.cur
        pkg.activate()
        try:
            sys.stdin, sys.stdout, sys.stderr = SimIn(self), self.out, self.errs
            sys.argv = ['cmdis'] + self.argv
            builtins.open = self.open(saved[4])
            HOOK.cur = self.ctl
            self.home = getcurrent()
            g = greenlet(self.body)
            self.result = None, None
            self.aborted = None
            g.switch()
            if self.aborted is not None:
                return None, self.aborted
            return self.result
        finally:
            HOOK.cur = outer
            self.loglevel = root.level
            sys.stdin, sys.stdout, sys.stderr, sys.argv, builtins.open = saved
            root.handlers[:] = handlers
            root.setLevel(level)
            self.total += self.ctl.n
            self.frames = ()

    def body(self):
        try:
            r = self.pkg.main_module.main()
            self.result = (r or 0), None
        except SystemExit as e:
            self.result = (0 if e.code is None else e.code), None
        except BaseException as e:
            self.result = None, e

    # target state, read from the backend without faults

    def state(self):
        b = self.backend
        b.sim_depth += 1
        try:
            regs = [b.read_register(i) for i in REGS]
            mem = []
            for s, n in b.sim_regions:
                x = b.read_memory_block(s, n)
                mem.append(bytes(x) if x is not None else None)
            return regs, mem
        finally:
            b.sim_depth -= 1

    def set_state(self, regs, mem):
        b = self.backend
        b.sim_depth += 1
        try:
            v = dict(zip(REGS, regs))
            for i in (-4, 17, 18):
                b.write_register(i, v[i])
            for i in REGS:
                if i not in (-4, 17, 18, 13):
                    b.write_register(i, v[i])
            for (s, n), x in zip(b.sim_regions, mem):
                b.write_memory_block(s, bytearray(x))
        finally:
            b.sim_depth -= 1


# ----------------------------------------------------------------------- model

class Unjudged(Exception):
    pass


class Model(object):
    """What the documented commands do to the target and print."""

    def __init__(self, regions):
        self.m = ref.Ref(regions)
        self.out = []            # expected data lines; None: from here on not judged
        self.undef = 0           # undefined instructions that must be reported
        self.seen = {}           # register/deref values legitimately shown
        self.level = None
        self.fuzzy = False       # bit 0 of PC is not known (nor documented) after a step

    def sync(self, st):
        regs, mem = st
        self.fuzzy = False
        for i, v in zip(REGS, regs):
            if i != 13:
                self.m.g[i] = v & ref.M32
        for x, b in zip(self.m.regions, mem):
            x.data[:] = b

    def state(self):
        return self.m.regs(), [bytes(x.data) for x in self.m.regions]

    def emit(self, *item):
        if self.out is not None:
            self.out.append(item)

    def value(self, v):
        if v[0] == 'n':
            return v[1]
        if v[0] == 'r':
            if self.fuzzy and ref.INDEX_OF[v[1].lower()] == 15:
                raise Unjudged
            return self.m.r(ref.INDEX_OF[v[1].lower()])
        a = self.value(v[1]) + (v[2][1] if v[2] else 0)
        return self.m.rm(a, 4)

    def note(self):
        for n in NAMES:
            v = self.m.r(ref.INDEX_OF[n])
            self.seen.setdefault(n, set()).add(v)
            if self.fuzzy and ref.INDEX_OF[n] == 15:
                self.seen[n].add(v ^ 1)

    def read_block(self, a, n):
        """mapped bytes from a on, or None"""
        m = self.m
        if m.find(a) is None:
            return None
        out = bytearray()
        while len(out) < n:
            x = m.find(a + len(out))
            if x is None:
                break
            o = a + len(out) - x.start
            out += x.data[o:o + n - len(out)]
        return bytes(out)

    def write_block(self, a, data):
        m = self.m
        while data:
            x = m.find(a)
            if x is None:
                return
            o = a - x.start
            n = min(len(data), len(x.data) - o)
            x.data[o:o + n] = data[:n]
            a += n
            data = data[n:]

    def reset(self):
        m = self.m
        pc = m.rm(4, 4)
        if m.find(pc) is not None:
            m.g[15] = pc
        sp = m.rm(0, 4)
        if m.find(sp - 4) is not None:
            m.w(13, sp)
            return None
        # a stack that starts at the very beginning of a region, or whose first word is
        # only partly mapped: either is acceptable
        if any(m.find(sp - k) is not None for k in (0, 1, 2, 3)):
            return sp
        return None

    def command(self, c):
        try:
            return self.command1(c)
        except Unjudged:
            return 'unjudged'
        finally:
            if c[0] == 'log':
                self.level = LEVELS[c[1].lower()]

    def command1(self, c):
        """-> 'exit', 'unjudged', ('sp', v) or None"""
        m = self.m
        k = c[0]
        self.note()
        if k in ('reg', 'name'):
            if c[1] is None:
                self.emit('table', {n: m.r(ref.INDEX_OF[n]) for n in TABLE}, self.fuzzy)
            else:
                n = c[1].lower()
                i = ref.INDEX_OF[n]
                self.emit('reg', n, m.r(i), self.fuzzy and i == 15)
        elif k == 'wreg':
            i = ref.INDEX_OF[c[1].lower()]
            m.w(i, self.value(c[2]))
            if i == 15:
                self.fuzzy = False
        elif k == 'read':
            a = self.value(c[3])
            n = c[2] // 8 if c[4] is None else self.value(c[4])
            b = self.read_block(a, n)
            if b is not None:
                w = c[2] // 8
                vals = [int.from_bytes(b[j:j + w], 'little')
                        for j in range(0, len(b) - w + 1, w)]
                if vals:
                    self.emit('dump', a, w, vals)
        elif k == 'write':
            a = self.value(c[3])
            w = c[2] // 8
            vals = [self.value(x) for x in c[4]]
            if w == 1 and any(not 0 <= v <= 255 for v in vals):
                return None                               # rejected
            self.write_block(a, b''.join((v & ((1 << 8 * w) - 1)).to_bytes(w, 'little')
                                         for v in vals))
        elif k == 'step':
            return self.step()
        elif k == 'dis':
            self.disasm(c)
        elif k == 'reset':
            sp = self.reset()
            if sp is not None:
                return 'sp', sp
        elif k == 'py':
            if c[2] == 'reg':
                self.emit('int', m.r(c[3]))
            elif c[2] == 'mem':
                self.emit('int', m.rm(c[3], 4))
            elif c[2] == 'val':
                self.emit('int', c[3])
            elif c[2] == 'wmem':
                m.wm(c[3], c[4], 4)
            elif c[2] == 'wreg':
                m.w(c[3], c[4])
        elif k == 'exit':
            return 'exit'
        self.note()
        return None

    def step(self):
        m = self.m
        pc = m.g[15] & ~1
        code = self.read_block(pc, 4)
        if code is None:
            return None
        i = ref.decode(code, pc)
        if i is None or i == 'short':
            self.undef += i is None and len(code) >= 4
            return None                                   # refused: nothing changes
        if not i.ok or i._run is None:
            self.out = None
            return 'unjudged'
        self.emit('ins', pc, None, i.line())
        w = m.copy()
        if i.run(w) is False or i.quirk:
            self.out = None
            return 'unjudged'
        self.m = w
        self.fuzzy = True
        return None

    def disasm(self, c):
        m = self.m
        if not c[3] and c[2] and self.fuzzy:
            raise Unjudged
        a = self.value(c[3]) if c[3] else m.g[15]
        n = self.value(c[4]) if c[4] else 6
        if c[2]:
            a -= n // 2
        a &= ~1
        b = self.read_block(a, n)
        if b is None:
            return
        pc = m.g[15] & ~1
        o = 0
        while o < len(b):
            i = ref.decode(b[o:], a + o)
            if i is None or i == 'short':
                self.undef += i is None and len(b) - o >= 4
                return
            if not i.ok:
                self.out = None
                return
            self.emit('ins', a + o, a + o == pc, i.line())
            o += i.size


# ------------------------------------------------------------- reading output

RE_DUMP = re.compile(r'^([0-9a-f]{8,}):((?:\s+[0-9a-f]+)+)\s*$')
RE_INS = re.compile(r'^0x([0-9a-f]{8,}):(\*?)\s+(.*\S)\s*$')
RE_REG = re.compile(r'^(\w+)\s*=\s*0x([0-9a-f]+)\s*\((-?\d+)\)\s*$')
RE_ECHO = re.compile(r'^([a-z]\w*)\s*=\s*0x([0-9a-f]+)\s*$')
RE_INT = re.compile(r'^0x([0-9a-f]+)\s*\((-?\d+)\)\s*$')
RE_TABLE = re.compile(r'^\s*(?:\w+:\s+0x[0-9a-f]+\s*)+$')


def norm(s):
    return ' '.join(s.split())


def parse(out):
    """-> data lines in order, echoes"""
    items, echoes = [], []
    for l in out.split('\n'):
        x = RE_TABLE.match(l)
        if x:
            t = {n: int(v, 16) for n, v in re.findall(r'(\w+):\s+0x([0-9a-f]+)', l)}
            if items and items[-1][0] == 'table' and not set(items[-1][1]) & set(t):
                items[-1][1].update(t)
            else:
                items.append(('table', t))
            continue
        x = RE_DUMP.match(l)
        if x:
            vals = x.group(2).split()
            w = len(vals[0]) // 2
            if all(len(v) == 2 * w for v in vals):
                items.append(('dump', int(x.group(1), 16), w, [int(v, 16) for v in vals]))
                continue
        x = RE_INS.match(l)
        if x:
            items.append(('ins', int(x.group(1), 16), x.group(2) == '*', norm(x.group(3))))
            continue
        x = RE_REG.match(l)
        if x:
            items.append(('reg', x.group(1).lower(), int(x.group(2), 16), int(x.group(3))))
            continue
        x = RE_INT.match(l)
        if x:
            items.append(('int', int(x.group(1), 16), int(x.group(2))))
            continue
        x = RE_ECHO.match(l)
        if x:
            echoes.append((x.group(1), int(x.group(2), 16)))
    # consecutive dump lines of one read
    return items, echoes


class Mismatch(Exception):
    pass


def compare(items, want):
    """both in order; raises Mismatch"""
    k = 0

    def take(kind, what):
        nonlocal k
        if k >= len(items) or items[k][0] != kind:
            raise Mismatch('%s not printed; got %r' % (what, items[k:k + 1]))
        k += 1
        return items[k - 1]
    for w in want:
        if w[0] == 'table':
            t = take('table', 'register table')[1]
            for n, v in w[1].items():
                if t.get(n) != v and not (w[2] and n == 'pc' and t.get(n) == v ^ 1):
                    raise Mismatch('register table shows %s=%s, is %#x' % (
                        n, t.get(n) if t.get(n) is None else hex(t[n]), v))
        elif w[0] == 'reg':
            x = take('reg', 'register %s' % w[1])
            if x[1:] != (w[1], w[2], w[2]) and not (
                    w[3] and x[1:] == (w[1], w[2] ^ 1, w[2] ^ 1)):
                raise Mismatch('shows %s = %#x (%d), is %s = %#x' % (x[1:] + w[1:3]))
        elif w[0] == 'int':
            x = take('int', 'value %#x' % w[1])
            if x[1:] != (w[1], w[1]):
                raise Mismatch('shows %#x (%d), is %#x' % (x[1], x[2], w[1]))
        elif w[0] == 'ins':
            x = take('ins', 'instruction at %#x' % w[1])
            if x[1] != w[1] or x[3] != norm(w[3]) or (w[2] is not None and x[2] != w[2]):
                raise Mismatch('shows %#x:%s %s, is %#x:%s %s' % (
                    x[1], '*' if x[2] else ' ', x[3], w[1], '*' if w[2] else ' ',
                    norm(w[3])))
        elif w[0] == 'dump':
            a, width, vals = w[1], w[2], list(w[3])
            while vals:
                x = take('dump', '%d more values at %#x' % (len(vals), a))
                n = len(x[3])
                if x[1] != a or x[2] != width or x[3] != vals[:n]:
                    raise Mismatch('dump shows %#x: %s, memory at %#x is %s' % (
                        x[1], ' '.join('%0*x' % (2 * x[2], v) for v in x[3]), a,
                        ' '.join('%0*x' % (2 * width, v) for v in vals[:max(n, 1)])))
                a += width * n
                vals = vals[n:]
    if k != len(items):
        raise Mismatch('unexpected output %r' % (items[k],))


# -------------------------------------------------------------------------- run

class ConsRun(object):
    def __init__(self, sc, env, stats, digest):
        self.sc, self.env, self.stats, self.dig = sc, env, stats, digest
        self.prop = sc['prop']
        self.sigs = set()
        self.known = {}
        self.pos = -1                  # line being executed
        self.cur = None                # (cmds, ext, pre-state)
        self.last = None               # commands an empty line repeats
        self.alts = None               # after an interrupted line: what it may repeat instead
        self.expect_exit = False
        self.prompt_irqs = 0

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def fail(self, kind, detail):
        raise Violation(kind, detail, op=self.pos)

    def what(self):
        if self.pos < 0 or self.cur is None:
            return 'at start'
        return 'line %d %r' % (self.pos, self.text(self.cur[0]))

    @staticmethod
    def text(cmds):
        return '; '.join(render(c) for c in cmds)

    # -- whole session

    def run(self):
        sc = self.sc
        img = sc['img']
        data = image_bytes(img) if img else b''
        err = img.get('err') if img else None
        self.data = data
        argv = list(sc['args'])
        path = None
        if img:
            path = self.env.path
            argv.append(path)
            if not err:
                with open(path, 'wb') as fh:
                    fh.write(data)
        self.model = None
        s = self.s = Session(self.env.A, argv, self.at_prompt, path, data, err)
        try:
            code, exc = s.run()
        finally:
            if img and os.path.exists(path):
                os.remove(path)
        self.count('sessions')
        self.count('statements', s.total)
        self.dig.add('end', code, repr(exc), s.prompts)
        if s.aborted is not None and not isinstance(exc, (Stop, SimHang)):
            raise exc
        if isinstance(exc, SimHang):
            self.fail('hang', '%s does not finish' % self.what())
        if err:
            if s.file is not None and not s.file.reads:
                return                                     # never tried to read it
            self.count('fault.image.%s.%s' % tuple(err))
            self.sigs.add(('image error', err[0], err[1]))
            if s.prompts:
                self.fail('session-without-image', 'image %s failed (%s), yet a session '
                          'started' % tuple(err))
            return
        if isinstance(exc, Stop):
            self.fail('reads-after-eof', str(exc))
        if not s.prompts:
            self.fail('no-session', 'image of %d bytes: no session started; status %r %r' % (
                len(data), code, exc))
        if exc is not None:
            self.fail('session-broken', '%s ended the session with %r' % (self.what(), exc))
        if not s.ended and not self.expect_exit:
            self.fail('session-ended', '%s ended the session (status %r)' % (
                self.what(), code))
        if code != 0:
            self.fail('exit-status', 'session ended with status %r after %s' % (
                code, 'exit' if self.expect_exit else 'end of input'))
        if self.expect_exit:
            # the commands before exit took effect, those after it did not
            self.judge_state(s.state())
            self.count('exits')

    # -- at every prompt

    def at_prompt(self, s, out, n):
        lines = self.sc['lines']
        if out.endswith(PROMPT):
            out = out[:-len(PROMPT)]
        self.dig.add(self.pos, n, out)
        if s.backend is None:
            self.fail('no-target', 'session without a target')
        if self.model is None:
            self.started(s)
        elif self.cur is not None:
            self.finished(s, out)
        self.cur = None
        if self.prompt_irqs:
            self.prompt_irqs -= 1
            self.count('fault.irq.prompt')
            raise KeyboardInterrupt('injected at the prompt')
        if self.expect_exit:
            self.fail('exit-ignored', '%s did not end the session' % self.what())
        while True:
            if self.pos + 1 >= len(lines):
                self.count('eof')
                return None
            nxt = lines[self.pos + 1]
            if nxt[1].get('prompt') and not getattr(self, 'did_prompt', False):
                self.did_prompt = True
                self.prompt_irqs = nxt[1]['prompt'] - 1
                self.count('fault.irq.prompt')
                raise KeyboardInterrupt('injected at the prompt')
            self.did_prompt = False
            self.pos += 1
            cmds, ext = nxt
            if ''.join(render(c) for c in cmds).strip() or not self.alts or \
                    not any(c[0] == 'exit' for x in self.alts for c in x):
                break                # not judged: it may or may not repeat an exit
        return self.submit(s, cmds, ext)

    def submit(self, s, cmds, ext):
        pad = ext.get('pad', '')
        sep = ';' if self.pos % 3 else ' ; '
        text = pad + sep.join(render(c) for c in cmds) + pad
        eff = cmds
        self.alt = None
        if not text.strip():
            eff = self.last or []
            if self.alts:
                self.alt = self.alts
                eff = self.alts[-1]
                ext = {}
                self.count('empty.after.interrupt')
            if len(eff) > 1:
                ext = {k: v for k, v in ext.items() if k != 'flt'}
        self.count('lines')
        pre = self.model.state()
        b = s.backend
        b.sim_arm = None
        b.sim_n = {'reg': 0, 'mem': 0}
        self.cur = [eff, ext, pre, False]
        self.twin_states = None
        self.safe = True
        if eff and ('irq' in ext or 'flt' in ext):
            self.prepare(s, eff, ext, text if text.strip() else self.text(eff))
        if text.strip():
            self.alts0 = self.alts or [self.last or []]
            self.last = cmds
            self.alts = None
        self.expect_exit = any(c[0] == 'exit' for c in eff)
        return text

    # -- judging

    def started(self, s):
        """C03: the state at the first prompt"""
        st = s.state()
        regs, mem = st
        self.dig.add('start', regs)
        img = self.sc['img']
        data = self.data
        regions = s.backend.sim_regions
        m = self.model = Model(regions)
        m.sync(st)
        got = bytearray()
        x = m.m.find(0)
        if x is not None:
            got = x.data[-x.start if x.start < 0 else 0:]
        if len(got) < len(data):
            self.fail('image-cut', 'image of %d bytes, memory from 0 on has %d' % (
                len(data), len(got)))
        if bytes(got[:len(data)]) != data:
            k = [j for j in range(len(data)) if got[j] != data[j]][0]
            self.fail('image-wrong', 'byte %#x of the image of %d bytes is %#x, memory '
                      'holds %#x' % (k, len(data), data[k], got[k]))
        if any(got[len(data):]):
            self.fail('image-trailer', 'memory behind the image of %d bytes is not zero' %
                      len(data))
        for y in m.m.regions:
            if y is not x and any(y.data):
                self.fail('ram-not-zero', 'region %#x' % y.start)
        want = ref.Ref(regions)
        for p, q in zip(want.regions, m.m.regions):
            p.data[:] = q.data
        w = Model(regions)
        w.m = want
        alt = w.reset()
        sp = want.rm(0, 4)
        if RAM + 4 <= sp <= RAM + 0x4000000 and (want.find(sp - 4) is None or
                                                 want.find(sp - 1) is None):
            self.fail('stack-unmapped', 'initial stack %#x is not in memory' % sp)
        if want.find(RAM) is None or want.find(0) is None:
            self.fail('no-ram', 'no memory at 0 or %#x' % RAM)
        d = diff_state(st, w.state(), pcmask=~1)
        if d and alt is not None:
            want.w(13, alt)
            d = diff_state(st, w.state(), pcmask=~1)
        if d:
            self.fail('wrong-start', 'vectors SP %#x PC %#x: got/want %s' % (
                sp, want.rm(4, 4), ' '.join(d)))
        self.sigs.add(('start', img is None, min(len(data), 12), len(data) >> 14,
                       want.find(sp - 4) is not None, want.find(want.rm(4, 4)) is not None,
                       sp & 3, want.rm(4, 4) & 1))
        self.count('judged')

    def judge_state(self, st, pcmask=~1):
        """model after the commands of the current line against the target"""
        cmds, ext, pre, disturbed = self.cur
        res = self.play(cmds)
        d = diff_state(st, self.model.state(), pcmask=pcmask)
        if res == 'unjudged':
            d = []
        elif isinstance(res, tuple) and d:
            # a reset whose stack vector is borderline
            self.model.m.w(13, res[1])
            d = diff_state(st, self.model.state(), pcmask=pcmask)
        if d:
            self.fail('wrong-effect', '%s: got/want %s' % (self.what(), ' '.join(d)))
        return res

    def play(self, cmds):
        m = self.model
        m.out, m.seen, m.undef = [], {}, 0
        res = None
        for c in cmds:
            r = m.command(c)
            if r == 'exit':
                return res
            if r == 'unjudged' or res is not None:
                res = 'unjudged'
            elif isinstance(r, tuple):
                res = r
        return res

    def finished(self, s, out):
        cmds, ext, pre, _ = self.cur
        s.backend.sim_arm = None
        fired = s.backend.sim_fired
        s.backend.sim_fired = False
        irq = s.irq_fired
        s.irq_fired = False
        st = s.state()
        self.dig.add(st[0], [x and zlib.crc32(x) for x in st[1]])
        if irq or fired:
            self.disturbed(s, st, irq)
            self.model.sync(st)
            self.model.level = None
            if irq:
                self.alts = self.alts0 + [self.last or []]
            return
        if self.alt:
            return self.repeated(st)
        if self.multi_sp(cmds):
            # several borderline resets: not judged
            self.model.sync(st)
            self.model.level = None
            return
        res = self.judge_state(st)
        lvl = self.model.level
        if lvl is not None and logging.getLogger().level != lvl:
            self.fail('log-level', '%s: level is %d, should be %d' % (
                self.what(), logging.getLogger().level, lvl))
        self.count('judged')
        for c in cmds:
            self.sigs.add((c[0], len(cmds), c[1] if c[0] in ('read', 'write', 'bad', 'log',
                                                             'misc') else
                           c[2] if c[0] in ('dis', 'py') else c[1]
                           if c[0] in ('reg', 'name', 'wreg') else ''))
        want = self.model.out
        if res == 'unjudged' or want is None:
            self.model.sync(st)
            return
        self.model.sync(st)
        if isinstance(res, tuple):
            return
        items, echoes = parse(out)
        try:
            compare(items, want)
        except Mismatch as e:
            self.fail('wrong-output', '%s: %s' % (self.what(), e))
        if out.lower().count('undefined') < self.model.undef:
            self.fail('wrong-output', '%s: undefined instruction not reported' % self.what())
        for n, v in echoes:
            ok = self.model.seen.get(n)
            if ok is not None and v not in ok:
                self.fail('wrong-output', '%s: shows %s = %#x' % (self.what(), n, v))
        self.count('outputs', len(want))

    def repeated(self, st):
        """an empty line after an interrupted one: repeats that one, or an earlier one"""
        m0, f0 = self.model.m, self.model.fuzzy
        best = None
        for cmds in reversed(self.alt):
            self.model.m, self.model.fuzzy = m0.copy(), f0
            if self.multi_sp(cmds):
                break
            res = self.play(cmds)
            d = diff_state(st, self.model.state(), pcmask=~1)
            if d and isinstance(res, tuple):
                self.model.m.w(13, res[1])
                d = diff_state(st, self.model.state(), pcmask=~1)
            if res == 'unjudged' or not d:
                break
            best = best or d
        else:
            self.fail('wrong-effect', 'empty line after an interrupted line: got/want %s' %
                      ' '.join(best))
        self.model.sync(st)
        self.model.level = None
        self.count('judged')

    def multi_sp(self, cmds):
        n = 0
        for c in cmds:
            if c[0] == 'reset':
                n += 1
        return n > 1

    # -- disturbances

    def twin(self, s, lines):
        """the same lines on an undisturbed console in the same target state
        -> [(state, statements to the last effect, accesses)] after each line"""
        regs, mem = s.state()
        res = []

        def driver(t, out, n):
            b = t.backend
            if t.prompts == 1:
                t.set_state(regs, mem)
            else:
                res.append((t.state(), max(b.sim_last, t.out_last), dict(b.sim_n)))
            b.sim_last = 0
            b.sim_n = {'reg': 0, 'mem': 0}
            if t.prompts <= len(lines):
                return lines[t.prompts - 1]
            return None
        argv = list(self.sc['args'])
        img = self.sc['img']
        path = None
        if img:
            path = self.env.path
            argv.append(path)
        t = Session(self.env.B, argv, driver, path, self.data, None)
        t.run()
        return res

    def prepare(self, s, eff, ext, text):
        """find out how long the line is, then arm the interrupt or the fault"""
        lines = [render(c) for c in eff]
        # is every instruction this may execute defined?
        probe = Model(s.backend.sim_regions)
        probe.sync(s.state())
        for c in eff:
            if c[0] == 'exit' or probe.command(c) == 'unjudged':
                self.safe = False
                break
        if any(c[0] == 'exit' for c in eff):
            return
        whole = self.twin(s, [text])
        if len(whole) != 1:
            return
        st, length, acc = whole[0]
        if 'irq' in ext:
            parts = self.twin(s, lines) if len(lines) > 1 else whole
            self.twin_states = [x[0] for x in parts]
            if length:
                s.irq = 1 + ext['irq'] * length // 1000
        else:
            kind, pm, mode, en = ext['flt']
            one = self.twin(s, lines[:1]) if len(lines) > 1 else whole
            self.twin_states = [one[0][0]] if one else None
            tot = one[0][2][kind] if one else 0
            if tot and self.twin_states:
                s.backend.sim_arm = [kind, 1 + pm * tot // 1000, mode, make_exc(en)]
                self.flt = (kind, mode, en)

    def disturbed(self, s, st, irq):
        cmds, ext, pre, _ = self.cur
        if irq:
            self.count('fault.irq.command')
            self.sigs.add(('irq', cmds[0][0], len(cmds), ext['irq'] // 50))
        else:
            self.count('fault.%s.%s.%s' % self.flt)
            self.sigs.add(('flt', cmds[0][0]) + self.flt)
        if not self.safe or self.twin_states is None:
            return
        what = '%s %s' % (self.what(), 'interrupted' if irq else
                          'with a failing %s access (%s, %s)' % self.flt)
        states = [pre] + self.twin_states
        if not irq and len(cmds) > 1:
            # the command after the failed one
            c = cmds[1]
            want = c[2][1] & ref.M32
            if st[0][11] != want:
                self.fail('later-command-lost', '%s: %r was not executed' % (
                    what, render(c)))
            st = ([x for x in st[0]], st[1])
            st[0][11] = pre[0][11]
        bad = self.outside(st, states)
        if bad:
            self.fail('garbage', '%s: %s' % (what, '; '.join(bad)))

    def outside(self, st, states):
        """items of st that hold none of the values they have in states"""
        out = []
        for k, i in enumerate(REGS):
            x = st[0][k]
            vals = [y[0][k] for y in states]
            if i == 15:
                x &= ~1
                vals = [v & ~1 for v in vals]
            if x in vals:
                continue
            if i == 16:
                a, o = ref.M32, 0
                for v in vals:
                    a &= v
                    o |= v
                if x & ~o == 0 and x & a == a:
                    continue
            out.append('%s=%#x (legitimate: %s)' % (ref.NAME_OF[i], x, ' '.join(
                '%#x' % v for v in sorted(set(vals)))))
        for k in range(len(st[1])):
            x = st[1][k]
            vs = [y[1][k] for y in states]
            if any(x == v for v in vs):
                continue
            if x is None or any(len(x) != len(v) for v in vs):
                out.append('region %d changed size' % k)
                continue
            for j in range(len(x)):
                if all(x[j] != v[j] for v in vs):
                    out.append('region %d+%#x=%02x' % (k, j, x[j]))
                    if len(out) > 6:
                        break
        return out


def make(sc, env, stats, digest):
    return ConsRun(sc, env, stats, digest)
