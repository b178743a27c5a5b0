"""World: the same work over and over (property P01).

  {"world": "soak", "prop": "P01", "machines": [...as in execworld], "ins": [[hex, addr], ...],
   "streams": [hex, ...], "rounds": n, "ops": [op, ...]}
One round = every machine put back to its initial state, then all the operations:
  ["dec", hex, addr, ext]           decode (well-formed or not)
  ["dis", stream, addr, take, ext]  disassemble; take None: to the end, else abandoned there
  ["fmt", f, i, ext]                format instruction i with formatter f
  ["bad", f, i]                     format a line one of whose operands fails
  ["exec", m, i, ext]               execute instruction i on machine m
  ["run", m, [i, ...], ext]         ... several through CpuModel.execute
  ["reg", m, reg, value, ext]       write and read a register
  ["mem", m, addr, size, value, ext] write and read memory, then a block
  ["att", m] ["new", m]             attach the backend again; attach one more CPU object
  ["bld"]                           build the package's own lookup again
  ["bits", seed, ext]               bit-string arithmetic on constants and slices
ext: {"irq": [permille, exc]} interrupt at that part of the operation's statements,
     {"flt": [kind, nth, mode, exc]} the nth backend access of the kind fails
"""
import gc

import core
import execgen
import ref
from core import rng_for, make_exc, run_guarded, value32, Violation, SimHang
from execworld import Machine, REGS
from streamworld import gen_ins, gen_stream, ADDRS


def generate(prop, seed, tier):
    g = execgen.Gen('P01', seed, tier)
    r = rng_for('soak', prop, seed)
    ins = [gen_ins(r) for _ in range(r.choice((3, 8, 16)))]
    streams = [gen_stream(r)[:400] for _ in range(2)]
    p = r.choice((0, 0.1, 0.3))
    kinds = ['dec', 'dis', 'fmt', 'bad', 'exec', 'exec', 'exec', 'run', 'reg', 'mem', 'att', 'new',
             'bits']
    if r.random() < 0.5:                # work of a few kinds only
        kinds = [r.choice(kinds) for _ in range(3)]
    ops = []
    for _ in range(r.choice((8, 20, 40))):
        ext = {}
        if r.random() < p:
            if r.random() < 0.5:
                ext['irq'] = [r.randrange(1000), r.choice(core.IRQ_NAMES)]
            else:
                ext['flt'] = [r.choice(('reg', 'mem')), r.choice((1, 1, 2, 3)),
                              r.choice(('before', 'after')), r.choice(core.FAULT_NAMES)]
        k = r.choice(kinds) if r.random() > 0.02 else 'bld'
        m = r.randrange(g.nm)
        if k == 'dec':
            h, a = gen_ins(r)
            if r.random() < 0.4:
                h = bytes(r.getrandbits(8) for _ in range(r.choice((1, 2, 3, 4, 4)))).hex()
            ops.append([k, h, a, ext])
        elif k == 'dis':
            ops.append([k, r.randrange(2), r.choice(ADDRS), r.choice((None, None, 1, 3)), ext])
        elif k == 'fmt':
            ops.append([k, r.randrange(3), r.randrange(len(ins)), ext])
        elif k == 'bad':
            ops.append([k, r.randrange(3), r.randrange(len(ins))])
        elif k == 'exec':
            ops.append([k, m, r.randrange(len(ins)), ext])
        elif k == 'run':
            ops.append([k, m, [r.randrange(len(ins)) for _ in range(r.choice((2, 5)))], ext])
        elif k == 'reg':
            ops.append([k, m, r.choice(('r%d' % r.randrange(13), 'lr', 'psp', 'msp', 'primask',
                                        'basepri', 's3')), value32(r), ext])
        elif k == 'mem':
            z = r.choice((8, 16, 32))
            ops.append([k, m, g.target(m, z // 8), z, r.getrandbits(z), ext])
        elif k == 'bld':
            ops.append([k])
        elif k in ('att', 'new'):
            ops.append([k, m])
        else:
            ops.append([k, r.getrandbits(32), ext])
    return {'world': 'soak', 'prop': prop, 'machines': g.machines, 'ins': ins,
            'streams': streams, 'rounds': 8 if r.random() < 0.9 else 40, 'ops': ops}


def weigh(roots):
    """How much is reachable: objects, the items of containers, the length of texts."""
    seen = set()
    todo = list(roots)
    n = 0
    while todo:
        o = todo.pop()
        if o is None or isinstance(o, (int, float, bool)):
            continue
        k = id(o)
        if k in seen:
            continue
        seen.add(k)
        n += 1
        t = type(o)
        if t in (str, bytes, bytearray):
            n += len(o)
        elif isinstance(o, dict):
            n += len(o)
            todo.extend(list(o.keys()))
            todo.extend(list(o.values()))
        elif isinstance(o, (list, tuple, set, frozenset)):
            n += len(o)
            todo.extend(list(o))
        elif isinstance(o, type):
            if o.__module__.split('.')[0] == core.PKG:
                todo.extend(list(vars(o).values()))
        elif t.__name__ == 'module':
            if o.__name__.split('.')[0] == core.PKG:
                todo.append(vars(o))
        elif t.__name__ == 'function':
            todo.append(o.__defaults__)
            todo.append(o.__dict__)
            if o.__closure__:
                for c in o.__closure__:
                    try:
                        todo.append(c.cell_contents)
                    except ValueError:
                        pass
        elif t.__name__ in ('method', 'builtin_function_or_method'):
            todo.append(getattr(o, '__self__', None))
            todo.append(getattr(o, '__func__', None))
        elif t in (classmethod, staticmethod):
            todo.append(o.__func__)
        elif t is property:
            todo.extend((o.fget, o.fset, o.fdel))
        elif t.__name__ == 'deque' or t.__name__ == 'mappingproxy':
            try:
                todo.append(dict(o) if t.__name__ == 'mappingproxy' else list(o))
                n += len(o)
            except Exception:
                pass
        else:
            d = getattr(o, '__dict__', None)
            if isinstance(d, dict):
                todo.append(d)
            for c in t.__mro__:
                s = c.__dict__.get('__slots__', ())
                for a in (s,) if isinstance(s, str) else s:
                    if a not in ('__dict__', '__weakref__'):
                        todo.append(getattr(o, a, None))
            if isinstance(o, BaseException):
                todo.append(o.args)
    return n


class Soak(object):
    def __init__(self, sc, pkg, stats, digest):
        self.sc, self.P, self.stats, self.dig = sc, pkg, stats, digest
        self.sigs = set()
        self.known = {}
        self.opno = -1

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def fail(self, kind, detail):
        raise Violation(kind, detail, op=self.opno)

    def build(self):
        P = self.P
        self.ms = []
        for md in self.sc['machines']:
            m = Machine(P, [(s, bytes.fromhex(h)) for s, h in md['regions']],
                        md.get('ext', ()))
            for i, v in md.get('regs', ()):
                m.cpu.write_register(i, v)
            self.ms.append(m)
        self.start = [m.state() for m in self.ms]
        self.fm = [P.formatter.Formatter(self.ms[0].cpu),
                   P.formatter.Formatter(self.ms[-1].cpu), P.formatter.Formatter(None)]
        self.ds = P.disasm.Disassembler()
        self.ins = []
        for h, a in self.sc['ins']:
            v, e, n, _ = run_guarded(lambda: P.disasm.decoder.decode(bytes.fromhex(h), a))
            self.ins.append(v)
        self.cost0 = {}

    def op(self, op, rnd):
        """-> (outcome, statements)"""
        k = op[0]
        ext = op[-1] if isinstance(op[-1], dict) else {}
        fn = getattr(self, 'do_' + k)(*[x for x in op[1:] if not isinstance(x, dict)])
        if fn is None:
            return None
        m = self.ms[op[1]] if k in ('exec', 'run', 'reg', 'mem', 'att', 'new') else None
        irq = None
        if 'irq' in ext:
            tot = self.cost0.get(self.opno)
            if tot is not None:                 # from the second round on
                irq = (1 + ext['irq'][0] * tot // 1000, make_exc(ext['irq'][1]))
        if 'flt' in ext and m is not None:
            q = ext['flt']
            m.seam.set_fault(q[0], q[1], q[2], make_exc(q[3]))
        v, e, n, fired = run_guarded(fn, irq=irq)
        self.count('statements', n)
        if m is not None:
            fired = fired or m.seam.fired
            m.seam.clear()
            m.seam.fired = False
        if isinstance(e, SimHang):
            self.fail('hang', 'operation %r does not end' % (op,))
        if fired:
            self.count('fault.' + ('irq' if irq else 'access'))
        if self.opno not in self.cost0 and 'irq' in ext:
            self.cost0[self.opno] = n
        out = ('raised', type(e).__name__) if e is not None else ('value', v)
        self.sigs.add((k, fired, out[0], getattr(self.ins[op[2]], 'mnemonic', None)
                       if k in ('exec', 'fmt') else None))
        return out, n

    # each returns the callable to be measured

    def do_dec(self, h, a):
        def fn():
            i = self.P.disasm.decoder.decode(bytes.fromhex(h), a)
            return bytes(i.bytes), i.size, i.mnemonic
        return fn

    def do_dis(self, s, a, take):
        data = bytes.fromhex(self.sc['streams'][s])

        def fn():
            g = self.ds.disasm(data, a)
            n = 0
            for i in g:
                n += i.size
                if take is not None:
                    take_ = n >= 2 * take
                    if take_:
                        g.close()
                        break
            return n
        return fn

    def do_fmt(self, f, i):
        if self.ins[i] is not None:
            return lambda: self.fm[f].format(self.ins[i])

    def do_bad(self, f, i):
        x = self.ins[i]
        if x is None:
            return None
        P = self.P

        class Bad(P.formatter.Operand):
            def format(self, formatter):
                formatter.add_comment('lost')
                raise core.SimBusFault('operand')

        def fn():
            old = x.operands
            try:
                x.operands = [Bad()] + list(old)
                self.fm[f].format(x)
            except core.SimBusFault:
                return 'failed'
            finally:
                x.operands = old
        return fn

    def do_exec(self, m, i):
        x = self.ins[i]
        if x is None:
            return None
        c = self.ms[m].cpu

        def fn():
            x.execute(c)
            return c.pc.unsigned
        return fn

    def do_run(self, m, lst):
        c = self.ms[m].cpu
        seq = [self.ins[i] for i in lst if self.ins[i] is not None]

        def fn():
            c.execute(seq)
            return c.pc.unsigned
        return fn

    def do_reg(self, m, reg, v):
        c = self.ms[m].cpu

        def fn():
            c.write_register(reg, v)
            c.apsr.c = 1
            return (c.read_register(reg).unsigned, c.xpsr.unsigned, c.sp.unsigned, repr(c.r[3]))
        return fn

    def do_mem(self, m, a, z, v):
        c = self.ms[m].cpu

        def fn():
            c.write_memory(a, v, z)
            b = c.read_memory_block(a, 8)
            if b:
                c.write_memory_block(a, b)
            return c.read_memory(a, z).unsigned
        return fn

    def do_att(self, m):
        mm = self.ms[m]

        def fn():
            mm.cpu.delegate = mm.seam
            return mm.cpu.pc.unsigned
        return fn

    def do_new(self, m):
        mm = self.ms[m]

        def fn():
            c = mm.new_cpu()
            return c.pc.unsigned
        return fn

    def do_bld(self):
        return self.P.disasm.decoder.build

    def do_bits(self, seed):
        r = rng_for('bits', seed)
        B = self.P.bitstring
        w = r.choice((1, 4, 8, 32))
        x, y = r.getrandbits(w), r.getrandbits(w)

        def fn():
            a, b = B.bitstring(x, w), B.bitstring(y, w)
            v = (a + b, a - b, a & b, a | b, a ^ b, ~a, a % b, a % '01' % B.bit0, B.zeros(8) % a)
            return [q.unsigned for q in v] + [a[0].unsigned, a.sign_extend(40).unsigned,
                                              a.bit_count(), repr(a), (a << 1).unsigned]
        return fn

    def round(self, rnd):
        """-> outcomes, statements per operation"""
        for m, st in zip(self.ms, self.start):
            m.set_state(st)
        outs, costs = [], []
        for k, op in enumerate(self.sc['ops']):
            self.opno = k
            self.count('ops')
            x = self.op(op, rnd)
            if x is None:
                x = None, 0
            outs.append(x[0])
            costs.append(x[1])
        return outs, costs

    def size(self):
        roots = list(self.P.modules.values()) + self.fm + self.ins + [self.ds]
        for m in self.ms:
            roots += m.cpus + [m.real]
        return weigh(roots)

    def run(self):
        v, e, n, _f = run_guarded(self._run, budget=1 << 60)
        if e is not None:
            raise e

    def _run(self):
        self.build()
        allcost, allsize, ref_out = [], [], None
        for rnd in range(self.sc['rounds']):
            outs, costs = self.round(rnd)
            allcost.append(costs)
            if rnd >= self.sc['rounds'] - 6:
                allsize.append(self.size())
            if rnd == 1:
                ref_out = outs
            elif rnd > 1:
                for k, (x, y) in enumerate(zip(outs, ref_out)):
                    if x != y:
                        self.opno = k
                        self.fail('result-changed', '%r: round %d gives %r, round 1 gave %r'
                                  % (self.sc['ops'][k], rnd, x, y))
            self.count('rounds')
        self.dig.add(allcost, ref_out)
        for k, op in enumerate(self.sc['ops']):
            first = max(c[k] for c in allcost[:3])
            last = min(c[k] for c in allcost[-2:])
            if last > first + first // 2 + 30:
                self.opno = k
                self.fail('work-grows', '%r takes %d statements in the first rounds and %d '
                          'after %d rounds' % (op, first, last, self.sc['rounds']))
        tot = [sum(c) for c in allcost]
        if rising(tot[-6:]):
            self.fail('work-grows', 'each round takes more statements than the one before: '
                      '%s' % tot)
        self.count('judged', len(self.sc['ops']))
        if rising(allsize):
            # what is left to the garbage collector does not count
            again = []
            for rnd in range(6):
                self.round(rnd)
                gc.collect()
                again.append(self.size())
            if rising(again):
                self.fail('retained', 'every round of the same work leaves more behind: %d '
                          'objects and items in five rounds' % (again[-1] - again[0]))


def rising(x):
    return all(a < b for a, b in zip(x, x[1:]))


def make(sc, pkg, stats, digest):
    return Soak(sc, pkg, stats, digest)


def fresh(root):
    return core.Package(root)
