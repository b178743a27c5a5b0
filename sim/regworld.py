"""World: encodings being registered, the lookup being built and used (property D03).

  {"specs": [[id, spec, spec2|null, behaviour], ...], "ops": [...]}
behaviour: null | ["reject"|"unpred", mask, value]  what the handler does with matching words
  ["add", k]                 register spec k
  ["adds", k]                attempt to register something malformed
  ["build", ext]             build the lookup; ext: {"irq": [permille, exc]} cut short,
                             {"pre": [[permille, word]...]} words decoded meanwhile
  ["dec", word, extra, ext]  decode a word followed by `extra` bytes; ext as above, with
                             other words decoded or a rebuild run in the middle
  ["gbuild", ext] / ["gdec", word, ext]      the same on the package's own decoder
Real encodings of the package can be registered too, in any order:
  ["real", k]
"""
import core
import execgen
import ref
from core import rng_for, make_exc, Violation
from backworld import Base


# ------------------------------------------------------------------- generator

def random_bits(r, n, p_fixed):
    return ''.join(r.choice('01') if r.random() < p_fixed else '.' for _ in range(n))


def spec_of(r, bits):
    """'01..1' -> a spec string with fields, in any of the notations"""
    out, k, n = [], 0, 0
    while k < len(bits):
        if bits[k] == '.':
            j = k
            while j < len(bits) and bits[j] == '.':
                j += 1
            ln = j - k if r.random() < 0.8 else r.randint(1, j - k)
            name = 'f%d' % n if r.random() < .5 else 'Rx' + 'abcdefghijklmnop'[n % 16]
            n += 1
            if ln == 1 and r.random() < .5:
                out.append(name + ' ')
            else:
                out.append('%s(%d)' % (name, ln))
            k += ln
        else:
            j = k
            while j < len(bits) and bits[j] != '.':
                j += 1
            if r.random() < 0.1:
                out.append('q%d=%s' % (n, bits[k:j]))
                n += 1
                out.append(' ')
            else:
                out.append(bits[k:j])
            k = j
        if r.random() < 0.3:
            out.append(' ')
    return ' '.join(out) if r.random() < .3 else ''.join(
        o if o[:1] in '01 ' or o.endswith((')', ' ')) else o for o in out)


def parse(spec):
    """the harness's own reading of a spec -> '01..' string"""
    out, k = '', 0
    import re
    for tok in re.findall(r'[01]|[A-Za-z][A-Za-z0-9]*\(\d+\)|[A-Za-z][A-Za-z0-9]*=[01]+'
                          r'|[A-Za-z][A-Za-z0-9]*', spec):
        if tok in '01':
            out += tok
        elif '=' in tok:
            out += tok.split('=')[1]
        elif '(' in tok:
            out += '.' * int(tok[tok.index('(') + 1:-1])
        else:
            out += '.'
    return out


def maskmatch(spec, spec2):
    """-> wide, mask, match over hw1 | hw2 << 16"""
    a = parse(spec)
    assert len(a) == 16, (spec, a)
    m = int(''.join('0' if c == '.' else '1' for c in a), 2)
    v = int(a.replace('.', '0'), 2)
    if spec2 is None:
        return False, m, v
    b = parse(spec2)
    assert len(b) == 16, (spec2, b)
    m |= int(''.join('0' if c == '.' else '1' for c in b), 2) << 16
    v |= int(b.replace('.', '0'), 2) << 16
    return True, m, v


def mutate(r, bits):
    """a neighbour: some fixed bits freed, some free bits fixed, some flipped"""
    out = list(bits)
    for _ in range(r.choice((1, 1, 2, 4))):
        k = r.randrange(len(out))
        out[k] = r.choice('01.') if r.random() < .7 else ('.' if out[k] != '.' else '1')
    return ''.join(out)


def word_for(r, bits, hit=0.97):
    """a halfword (or pair) matching a pattern, mostly"""
    return ''.join((r.choice('01') if c == '.' or r.random() > hit else c) for c in bits)


WIDE = ('11101', '11110', '11111')


def generate(prop, seed, tier):
    r = rng_for('reg', prop, seed)
    specs, pats = [], []
    n = r.choice((2, 4, 8, 16, 30)) if r.random() < 0.96 else r.choice((70, 140))
    wide_p = r.choice((0.0, 0.3, 0.5, 1.0))
    p_fixed = r.choice((0.1, 0.3, 0.6))
    common = random_bits(r, 16, r.choice((0, 0, 0.2)))
    for k in range(n):
        if pats and r.random() < 0.65:
            bits = mutate(r, r.choice(pats))
            if r.random() < 0.15:
                bits = r.choice(pats)                # the very same fixed bits again
        else:
            wide = r.random() < wide_p
            bits = random_bits(r, 32 if wide else 16, p_fixed)
            bits = ''.join(c if c != '.' else b for c, b in zip(common, bits)) + bits[16:]
        if len(bits) == 32 and r.random() < 0.9:
            bits = r.choice(WIDE) + bits[5:]
        pats.append(bits)
        beh = None
        z = r.random()
        if z < 0.3:
            m = 0
            for _ in range(r.choice((1, 1, 2))):
                m |= 1 << r.randrange(len(bits))
            beh = [r.choice(('reject', 'reject', 'unpred')), m, r.getrandbits(32) & m]
        specs.append([k, spec_of(r, bits[:16]),
                      spec_of(r, bits[16:]) if len(bits) == 32 else None, beh])
    words = []

    def word():
        if words and r.random() < 0.3:
            return r.choice(words)
        k = r.random()
        if k < 0.85:
            b = word_for(r, r.choice(pats))
            if len(b) == 16 and r.random() < .3:
                b += format(r.getrandbits(16), '016b')
        else:
            b = format(r.getrandbits(32), '032b')
        h1 = int(b[:16], 2)
        w = h1 | (int(b[16:32], 2) if len(b) == 32 else r.getrandbits(16)) << 16
        words.append(w)
        return w

    def realword():
        k = r.random()
        if k < 0.5:
            i = execgen.pick_ins(r, execgen.ALL)
            if i is not None:
                return i.words[0] | (i.words[1] if i.size == 4 else r.getrandbits(16)) << 16
        b = bytearray(r.choice(execgen.code_pool(r.choice(('E01', 'E02', 'E03', 'E04',
                                                            'E05')))) + b'\0\xbf')[:4]
        if k < 0.8:
            b[r.randrange(4)] ^= 1 << r.randrange(8)
            return int.from_bytes(b, 'little')
        h1 = r.getrandbits(16)
        if r.random() < 0.6:
            h1 = r.choice((0xe800, 0xf000, 0xf800)) | (h1 & 0x7ff)
        return h1 | r.getrandbits(16) << 16

    def ext(wf, p=0.3, rebuild=False):
        e = {}
        if r.random() < p:
            if r.random() < 0.45:
                e['irq'] = [r.randrange(1000), r.choice(core.IRQ_NAMES)]
            if r.random() < 0.7 or not e:
                e['pre'] = [[r.randrange(1000), wf()] for _ in range(r.choice((1, 2, 4)))]
            if rebuild and r.random() < 0.5:
                e['re'] = r.randrange(1000)
        return e

    ops = []
    order = list(range(n))
    r.shuffle(order)
    real = r.random() < 0.25
    glob = r.random() < 0.5
    if real:
        for _ in range(r.choice((5, 40, 200))):
            ops.append(['real', r.randrange(1000), {}])
    first = r.randint(1, n)
    deco = r.choice((0, 0.3, 1))

    def route():
        return ['@'] if r.random() < deco else []
    for k in order[:first]:
        ops.append(['add', k] + route() + [{}])
    ops.append(['build', {}])
    rest = order[first:]
    for _ in range(r.choice((20, 60, 120))):
        k = r.random()
        if k < 0.12 and rest:
            ops.append(['add', rest.pop()] + route() + [{}])
            if r.random() < 0.5:
                ops.append(['build', ext(word, 0.6)])
        elif k < 0.15:
            ops.append(['adds', r.randrange(8)] + route() + [{}])
        elif k < 0.22:
            ops.append(['build', ext(word, 0.6)])
        elif k < 0.25 and glob:
            ops.append(['gbuild', ext(realword, 0.6)])
        elif k < 0.45 and glob:
            ops.append(['gdec', realword(), ext(realword, 0.15, True)])
        else:
            ops.append(['dec', realword() if real and r.random() < 0.5 else word(),
                        r.choice((0, 0, 1, 2, 5)), ext(word, 0.15, True)])
    return {'world': 'reg', 'prop': prop, 'specs': specs, 'ops': ops}


# ------------------------------------------------------------------------- run

class Entry(object):
    """One registered encoding as the model sees it."""
    __slots__ = ('id', 'wide', 'mask', 'match', 'weight', 'accept')

    def __init__(self, id, spec, spec2, accept):
        self.id = id
        self.wide, self.mask, self.match = maskmatch(spec, spec2)
        self.weight = bin(self.mask).count('1')
        self.accept = accept


def is_wide(w):
    return w & 0xf800 in (0xe800, 0xf000, 0xf800)


class World(object):
    """The package, with a record of what it registered while it was imported."""

    def __init__(self, root):
        self.pkg, self.real = self.load(root)
        self.ref, self.refreal = self.load(root)
        # the model's own list, in order of registration, from the second import
        self.entries = []
        for k, d in enumerate(self.refreal):
            self.entries.append(Entry('real%d' % k, d.spec, d.spec2, self.real_accept(d)))
        self.cache = {}
        self.gsorted = None
        # does the decorator register with the module's tree, as it stands at that moment?
        got = []
        self.decorate(self.ref, got.append, 'probe', lambda i, **k: None, '0' * 16, None)
        self.via_instr = len(got) == 1

    def decorate(self, P, add, mnemonic, handler, spec, spec2):
        class Tree(object):
            def add_decoder(self, d):
                add(d)
        mod = P.decoder
        keep = mod.DECODER_TREE
        mod.DECODER_TREE = Tree()
        try:
            return mod.instr(mnemonic, mod.Instruction, spec, spec2)(handler)
        finally:
            mod.DECODER_TREE = keep

    def load(self, root):
        got = []

        def after(name, mod):
            if name == core.PKG + '.decoder':
                cls = mod.DecoderTree
                add = cls.add_decoder

                def add_decoder(tree, d):
                    r = add(tree, d)
                    if tree is getattr(mod, 'DECODER_TREE', None):
                        got.append(d)
                    return r
                cls.add_decoder = add_decoder
                mod._sim_restore = lambda: setattr(cls, 'add_decoder', add)
        p = core.Package(root, on_module=after)
        p.decoder._sim_restore()
        return p, got

    def real_accept(self, d):
        P = self.ref

        def accept(word):
            try:
                i = d.decode(word)
            except P.decoder.DecodeError:
                return None
            except P.UnpredictableError:
                return 'unpredictable'
            except P.UndefinedInstructionError:
                return 'undefined'
            try:
                text = P.formatter.Formatter(None).format(i)
            except Exception as e:
                text = repr(e)
            return (i.mnemonic, text)
        return accept

    def search(self, entries, word):
        """most specific first, in order of registration, the first that accepts"""
        w = is_wide(word)
        if not w:
            word &= 0xffff
        for e in entries:
            if e.wide == w and word & e.mask == e.match:
                r = e.accept(word)
                if r is not None:
                    return r
        return 'undefined'

    def global_search(self, word):
        if not is_wide(word):
            word &= 0xffff
        if word not in self.cache:
            if self.gsorted is None:
                self.gsorted = sorted(self.entries, key=lambda e: -e.weight)
            if len(self.cache) > 20000:
                self.cache.clear()
            self.cache[word] = self.search(self.gsorted, word)
        return self.cache[word]


class RegRun(Base):
    def __init__(self, sc, env, stats, digest):
        self.env = env
        Base.__init__(self, sc, env.pkg, stats, digest)
        P = self.P
        self.tree = P.decoder.DecoderTree()
        self.order = []                     # registered, in order
        self.built = {}                     # width -> list of acceptable entry lists
        self.keep = []

    # -- registering

    def op_add(self, op, ext):
        _id, spec, spec2, beh = self.sc['specs'][op[1]]
        P = self.P

        def handler(i, **fields):
            w = int.from_bytes(bytes(i.bytes), 'little')
            if beh is not None and w & beh[1] == beh[2]:
                if beh[0] == 'reject':
                    raise P.decoder.DecodeError()
                raise P.UnpredictableError()

        def accept(w):
            if beh is not None and w & beh[1] == beh[2]:
                return None if beh[0] == 'reject' else 'unpredictable'
            return ('gen%d' % _id,)
        if len(op) > 3 and self.env.via_instr:
            n = []

            def add(d):
                self.tree.add_decoder(d)
                n.append(d)
            v, e, _ = self.guarded(lambda: self.env.decorate(
                P, add, 'gen%d' % _id, handler, spec, spec2), {}, None)
            self.count('decorated')
            if e is not None and not n:
                self.count('spec_refused')
                return
            if e is not None or len(n) != 1 or v is not handler:
                self.fail('add-raises', 'decorator with %r: %r, registered %d, gave %r' % (
                    (spec, spec2), e, len(n), v))
        else:
            v, e, _ = self.guarded(lambda: P.decoder.Decoder(
                handler, 'gen%d' % _id, P.decoder.Instruction, spec, spec2), {}, None)
            if e is not None:
                # what the spec notation allows is not this property's concern
                self.count('spec_refused')
                return
            v2, e, _ = self.guarded(lambda: self.tree.add_decoder(v), {}, None)
            if e is not None:
                self.fail('add-raises', '%r: %r' % ((spec, spec2), e))
        self.register(Entry('gen%d' % _id, spec, spec2, accept))

    def register(self, entry):
        self.order.append(entry)
        new = sorted(self.order, key=lambda e: -e.weight)
        for w in (False, True):
            # until the next build the new set may or may not be visible
            if w in self.built:
                self.built[w] = self.built[w] + [new]

    def op_real(self, op, ext):
        if not self.env.real or len(self.env.real) != len(self.env.refreal):
            return
        k = op[1] % len(self.env.real)
        _v, e, _ = self.guarded(lambda: self.tree.add_decoder(self.env.real[k]), {}, None)
        if e is not None:
            self.fail('add-raises', 'real encoding %d: %r' % (k, e))
        self.register(self.env.entries[k])

    def op_adds(self, op, ext):
        """a registration that is refused must leave everything as it was"""
        P = self.P
        bad = [('010', None), ('0101 abc(20)', None), ('01%2', None), ('', None),
               ('0' * 17, None), ('0' * 16, '1'), ('x' * 3, '0' * 16), ('0' * 15, '1' * 17)]
        s, s2 = bad[op[1]]

        def go():
            if len(op) > 3 and self.env.via_instr:
                self.env.decorate(P, lambda d: self.tree.add_decoder(d), 'bad',
                                  lambda i, **k: None, s, s2)
            d = P.decoder.Decoder(lambda i, **k: None, 'bad', P.decoder.Instruction, s, s2)
            self.keep.append(d)
        _v, e, _ = self.guarded(go, {}, None)
        self.count('fault.bad_registration')
        self.sigs.add(('adds', op[1], e is not None))

    # -- building

    def measured(self, ext, fn, nest):
        """translate per-mille positions into statements by a dry run's length"""
        return ext

    def op_build(self, op, ext):
        tree = self.tree
        length = self.length(len(self.order))
        new = sorted(self.order, key=lambda e: -e.weight)
        old = dict(self.built)
        for w in (False, True):
            if w in self.built:
                self.built[w] = self.built[w] + [new]
        c = self.positions(ext, length, lambda w: self.check_decode(w, 'while building'))
        v, e, irq = self.guarded(tree.build, c, self.nest)
        self.count('builds')
        self.dig.add('build', repr(e))
        self.sigs.add(('build', len(self.order), tuple(sorted(ext)),
                       ext.get('irq', [0])[0] // 50, irq))
        if irq:
            # old or new, each width for itself; before the first build: nothing yet
            for w in (False, True):
                if w not in old:
                    self.built.pop(w, None)
            return
        if e is not None:
            self.fail('build-raises', '%d encodings: %r' % (len(self.order), e))
        for w in (False, True):
            self.built[w] = [new]

    def length(self, n):
        """rough number of statements of a build of n encodings"""
        return 20 + n * 30

    def positions(self, ext, length, fn):
        out = {}
        if 'irq' in ext:
            out['irq'] = [1 + ext['irq'][0] * length // 1000, ext['irq'][1]]
        if 'pre' in ext:
            out['pre'] = [[1 + p * length // 1000, (fn, w)] for p, w in ext['pre']]
        return out

    def nest(self, x):
        fn, w = x
        fn(w)

    # -- decoding

    def outcome(self, fn, text):
        """-> what a decode produced, as the model would say it"""
        P = self.P
        v, e, irq = fn()
        if irq:
            return None
        if e is None:
            if text and not v.mnemonic.startswith('gen'):
                try:
                    t = P.formatter.Formatter(None).format(v)
                except Exception as x:
                    t = repr(x)
                return (v.mnemonic, t)
            return (v.mnemonic,)
        if isinstance(e, P.UndefinedInstructionError):
            return 'undefined'
        if isinstance(e, P.UnpredictableError):
            return 'unpredictable'
        return 'error %r' % (e,)

    def check_decode(self, word, when, ext=None, extra=0):
        wide = is_wide(word)
        if wide not in self.built:
            return
        data = word.to_bytes(4, 'little')[:4 if wide else 2] + b'\xa5' * extra
        tree = self.tree
        before = list(self.built[wide])
        got = self.outcome(lambda: self.guarded(lambda: tree.decode(data), ext or {},
                                                self.nest), True)
        if got is None:
            return
        # sets that became visible in between are acceptable as well
        want = []
        for l in before + self.built[wide]:
            x = self.env.search(l, word)
            if x not in want:
                want.append(x)
        self.count('judged')
        self.dig.add(word, got)
        self.sigs.add(('dec', when, wide, want[0] if isinstance(want[0], str) else 'hit',
                       len(want), len(self.built[wide][0]), self.overlap(word, wide)))
        if got not in want:
            self.fail('wrong-encoding', '%s %s: decoded as %r, most-specific-first search '
                      'gives %s' % (('%08x' if wide else '%04x') % (
                          word if wide else word & 0xffff), when, got,
                          ' or '.join(repr(x) for x in want)))
        if when == 'at rest' and not ext and len(self.built[wide]) > 1:
            # whichever set it was, it stays that one until the next registration or build
            self.built[wide] = [l for l in self.built[wide]
                                if self.env.search(l, word) == got]
            self.count('narrowed')
            if not self.built[wide]:
                self.fail('mixture', 'decodes agree with neither the old nor the new set')

    def overlap(self, word, wide):
        w = word if wide else word & 0xffff
        return min(5, sum(1 for e in self.built[wide][-1]
                          if e.wide == wide and w & e.mask == e.match))

    def op_dec(self, op, ext):
        _n, word, extra, _e = op
        c = self.positions(ext, 60, lambda w: self.check_decode(w, 'inside another decode'))
        if 're' in ext:
            c.setdefault('pre', []).append([1 + ext['re'] * 60 // 1000, (
                lambda _w: self.op_build(['build', {}], {}), None)])
        self.check_decode(word, 'with a rebuild inside' if 're' in ext else 'at rest', c,
                          extra)

    # -- the package's own decoder

    def g_check(self, word, when, ext=None):
        if not self.env.entries:
            return
        data = word.to_bytes(4, 'little')[:4 if is_wide(word) else 2]
        dec = self.P.disasm.decoder
        got = self.outcome(lambda: self.guarded(lambda: dec.decode(data), ext or {},
                                                self.nest), True)
        if got is None:
            return
        want = self.env.global_search(word)
        self.count('judged_real')
        self.dig.add('g', word, got)
        self.sigs.add(('gdec', when, want if isinstance(want, str) else want[0],
                       got == want))
        if got != want:
            self.fail('wrong-encoding', 'real encodings, %s %s: decoded as %r, '
                      'most-specific-first search gives %r' % (data.hex(), when, got, want))

    def op_gdec(self, op, ext):
        c = self.positions(ext, 60, lambda w: self.g_check(w, 'inside another decode'))
        if 're' in ext:
            c.setdefault('pre', []).append([1 + ext['re'] * 60 // 1000, (
                lambda _w: self.op_gbuild(['gbuild', {}], {}), None)])
        self.g_check(op[1], 'with a rebuild inside' if 're' in ext else 'at rest', c)

    def op_gbuild(self, op, ext):
        c = self.positions(ext, 6000, lambda w: self.g_check(w, 'while rebuilding'))
        dec = self.P.disasm.decoder
        v, e, irq = self.guarded(dec.build, c, self.nest)
        self.count('builds')
        self.sigs.add(('gbuild', tuple(sorted(ext)), ext.get('irq', [0])[0] // 50))
        if e is not None and not irq:
            self.fail('build-raises', 'the package\'s own decoder: %r' % (e,))


def make(sc, env, stats, digest):
    return RegRun(sc, env, stats, digest)


def fresh(root):
    return World(root)
