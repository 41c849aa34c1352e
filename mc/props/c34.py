"""Faults stay contained: every point at which a delegate, an operand, a handler or a consumer can fail."""
import itertools
from .. import core, spaces
from ..family import pattern_bytes
from ..machine import IDX, Machine, diff_regs, enc, impl, word_bytes
from ..ref import bits as B
from ..ref import isa
from ..vocab import vocabulary
from .c14 import state
from .c31 import Lib, expect

ID = 'C34'
BOUNDS = {
    'quick': 'for 6 members of every decoding rule in 2 states: a failure at every single call to the delegate, with each of 6 kinds '
             'of exception, then the same instruction again, its text and a fresh decode of its word; for all ordered pairs '
             'of 2 members of every rule: a failure at every call of the first, then the second on the same and on another processor; lists '
             'of 4 of 8 instructions failing at every call; every register and memory accessor; all operand lists of up to 3 '
             'of 7 with a failing operand, each followed by the same instruction mended and by 3 other texts on the same formatter; all chains of up to 4 encodings that accept, decline or fail in 5 ways; '
             'streams closed and failed at every position; every exception class of the language at every call of one member of every rule, in handlers, operands, '
             'lists and streams; 24 refused bit string operations on all values of width 0..6',
    'thorough': 'as quick with 24 members of every rule, all ordered pairs of 4 members of every rule, lists of 5 of 8 instructions '
                'and bit strings of width 0..8',
}
ASSUMPTIONS = ['what an instruction has done before its failing access stays done: it is compared with the undisturbed run']
REGION = (0x20000000, pattern_bytes(0x100, 3))


class Fault(Exception):
    pass


class Abort(BaseException):
    pass


def kinds(d):
    return [Fault, KeyError, ValueError, Abort, d.DecodeError, d.UndefinedInstructionError]


def every_kind():
    """One instance maker for every exception class of the language."""
    import builtins
    out = []
    for n in sorted(dir(builtins)):
        c = getattr(builtins, n)
        if isinstance(c, type) and issubclass(c, BaseException):
            args = {'UnicodeDecodeError': ('utf-8', b'x', 0, 1, 'injected'), 'UnicodeEncodeError': ('utf-8', 'x', 0, 1, 'injected'),
                    'UnicodeTranslateError': ('x', 0, 1, 'injected'), 'ExceptionGroup': None, 'BaseExceptionGroup': None}.get(n, ('injected',))
            if args is not None and c.__name__ == n:
                out.append((n, lambda c=c, args=args: c(*args)))
    return out


def shards(tier):
    T = tier == 'thorough'
    voc = [i for i, w in enumerate(vocabulary(24 if T else 6)) if w[2].st is isa.OK and w[2].k is not None]
    prs = [i for i, w in enumerate(vocabulary(4 if T else 2)) if w[2].st is isa.OK and w[2].k is not None]
    out = [('one', c, 24 if T else 6) for c in spaces.rotate_chunks(voc, 24)]
    out += [('two', c, 4 if T else 2) for c in spaces.rotate_chunks(prs, 24)]
    n, k = (8, 5) if T else (8, 4)
    out += [('lists', i, n, k) for i in range(n)]
    out += [('access',), ('format',), ('stream',)]
    out += [('types', c, 3 if T else 1) for c in spaces.rotate_chunks(range(len(vocabulary(3 if T else 1))), 16)]
    out += [('types elsewhere',)]
    out += [('tree', i) for i in range(7)]
    out += [('bits', w) for w in range(9 if T else 7)]
    return out


def make_faulty(im):
    from cmdis.model import CpuModelDelegate

    class Faulty(CpuModelDelegate):
        """Forwards to a mock, records every call, fails at the chosen one."""

        def __init__(self, inner):
            self.inner = inner
            self.log = []
            self.at = None
            self.exc = None

        def arm(self, at=None, exc=None):
            self.log = []
            self.at, self.exc = at, exc

        def call(self, name, *args):
            if len(self.log) == self.at:
                self.at = None      # any call from here on shows in the log
                raise self.exc
            r = getattr(self.inner, name)(*args)
            self.log.append((name,) + args + (r,))
            return r

        def read_register(self, reg):
            return self.call('read_register', reg)

        def write_register(self, reg, value):
            return self.call('write_register', reg, value)

        def read_memory(self, addr, size=32):
            return self.call('read_memory', addr, size)

        def write_memory(self, addr, value, size=32):
            return self.call('write_memory', addr, value, size)

        def read_memory_block(self, addr, length):
            return self.call('read_memory_block', addr, length)

        def write_memory_block(self, addr, data):
            return self.call('write_memory_block', addr, bytes(data))

    return Faulty


class Rig(object):
    """A processor whose delegate can be made to fail."""

    def __init__(self, im):
        self.m = Machine([REGION])
        self.f = make_faulty(im)(self.m.dele)
        self.m.cpu.delegate = self.f
        self.cpu = self.m.cpu
        self.states = {k: state(self.m.mem, k) for k in (0, 1, 2)}

    def load(self, k):
        self.m.reset_memory()
        self.m.load(self.states[k])

    def run(self, what, at=None, exc=None):
        """The exception that came out, or None."""
        self.f.arm(at, exc)
        try:
            what(self.cpu)
        except BaseException as e:
            if isinstance(e, core.Hang):
                raise
            return e
        finally:
            self.f.at = None
        return None

    def verdict(self, ref, k):
        """Differences from the architecture after one undisturbed execution."""
        s = self.states[k]
        want = s.copy()
        isa.execute(ref, want, False, 0)
        got = self.m.regs()
        w = want.regs()
        out = []
        if got != w and not isa.reads_pc(ref) and not (
                ref.k in ('pop', 'ldm') and got[:15] == w[:15] and got[16:] == w[16:] and got[15] | 1 == w[15] | 1):
            out += diff_regs(got, w)
        unk = isa.unknown_store(ref)
        if unk is not None:
            addr = s.r[ref.p[0]] + 4 * unk & 0xffffffff
            self.m.mem.write(addr, self.m.dele.read_memory(addr, 32), 4)
        if not self.m.memory_equal():
            out.append('memory differs: ' + self.memdiff())
        self.m.reset_memory()
        return out

    def memdiff(self):
        start, data = self.m.mem.regions[0]
        got = self.m.dele.read_memory_block(start, len(data))
        return ', '.join('%#x' % (start + i) for i, (x, y) in enumerate(zip(got, data)) if x != y)[:80]


def run_shard(shard, rec):
    import cmdis.decoder as d
    im = impl()
    kind = shard[0]
    KINDS = kinds(d)

    def fail(msg, **case):
        rec.violate(msg, dict(case, kind='fault'))
        if len(rec.violations) >= rec.MAX_VIOLATIONS:
            raise core.StopShard()

    def undisturbed(rig, ins, ref, k, where):
        rig.load(k)
        e = rig.run(ins.execute)
        rec.transitions += 1
        log = list(rig.f.log)
        if e is not None:
            fail('%s: raises %r' % (where, e))
        bad = rig.verdict(ref, k)
        if bad:
            fail('%s: %s' % (where, '; '.join(bad)))
        return log

    def prefix(log, n):
        return [x[:-1] for x in log[:n]]

    if kind == 'one':
        voc = vocabulary(shard[2])
        rig = Rig(im)
        fmt = im.Formatter(rig.cpu)
        for i in shard[1]:
            h1, h2, ref = voc[i]
            for k in (0, 1):
                ins = im.decode(word_bytes(h1, h2), 0x8000)
                base = undisturbed(rig, ins, ref, k, '%s %s' % (enc(h1, h2), ref.mn))
                for at in range(len(base)):
                    for E in KINDS:
                        rec.tick()
                        x = E('injected')
                        rig.load(k)
                        e = rig.run(ins.execute, at, x)
                        where = '%s %s with %s at its call %d (%s)' % (enc(h1, h2), ref.mn, E.__name__, at, base[at][:-1])
                        if e is not x:
                            fail('%s: %s' % (where, 'no exception' if e is None else repr(e)), word=enc(h1, h2))
                        if prefix(rig.f.log, None) != prefix(base, at):
                            fail('%s: calls before it are %r, undisturbed %r' % (where, rig.f.log, base[:at]), word=enc(h1, h2))
                        rec.states_n(1)
                        log = undisturbed(rig, ins, ref, k, 'again after ' + where)
                        if log != base:
                            fail('again after %s: calls are %r, were %r' % (where, log, base), word=enc(h1, h2))
                        other = im.decode(word_bytes(h1, h2), 0x8000)
                        if undisturbed(rig, other, ref, k, 'decoded again after ' + where) != base:
                            fail('decoded again after %s: other calls' % where, word=enc(h1, h2))
                        for o in (ins, other):
                            t = fmt.format(o)
                            if t != isa.text(ref, 0x8000, h1, h2):
                                fail('%s: then formats as %r' % (where, t), word=enc(h1, h2))
                        rec.traces += 1
            rec.outcome(ref.mn)
    elif kind == 'two':
        voc = vocabulary(shard[2])
        ok = [w for w in voc if w[2].st is isa.OK and w[2].k is not None]
        a, b = Rig(im), Rig(im)
        seconds = [(h1, h2, ref, im.decode(word_bytes(h1, h2), 0x8000)) for h1, h2, ref in ok]
        for i in shard[1]:
            h1, h2, ref = voc[i]
            ins = im.decode(word_bytes(h1, h2), 0x8000)
            base = undisturbed(a, ins, ref, 0, '%s %s' % (enc(h1, h2), ref.mn))
            for at in range(len(base)):
                for j, (g1, g2, r2, ins2) in enumerate(seconds):
                    rec.tick()
                    x = KINDS[(at + j) % 4]('injected')
                    a.load(0)
                    e = a.run(ins.execute, at, x)
                    if e is not x:
                        fail('%s %s failing at call %d: %r' % (enc(h1, h2), ref.mn, at, e), word=enc(h1, h2))
                    for p, k in ((b, 1), (a, 2)):
                        undisturbed(p, ins2, r2, k, '%s %s on %s processor after %s %s failed at its call %d (%s)' % (
                            enc(g1, g2), r2.mn, 'the same' if p is a else 'another', enc(h1, h2), ref.mn, at, base[at][:-1]))
                    rec.traces += 1
                    rec.states_n(1)
            rec.outcome(ref.mn)
    elif kind == 'lists':
        _, first, n, depth = shard
        pool = [(0x1888, None), (0xb407, None), (0x6008, None), (0xcc06, None), (0xf3ef, 0x8003), (0x4288, None), (0xe8bd, 0x0007),
                (0xf381, 0x8808)][:n]
        rig = Rig(im)
        for rest in itertools.product(range(n), repeat=depth - 1):
            seq = [pool[i] for i in (first,) + rest]
            inss = [im.decode(word_bytes(*w), 0x8000) for w in seq]
            rig.load(0)
            e = rig.run(lambda cpu: cpu.execute(inss))
            if e is not None:
                fail('list %r: %r' % ([enc(*w) for w in seq], e))
            base = list(rig.f.log)
            end = rig.m.regs()
            for at in range(len(base)):
                rec.tick()
                x = KINDS[at % 6]('injected')
                rig.load(0)
                e = rig.run(lambda cpu: cpu.execute(inss), at, x)
                rec.transitions += 1
                if e is not x or prefix(rig.f.log, None) != prefix(base, at):
                    fail('list %r failing at call %d: %r, calls %r' % ([enc(*w) for w in seq], at, e, rig.f.log))
                rig.load(0)
                e = rig.run(lambda cpu: cpu.execute(inss))
                if e is not None or rig.f.log != base or rig.m.regs() != end:
                    fail('list %r run again after a failure at call %d differs: %r' % ([enc(*w) for w in seq], at, e))
                rec.traces += 1
                rec.states_n(1)
        rec.outcome('list')
    elif kind == 'types':
        voc = vocabulary(shard[2])
        rig = Rig(im)
        makers = every_kind()
        for i in shard[1]:
            h1, h2, ref = voc[i]
            if ref.st is not isa.OK or ref.k is None:
                continue
            ins = im.decode(word_bytes(h1, h2), 0x8000)
            base = undisturbed(rig, ins, ref, 0, '%s %s' % (enc(h1, h2), ref.mn))
            for at in range(len(base)):
                for name, make in makers:
                    rec.tick()
                    x = make()
                    rig.load(0)
                    e = rig.run(ins.execute, at, x)
                    rec.transitions += 1
                    if e is not x or prefix(rig.f.log, None) != prefix(base, at):
                        fail('%s %s with %s at its call %d (%s): %r, calls %r' % (
                            enc(h1, h2), ref.mn, name, at, base[at][:-1], e, rig.f.log), word=enc(h1, h2))
                    rec.states_n(1)
                undisturbed(rig, ins, ref, 0, '%s %s after every kind of failure' % (enc(h1, h2), ref.mn))
                rec.traces += 1
        rec.outcome('kinds of exception', len(makers))
    elif kind == 'types elsewhere':
        elsewhere(rec, im, d, fail)
    elif kind == 'access':
        accessors(rec, im, fail, KINDS, prefix)
    elif kind == 'format':
        formats(rec, im, fail, KINDS)
    elif kind == 'stream':
        streams(rec, im, fail, KINDS)
    elif kind == 'tree':
        trees(rec, d, fail, shard[1])
    else:
        refused(rec, im, fail, shard[1])
    rec.count('operations', rec.transitions)


def accessors(rec, im, fail, KINDS, prefix):
    rig = Rig(im)
    cpu = rig.cpu
    acts = []
    for n in ('pc', 'lr', 'sp', 'msp', 'psp', 'control', 'xpsr', 'is_privileged', 'ipsr', 'pc_for_instr'):
        acts.append(('read ' + n, lambda c, n=n: getattr(c, n)))
    for n in ('pc', 'lr', 'sp', 'msp', 'psp', 'xpsr'):
        acts.append(('write ' + n, lambda c, n=n: setattr(c, n, 0x41000010)))
    for n in 'nzcv':
        acts.append(('read flag ' + n, lambda c, n=n: getattr(c.apsr, n)))
        for v in (0, 1):
            acts.append(('write flag ' + n, lambda c, n=n, v=v: setattr(c.apsr, n, v)))
    for i in range(16):
        acts.append(('r[%d]' % i, lambda c, i=i: c.r[i]))
        acts.append(('r[%d] =' % i, lambda c, i=i: c.r.__setitem__(i, 0x1234 + i)))
    for i in (0, 31):
        acts.append(('s[%d]' % i, lambda c, i=i: c.s[i]))
        acts.append(('s[%d] =' % i, lambda c, i=i: c.s.__setitem__(i, 0x1234 + i)))
    for size in (8, 16, 32):
        acts.append(('read%d' % size, lambda c, n=size: getattr(c, 'read%d' % n)(0x20000010)))
        acts.append(('write%d' % size, lambda c, n=size: getattr(c, 'write%d' % n)(0x20000010, 0x77)))
    acts.append(('read block', lambda c: c.read_memory_block(0x20000004, 9)))
    acts.append(('write block', lambda c: c.write_memory_block(0x20000004, bytearray(b'12345'))))
    acts.append(('repr', repr))
    for (an, a), (bn, b) in itertools.product(acts, acts):
        rig.load(0)
        e = rig.run(a)
        if e is not None:
            fail('%s raises %r' % (an, e))
        base = list(rig.f.log)
        rig.load(0)
        rig.run(b)
        blog = list(rig.f.log)
        bregs = rig.m.regs()
        for at in range(len(base)):
            rec.tick()
            x = KINDS[(at + len(an)) % 6]('injected')
            rig.load(0)
            before = (rig.m.regs(), bytes(rig.m.dele.read_memory_block(*[REGION[0], len(REGION[1])])))
            e = rig.run(a, at, x)
            rec.transitions += 1
            if e is not x or prefix(rig.f.log, None) != prefix(base, at):
                fail('%s failing at call %d: %r' % (an, at, e))
            if not any(l[0].startswith('write') for l in rig.f.log):
                after = (rig.m.regs(), bytes(rig.m.dele.read_memory_block(*[REGION[0], len(REGION[1])])))
                if after != before:
                    fail('%s failing at call %d changes the processor' % (an, at))
            rig.load(0)
            e = rig.run(b)
            if e is not None or rig.f.log != blog or rig.m.regs() != bregs:
                fail('%s after %s failed: %r' % (bn, an, e))
            rec.traces += 1
            rec.states_n(1)
    rec.outcome('accessor', len(acts))


def formats(rec, im, fail, KINDS):
    L = Lib()

    class Bad(L.F.Operand):
        def __init__(self, exc, note):
            self.exc, self.note = exc, note

        def format(self, formatter):
            if self.note:
                formatter.add_comment('left over')
            if self.exc is None:
                return 'mended'
            raise self.exc
    pool = L.pool()
    good = [pool[i] for i in (0, 2, 4, 9, 12, 13)]
    follow = [[good[0]], [good[0], good[2]], [good[3], good[4], good[5]]]
    for n in (0, 1, 2):
        for ops in itertools.product(good, repeat=n):
            for pos in range(n + 1):
                for nest in (0, 1, 2):
                    for note in (False, True):
                        for E in KINDS:
                            rec.tick()
                            x = E('injected')
                            bad = core_bad = Bad(x, note)
                            for _ in range(nest):
                                bad = L.F.MemoryAccessOperand(good[2][0], bad, good[0][0])
                            row = [o for o, _ in ops]
                            row.insert(pos, bad)
                            fmt = im.Formatter(None)
                            i = L.instr('op', 0x1234, False, 0x1000, [])
                            i.operands = row
                            try:
                                t = fmt.format(i)
                            except BaseException as e:
                                if isinstance(e, core.Hang):
                                    raise
                                t = e
                            rec.transitions += 1
                            if t is not x:
                                fail('an operand fails with %s at position %d (nested %d): format gives %r' % (E.__name__, pos, nest, t))
                            # the same instruction once its operand works again
                            core_bad.exc = None
                            got, want = fmt.format(i), im.Formatter(None).format(i)
                            if got != want:
                                fail('an operand failed with %s at position %d (nested %d), then not: %r, should be %r' % (
                                    E.__name__, pos, nest, got, want))
                            core_bad.exc = x
                            for again in (1, 2):
                                try:
                                    fmt.format(i)
                                except BaseException as e:
                                    if e is not x:
                                        raise
                            for f in follow:
                                got = fmt.format(L.instr('next', 0xf0001234, True, 0x2000, f))
                                want = expect('next', 0xf0001234, True, 0x2000, f)
                                if got != want:
                                    fail('after an operand failed with %s at position %d (nested %d): %r, should be %r' % (
                                        E.__name__, pos, nest, got, want))
                            rec.traces += 1
                            rec.states_n(1)
    rec.outcome('format')


def streams(rec, im, fail, KINDS):
    words = [(0x1888, None), (0xf000, 0xf800), (0xbf00, None), (0xe8bd, 0x0007), (0xde00, None)]
    for n in range(1, 5):
        for seq in itertools.product(words, repeat=n):
            data = bytearray()
            want = []
            for w in seq:
                want.append((0x1000 + len(data), enc(*w)))
                data += word_bytes(*w)

            def show(i):
                b = i.bytes
                return i.address, ' '.join('%04x' % (b[k] | b[k + 1] << 8) for k in range(0, len(b), 2))
            dis = im.Disassembler()
            for stop in range(n + 1):
                for how in [None] + KINDS:
                    rec.tick()
                    rec.transitions += 1
                    g = dis.disasm(data, 0x1000)
                    got = [show(next(g)) for _ in range(stop)]
                    if how is None:
                        g.close()
                    else:
                        x = how('injected')
                        try:
                            g.throw(x)
                            fail('stream of %r failed after %d: goes on' % (seq, stop))
                        except BaseException as e:
                            if isinstance(e, core.Hang):
                                raise
                            if e is not x:
                                fail('stream of %r failed after %d: %r' % (seq, stop, e))
                    if list(g) != [] or got != want[:stop]:
                        fail('stream of %r ended after %d: %r' % (seq, stop, got))
                    if [show(i) for i in dis.disasm(data, 0x1000)] != want:
                        fail('stream of %r after an earlier one ended early at %d differs' % (seq, stop))
                    rec.traces += 1
                    rec.states_n(1)
    rec.outcome('stream')


def elsewhere(rec, im, d, fail):
    """Every exception class of the language out of handlers, operands, list execution and the consumer of a stream."""
    L = Lib()
    pool = L.pool()
    cur = [None]

    class Bad(L.F.Operand):
        def format(self, formatter):
            raise cur[0]

    def narrow(i, x):
        if cur[0] is not None:
            raise cur[0]
        i.x = x.unsigned

    class Own(d.Instruction):
        def execute(self, cpu):
            raise cur[0]

    specs = [(narrow, 'narrow', '1010 1010 x(8)'), (lambda i, y: None, 'wide', 'y(16)')]
    for order in (specs, specs[::-1]):
        t = d.DecoderTree()
        for h, n, sp in order:
            t.add_decoder(d.Decoder(h, n, d.Instruction, sp))
        t.build()
        for name, make in every_kind():
            for w, mine in ((0xaa55, True), (0xab55, False)):
                rec.tick()
                rec.transitions += 1
                cur[0] = make()
                for _ in (1, 2):
                    try:
                        got = t.decode(bytearray((w & 255, w >> 8)), 4).mnemonic
                    except BaseException as e:
                        got = e
                    if got is not cur[0] if mine else got != 'wide':
                        fail('a decoding handler fails with %s: decode of %04x gives %r' % (name, w, got))
                cur[0] = None
                if t.decode(bytearray((w & 255, w >> 8)), 4).mnemonic != ('narrow' if mine else 'wide'):
                    fail('after a decoding handler failed with %s %04x decodes otherwise' % (name, w))
                rec.states_n(1)
            for row in ([Bad()], [pool[0][0], Bad()], [L.F.MemoryAccessOperand(pool[0][0], Bad(), pool[2][0])]):
                for cpu in (None, im.CpuModel()):
                    rec.transitions += 1
                    cur[0] = make()
                    i = L.instr('op', 0x1234, False, 0x1000, [])
                    i.operands = row
                    try:
                        got = im.Formatter(cpu).format(i)
                    except BaseException as e:
                        got = e
                    if got is not cur[0]:
                        fail('an operand fails with %s: format gives %r' % (name, got))
                    rec.states_n(1)
            cpu = im.CpuModel()
            cpu.delegate = im.Mock()
            cur[0] = make()
            try:
                cpu.execute([Own('own', 0x1234, False)])
                got = 'no exception'
            except BaseException as e:
                got = e
            rec.transitions += 1
            if got is not cur[0]:
                fail('an instruction of a list fails with %s: execute gives %r' % (name, got))
            if name not in ('StopIteration', 'GeneratorExit'):
                x = make()
                g = im.Disassembler().disasm(bytearray(b'\x88\x18\x88\x18'), 0x1000)
                next(g)
                rec.transitions += 1
                try:
                    got = g.throw(x)
                except BaseException as e:
                    got = e
                if got is not x:
                    fail('the consumer of a stream fails with %s: %r' % (name, got))
            rec.traces += 1
    rec.outcome('kinds of exception elsewhere')


def trees(rec, d, fail, first):
    """Nested encodings, each accepting, declining or failing in some way."""
    specs = ['1010 1010 1010 1010', '1010 1010 x(8)', '1010 x(12)', 'x(16)']
    words = [0xaaaa, 0xaa00, 0xa000, 0x0000]
    kinds7 = ['accept', 'decline', d.UnpredictableError, ValueError, KeyError, Abort, d.UndefinedInstructionError]
    for rest in itertools.product(range(7), repeat=3):
        beh = [kinds7[i] for i in (first,) + rest]
        excs = [b('injected') if isinstance(b, type) else None for b in beh]
        for order in ((0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1)):
            rec.tick()
            t = d.DecoderTree()
            for k in order:
                def handler(i, k=k, **f):
                    if beh[k] == 'decline':
                        raise d.DecodeError()
                    if beh[k] != 'accept':
                        raise excs[k]
                t.add_decoder(d.Decoder(handler, 'e%d' % k, d.Instruction, specs[k]))
            t.build()
            for seq in itertools.product(range(4), repeat=2):
                for v in seq:
                    rec.transitions += 1
                    want = None
                    for k in range(4):
                        if k >= v:
                            if beh[k] == 'decline':
                                continue
                            want = 'e%d' % k if beh[k] == 'accept' else excs[k]
                            break
                    w = words[v]
                    try:
                        got = t.decode(bytearray((w & 255, w >> 8)), 4).mnemonic
                    except BaseException as e:
                        if isinstance(e, core.Hang):
                            raise
                        got = e
                    ok = isinstance(got, d.UndefinedInstructionError) if want is None else got is want or got == want
                    if not ok:
                        fail('encodings %r registered as %r: decoding %04x gives %r, should be %r' % (beh, order, w, got, want))
                rec.traces += 1
            rec.states_n(1)
    rec.outcome('tree')


def ipow(f):
    def g(x, y):
        f(x, y)
    return g


def setk(key, v):
    def f(x, y):
        x[key] = v
    return f


def iop(op):
    env = {}
    exec('def f(x, y):\n x %s= y\n' % op, env)
    return env['f']


def bop(op):
    env = {}
    exec('def f(x, y):\n return x %s y\n' % op, env)
    return env['f']


def refused(rec, im, fail, w):
    bs = im.bitstring
    bad = [None, 1.5, object(), b'\x01', [2.5], {}, 1j]
    ops = []
    for o in ('+', '-', '*', '//', '&', '|', '^'):
        for v in (None, 1.5, object(), {}, 1j):
            ops.append(('x %s %s' % (o, type(v).__name__), lambda x, f=bop(o), v=v: f(x, v)))
            ops.append(('x %s= %s' % (o, type(v).__name__), lambda x, f=iop(o), v=v: f(x, v)))
            if v is not None:       # bitstring(None) is the empty bit string
                ops.append(('%s %s x' % (type(v).__name__, o), lambda x, f=bop(o), v=v: f(v, x)))
        for v in ('2', 'x', '1 0', '0b'):
            if o not in '&|^' or True:
                ops.append(('x %s %r' % (o, v), lambda x, f=bop(o), v=v: f(x, v)))
                ops.append(('x %s= %r' % (o, v), lambda x, f=iop(o), v=v: f(x, v)))
    for o in ('<<', '>>'):
        for v in (-1, -70, None, 1.5, 'x', '1'):
            ops.append(('x %s %r' % (o, v), lambda x, f=bop(o), v=v: f(x, v)))
            ops.append(('x %s= %r' % (o, v), lambda x, f=iop(o), v=v: f(x, v)))
    for v in (0, '0', '', bs('0'), bs(0, 7), bs()):
        ops.append(('x // %r' % (v,), lambda x, v=v: x // v))
        ops.append(('x //= %r' % (v,), lambda x, f=iop('//'), v=v: f(x, v)))
    for v in (2, -1, 1.5, None, 'x', object()):
        ops.append(('x %% %r' % (v,), lambda x, v=v: x % v))
        ops.append(('x %%= %r' % (v,), lambda x, f=iop('%'), v=v: f(x, v)))
    for v in (None, 1.5, object(), {}):
        for o in ('<', '<=', '>', '>='):
            ops.append(('x %s %s' % (o, type(v).__name__), lambda x, f=bop(o), v=v: f(x, v)))
    for n in ('sign_extend', 'zero_extend'):
        for k in (w - 1, -1):
            if k < w:
                ops.append(('x.%s(%d)' % (n, k), lambda x, n=n, k=k: getattr(x, n)(k)))
    for key, v in ((w, 0), (w + 3, 1), (-w - 1, 1), ('a', 1), (None, 1), (1.5, 0), (0, 1.5), (0, None), (0, bs('10')), (0, bs()),
                   (slice(None, None, 2), 1), (slice(None, None, -1), 0), (slice(0, 1), None), (slice(0, 1), 1.5), (slice(0, 1), 'x'),
                   (slice(0, 1), [1])):
        ops.append(('x[%r] = %r' % (key, v), lambda x, key=key, v=v: x.__setitem__(key, v)))
    for key in ('a', None, 1.5, (0, 1)):
        ops.append(('x[%r]' % (key,), lambda x, key=key: x[key]))
    for v in (None, 3, '1', 1.5):
        ops.append(('x.set(%r)' % (v,), lambda x, v=v: x.set(v)))
    for v in (-1, None, 1.5, 'a'):
        ops.append(('x.width = %r' % (v,), lambda x, v=v: setattr(x, 'width', v)))
    for v in (None, 1.5, 'a', [1]):
        ops.append(('x.value = %r' % (v,), lambda x, v=v: setattr(x, 'value', v)))
    ops.append(('x.base_string(7)', lambda x: x.base_string(7)))
    for v in range(1 << w):
        for name, f in ops:
            rec.tick()
            rec.transitions += 1
            x = bs(v, w)
            before = (x.width, x.unsigned, x.mask, x.binary_string, len(x), x.inverted.unsigned)
            try:
                r = f(x)
            except Exception:
                rec.outcome('refused')
            else:
                fail("%s on %d'b%s is not refused: %r" % (name, w, format(v, 'b'), r), operation=name)
            try:
                after = (x.width, x.unsigned, x.mask, x.binary_string, len(x), x.inverted.unsigned)
            except Exception as e:
                after = e
            if after != before:
                fail("%s on %d'b%s is refused but leaves %r, was %r" % (name, w, format(v, 'b'), after, before), operation=name)
            rec.traces += 1
            rec.states_n(1)
