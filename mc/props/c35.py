"""Any machine will do: the model drives the machine behind it with plain integers, one access for every access of the instruction."""
import contextlib
import io
import itertools
from .. import core, spaces
from ..family import make_states
from ..machine import IDX, describe, diff_regs, enc, impl, word_bytes
from ..ref import isa
from ..vocab import vocabulary

ID = 'C35'
BOUNDS = {
    'quick': 'up to 150 members of every decoding rule in 9 states, twice, on a machine with 4 GiB of memory, different everywhere, which changes by itself between the two, with the '
             'base registers at the ends of the address space, in the middle and unaligned; every public memory and register '
             'operation of the model with 9 addresses and 12 values as integers and bit strings; every history of 4 of 28 of them; '
             'decoding, formatting and showing, which make no access',
    'thorough': 'as quick with 1000 members of every rule and histories of 5',
}
ASSUMPTIONS = ['the order of the accesses of one instruction and how often registers are read is unspecified',
               'bits of a stored value above the size of the access are unspecified']
M32 = 0xffffffff
SPECIAL = {'xpsr': 16, 'msp': 17, 'psp': 18, 'control': -4, 'faultmask': -3, 'basepri': -2, 'primask': -1, 'fpscr': 33}
KNOWN = set(range(19)) | set(range(-4, 0)) | {33} | set(range(0x40, 0x60))


def content(a):
    """What memory holds at first: different bytes all over, signs mixed."""
    return (a * 37 + (a >> 8) * 101 + (a >> 16) * 7 + (a >> 24) * 59 + (a >> 3 & 1) * 128) & 255


class Space(object):
    """4 GiB of bytes."""

    def __init__(self, salt=0):
        self.cells = {}
        self.log = []
        self.salt = salt

    def read(self, addr, size):
        self.log.append(('read', addr, size))
        g = self.cells.get
        v = 0
        for i in range(size):
            a = addr + i & M32
            c = g(a)
            v |= (content(a) ^ self.salt if c is None else c) << 8 * i
        return v

    def write(self, addr, value, size):
        self.log.append(('write', addr, size, value & (1 << 8 * size) - 1))
        for i in range(size):
            self.cells[addr + i & M32] = value >> 8 * i & 255


class Registers(object):
    """The register file of the machine, with banked stack pointers."""

    def __init__(self):
        self.r = dict.fromkeys(KNOWN, 0)

    def read(self, n):
        if n == 13:
            n = 18 if self.r[-4] & 2 else 17
        return self.r[n]

    def write(self, n, v):
        if n == 13:
            n = 18 if self.r[-4] & 2 else 17
        if n in (17, 18):
            v &= 0xfffffffc
        elif n in (-3, -1):
            v &= 1
        elif n == -2:
            v &= 255
        self.r[n] = v


def make_strict(im):
    from cmdis.model import CpuModelDelegate

    class Strict(CpuModelDelegate):
        """A machine that insists on its interface."""

        def __init__(self):
            super(Strict, self).__init__()
            self.file = Registers()
            self.mem = Space()
            self.blocks = []
            self.writes = []
            self.wrong = None

        def need(self, ok, what):
            if not ok and self.wrong is None:
                self.wrong = what

        def reg(self, n):
            self.need(type(n) is int and n in KNOWN, 'the register number %r' % (n,))
            return int(n)

        def place(self, addr, size):
            self.need(type(addr) is int and 0 <= addr <= M32, 'the address %r' % (addr,))
            self.need(type(size) is int and size in (8, 16, 32), 'the size %r' % (size,))
            return int(addr), int(size) // 8

        def value(self, v):
            self.need(type(v) is int and 0 <= v <= M32, 'the value %r' % (v,))
            return int(v)

        def read_register(self, reg):
            return self.file.read(self.reg(reg))

        def write_register(self, reg, value):
            self.writes.append(self.reg(reg))
            self.file.write(self.reg(reg), self.value(value))

        def read_memory(self, addr, size=32):
            return self.mem.read(*self.place(addr, size))

        def write_memory(self, addr, value, size=32):
            a, n = self.place(addr, size)
            self.mem.write(a, self.value(value), n)

        def read_memory_block(self, addr, length):
            self.blocks.append(('read', addr, length))
            return bytearray(content(addr + i & M32) for i in range(length))

        def write_memory_block(self, addr, data):
            self.blocks.append(('write', addr, bytes(data)))

    return Strict


def load(cpu, im, s):
    f = cpu.delegate.file
    f.write(-4, s.control)
    f.write(17, s.msp)
    f.write(18, s.psp)
    for i in range(16):
        if i != 13:
            f.write(i, s.r[i])
    f.write(16, s.xpsr)
    f.write(-3, s.faultmask)
    f.write(-2, s.basepri)
    f.write(-1, s.primask)
    cpu.mode = im.CpuMode.Handler if s.handler else im.CpuMode.Thread


def states():
    out = make_states(None, (0x100, 0x20000002))
    for k, base in enumerate((0xfffffff0, 0x20001003, 0x40)):
        s = out[2 * k].copy()
        for i in range(13):
            s.r[i] = base + 8 * (i & 1) - 0x10 * (i & 2 and k) & M32
        out.append(s)
    return out


def shards(tier):
    per = 1000 if tier == 'thorough' else 150
    n = len(vocabulary(per))
    out = [('words', per, i) for i in range(64)]
    out += [('calls', per)]
    depth = 5 if tier == 'thorough' else 4
    out = [('history', i, depth) for i in range(len(HISTORY))] + out
    out += [('quiet', i) for i in range(8)]
    return out if n else []


ADDR = [0, 1, 3, 0x1000, 0x20000002, 0x7fffffff, 0x80000000, 0xfffffffc, M32]
VALS = [0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x80000000, M32]
HISTORY = [('w8', 0x100), ('w16', 0x100), ('w32', 0x100), ('w32', 0x102), ('w8', M32), ('w16', 0x80000001), ('r8', 0x100), ('r16', 0x101),
           ('r32', 0x100), ('r32', 0x102), ('r8', M32), ('wm', 0x100), ('rm', 0x100), ('reg', 3), ('reg', 13), ('reg', 15), ('spec', 'psp'),
           ('spec', 'control'), ('spec', 'basepri'), ('flag', 'n'), ('flag', 'c'), ('float', 7), ('block', 0x100), ('rblock', 0x101), ('r32', 0x10),
           ('poke', 0x100), ('poke', 0x10), ('pokereg', 3)]


def run_shard(shard, rec):
    im = impl()
    Strict = make_strict(im)

    def fail(msg, **case):
        rec.violate(msg, dict(case, kind='machine'))
        if len(rec.violations) >= rec.MAX_VIOLATIONS:
            raise core.StopShard()

    def machine():
        cpu = im.CpuModel()
        cpu.delegate = Strict()
        return cpu
    {'words': words, 'calls': calls, 'history': history, 'quiet': quiet}[shard[0]](shard, rec, fail, im, machine)


def words(shard, rec, fail, im, machine):
    _, per, part = shard
    sts = states()
    for h1, h2, ref in vocabulary(per)[part::64]:
        rec.tick()
        if ref.st is not isa.OK or ref.k is None or isa.reads_pc(ref):
            continue
        ins = im.decode(word_bytes(h1, h2))
        cpu = machine()
        d = cpu.delegate
        # the same processor throughout, what its machine holds changing by itself
        for s, salt in itertools.product(sts, (0, 0x5a)):
            d.mem, d.blocks = Space(salt), []
            load(cpu, im, s)
            want = s.copy(Space(salt))
            isa.execute(ref, want)
            what = 'executing "%s" on %s' % (isa.text(ref, s.r[15], h1, h2), describe(s))
            try:
                ins.execute(cpu)
            except Exception as e:
                fail('%s raises %s: %s' % (what, type(e).__name__, e), word=enc(h1, h2))
                continue
            rec.transitions += 1 + len(d.mem.log)
            if d.wrong:
                fail('%s hands the machine %s' % (what, d.wrong), word=enc(h1, h2))
                d.wrong = None
                continue
            got, w = tuple(d.file.read(n) for n in IDX), want.regs()
            if got != w and not (ref.k in ('pop', 'ldm') and got[:15] == w[:15] and got[16:] == w[16:] and got[15] | 1 == w[15] | 1):
                fail('%s: %s' % (what, '; '.join(diff_regs(got, w))), word=enc(h1, h2))
                continue
            g, e = sorted(d.mem.log), sorted(want.mem.log)
            unk = isa.unknown_store(ref)
            if unk is not None:
                a = s.r[ref.p[0]] + 4 * unk & M32
                g, e = ([x[:3] if x[1] == a else x for x in l] for l in (g, e))
            if g != e or d.blocks:
                fail('%s accesses memory as %r, should be %r' % (what, g + d.blocks, e), word=enc(h1, h2))
            rec.traces += 1
        rec.states_n(2 * len(sts))
        rec.outcome('%s: %d accesses' % (ref.k, len(e)))


def calls(shard, rec, fail, im, machine):
    B = im.bitstring

    def forms(v, width):
        out = [v, B(v, width)]
        return out

    for addr in ADDR:
        rec.tick()
        for a in forms(addr, 32):
            for n in (8, 16, 32):
                for read in ('read%d' % n, 'read_memory'):
                    cpu = machine()
                    got = getattr(cpu, read)(a) if read != 'read_memory' else cpu.read_memory(a, n)
                    want = Space().read(addr, n // 8)
                    d = cpu.delegate
                    rec.transitions += 1
                    what = '%s(%r) of %d bits' % (read, a, n)
                    if type(got) is not B or got.width != n or got.unsigned != want:
                        fail('%s gives %r, should be %#x' % (what, got, want))
                    if d.wrong or d.mem.log != [('read', addr, n // 8)] or d.writes or d.blocks:
                        fail('%s: the machine sees %r %r %r %s' % (what, d.mem.log, d.writes, d.blocks, d.wrong))
                for v in VALS:
                    if v >> n:
                        continue
                    for val in forms(v, n):
                        for write in ('write%d' % n, 'write_memory'):
                            cpu = machine()
                            if write == 'write_memory':
                                cpu.write_memory(a, val, n)
                            else:
                                getattr(cpu, write)(a, val)
                            d = cpu.delegate
                            rec.transitions += 1
                            if d.wrong or d.mem.log != [('write', addr, n // 8, v)] or d.writes or d.blocks:
                                fail('%s(%r, %r) of %d bits: the machine sees %r %r %r %s' % (
                                    write, a, val, n, d.mem.log, d.writes, d.blocks, d.wrong))
                rec.states_n(1)
        # the size not given is 32 bits
        cpu = machine()
        got = cpu.read_memory(addr)
        cpu.write_memory(addr, 0x12345678)
        if got.unsigned != Space().read(addr, 4) or cpu.delegate.mem.log != [('read', addr, 4), ('write', addr, 4, 0x12345678)]:
            fail('read_memory(%#x) and write_memory without a size: %r, the machine sees %r' % (addr, got, cpu.delegate.mem.log))
        for length in (0, 1, 2, 5, 300):
            cpu = machine()
            got = cpu.read_memory_block(addr, length)
            cpu.write_memory_block(addr, bytearray(got))
            want = bytes(content(addr + i & M32) for i in range(length))
            d = cpu.delegate
            rec.transitions += 2
            if bytes(got) != want or d.blocks != [('read', addr, length), ('write', addr, want)] or d.mem.log:
                fail('blocks of %d at %#x: %r, the machine sees %r %r' % (length, addr, got, d.blocks, d.mem.log))
    names = dict([('r%d' % i, i) for i in range(16)] + [('sp', 13), ('lr', 14), ('pc', 15)] + [('s%d' % i, 0x40 + i) for i in range(32)])
    names.update(SPECIAL)
    for name, n in sorted(names.items()):
        rec.tick()
        for key in (name, name.upper(), n):
            for v in VALS + [-1, 1 << 32 | 5]:
                for val in [v] + ([B(v, 32)] if 0 <= v <= M32 else []):
                    cpu = machine()
                    d = cpu.delegate
                    cpu.write_register(key, val)
                    rec.transitions += 1
                    check = Registers()
                    check.write(n, v & M32)
                    if d.wrong or d.file.r != check.r or d.mem.log or d.blocks:
                        fail('write_register(%r, %r): the machine is told %r, %s' % (key, val, d.writes, d.wrong))
                    got = cpu.read_register(key)
                    if d.wrong or type(got) is not B or got.width != 32 or got.unsigned != check.read(n):
                        fail('read_register(%r) gives %r, should be %#x, %s' % (key, got, check.read(n), d.wrong))
            rec.states_n(1)
    rec.traces += rec.transitions
    rec.outcome('calls')


def history(shard, rec, fail, im, machine):
    _, first, depth = shard
    B = im.bitstring

    def step(cpu, want, f, op, n):
        """Does one operation on both sides and returns what is wrong."""
        kind, arg = op
        v = 0x81727364 + 0x01010101 * n
        val = B(v, 32) if n & 1 else v
        got = exp = None
        if kind in ('w8', 'w16', 'w32', 'wm'):
            size = int(kind[1:]) if kind != 'wm' else 16
            t = v & (1 << size) - 1
            if kind == 'wm':
                cpu.write_memory(arg, B(t, size) if n & 1 else t, size)
            else:
                getattr(cpu, 'write%d' % size)(B(arg, 32) if n & 1 else arg, B(t, size) if n & 1 else t)
            want.write(arg, t, size // 8)
        elif kind in ('r8', 'r16', 'r32', 'rm'):
            size = int(kind[1:]) if kind != 'rm' else 8
            got = cpu.read_memory(arg, size) if kind == 'rm' else getattr(cpu, 'read%d' % size)(B(arg, 32) if n & 1 else arg)
            got, exp = (got.unsigned, got.width), (want.read(arg, size // 8), size)
        elif kind == 'reg':
            cpu.r[arg] = val
            f.write(arg, v)
            got, exp = cpu.r[arg].unsigned, f.read(arg)
        elif kind == 'spec':
            v = 2 if arg == 'control' and f.read(-4) == 0 else 0 if arg == 'control' else v
            cpu.write_register(arg, v)
            f.write(SPECIAL[arg], v)
            got, exp = cpu.read_register(arg).unsigned, f.read(SPECIAL[arg])
        elif kind == 'flag':
            bit = {'n': 31, 'c': 29}[arg]
            setattr(cpu.apsr, arg, n & 1)
            f.write(16, f.read(16) & ~(1 << bit) | (n & 1) << bit)
            got, exp = getattr(cpu.apsr, arg).unsigned, n & 1
        elif kind == 'float':
            cpu.s[arg] = val
            f.write(0x40 + arg, v)
            got, exp = cpu.s[arg].unsigned, v
        elif kind == 'poke':
            # the machine itself changes
            for m in (want, cpu.delegate.mem):
                for i in range(4):
                    m.cells[arg + i] = v + i & 255
        elif kind == 'pokereg':
            f.write(arg, v)
            cpu.delegate.file.write(arg, v)
            got, exp = cpu.r[arg].unsigned, v
        elif kind == 'block':
            cpu.write_memory_block(arg, bytearray((n, 1, 2)))
        else:
            cpu.read_memory_block(arg, 5)
        if got != exp:
            return 'gives %r, should be %r' % (got, exp)
        d = cpu.delegate
        if d.wrong:
            return 'hands the machine ' + d.wrong
        if d.mem.log != want.log:
            return 'accesses memory as %r, should be %r' % (d.mem.log, want.log)
        if d.file.r != f.r:
            return 'leaves wrong registers'
        return None

    for rest in itertools.product(range(len(HISTORY)), repeat=depth - 1):
        rec.tick()
        cpu, want, f = machine(), Space(), Registers()
        seq = [HISTORY[i] for i in (first,) + rest]
        blocks = []
        for n, op in enumerate(seq):
            rec.transitions += 1
            bad = step(cpu, want, f, op, n)
            if op[0] == 'block':
                blocks.append(('write', op[1], bytes((n, 1, 2))))
            elif op[0] == 'rblock':
                blocks.append(('read', op[1], 5))
            if not bad and cpu.delegate.blocks != blocks:
                bad = 'accesses blocks as %r, should be %r' % (cpu.delegate.blocks, blocks)
            if bad:
                fail('in %r: step %d %s' % (seq, n + 1, bad))
                break
        rec.states_n(1)
        rec.traces += 1
    rec.outcome('histories')


def quiet(shard, rec, fail, im, machine):
    """Decoding, formatting and showing read and write no memory and write no register."""
    cpu = machine()
    d = cpu.delegate
    f = im.Formatter(cpu)
    for i in range(16):
        d.file.write(i, 0x1000 + i)
    before = dict(d.file.r)
    for h1, h2, ref in vocabulary(12)[shard[1]::8]:
        rec.tick()
        if ref.st is not isa.OK:
            continue
        i = im.decode(word_bytes(h1, h2), 0x8000)
        f.format(i)
        repr(i)
        rec.transitions += 3
        if d.mem.log or d.writes or d.blocks or d.wrong or d.file.r != before:
            fail('formatting %s: the machine sees %r %r %r' % (enc(h1, h2), d.mem.log, d.writes, d.blocks), word=enc(h1, h2))
            return
        rec.states_n(1)
    for _ in im.Disassembler().disasm(bytes.fromhex('00bf05204ff0050100f001f8'), 0):
        pass
    repr(cpu)
    with contextlib.redirect_stdout(io.StringIO()):
        cpu.dump()
    if d.mem.log or d.writes or d.blocks or d.wrong or d.file.r != before:
        fail('disassembling and showing: the machine sees %r %r %r' % (d.mem.log, d.writes, d.blocks))
    rec.traces += rec.transitions
    rec.outcome('quiet')
