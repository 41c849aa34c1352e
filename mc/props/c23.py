"""Memory: byte addressed little endian regions, nothing outside them."""
import itertools
from .. import core, spaces

ID = 'C23'
BOUNDS = {
    'quick': 'three layouts of separate and adjacent regions (also at both ends of the address space); every history of 2 '
             'writes (8, 16, 32 bits and blocks of 0..10 bytes at every position from before to after a region of 8 '
             'bytes) and of 3 sized writes and blocks of 5 bytes, each followed (histories of 2 also preceded) by every sized and block read; address and value given as '
             'integer or bit string; regions of 64 KiB to 16 MiB at every power of two, long blocks; 40 and 300 regions',
    'thorough': 'as quick with histories of 3 writes with blocks of 5 sizes and of 4 sized writes',
}
ASSUMPTIONS = ['accesses that run out of one region into an adjacent or overlapping one are unspecified, as are overlapping '
               'regions; an access that runs past the end of a region alone is cut off there',
               'reads where there is no memory give 0 (blocks: None), writes there do nothing']

LAYOUTS = {
    'two': [(0x100, 8), (0x200, 3)],
    'ends': [(0, 8), (0xfffffffc, 4)],
    'adjacent': [(0x20000000, 8), (0x20000008, 8), (0x1ffffff8, 8)],
}


class Mem(object):
    def __init__(self, regions):
        self.regions = [(s, bytearray(n)) for s, n in regions]

    def find(self, a):
        for s, d in self.regions:
            if s <= a < s + len(d):
                return d, a - s
        return None, 0

    def read(self, a, n):
        d, o = self.find(a)
        if d is None:
            return 0
        return int.from_bytes(d[o:o + n], 'little')

    def write(self, a, data):
        d, o = self.find(a)
        if d is not None:
            for i, b in enumerate(data):
                if o + i < len(d):
                    d[o + i] = b

    def block(self, a, n):
        d, o = self.find(a)
        return None if d is None else bytearray(d[o:o + n])


def crosses(layout, a, n):
    """does an access of n bytes at a leave one region for another?"""
    for s, ln in LAYOUTS[layout]:
        if s <= a < s + ln and a + n > s + ln:
            return any(s2 < a + n and s + ln < s2 + l2 + 1 and (s2, l2) != (s, ln) and s2 >= s + ln for s2, l2 in LAYOUTS[layout])
    return False


def positions(layout):
    out = []
    for s, ln in LAYOUTS[layout]:
        out += [a for a in range(s - 1, s + ln + 1) if 0 <= a <= 0xffffffff]
    return sorted(set(out))


def writes(layout, blocks):
    out = []
    for a in positions(layout):
        for n in (1, 2, 4):
            if not crosses(layout, a, n):
                out.append((a, n, 'sized'))
        if blocks:
            for n in blocks:
                if not crosses(layout, a, n):
                    out.append((a, n, 'block'))
    return out


def shards(tier):
    out = []
    for layout in sorted(LAYOUTS):
        full = writes(layout, range(0, 11))
        lean = writes(layout, (1, 2, 3, 5, 8) if tier == 'thorough' else (5,))
        if layout == 'adjacent':
            full = writes(layout, (0, 1, 3, 8))
            lean = [w for w in lean if w[0] % 3 == 0]
        out += [('h', layout, 2, c, full) for c in spaces.rotate_chunks(full, 24)]
        out += [('h', layout, 3, c, lean) for c in spaces.rotate_chunks(lean, 24)]
    if tier == 'thorough':
        few = [w for w in writes('two', ()) if w[0] % 2 or w[1] == 4][::2]
        out += [('h', 'two', 4, c, few) for c in spaces.rotate_chunks(few, len(few))]
    out += [('values', layout) for layout in sorted(LAYOUTS)]
    out += [('big', n) for n in ((1 << 16) + 8, (1 << 20) + 8, (1 << 24) + 8) + (((1 << 27) + 8,) if tier == 'thorough' else ())]
    out += [('many', n) for n in (40, 300)]
    out += [('api', 0)]
    return out


def run_shard(shard, rec):
    from cmdis.model import CpuModel
    from cmdis.mock_cpu import MockCpuModelDelegate
    from cmdis.bitstring import bitstring
    kind = shard[0]

    def fail(msg, **case):
        rec.violate(msg, dict(case, kind='memory'))
        if len(rec.violations) >= rec.MAX_VIOLATIONS:
            raise core.StopShard()

    def machine(layout):
        cpu = CpuModel()
        cpu.delegate = MockCpuModelDelegate()
        for s, n in LAYOUTS[layout]:
            cpu.delegate.add_memory(s, n)
        return cpu

    def compare(cpu, m, layout, what, pos):
        rec.transitions += 1
        for a in pos:
            for n, f in ((1, cpu.read8), (2, cpu.read16), (4, cpu.read32)):
                if crosses(layout, a, n):
                    continue
                got = f(a)
                want = m.read(a, n)
                if type(got) is not bitstring or got.width != 8 * n or got.unsigned != want:
                    fail('after %s: %d bits at %#x read %r, should read %#x' % (what, 8 * n, a, got, want), ops=what)
                got = f(bitstring(a))
                if got.width != 8 * n or got.unsigned != want:
                    fail('after %s: %d bits at the bit string %#x read %r, should read %#x' % (what, 8 * n, a, got, want), ops=what)
        for s, d in m.regions:
            got = cpu.read_memory_block(s, len(d))
            if got != d or type(got) is not bytearray:
                fail('after %s: region at %#x holds %r, should hold %r' % (what, s, got, d), ops=what)

    if kind == 'h':
        _, layout, depth, firsts, allw = shard
        pos = positions(layout)
        for first in firsts:
            for rest in itertools.product(itertools.product(allw, repeat=depth - 1), (False, True)[:4 - depth or 1]):
                # with and without reading everything before every write
                rest, between = rest
                rec.tick()
                cpu, m = machine(layout), Mem(LAYOUTS[layout])
                what = []
                for k, (a, n, how) in enumerate((first,) + rest):
                    data = bytes((0x11 * (k + 1) * 3 + i * 7 + 0x80) & 255 for i in range(n))
                    if between:
                        compare(cpu, m, layout, ' then '.join(what), pos)
                    what.append('%s of %d bytes at %#x' % (how, n, a))
                    if how == 'sized':
                        v = int.from_bytes(data, 'little')
                        f = {1: cpu.write8, 2: cpu.write16, 4: cpu.write32}[n]
                        if k & 1:
                            f(bitstring(a), bitstring(v, 8 * n))
                        else:
                            f(a, v)
                    else:
                        src = bytearray(data)
                        cpu.write_memory_block(a, src)
                        if src != data:
                            fail('writing a block changed the data to %r' % src, ops=repr(what))
                        for i in range(n):
                            src[i] = 0xee
                    m.write(a, data)
                compare(cpu, m, layout, ' then '.join(what), pos)
                rec.states_n(1)
        rec.outcome('%s: histories of %d writes' % (layout, depth))
    elif kind == 'values':
        layout = shard[1]
        pos = positions(layout)
        for a in pos:
            for n in (1, 2, 4):
                if crosses(layout, a, n):
                    continue
                for v in (0, 1, 0x7f, 0x80, 0xff, 0x100, 0x1234, 0xffff, 0x10000, 0x12345678, 0xffffffff, 0x100000001,
                          0xdeadbeefcafe, -1, -2, -0x8000):
                    for form in ('int', 'bits', 'model'):
                        rec.tick()
                        if form == 'bits' and v < 0:
                            continue
                        cpu, m = machine(layout), Mem(LAYOUTS[layout])
                        for s, ln in LAYOUTS[layout]:
                            fill = bytes(0xa0 + i for i in range(ln))
                            cpu.write_memory_block(s, fill)
                            m.write(s, fill)
                        val = bitstring(v, 64) if form == 'bits' else v
                        if form == 'model':
                            cpu.delegate.write_memory(a, val, 8 * n)
                        else:
                            cpu.write_memory(a, val, 8 * n)
                        m.write(a, (v & (1 << 8 * n) - 1).to_bytes(n, 'little'))
                        compare(cpu, m, layout, '%d bits %r at %#x' % (8 * n, val, a), pos)
                        rec.states_n(1)
            for n in range(0, 12):
                if crosses(layout, a, n):
                    continue
                cpu, m = machine(layout), Mem(LAYOUTS[layout])
                for s, ln in LAYOUTS[layout]:
                    fill = bytes(0xa0 + i for i in range(ln))
                    cpu.write_memory_block(s, fill)
                    m.write(s, fill)
                got = cpu.read_memory_block(a, n)
                want = m.block(a, n)
                if got != want or type(got) is not type(want):
                    fail('block of %d bytes at %#x reads %r, should read %r' % (n, a, got, want), ops='block')
                if got:
                    for i in range(len(got)):
                        got[i] ^= 0xff
                compare(cpu, m, layout, 'changing the block read at %#x' % a, pos)
        rec.outcome(layout + ': values')
    elif kind == 'big':
        big(shard[1], rec, fail, CpuModel, MockCpuModelDelegate, bitstring)
    elif kind == 'many':
        many(shard[1], rec, fail, CpuModel, MockCpuModelDelegate)
    else:
        # no machine behind the model
        cpu = CpuModel()
        cpu.write32(0, 1)
        cpu.write_memory_block(0, b'abc')
        if cpu.read_memory_block(0, 4) is not None:
            fail('a model without a machine has memory', ops='no delegate')
        # no memory at all
        cpu.delegate = MockCpuModelDelegate()
        for a in (0, 1, 0x20000000, 0xffffffff):
            cpu.write32(a, 0xffffffff)
            cpu.write_memory_block(a, b'\xff' * 9)
            for f in (cpu.read8, cpu.read16, cpu.read32):
                if f(a) != 0:
                    fail('%#x reads %r without memory' % (a, f(a)), ops='no memory')
            if cpu.read_memory_block(a, 4) is not None:
                fail('%#x has a block without memory' % a, ops='no memory')
        # memory added later starts as zeros and leaves the rest alone; default size is a word
        cpu.delegate.add_memory(0x10, 4)
        cpu.write_memory(0x10, 0x99887766)
        cpu.delegate.add_memory(0x40, 8)
        got = (cpu.read_memory(0x10).unsigned, cpu.read_memory(0x40).unsigned, cpu.read_memory_block(0x40, 8),
               cpu.read_memory(0x10, 16).unsigned, cpu.delegate.read_memory(0x10))
        if got != (0x99887766, 0, bytearray(8), 0x7766, 0x99887766):
            fail('memory added later reads %r' % (got,), ops='add_memory')
        cpu.delegate.write_memory(0x42, 0xa1b2c3d4)
        got = cpu.read_memory_block(0x40, 8)
        if got != bytearray((0, 0, 0xd4, 0xc3, 0xb2, 0xa1, 0, 0)):
            fail('a word written without a size reads %r' % got, ops='default size')
        # a region without bytes claims no address
        for k in range(4):
            cpu = CpuModel()
            cpu.delegate = MockCpuModelDelegate()
            for n, (start, ln) in enumerate(((0x40, 0), (0x40, 8), (0x44, 0), (0x48, 0))):
                if n != k:
                    cpu.delegate.add_memory(start, ln)
            m = Mem([(0x40, 8)] if k != 1 else [])
            for addr in (0x40, 0x44, 0x48):
                cpu.write32(addr, 0x11223344 + addr)
                m.write(addr, (0x11223344 + addr).to_bytes(4, 'little'))
                cpu.write_memory_block(addr + 2, b'xy')
                m.write(addr + 2, b'xy')
            for addr in range(0x3f, 0x4a):
                for n, f in ((1, cpu.read8), (2, cpu.read16), (4, cpu.read32)):
                    if f(addr) != m.read(addr, n):
                        fail('with empty regions, %d bits at %#x read %r, should read %#x' % (8 * n, addr, f(addr), m.read(addr, n)), ops='empty regions')
                got = cpu.read_memory_block(addr, 3)
                if got != m.block(addr, 3):
                    fail('with empty regions, the block at %#x reads %r, should read %r' % (addr, got, m.block(addr, 3)), ops='empty regions')
        # two machines do not share memory or registers
        a, b = machine('two'), machine('two')
        a.write32(0x100, 0x12345678)
        compare(b, Mem(LAYOUTS['two']), 'two', 'writing to another machine', positions('two'))
        # registers are not memory
        for i in range(13):
            b.r[i] = 0x100
        compare(b, Mem(LAYOUTS['two']), 'two', 'writing registers', positions('two'))
        rec.states_n(9)
        rec.outcome('api')
    rec.traces = rec.transitions
    rec.sample('%r' % (shard[:4],))


def big(size, rec, fail, CpuModel, Delegate, bitstring):
    """A large region: writes at distances of every power of two do not meet, and long blocks stay whole."""
    for start in (0, 0x20000000, 0xfffffffc - size + 4 & ~3):
        cpu = CpuModel()
        cpu.delegate = Delegate()
        cpu.delegate.add_memory(start, size)
        offs = {0, size - 4, size - 8}
        k = 2
        while 1 << k < size:
            offs |= {1 << k, (1 << k) + 4, size - (1 << k) & ~3}
            k += 1
        offs = sorted(o for o in offs if o + 4 <= size)
        want = {}
        for n, o in enumerate(offs):
            want[o] = (0x01010101 * (n + 1)) ^ o & 0xffffffff
            cpu.write32(start + o, want[o])
            rec.transitions += 1
        for o in offs:
            got = cpu.read32(start + o).unsigned
            if got != want[o]:
                fail('a region of %#x bytes at %#x: offset %#x reads %#x, should read %#x' % (size, start, o, got, want[o]), ops='big')
            got = cpu.read_memory_block(start + o, 4)
            if got != want[o].to_bytes(4, 'little'):
                fail('a region of %#x bytes at %#x: offset %#x reads %r as a block' % (size, start, o, got), ops='big')
            rec.states_n(1)
        rec.tick()
        # long blocks
        n = 1
        while n < size:
            for ln in (n - 1, n, n + 1):
                if ln > size:
                    continue
                rec.tick()
                at = size - ln if ln & 1 else 0
                data = bytearray((i * 7 + ln) & 255 for i in range(256)) * (ln // 256 + 1)
                data = data[:ln]
                cpu.write_memory_block(start + at, data)
                got = cpu.read_memory_block(start + at, ln)
                rec.transitions += 1
                if ln and got != data:
                    fail('a block of %d bytes written at offset %#x of a region of %#x bytes reads back otherwise' % (ln, at, size), ops='big')
                # the same block where only its beginning fits
                for fit in (1, ln // 2, ln - 1):
                    if 0 < fit < ln:
                        cpu.write_memory_block(start + size - fit, data)
                        got = cpu.read_memory_block(start + size - fit, ln)
                        rec.transitions += 1
                        if got != data[:fit]:
                            fail('a block of %d bytes written %d bytes before the end of a region of %#x bytes reads back as %d bytes%s' % (
                                ln, fit, size, len(got or ()), '' if len(got or ()) != fit else ', others'), ops='big')
                        for a in (start + size, start + size + ln - fit - 1):
                            if a <= 0xffffffff and (cpu.read8(a) != 0 or cpu.read_memory_block(a, 1) is not None):
                                fail('a block of %d bytes written %d bytes before the end of a region of %#x bytes is also at %#x' % (
                                    ln, fit, size, a), ops='big')
                rec.states_n(1)
            n *= 4
    rec.outcome('a region of %#x bytes' % size)


def many(count, rec, fail, CpuModel, Delegate):
    """Many regions, added in several orders: each keeps its own contents."""
    for order in ('up', 'down', 'mixed'):
        ks = list(range(count))
        if order == 'down':
            ks.reverse()
        elif order == 'mixed':
            ks = ks[::3] + ks[1::3] + ks[2::3]
        cpu = CpuModel()
        cpu.delegate = Delegate()
        for k in ks:
            cpu.delegate.add_memory(k * 0x10000 + (k % 5), 6 + k % 3)
        for k in range(count):
            rec.tick()
            cpu.write_memory_block(k * 0x10000 + (k % 5), bytearray((k + i) & 255 for i in range(6 + k % 3)))
            rec.transitions += 1
        for k in range(count):
            s, n = k * 0x10000 + (k % 5), 6 + k % 3
            data = bytearray((k + i) & 255 for i in range(n))
            got = cpu.read_memory_block(s, n)
            if got != data:
                fail('%d regions added %s: the one at %#x holds %r, should hold %r' % (count, order, s, got, data), ops='many')
            for a, w in ((s - 1, 0), (s + n, 0), (s, data[0]), (s + n - 1, data[-1])):
                if a >= 0 and cpu.read8(a).unsigned != w:
                    fail('%d regions added %s: %#x reads %r, should read %d' % (count, order, a, cpu.read8(a), w), ops='many')
            rec.states_n(1)
    rec.outcome('%d regions' % count)
