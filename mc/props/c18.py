"""Bit access, slices, concatenation and extension of bit strings."""
import itertools
from .. import core, spaces
from ..ref import bits as B

ID = 'C18'
BOUNDS = {
    'quick': 'every bit string of width 0..8: every index, every slice with bounds -(w+2)..w+2 or absent and steps '
             '+-1, 2, 3 or absent, every assignment to a bit and of every 0..w-bit value to every forward slice, every '
             'extension by up to 6 bits and to boundaries up to 1025 bits; concatenation of all pairs up to width 8; boundary values of 31..200 bits: '
             'every index, assignment and slices between all positions (every seventh and boundaries above 65 bits); widths '
             '256..4100: every index and slices between 24 positions',
    'thorough': 'as quick with width 0..11 for slices and pairs',
}
ASSUMPTIONS = ['indexes outside -w..w-1 and assignments to slices with stop < start are unspecified']


def shards(tier):
    n = 11 if tier == 'thorough' else 8
    sm = [(w, v) for w in range(n + 1) for v in range(1 << w)]
    out = [('one', c, n) for c in spaces.rotate_chunks(sm, 96)]
    out += [('cat', c, n) for c in spaces.rotate_chunks(sm, 32)]
    wide = [(w, v & (1 << w) - 1) for w in (31, 32, 33, 63, 64, 65, 96, 128, 129, 200) for v in
            (0, -1, 1, 1 << 31, 0x12345678, 0xfedcba9876543210, 0x5555555555555555, 0x80000001, 1 << 63, 1 << 64, -1 << 32,
             0x0123456789abcdef0fedcba9876543210f1e2d3c4b5a69788796a5b4c3d2e1f)]
    out += [('wide', c, n) for c in spaces.rotate_chunks(sorted(set(wide)), 40)]
    pat = int('9e3779b97f4a7c15f39cc0605cedc834' * 40, 16)
    widths = (256, 257, 400, 512, 513, 600, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 4100)
    huge = [(w, v & (1 << w) - 1) for w in widths for v in (0, -1, 1 << (w - 1), pat << (w % 61))]
    out += [('huge', [x], n) for x in huge]
    return out


def lit(w, v):
    return "bitstring(%d, %d)" % (v, w)


def run_shard(shard, rec):
    kind, items, n = shard
    from cmdis.bitstring import bitstring, zeros, ones, bit0, bit1

    def fail(msg, **case):
        rec.violate(msg, dict(case, kind='bitstring'))
        if len(rec.violations) >= rec.MAX_VIOLATIONS:
            raise core.StopShard()

    def expect(what, got, want):
        rec.transitions += 1
        if type(got) is not bitstring or got.width != want.w or got.unsigned != want.v or got.mask != (1 << want.w) - 1:
            fail('%s is %r (mask %#x), should be %d\'b%s' % (what, got, getattr(got, 'mask', 0), want.w, B.binary(want.w, want.v)), what=what)

    def equal(what, got, want):
        rec.transitions += 1
        if got != want or type(got) is not type(want):
            fail('%s is %r, should be %r' % (what, got, want), what=what)

    def facts(x, w, v):
        L = lit(w, v)
        bl = B.bits_lsb(w, v)
        equal('list(%s)' % L, list(x), bl)
        equal('len(%s)' % L, len(x), w)
        equal(L + '.binary_string', x.binary_string, B.binary(w, v))
        equal(L + '.bytes', x.bytes, bytearray((v >> 8 * i & 255) for i in range((w + 7) // 8)))
        equal(L + '.bit_count()', x.bit_count(), sum(bl))
        equal(L + '.is_zero()', x.is_zero(), v == 0)
        equal(L + '.is_ones()', x.is_ones(), sum(bl) == w)
        expect(L + '.is_zero_bit()', x.is_zero_bit(), B.V(1, v == 0))
        expect(L + '.is_ones_bit()', x.is_ones_bit(), B.V(1, sum(bl) == w))
        equal(L + '.lowest_set_bit()', x.lowest_set_bit(), bl.index(1) if v else w)
        equal(L + '.highest_set_bit()', x.highest_set_bit(), v.bit_length() - 1)
        expect(L + '.reversed', x.reversed, B.from_lsb(bl[::-1]))
        y = bitstring(v, w)
        y.reverse()
        expect(L + ' after reverse()', y, B.from_lsb(bl[::-1]))
        for i in range(-w, w):
            expect('%s[%d]' % (L, i), x[i], B.V(1, bl[i]))
            expect('%s.get_bit(%d)' % (L, i), x.get_bit(i), B.V(1, bl[i]))
        for i in range(w):
            equal('%s.get_bit_value(%d)' % (L, i), x.get_bit_value(i), bl[i])
        for e in (list(range(w, w + 7)) + [32, 33, 64, 65, 96, 128, 129, 200, 1024, 1025] if w <= 32 else
                  [w, w + 1, 64, 65, 96, w + 32, w + 33, w + 64, w + 65, w + 128, w + 129, w + 256, w + 1024]):
            if e < w:
                continue
            expect('%s.zero_extend(%d)' % (L, e), x.zero_extend(e), B.V(e, v))
            if w:
                expect('%s.sign_extend(%d)' % (L, e), x.sign_extend(e),
                       B.V(e, v | ((-1 << w) if v >> (w - 1) else 0)))
        for e in range(0, min(w, 9)):
            for f in ('zero_extend', 'sign_extend'):
                try:
                    got = getattr(x, f)(e)
                    fail('%s.%s(%d) is %r, should raise ValueError' % (L, f, e, got))
                except ValueError:
                    pass
        for e in range(0, w + 4):
            y = bitstring(v, w)
            y.width = e
            expect('%s with width set to %d' % (L, e), y, B.V(e, v))
            y.value = 0x1ff
            expect('%s with width set to %d and value to 0x1ff' % (L, e), y, B.V(e, 0x1ff))
            expect('bitstring(%s, %d)' % (L, e), bitstring(x, e), B.V(e, v))
        expect(L + ' afterwards', x, B.V(w, v))

    for w, v in items:
        rec.tick()
        x = bitstring(v, w)
        L = lit(w, v)
        bl = B.bits_lsb(w, v)
        if kind == 'one':
            facts(x, w, v)
            bounds = [None] + list(range(-w - 2, w + 3))
            for a in bounds:
                rec.tick()
                for b in bounds:
                    for st in (None, 1, 2, 3, -1, -2, -3):
                        expect('%s[%s:%s:%s]' % (L, a, b, st), x[a:b:st], B.from_lsb(bl[a:b:st]))
            for i in range(-w, w):
                for val in (0, 1, bit0, bit1, 2, 3):
                    y = bitstring(v, w)
                    y[i] = val
                    want = list(bl)
                    want[i] = int(val) & 1
                    expect('%s with [%d] = %r' % (L, i, val), y, B.from_lsb(want))
            for a in range(w + 1):
                for b in range(a, w + 1):
                    rec.tick()
                    for sw in range(0, b - a + 2):
                        for sv in range(1 << sw):
                            for form in ('bits', 'int', 'str'):
                                val = bitstring(sv, sw) if form == 'bits' else sv if form == 'int' else B.binary(sw, sv)
                                y = bitstring(v, w)
                                if a == 0 and b == w and sv & 1:
                                    y[:] = val
                                elif a == 0 and sv & 1:
                                    y[:b] = val
                                elif b == w and sv & 1 and a < w:
                                    y[a:] = val
                                elif b < w and sv & 1:
                                    y[a:b - w] = val
                                else:
                                    y[a:b] = val
                                want = list(bl)
                                want[a:b] = [sv >> i & 1 for i in range(b - a)]
                                expect('%s with [%d:%d] = %r' % (L, a, b, val), y, B.from_lsb(want))
                                if form == 'bits' and (val.width != sw or val.unsigned != sv):
                                    fail('value assigned to a slice of %s changed to %r' % (L, val))
            rec.states_n(1)
            rec.outcome('width %d' % w)
        elif kind == 'cat':
            for w2 in range(n + 1):
                rec.tick()
                for v2 in range(1 << w2):
                    want = B.V(w + w2, v << w2 | v2)
                    y = bitstring(v2, w2)
                    expect('%s %% %s' % (L, lit(w2, v2)), x % y, want)
                    z = bitstring(v, w)
                    z %= y
                    expect('%s %%= %s' % (L, lit(w2, v2)), z, want)
                    expect('%s %% %r' % (L, B.binary(w2, v2)), x % B.binary(w2, v2), want)
                    expect('%s %% list' % L, x % [int(c) for c in B.binary(w2, v2)], want)
                    if w:
                        expect('%r %% %s' % (B.binary(w, v), lit(w2, v2)), bitstring(B.binary(w, v)) % y, want)
                    expect(lit(w2, v2) + ' as operand', y, B.V(w2, v2))
                    # and taking it apart again, with three pieces
                    t = x % y % x
                    expect('low piece', t[0:w], B.V(w, v))
                    expect('middle piece', t[w:w + w2], B.V(w2, v2))
                    expect('high piece', t[w + w2:], B.V(w, v))
            for k in (0, 1):
                expect('%s %% %d' % (L, k), x % k, B.V(w + 1, v << 1 | k))
            for k in (-1, 2, 3):
                try:
                    got = x % k
                    fail('%s %% %d is %r, should raise ValueError' % (L, k, got))
                except ValueError:
                    pass
            if v == 0:
                expect('zeros(%d)' % w, zeros(w), B.V(w, 0))
                expect('ones(%d)' % w, ones(w), B.V(w, -1))
            expect(L + ' as operand', x, B.V(w, v))
            rec.states_n(1)
            rec.outcome('concatenation with width %d' % w)
        elif kind == 'huge':
            facts(x, w, v)
            t, want = x, B.V(w, v)
            for k in range(8):
                t, want = t % x, B.V(want.w + w, want.v << w | v)
                expect('%s concatenated %d times' % (L, k + 2), t, want)
            expect('%s in front of ten bits' % L, x % '1011001110', B.V(w + 10, v << 10 | 0x2ce))
            expect('ten bits in front of %s' % L, bitstring('1011001110') % x, B.V(w + 10, 0x2ce << w | v))
            edges = sorted({e for e in (0, 1, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024,
                                        1025, w // 2, w - 33, w - 1, w) if 0 <= e <= w})
            for a in edges:
                rec.tick()
                for b in edges:
                    for st in (None, -1, 3):
                        expect('%s[%d:%d:%s]' % (L, a, b, st), x[a:b:st], B.from_lsb(bl[a:b:st]))
                    if b >= a:
                        for val in (0, 0x5a5a5a5a5a5a5a5a5, bitstring(v ^ v >> 1, w)):
                            y = bitstring(v, w)
                            y[a:b] = val
                            m = ((1 << b - a) - 1) << a
                            iv = int(val) if isinstance(val, bitstring) else B.of_int(int(val)).v
                            expect('%s with [%d:%d] = %r' % (L, a, b, val), y, B.V(w, v & ~m | iv << a & m))
                        p = x[a:b]
                        expect('%s[%d:%d] %% all' % (L, a, b), p % x, B.V(b - a + w, (v >> a & (1 << b - a) - 1) << w | v))
                if a < w:
                    for val in (0, 1):
                        y = bitstring(v, w)
                        y[a] = val
                        expect('%s with [%d] = %r' % (L, a, val), y, B.V(w, v & ~(1 << a) | val << a))
                    y = bitstring(1 << a, w)
                    equal('bitstring(1 << %d, %d).lowest_set_bit()' % (a, w), y.lowest_set_bit(), a)
                    equal('bitstring(1 << %d, %d).highest_set_bit()' % (a, w), y.highest_set_bit(), a)
                    equal('bitstring(1 << %d, %d).bit_count()' % (a, w), y.bit_count(), 1)
                    equal('bitstring(1 << %d, %d).is_zero()' % (a, w), y.is_zero(), False)
            rec.states_n(1)
            rec.outcome('width %d' % w)
        else:
            facts(x, w, v)
            for i in range(-w, w):
                for val in (0, bit1):
                    y = bitstring(v, w)
                    y[i] = val
                    want = list(bl)
                    want[i] = int(val)
                    expect('%s with [%d] = %r' % (L, i, val), y, B.from_lsb(want))
                y = bitstring(1 << i % w, w)
                equal('bitstring(1 << %d, %d).lowest_set_bit()' % (i % w, w), y.lowest_set_bit(), i % w)
                equal('bitstring(1 << %d, %d).highest_set_bit()' % (i % w, w), y.highest_set_bit(), i % w)
                equal('bitstring(1 << %d, %d).bit_count()' % (i % w, w), y.bit_count(), 1)
            step = 1 if w <= 65 else 7
            edges = set(range(0, w + 1, step)) | set(e for e in (1, 31, 32, 33, 63, 64, 65, 127, 128, 129, w - 1, w, w + 1) if e <= w + 1)
            for a in sorted(edges - {w + 1}):
                rec.tick()
                for b in sorted(edges | {w + 1}):
                    expect('%s[%d:%d]' % (L, a, b), x[a:b], B.from_lsb(bl[a:b]))
                    if b >= a and b <= w:
                        for val in (0, 0x5a5a5a5a5a5a5a5a5, bitstring(0xffffffff)):
                            y = bitstring(v, w)
                            y[a:b] = val
                            m = ((1 << b - a) - 1) << a
                            # integers become 32 or 64 bit strings first
                            iv = B.of_int(int(val)).v
                            expect('%s with [%d:%d] = %r' % (L, a, b, val), y, B.V(w, v & ~m | iv << a & m))
                for b in range(0, a):
                    expect('%s[%d:%d]' % (L, a, b), x[a:b], B.V(0, 0))
            for a in range(-w, w, 5):
                for b in range(-w, w, 5):
                    for st in (1, -1, 2, 7, -8):
                        expect('%s[%s:%s:%s]' % (L, a, b, st), x[a:b:st], B.from_lsb(bl[a:b:st]))
            rec.states_n(1)
            rec.outcome('width %d' % w)
    rec.traces = rec.transitions
    rec.sample('%s %s' % (kind, lit(*items[0])))
