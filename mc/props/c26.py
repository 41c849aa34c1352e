"""The utility functions: byte order conversion, floats, masks, bit fields."""
import itertools
import math
from .. import core, spaces

ID = 'C26'
BOUNDS = {
    'quick': 'all 16-bit and 2^16 spread 32-bit patterns through the byte order conversions and their inverses, all lists of up to 4 '
             'boundary elements and of every length up to 300 (and 2^9..2^16); every finite float with one of 16 low mantissa patterns; every bit field of a '
             '12-bit value set and read with every 5-bit field value; every bit field of 32-bit boundary values, fields at boundaries of 128-bit values; every '
             'combination of up to 3 mask arguments over 0..5, and all single ranges of 0..40',
    'thorough': 'as quick with every 61st 32-bit pattern through the word conversions and 274 low mantissa patterns',
}
ASSUMPTIONS = ['lists whose length is not a multiple of the element size, bit fields with msb < lsb and NaN payloads are '
               'unspecified']

ED32 = sorted({0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x12345678, 0x7fffffff, 0x80000000, 0xdeadbeef,
               0xfffffffe, 0xffffffff, 0x01020304, 0x00ff00ff, 0xff00ff00})


def shards(tier):
    out = [('half', i) for i in range(8)] + [('lists', k) for k in range(5)]
    if tier == 'thorough':
        out += [('word', range(i << 24, (i + 1) << 24, 61)) for i in range(256)]
    else:
        out += [('word', range(i * 0x1357, 1 << 32, 0x10001 * 16)) for i in range(16)]
    lows = list(range(0, 1 << 16, 257)) + [1 << k for k in range(16)] + [0xfffe, 0x7fff] if tier == 'thorough' else None
    out += [('float', hi, lows) for hi in spaces.chunks(list(range(0, 1 << 16)), 64)]
    out += [('field', lsb) for lsb in range(12)] + [('field32', lsb) for lsb in range(32)]
    out += [('field128', lsb) for lsb in (0, 1, 7, 8, 15, 24, 31, 32, 33, 47, 63, 64, 65, 100)]
    out += [('mask', i) for i in range(8)] + [('small',)]
    out += [('long', c) for c in spaces.rotate_chunks(list(range(300)) + [1 << k | j for k in (9, 10, 12, 15, 16) for j in (0, 1)] +
                                                      ([1 << 18, 1 << 20] if tier == 'thorough' else []), 8)]
    return out


def fields(w, v):
    return [v >> 8 * i & 255 for i in range(w)]


def run_shard(shard, rec):
    from cmdis import utilities as u
    kind = shard[0]

    def fail(msg, **case):
        rec.violate(msg, dict(case, kind='utilities'))
        if len(rec.violations) >= rec.MAX_VIOLATIONS:
            raise core.StopShard()

    def check(name, args, want, kw=None):
        rec.transitions += 1
        try:
            got = getattr(u, name)(*args, **(kw or {}))
        except Exception as e:
            fail('%s%r raised %r' % (name, args, e), call=name, args=repr(args))
            return
        if got != want or type(got) is not type(want):
            fail('%s%r is %r, should be %r' % (name, args, got, want), call=name, args=repr(args))

    if kind == 'half':
        for v in range(shard[1], 1 << 16, 8):
            rec.tick()
            b = fields(2, v)
            for data in (b, bytearray(b), bytes(b), tuple(b)):
                check('bytes_to_le16', (data,), v)
            check('bytes_to_le16', ([9] * 3 + b + [7], 3), v)
            check('le16_to_bytes', (v,), bytearray(b))
            check('le16_to_bytes', (v | 0x50000,), bytearray(b))
            check('byteListToU16leList', (b,), [v])
            check('u16leListToByteList', ([v],), b)
            check('hamming_weight', (v,), bin(v).count('1'))
            check('hamming_weight', (v << 40 | v,), 2 * bin(v).count('1'))
            check('invert32', (v,), 0xffffffff ^ v)
            check('invert32', (v << 16,), 0xffffffff ^ v << 16)
            rec.states_n(1)
    elif kind == 'word':
        for v in shard[1]:
            rec.tick()
            b = [v & 255, v >> 8 & 255, v >> 16 & 255, v >> 24]
            check('bytes_to_le32', (b,), v)
            check('le32_to_bytes', (v,), bytearray(b))
            check('byteListToU32leList', (b,), [v])
            check('u32leListToByteList', ([v],), b)
        rec.states_n(len(shard[1]))
    elif kind == 'lists':
        n = shard[1]
        base = ED32[::2] if n > 3 else ED32
        for xs in itertools.product(base, repeat=n):
            rec.tick()
            words = list(xs)
            by = [c for x in xs for c in fields(4, x)]
            check('u32leListToByteList', (words,), by)
            for data in (by, bytearray(by), tuple(by)):
                check('byteListToU32leList', (data,), words)
            half = [x & 0xffff for x in xs]
            bh = [c for x in half for c in fields(2, x)]
            check('u16leListToByteList', (half,), bh)
            check('byteListToU16leList', (bytearray(bh),), half)
            for k in range(n):
                check('bytes_to_le32', (by, 4 * k), words[k])
                check('bytes_to_le32', ([0x55] + by, 4 * k + 1), words[k])
                check('bytes_to_le16', (bytearray(bh), 2 * k), half[k])
            if words != list(xs):
                fail('argument changed to %r' % words, call='lists')
            rec.states_n(1)
    elif kind == 'long':
        for n in shard[1]:
            rec.tick()
            words = [ED32[(i + n) % 20] ^ i * 0x01010101 & 0xffffffff for i in range(n)]
            by = [c for x in words for c in (x & 255, x >> 8 & 255, x >> 16 & 255, x >> 24)]
            half = [x >> 7 & 0xffff for x in words]
            bh = [c for x in half for c in (x & 255, x >> 8)]
            for call, a, want in (('u32leListToByteList', words, by), ('byteListToU32leList', by, words),
                                  ('u16leListToByteList', half, bh), ('byteListToU16leList', bh, half)):
                rec.transitions += 1
                got = getattr(u, call)(list(a))
                if got != want:
                    k = [i for i in range(min(len(got), len(want))) if got[i] != want[i]][:1]
                    fail('%s of %d elements: %d elements, first difference at %r' % (call, len(a), len(got), k), call=call, n=n)
            for k in sorted({0, n // 2, n - 1}):
                if 0 <= k < n:
                    check('bytes_to_le32', (bytes(bytearray(by)), 4 * k), words[k])
                    check('bytes_to_le16', (bytearray(bh), 2 * k), half[k])
            bits = [i for i in range(n) if i % 3 != 1 or i == n - 1]
            check('bitmask', (bits,) if n % 2 else tuple(bits), sum(1 << i for i in bits))
            check('hamming_weight', (sum(1 << i for i in bits),), len(bits))
            check('wmask', (n,), (1 << n) - 1)
            if n < 300:
                v = (1 << n) // 7
                check('bfx', (v, n, n // 2), v >> n // 2)
                check('bfi', (v, 5, n + 2, n), v | 5 << n)
            rec.states_n(1)
    elif kind == 'float':
        _, his, lows = shard
        lows = lows or [0, 1, 2, 3, 0x7fff, 0x8000, 0x8001, 0xffff, 0xfffe, 0x5555, 0xaaaa, 0x100, 0x80, 0x1234, 0x4000, 0xc000]
        for hi in his:
            e = hi >> 7 & 255
            for lo in lows:
                rec.tick()
                v = hi << 16 | lo
                m = v & 0x7fffff
                if e == 255 and m:
                    try:
                        got = u.u32BEToFloat32BE(v)
                        if got == got:
                            fail('u32BEToFloat32BE(%#x) is %r, should be a NaN' % (v, got), call='float')
                    except Exception as x:
                        fail('u32BEToFloat32BE(%#x) raised %r' % (v, x), call='float')
                    continue
                if e == 255:
                    want = float('inf')
                elif e:
                    want = math.ldexp(m | 0x800000, e - 150)
                else:
                    want = math.ldexp(m, -149)
                if v >> 31:
                    want = -want
                check('u32BEToFloat32BE', (v,), want)
                check('float32beToU32be', (want,), v)
            rec.states_n(len(lows))
    elif kind == 'field':
        lsb = shard[1]
        for msb in range(lsb, 12):
            w = msb - lsb + 1
            for v in range(1 << 12):
                rec.tick()
                check('bfx', (v, msb, lsb), v >> lsb & (1 << w) - 1)
                if w == 1:
                    check('bfx', (v, msb), v >> lsb & 1)
                for f in range(32):
                    want = v & ~(((1 << w) - 1) << lsb) | (f & (1 << w) - 1) << lsb
                    check('bfi', (v, f, msb, lsb), want)
                    if w == 1:
                        check('bfi', (v, f, msb), want)
            rec.states_n(1 << 12)
    elif kind == 'field32':
        lsb = shard[1]
        for msb in range(lsb, 32):
            w = msb - lsb + 1
            for v in ED32:
                rec.tick()
                check('bfx', (v, msb, lsb), v >> lsb & (1 << w) - 1)
                check('bfx', (v,), v >> lsb & (1 << w) - 1, {'msb': msb, 'lsb': lsb})
                for f in ED32:
                    check('bfi', (v, f, msb, lsb), v & ~(((1 << w) - 1) << lsb) | (f & (1 << w) - 1) << lsb)
                    # and reading it back
                    if u.bfx(u.bfi(v, f, msb, lsb), msb, lsb) != f & (1 << w) - 1:
                        fail('bfx(bfi(%#x, %#x, %d, %d)) differs' % (v, f, msb, lsb), call='bfi')
            rec.states_n(len(ED32))
    elif kind == 'field128':
        lsb = shard[1]
        ed = ED32[::3] + [(1 << 64) - 1, 0x123456789abcdef0, (1 << 128) - 1, 0xfedcba98765432100123456789abcdef, 1 << 127, 1 << 63,
                          5 << 70, 1 << 32, 1 << 33]
        for msb in [m for m in (lsb, lsb + 1, 31, 32, 33, 40, 47, 62, 63, 64, 65, 95, 96, 100, 126, 127, 128, 130) if m >= lsb]:
            w = msb - lsb + 1
            for v in ed:
                rec.tick()
                check('bfx', (v, msb, lsb), v >> lsb & (1 << w) - 1)
                for f in ed:
                    check('bfi', (v, f, msb, lsb), v & ~(((1 << w) - 1) << lsb) | (f & (1 << w) - 1) << lsb)
            rec.states_n(len(ed))
    elif kind == 'mask':
        args = list(range(6)) + [(a, b) for a in range(6) for b in range(a + 1)] + \
            [list(c) for k in range(3) for c in itertools.combinations(range(6), k)]

        def bits(a):
            return [a] if type(a) is int else range(a[1], a[0] + 1) if type(a) is tuple else a
        for n in range(4):
            for i, xs in enumerate(itertools.product(args, repeat=n)):
                if i % 8 != shard[1]:
                    continue
                rec.tick()
                want = 0
                for a in xs:
                    for b in bits(a):
                        want |= 1 << b
                check('bitmask', xs, want)
                rec.states_n(1)
        if shard[1] == 0:
            for a in range(41):
                check('bitmask', (a,), 1 << a)
                check('bitmask', ([a, 3],), 1 << a | 8)
                for b in range(a + 1):
                    check('bitmask', ((a, b),), (1 << a + 1) - (1 << b))
                    check('bitmask', ((a, b), 0, [40]), (1 << a + 1) - (1 << b) | 1 | 1 << 40)
    else:
        for n in range(130):
            check('wmask', (n,), (1 << n) - 1)
        for v in ED32:
            check('invert32', (v,), 0xffffffff - v)
            check('invert32', (v | 0xa5 << 32,), 0xffffffff - v)
            check('invert32', (v - (1 << 32),), 0xffffffff - v)
            check('hamming_weight', (v,), bin(v).count('1'))
            check('le16_to_bytes', (v,), bytearray(fields(2, v)))
            check('le32_to_bytes', (v | 0xab << 32,), bytearray(fields(4, v)))
            for off in range(6):
                check('bytes_to_le32', ([0xee] * off + fields(4, v) + [1, 2], off), v)
                check('bytes_to_le32', (bytearray([0xee] * off + fields(4, v)), off), v)
        rec.states_n(rec.transitions)
    rec.traces = rec.transitions
    rec.outcome(kind)
    rec.sample('%r' % (shard[:2],))
