"""Bit string arithmetic and logic: two's complement modulo the width."""
import operator
from .. import core, spaces
from ..ref import bits as B

ID = 'C17'
BOUNDS = {
    'quick': 'all pairs of bit strings of width 0..9 (1023 x 1023) under every operator and its in-place form; all of them '
             'with integers -70..70 and with all binary strings of up to 4 digits on the right, and integers on the '
             'left; shifts by 0..70 and amounts around powers of two up to 65536; boundary values of widths 7, 8, 15, 16, 31, 32, 33, 53, 54, 63..65, 96, 127..129 with each other and with '
             'integers around all powers of two; 70 bit strings of 200 to 4099 bits with each other',
    'thorough': 'as quick with widths 0..13 (16383 x 16383)',
}
ASSUMPTIONS = ['+ - * // << >> & keep the width of the left operand, | and ^ of two bit strings the larger width']
OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul, '//': operator.floordiv, '&': operator.and_,
       '|': operator.or_, '^': operator.xor}
IOPS = {'+': operator.iadd, '-': operator.isub, '*': operator.imul, '//': operator.ifloordiv, '&': operator.iand,
        '|': operator.ior, '^': operator.ixor}
WIDE = (7, 8, 15, 16, 31, 32, 33, 53, 54, 63, 64, 65, 96, 127, 128, 129)


def small(n):
    return [(w, v) for w in range(n + 1) for v in range(1 << w)]


def wide():
    out = []
    for w in WIDE:
        m = (1 << w) - 1
        vs = {0, 1, 2, 3, m, m - 1, m >> 1, (m >> 1) + 1, (m >> 1) + 2, m // 3, m // 3 * 2, 0x12345678 & m,
              0xfedcba9876543210 & m}
        out += [(w, v) for v in sorted(vs)]
    return out


def huge():
    out = []
    for w in (200, 256, 257, 511, 513, 1023, 1024, 1025, 2050, 4099):
        m = (1 << w) - 1
        out += [(w, v) for v in (0, 1, m, 1 << (w - 1), m // 3, m // 7 << 9 & m, (1 << w // 2) - 1)]
    return out


def shards(tier):
    n = 13 if tier == 'thorough' else 9
    out = [('pairs', c, n) for c in spaces.rotate_chunks(small(n), 128)]
    out += [('ints', c, n) for c in spaces.rotate_chunks(small(n), 16)]
    out += [('huge', c, n) for c in spaces.rotate_chunks(huge(), 16)]
    out += [('wide', c, n) for c in spaces.rotate_chunks(wide(), 16)]
    return out


def run_shard(shard, rec):
    kind, left, n = shard
    from cmdis.bitstring import bitstring

    def expect(what, got, want):
        rec.transitions += 1
        if type(got) is not bitstring or got.width != want.w or got.unsigned != want.v or got.mask != (1 << want.w) - 1:
            rec.violate('%s is %r (mask %#x), should be %d\'b%s' % (what, got, getattr(got, 'mask', 0), want.w, B.binary(want.w, want.v)),
                        {'kind': 'expression', 'what': what})
            if len(rec.violations) >= rec.MAX_VIOLATIONS:
                raise core.StopShard()

    def lit(w, v):
        return "bitstring(%d, %d)" % (v, w)

    def with_int(w, v, k, name):
        a = B.V(w, v)
        for op in OPS:
            if op == '//' and k == 0:
                continue
            want = B.arith(op, a, k)
            x = bitstring(v, w)
            expect('%s %s %s' % (lit(w, v), op, name), OPS[op](x, k), want)
            y = bitstring(v, w)
            y = IOPS[op](y, k)
            expect('%s %s= %s' % (lit(w, v), op, name), y, want)
            if x.unsigned != a.v or x.width != w:
                expect('%s after %s %s' % (lit(w, v), op, name), x, a)
            if op == '//' and v == 0:
                continue
            # integer on the left: it becomes a bit string of 32 or 64 bits
            expect('%s %s %s' % (name, op, lit(w, v)), OPS[op](k, bitstring(v, w)), B.binop(op, B.of_int(k), a))

    def with_bits(w, v, w2, v2):
        a, b = B.V(w, v), B.V(w2, v2)
        x, y = bitstring(v, w), bitstring(v2, w2)
        for op in OPS:
            if op == '//' and v2 == 0:
                continue
            want = B.binop(op, a, b)
            expect('%s %s %s' % (lit(w, v), op, lit(w2, v2)), OPS[op](x, y), want)
            z = bitstring(v, w)
            z = IOPS[op](z, y)
            expect('%s %s= %s' % (lit(w, v), op, lit(w2, v2)), z, want)
        expect(lit(w, v) + ' as operand', x, a)
        expect(lit(w2, v2) + ' as operand', y, b)

    def alone(w, v):
        x = bitstring(v, w)
        a = B.V(w, v)
        expect('~' + lit(w, v), ~x, B.V(w, ~v))
        expect(lit(w, v) + '.inverted', x.inverted, B.V(w, ~v))
        for _ in range(2):
            if w >= 2 and x.signed != B.signed(w, v):
                rec.violate('%s.signed is %r, should be %d' % (lit(w, v), x.signed, B.signed(w, v)), {'w': w, 'v': v})
            if x.unsigned != v or x.value != v or int(x) != v or x.mask != (1 << w) - 1:
                rec.violate('%s has unsigned %r, value %r, int %r, mask %r' % (lit(w, v), x.unsigned, x.value, int(x),
                                                                             x.mask), {'w': w, 'v': v})
        for s in list(range(0, 71)) + sorted({127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 5000, 65536} |
                                             ({w - 1, w, w + 1, 2 * w} if w > 70 else set())):
            expect('%s << %d' % (lit(w, v), s), x << s, B.V(w, v << s))
            expect('%s >> %d' % (lit(w, v), s), x >> s, B.V(w, v >> s))
            y = bitstring(v, w)
            y <<= s
            expect('%s <<= %d' % (lit(w, v), s), y, B.V(w, v << s))
            y = bitstring(v, w)
            y >>= s
            expect('%s >>= %d' % (lit(w, v), s), y, B.V(w, v >> s))
        y = bitstring(v, w)
        y.invert()
        expect(lit(w, v) + ' after invert()', y, B.V(w, ~v))
        if v:
            try:
                r = x // 0
                rec.violate('%s // 0 is %r' % (lit(w, v), r), {'w': w, 'v': v})
            except ZeroDivisionError:
                pass
        expect(lit(w, v) + ' as operand', x, a)

    for w, v in left:
        rec.tick()
        if kind == 'pairs':
            for w2, v2 in small(n):
                with_bits(w, v, w2, v2)
                rec.states_n(1)
            rec.outcome('pairs of width %d' % w)
        elif kind == 'ints':
            alone(w, v)
            for k in range(-70, 71):
                with_int(w, v, k, str(k))
            for sw in range(0, 5):
                for sv in range(1 << sw):
                    s = B.binary(sw, sv)
                    a, b = B.V(w, v), B.V(sw, sv)
                    for op in OPS:
                        if op == '//' and sv == 0:
                            continue
                        want = B.arith(op, a, sv)
                        expect('%s %s %r' % (lit(w, v), op, s), OPS[op](bitstring(v, w), s), want)
            rec.states_n(141 + 30)
            rec.outcome('integers with width %d' % w)
        elif kind == 'huge':
            alone(w, v)
            for w2, v2 in huge() + wide()[::9]:
                with_bits(w, v, w2, v2)
            for k in (0, 1, -1, 3, 1 << 31, 1 << 32, 1 << 63, -(1 << 64), 1 << 255, (1 << 1024) - 1, 1 << 1025, -(1 << 4100)):
                with_int(w, v, k, '%#x' % k)
            rec.states_n(len(huge()) + 12)
            rec.outcome('width %d' % w)
        else:
            alone(w, v)
            for w2, v2 in wide():
                with_bits(w, v, w2, v2)
            ks = {0, 1, -1, 2, -2}
            for i in range(66):
                ks |= {1 << i, (1 << i) - 1, (1 << i) + 1, -(1 << i), -(1 << i) - 1}
            for k in sorted(ks):
                with_int(w, v, k, str(k))
            rec.states_n(len(ks) + len(wide()))
            rec.outcome('width %d' % w)
    rec.traces = rec.transitions
    rec.sample('%s of width %d with everything' % (kind, left[0][0]))
