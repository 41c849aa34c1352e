"""Comparison, hashing, conversion and construction of bit strings."""
import itertools
import operator
from .. import core, spaces
from ..ref import bits as B

ID = 'C20'
BOUNDS = {
    'quick': 'every ordered pair of bit strings of width 0..9 and every pair of 80 boundary values of 31..129 bits; each '
             'bit string of width 0..8 against every integer -2**w-2..2**w+2 and every binary string up to 8 digits; widths up to 5000 bits; every '
             'sequence, byte array (up to 2 bytes completely, 3..9 bytes over boundary bytes) and width used in construction',
    'thorough': 'as quick with pairs up to width 13 and binary strings up to 10 digits',
}
ASSUMPTIONS = ['comparison of bit strings orders by value, then width',
               'a bit string equals a non-negative integer with its value, and a negative one with its two\'s complement value',
               'hex() style output through the Python 2 only __hex__ hook is not checked']

WIDE = [(w, v & (1 << w) - 1) for w in (31, 32, 33, 53, 54, 63, 64, 65, 96, 128, 129) for v in
        (0, 1, -1, 1 << 64,  1 << (w - 1), (1 << (w - 1)) - 1, 0x12345678, 0xfedcba9876543210)]
CMP = [('==', operator.eq), ('!=', operator.ne), ('<', operator.lt), ('<=', operator.le), ('>', operator.gt),
       ('>=', operator.ge)]


def shards(tier):
    n = 13 if tier == 'thorough' else 9
    d = 10 if tier == 'thorough' else 8
    sm = [(w, v) for w in range(n + 1) for v in range(1 << w)]
    wide = sorted(set(WIDE))
    out = [('pairs', c, sm) for c in spaces.rotate_chunks(sm, 64)]
    out += [('pairs', c, wide + sm[:15]) for c in spaces.rotate_chunks(wide, 8)]
    one = [(w, v) for w in range(9) for v in range(1 << w)]
    out += [('one', c, d) for c in spaces.rotate_chunks(one, 24)]
    out += [('one', c, 4) for c in spaces.rotate_chunks(wide, 8)]
    out += [('make', k, d) for k in ('int', 'str', 'list', 'bytes', 'other')]
    out += [('huge', w, d) for w in (200, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4096, 5000)]
    return out


def run_shard(shard, rec):
    from cmdis.bitstring import bitstring, zeros, ones
    kind, items, arg = shard

    def fail(msg, **case):
        rec.violate(msg, dict(case, kind='bitstring comparison'))
        if len(rec.violations) >= rec.MAX_VIOLATIONS:
            raise core.StopShard()

    def name(k):
        return "%d'b%s" % (k[0], B.binary(*k))

    def equal(what, got, want):
        rec.transitions += 1
        if got != want or type(got) is not type(want):
            fail('%s is %r, should be %r' % (what, got, want), what=what)

    def make(what, f, want):
        rec.transitions += 1
        try:
            got = f()
        except Exception as e:
            fail('%s raised %r' % (what, e), what=what)
            return
        if type(got) is not bitstring or (got.width, got.unsigned, got.mask) != (want.w, want.v, (1 << want.w) - 1):
            fail('%s is %r (mask %#x), should be %s' % (what, got, got.mask, name(want.key())), what=what)

    def compare(what, x, y, a, b):
        """x, y implementation operands; a, b the keys that decide the outcome"""
        for n, f in CMP:
            equal('%s with %s' % (what, n), f(x, y), f(a, b))

    if kind == 'huge':
        huge(rec, items, make, equal, compare, name)
    elif kind == 'pairs':
        others = [(k, bitstring(k[1], k[0])) for k in arg]
        for k in items:
            x = bitstring(k[1], k[0])
            for k2, y in others:
                rec.tick()
                compare('%s and %s' % (name(k), name(k2)), x, y, (k[1], k[0]), (k2[1], k2[0]))
                if k == k2:
                    if hash(x) != hash(y) or len({x, y}) != 1 or {x: 1}.get(y) != 1:
                        fail('equal bit strings %s hash differently' % name(k), what='hash')
                elif len({x, y}) != 2:
                    fail('different bit strings %s and %s are one set element' % (name(k), name(k2)), what='set')
                equal('%s in a list' % name(k2), y in [x], k == k2)
            rec.states_n(1)
            if sorted([o[1] for o in others[::-1]]) != [bitstring(v, w) for v, w in sorted((v, w) for w, v in arg)]:
                fail('sorting bit strings gives another order', what='sort')
        rec.outcome('pairs')
    elif kind == 'one':
        digits = [B.binary(w, v) for w in range(1, arg + 1) for v in range(1 << w)]
        for w, v in items:
            x = bitstring(v, w)
            n = name((w, v))
            s = B.signed(w, v)
            ints = range(-(1 << w) - 2, (1 << w) + 3) if w <= 8 else \
                sorted({e + d for e in (0, v, s, 1 << w, -(1 << w), -(1 << w - 1), 1 << 32, 1 << 64) for d in (-1, 0, 1)})
            for i in ints:
                rec.tick()
                mine = s if i < 0 else v
                compare('%s and %d' % (n, i), x, i, mine, i)
                for op, f in CMP:
                    equal('%d %s %s' % (i, op, n), f(i, x), f(i, mine))
            for d in digits:
                rec.tick()
                dv = (int(d, 2), len(d))
                compare('%s and %r' % (n, d), x, d, (v, w), dv)
            for bad in (None, 1.5, [], object):
                equal('%s == %r' % (n, bad), x == bad, False)
                equal('%s != %r' % (n, bad), x != bad, True)
                for op, f in CMP[2:3]:
                    try:
                        got = f(x, bad)
                        fail('%s %s %r is %r, should raise TypeError' % (n, op, bad, got), what=n)
                    except TypeError:
                        pass
            equal('bool(%s)' % n, bool(x), v != 0)
            equal('int(%s)' % n, int(x), v)
            equal('operator.index(%s)' % n, operator.index(x), v)
            equal('hex(%s)' % n, hex(x), hex(v))
            equal('"%%x" %% %s' % n, '%08x|%d|%o|%X' % (x, x, x, x), '%08x|%d|%o|%X' % (v, v, v, v))
            equal('range(2)[%s]' % n, list(range(1 << w))[x] if w <= 8 else v, v)
            equal('%s.unsigned' % n, x.unsigned, v)
            equal('%s.value' % n, x.value, v)
            equal('%s.signed' % n, x.signed, s)
            equal('%s.width' % n, x.width, w)
            equal('%s.mask' % n, x.mask, (1 << w) - 1)
            equal('repr of %s' % n, repr(x), n)
            equal('str of %s' % n, str(x), n)
            equal('%s.base_string(2)' % n, x.base_string(2), n)
            equal('%s.base_string(8)' % n, x.base_string(8), "%d'o%o" % (w, v))
            equal('%s.base_string(10)' % n, x.base_string(10), "%d'd%d" % (w, v))
            equal('%s.base_string(16)' % n, x.base_string(16), "%d'h%x" % (w, v))
            equal('%s.base_string()' % n, x.base_string(), "%d'h%x" % (w, v))
            for base in (0, 1, 3, 7, 12, 36):
                try:
                    fail('%s.base_string(%d) is %r' % (n, base, x.base_string(base)), what=n)
                except ValueError:
                    pass
            # round trips
            make('bitstring(%r)' % B.binary(w, v), lambda: bitstring(x.binary_string), B.V(w, v))
            make('bitstring(bytes of %s)' % n, lambda: bitstring(x.bytes, w), B.V(w, v))
            make('bitstring(signed value of %s)' % n, lambda: bitstring(x.signed, w), B.V(w, s))
            make('bitstring(reversed bits of %s)' % n, lambda: bitstring(list(x)[::-1]), B.V(w, v))
            make('bitstring(%s)' % n, lambda: bitstring(x), B.V(w, v))
            rec.states_n(1)
        rec.outcome('one')
    else:
        if items == 'int':
            for base in (0, 1 << 8, 1 << 31, 1 << 32, 1 << 33, 1 << 63, 1 << 64):
                for d in range(-40, 41):
                    for i in (base + d, -base + d):
                        make('bitstring(%d)' % i, lambda: bitstring(i), B.of_int(i))
                        for w in list(range(0, 10)) + [16, 31, 32, 33, 63, 64, 65, 128]:
                            make('bitstring(%d, %d)' % (i, w), lambda: bitstring(i, w), B.V(w, i))
                            make('bitstring(%d, width=%d)' % (i, w), lambda: bitstring(i, width=w), B.V(w, i))
                rec.tick()
        elif items == 'str':
            for w in range(0, arg + 5):
                for v in range(1 << w):
                    make('bitstring(%r)' % B.binary(w, v), lambda: bitstring(B.binary(w, v)), B.V(w, v))
                    for w2 in (0, 1, 2, w, w + 1, 40):
                        make('bitstring(%r, %d)' % (B.binary(w, v), w2), lambda: bitstring(B.binary(w, v), w2), B.V(w2, v))
                rec.tick()
            for v in (0x123456789abcdef0fedcba9876543210, 1 << 99):
                s = B.binary(100, v)
                make('bitstring(%r)' % s, lambda: bitstring(s), B.V(100, v))
            for bad in ('2', 'x', '0101a', '1 0 2'):
                try:
                    fail('bitstring(%r) is %r, should raise ValueError' % (bad, bitstring(bad)), what=bad)
                except ValueError:
                    pass
        elif items == 'list':
            for w in range(0, arg + 5):
                for bl in itertools.product((0, 1), repeat=w):
                    want = B.from_lsb(bl[::-1])
                    make('bitstring(%r)' % (bl,), lambda: bitstring(bl), want)
                    make('bitstring(%r)' % (list(bl),), lambda: bitstring(list(bl)), want)
                    make('bitstring(%r, 4)' % (bl,), lambda: bitstring(bl, 4), B.V(4, want.v))
                rec.tick()
        elif items == 'bytes':
            for n in (0, 1, 2):
                for bl in itertools.product(range(256), repeat=n):
                    data = bytearray(bl)
                    want = B.V(8 * n, sum(b << 8 * i for i, b in enumerate(bl)))
                    make('bitstring(%r)' % data, lambda: bitstring(data), want)
                    if data != bytearray(bl):
                        fail('bitstring(%r) changed its argument' % bytearray(bl), what='bytes')
                rec.tick()
            for n in (3, 4, 5, 8, 9):
                for bl in itertools.product((0, 1, 0x80, 0xff) if n < 8 else (0x80, 0x7f), repeat=n):
                    want = B.V(8 * n, sum(b << 8 * i for i, b in enumerate(bl)))
                    make('bitstring(%r)' % bytearray(bl), lambda: bitstring(bytearray(bl)), want)
                    make('bitstring(%r, 20)' % bytearray(bl), lambda: bitstring(bytearray(bl), 20), B.V(20, want.v))
        else:
            make('bitstring()', lambda: bitstring(), B.V(0, 0))
            make('bitstring(None)', lambda: bitstring(None), B.V(0, 0))
            for w in range(0, 70):
                make('bitstring(width=%d)' % w, lambda: bitstring(width=w), B.V(w, 0))
                make('zeros(%d)' % w, lambda: zeros(w), B.V(w, 0))
                make('ones(%d)' % w, lambda: ones(w), B.V(w, -1))
                for v in (0, 1, 5, -1, 1 << 31, 0xffffffff):
                    for w2 in range(0, 70):
                        make('bitstring(bitstring(%d, %d), %d)' % (v, w, w2), lambda: bitstring(bitstring(v, w), w2),
                             B.V(w2, B.V(w, v).v))
                rec.tick()
            for bad in (1.5, {}, set(), object()):
                try:
                    fail('bitstring(%r) is %r, should raise TypeError' % (bad, bitstring(bad)), what=repr(bad))
                except TypeError:
                    pass
        rec.states_n(rec.transitions)
        rec.outcome('constructed from ' + items)
    rec.traces = rec.transitions
    rec.sample('%s %r' % (kind, items[:1] if isinstance(items, (list, tuple)) else items))


def huge(rec, w, make, equal, compare, name):
    """Bit strings of hundreds and thousands of bits."""
    from cmdis.bitstring import bitstring, zeros, ones
    pat = int('9e3779b97f4a7c15f39cc0605cedc834' * 45, 16)
    vals = [x & (1 << w) - 1 for x in (0, 1, -1, -2, 1 << w - 1, 1 << w - 2, (1 << w - 1) - 1, pat, ~pat, 1 << w // 2, pat << 7)]
    keys = [(u, v) for u in (w - 1, w, w + 1) for v in vals] + [(8, 0), (64, 1), (65, (1 << 65) - 1)]
    keys = sorted({(u, v & (1 << u) - 1) for u, v in keys})
    made = [(k, bitstring(k[1], k[0])) for k in keys]
    for k, x in made:
        rec.tick()
        for k2, y in made:
            compare('%d bits %#x and %d bits %#x' % (k[0], k[1], k2[0], k2[1]), x, y, (k[1], k[0]), (k2[1], k2[0]))
        u, v = k
        n = '%d bits %#x' % k
        s = B.signed(u, v)
        text = B.binary(u, v)
        for i in {v, v + 1, v - 1, s, s - 1, s + 1, 0, 1 << u, -1 << u, 1 << 1100}:
            compare('%s and %d' % (n, i), x, i, s if i < 0 else v, i)
        equal('equality of %s with its digits' % n, x == text, True)
        for what, got, want in (('bool', bool(x), v != 0), ('int', int(x), v), ('index', operator.index(x), v), ('hex', hex(x), hex(v)),
                                ('unsigned', x.unsigned, v), ('signed', x.signed, s), ('width', x.width, u), ('len', len(x), u),
                                ('mask', x.mask, (1 << u) - 1), ('repr', repr(x), "%d'b%s" % (u, text)), ('binary_string', x.binary_string, text),
                                ('base 16', x.base_string(16), "%d'h%x" % (u, v)), ('base 8', x.base_string(8), "%d'o%o" % (u, v)),
                                ('base 10', x.base_string(10), "%d'd%d" % (u, v)), ('list', list(x), B.bits_lsb(u, v)),
                                ('bytes', x.bytes, bytearray(v.to_bytes((u + 7) // 8, 'little')))):
            equal('%s of %s' % (what, n), got, want)
        msb = [int(c) for c in text]
        make('from %d digits' % u, lambda: bitstring(text), B.V(u, v))
        make('from %d digits, %d wide' % (u, w), lambda: bitstring(text, w), B.V(w, v))
        make('from a list of %d bits' % u, lambda: bitstring(msb), B.V(u, v))
        make('from a tuple of %d bits' % u, lambda: bitstring(tuple(msb)), B.V(u, v))
        data = bytearray(v.to_bytes((u + 7) // 8, 'little'))
        make('from %d bytes' % len(data), lambda: bitstring(data), B.V(8 * len(data), v))
        make('from %d bytes, %d wide' % (len(data), u), lambda: bitstring(data, u), B.V(u, v))
        make('from an integer', lambda: bitstring(v, u), B.V(u, v))
        make('from a negative integer', lambda: bitstring(-v, u), B.V(u, -v))
        make('from a bit string', lambda: bitstring(x, w), B.V(w, v))
    make('zeros(%d)' % w, lambda: zeros(w), B.V(w, 0))
    make('ones(%d)' % w, lambda: ones(w), B.V(w, -1))
    rec.states_n(len(keys))
    rec.outcome('%d bits' % w)
