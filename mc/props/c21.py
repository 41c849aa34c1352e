"""The architecture's pseudocode functions: alignment, addition, shifts, immediates."""
from .. import core, spaces
from ..ref import bits as B

ID = 'C21'
BOUNDS = {
    'quick': 'all operands of width 1..10 (addition 2..9) and boundary values of 8, 16, 32 and 33 bits and of 12 widths up to 300 bits, with every shift '
             'amount 1..width+8, both carries and every shift type; all 4 x 32 encoded shifts; all 4096 modified '
             'immediates with both carries; alignment by every power of two up to the width',
    'thorough': 'as quick with all operands up to width 17 (addition up to 13)',
}
ASSUMPTIONS = ['modified immediates the architecture calls unpredictable (replicated zero byte) are not compared',
               'shift amounts outside the ranges the pseudocode asserts are unspecified']

EDGE = sorted(set(spaces.EDGE) | {0, 1, 2, 3, 0xffffffff, 0x80000000, 0x7fffffff, 0x12345678, 0xaaaaaaaa, 0x55555555,
                                  0x80000001, 0xfffffffe, 0xffff0000, 0x00ff00ff})


def wide():
    return [(w, v) for w in (8, 16, 32, 33) for v in
            sorted({e & (1 << w) - 1 for e in EDGE} | {e << 1 & (1 << w) - 1 for e in EDGE})]


def huge():
    return [(w, v & (1 << w) - 1) for w in (40, 63, 64, 65, 96, 100, 127, 128, 129, 200, 256, 300) for v in
            (1, 1 << w - 1, (1 << w) - 1, (1 << w - 1) - 1, int('b9' * 40, 16) >> 320 - w, int('3c5a' * 20, 16) >> 320 - w, 0)]


def small(n):
    return [(w, v) for w in range(1, n + 1) for v in range(1 << w)]


def shards(tier):
    n, m = (17, 13) if tier == 'thorough' else (10, 9)
    out = [('shift', c, None) for c in spaces.rotate_chunks(small(n), 64)]
    out += [('shift', c, None) for c in spaces.rotate_chunks(wide(), 16)]
    out += [('shift', c, None) for c in spaces.rotate_chunks(huge(), 16)]
    out += [('add', c, 'huge') for c in spaces.rotate_chunks(huge(), 8)]
    out += [('align', huge(), None)]
    out += [('add', c, 'small') for c in spaces.rotate_chunks([x for x in small(m) if x[0] > 1], 64)]
    out += [('add', c, 'wide') for c in spaces.rotate_chunks(wide(), 8)]
    out += [('imm', list(range(i, 4096, 8)), None) for i in range(8)]
    out += [('encoded', [0], None), ('align', small(n) + wide(), None)]
    return out


def lsl(w, v, n):
    x = v << n
    return x & (1 << w) - 1, x >> w & 1


def lsr(w, v, n):
    return v >> n, (v >> (n - 1)) & 1


def asr(w, v, n):
    s = v - (1 << w) if v >> (w - 1) else v
    return s >> n & (1 << w) - 1, s >> (n - 1) & 1


def ror(w, v, n):
    m = n % w
    r = (v >> m | v << (w - m)) & (1 << w) - 1
    return r, r >> (w - 1)


def rrx(w, v, c):
    return v >> 1 | c << (w - 1), v & 1


def run_shard(shard, rec):
    kind, items, arg = shard
    from cmdis import helpers as h
    from cmdis.bitstring import bitstring
    S = h.SRType

    def fail(msg, **case):
        rec.violate(msg, dict(case, kind='pseudocode'))
        if len(rec.violations) >= rec.MAX_VIOLATIONS:
            raise core.StopShard()

    def bs(w, v):
        return bitstring(v, w)

    def check(what, f, args, want):
        """want: list of (width, value) or ints"""
        rec.transitions += 1
        before = [(a.width, a.unsigned) if type(a) is bitstring else a for a in args]
        try:
            got = f(*args)
        except Exception as e:
            fail('%s(%s) raised %r' % (what, ', '.join(map(repr, args)), e), what=what)
            return
        after = [(a.width, a.unsigned) if type(a) is bitstring else a for a in args]
        many = type(got) is tuple
        g = [(x.width, x.unsigned if x.mask == (1 << x.width) - 1 else 'mask %#x' % x.mask) if type(x) is bitstring else x
             for x in (got if many else (got,))]
        if g != want:
            fail('%s(%s) is %r, should be %r' % (what, ', '.join(map(repr, args)), got, want), what=what, args=repr(args))
        if before != after:
            fail('%s changed its arguments %r to %r' % (what, before, after), what=what)

    bits = [(0, bitstring('0')), (1, bitstring('1'))]
    if kind == 'shift':
        for w, v in items:
            rec.tick()
            x = bs(w, v)
            for n in range(1, w + 9):
                for name, ref, f, fc, t in (('LSL', lsl, h.LSL, h.LSL_C, S.SRType_LSL), ('LSR', lsr, h.LSR, h.LSR_C, S.SRType_LSR),
                                            ('ASR', asr, h.ASR, h.ASR_C, S.SRType_ASR), ('ROR', ror, h.ROR, h.ROR_C, S.SRType_ROR)):
                    r, c = ref(w, v, n)
                    check(name + '_C', fc, (x, n), [(w, r), (1, c)])
                    check(name, f, (x, n), [(w, r)])
                    for ci, cb in bits:
                        check('Shift_C', h.Shift_C, (x, t, n, cb), [(w, r), (1, c)])
                        check('Shift', h.Shift, (x, t, n, cb), [(w, r)])
            for f in ('LSL', 'LSR', 'ASR', 'ROR'):
                check(f, getattr(h, f), (x, 0), [(w, v)])
            for ci, cb in bits:
                r, c = rrx(w, v, ci)
                check('RRX_C', h.RRX_C, (x, cb), [(w, r), (1, c)])
                check('RRX', h.RRX, (x, cb), [(w, r)])
                check('Shift_C', h.Shift_C, (x, S.SRType_RRX, 1, cb), [(w, r), (1, c)])
                check('Shift', h.Shift, (x, S.SRType_RRX, 1, cb), [(w, r)])
                for t in (S.SRType_None, S.SRType_LSL, S.SRType_LSR, S.SRType_ASR, S.SRType_ROR):
                    check('Shift_C', h.Shift_C, (x, t, 0, cb), [(w, v), (1, ci)])
                    check('Shift', h.Shift, (x, t, 0, cb), [(w, v)])
                check('Shift_C', h.Shift_C, (x, S.SRType_None, 3, cb), [(w, v), (1, ci)])
            rec.states_n(1)
        rec.outcome('shift')
    elif kind == 'add':
        for w, a in items:
            others = range(1 << w) if arg == 'small' else [b for w2, b in wide() + huge() if w2 == w]
            for b in others:
                rec.tick()
                for ci, cb in bits:
                    u = a + b + ci
                    r = u & (1 << w) - 1
                    s = B.signed(w, a) + B.signed(w, b) + ci
                    check('AddWithCarry', h.AddWithCarry, (bs(w, a), bs(w, b), cb),
                          [(w, r), (1, int(r != u)), (1, int(B.signed(w, r) != s))])
            rec.states_n(1)
        rec.outcome('addition')
    elif kind == 'imm':
        for i in items:
            rec.tick()
            v8 = i & 255
            for ci, cb in bits:
                if i >> 10 == 0:
                    k = i >> 8 & 3
                    if k and not v8:
                        continue
                    r = (v8, v8 << 16 | v8, v8 << 24 | v8 << 8, v8 * 0x01010101)[k]
                    c = ci
                else:
                    r, c = ror(32, 0x80 | i & 0x7f, i >> 7)
                check('ThumbExpandImm_C', h.ThumbExpandImm_C, (bs(12, i), cb), [(32, r), (1, c)])
                check('ThumbExpandImm', h.ThumbExpandImm, (bs(12, i),), [(32, r)])
            rec.states_n(1)
        rec.outcome('modified immediates')
    elif kind == 'encoded':
        for t in range(4):
            for i in range(32):
                want = [(S.SRType_LSL, i), (S.SRType_LSR, i or 32), (S.SRType_ASR, i or 32),
                        (S.SRType_ROR, i) if i else (S.SRType_RRX, 1)][t]
                check('DecodeImmShift', h.DecodeImmShift, (bs(2, t), bs(5, i)), list(want))
                rec.states_n(1)
        rec.outcome('encoded shifts')
    else:
        for w, v in items:
            rec.tick()
            for k in range(w):
                want = v - v % (1 << k)
                check('Align', h.Align, (bs(w, v), 1 << k), [(w, want)])
                check('Align', h.Align, (v, 1 << k), [want])
            rec.states_n(1)
        rec.outcome('alignment')
    rec.traces = rec.transitions
    rec.sample('%s %r' % (kind, items[0]))
