"""Reference model of the supported Thumb-2 subset, on plain integers.

Written from the ARMv7-M architecture manual's encodings and pseudo-code, as
explicit bit tests.  It shares nothing with cmdis: no spec strings, no
bitstrings, no helpers.

decode16(hw) / decode32(hw1, hw2) return an Insn whose `st` is
  OK      a supported, predictable encoding: mnemonic, text and effect defined
  UNDEF   not an instruction the tool supports
  UNPRED  must be rejected as unpredictable
  MAY     architecturally unpredictable, but the tool may still accept it: then
          its mnemonic and text are those given, its effect is unspecified
  RES     reserved "should be zero/one" bits violated: must not decode, either
          rejection is fine
"""
OK, UNDEF, UNPRED, MAY, RES = 'ok', 'undefined', 'unpredictable', 'may', 'reserved'

M32 = 0xffffffff
REG = ['r0', 'r1', 'r2', 'r3', 'r4', 'r5', 'r6', 'r7', 'r8', 'r9', 'r10', 'r11', 'r12', 'sp', 'lr', 'pc']
CC = ['eq', 'ne', 'cs', 'cc', 'mi', 'pl', 'vs', 'vc', 'hi', 'ls', 'ge', 'lt', 'gt', 'le']
LSL, LSR, ASR, ROR, RRX = 'LSL', 'LSR', 'ASR', 'ROR', 'RRX'
SYSREG = {0: 'APSR', 1: 'IAPSR', 2: 'EAPSR', 3: 'XPSR', 5: 'IPSR', 6: 'EPSR', 7: 'IEPSR', 8: 'MSP', 9: 'PSP',
          16: 'PRIMASK', 17: 'BASEPRI', 18: 'BASEPRI_MAX', 19: 'FAULTMASK', 20: 'CONTROL'}


class Insn(object):
    """st, mnemonic, operands, size, kind of effect, and the effect's parameters."""
    __slots__ = ('st', 'mn', 'ops', 'size', 'k', 'p', 'fam')

    def __init__(self, st, mn=None, ops=(), size=2, k=None, p=(), fam=None):
        self.st = st
        self.mn = mn
        self.ops = ops
        self.size = size
        self.k = k
        self.p = p
        self.fam = fam


def ins(mn, ops, size, k, p, fam, st=OK):
    return Insn(st, mn, ops, size, k, p, fam)


UNDEF16 = Insn(UNDEF, size=2)
UNDEF32 = Insn(UNDEF, size=4)
UNPRED16 = Insn(UNPRED, size=2)
UNPRED32 = Insn(UNPRED, size=4)
RES16 = Insn(RES, size=2)
RES32 = Insn(RES, size=4)


def is32(hw1):
    return (hw1 >> 11) in (0x1d, 0x1e, 0x1f)


def sx(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v


def r(n):
    return ('r', n)


def imm(v):
    return ('i', v)


# ------------------------------------------------------------------- 16 bit

ALU = ['ands', 'eors', 'lsls', 'lsrs', 'asrs', 'adcs', 'sbcs', 'rors',
       'tst', 'rsbs', 'cmp', 'cmn', 'orrs', 'muls', 'bics', 'mvns']
LDST_REG = [('str', 4, 0, 0), ('strh', 2, 0, 0), ('strb', 1, 0, 0), ('ldrsb', 1, 1, 1),
            ('ldr', 4, 1, 0), ('ldrh', 2, 1, 0), ('ldrb', 1, 1, 0), ('ldrsh', 2, 1, 1)]
EXT = [('sxth', 16, 1), ('sxtb', 8, 1), ('uxth', 16, 0), ('uxtb', 8, 0)]
HINTS = {0x00: 'nop', 0x10: 'yield', 0x20: 'wfe', 0x30: 'wfi', 0x40: 'sev'}


def decode16(h):
    top5 = h >> 11
    lo0, lo3, lo6 = h & 7, h >> 3 & 7, h >> 6 & 7
    imm5 = h >> 6 & 31
    r8 = h >> 8 & 7
    imm8 = h & 0xff

    if top5 == 0b00000:
        if imm5 == 0:
            return ins('movs', (r(lo0), r(lo3)), 2, 'mov', (lo0, ('r', lo3), 1, None), 'logic')
        return ins('lsls', (r(lo0), r(lo3), imm(imm5)), 2, 'shift', (lo0, lo3, LSL, ('i', imm5)), 'shift')
    if top5 == 0b00001:
        n = imm5 or 32
        return ins('lsrs', (r(lo0), r(lo3), imm(n)), 2, 'shift', (lo0, lo3, LSR, ('i', n)), 'shift')
    if top5 == 0b00010:
        n = imm5 or 32
        return ins('asrs', (r(lo0), r(lo3), imm(n)), 2, 'shift', (lo0, lo3, ASR, ('i', n)), 'shift')
    if top5 == 0b00011:
        sub = h >> 9 & 1
        src = ('i', lo6) if h >> 10 & 1 else ('r', lo6)
        return ins('subs' if sub else 'adds', (r(lo0), r(lo3), src), 2, 'add',
                   (lo0, lo3, src, sub, None, 1), 'addsub')
    if top5 == 0b00100:
        return ins('movs', (r(r8), imm(imm8)), 2, 'mov', (r8, ('i', imm8), 1, None), 'logic')
    if top5 == 0b00101:
        return ins('cmp', (r(r8), imm(imm8)), 2, 'add', (None, r8, ('i', imm8), 1, None, 1), 'addsub')
    if top5 in (0b00110, 0b00111):
        sub = top5 & 1
        return ins('subs' if sub else 'adds', (r(r8), imm(imm8)), 2, 'add',
                   (r8, r8, ('i', imm8), sub, None, 1), 'addsub')
    if h >> 10 == 0b010000:
        op = h >> 6 & 15
        mn = ALU[op]
        d, m = lo0, lo3
        two = (r(d), r(m))
        if mn in ('ands', 'eors', 'orrs', 'bics'):
            return ins(mn, two, 2, 'logic', (mn[:3], d, d, m), 'logic')
        if mn in ('lsls', 'lsrs', 'asrs', 'rors'):
            return ins(mn, two, 2, 'shift', (d, d, mn[:3].upper(), ('r', m)), 'shift')
        if mn == 'adcs':
            return ins(mn, two, 2, 'add', (d, d, ('r', m), 0, 'c', 1), 'addsub')
        if mn == 'sbcs':
            return ins(mn, two, 2, 'add', (d, d, ('r', m), 1, 'c', 1), 'addsub')
        if mn == 'tst':
            return ins(mn, two, 2, 'tst', (d, m, LSL, 0), 'logic')
        if mn == 'rsbs':
            return ins(mn, (r(d), r(m), imm(0)), 2, 'rsb', (d, m, 0, 1), 'addsub')
        if mn == 'cmp':
            return ins(mn, two, 2, 'add', (None, d, ('r', m), 1, None, 1), 'addsub')
        if mn == 'cmn':
            return ins(mn, two, 2, 'add', (None, d, ('r', m), 0, None, 1), 'addsub')
        if mn == 'muls':
            return ins(mn, (r(d), r(m), r(d)), 2, 'mul', (d, m, d, 1), 'logic')
        return ins(mn, two, 2, 'mvn', (d, m, LSL, 0, 1), 'logic')
    if h >> 10 == 0b010001:
        op = h >> 8 & 3
        d = (h >> 4 & 8) | lo0
        m = h >> 3 & 15
        if op == 0:
            if m == 13:
                ops = (r(d), r(13), r(d))
                return ins('add', ops, 2, 'add', (d, 13, ('r', d), 0, None, 0), 'addsub')
            st = MAY if d == 15 and m == 15 else OK
            return ins('add', (r(d), r(m)), 2, 'add', (d, d, ('r', m), 0, None, 0), 'addsub', st)
        if op == 1:
            st = MAY if (d < 8 and m < 8) or d == 15 or m == 15 else OK
            return ins('cmp', (r(d), r(m)), 2, 'add', (None, d, ('r', m), 1, None, 1), 'addsub', st)
        if op == 2:
            return ins('mov', (r(d), r(m)), 2, 'mov', (d, ('r', m), 0, None), 'logic')
        if lo0:
            return RES16
        link = h >> 7 & 1
        # bx pc / blx pc: not usable on a Thumb-only processor
        return ins('blx' if link else 'bx', (r(m),), 2, 'bx', (m, link), 'branch', MAY if m == 15 else OK)
    if top5 == 0b01001:
        return ins('ldr', (r(r8), ('m', (r(15), imm(imm8 * 4)))), 2, 'ldrlit', (r8, imm8 * 4, 4, 0), 'loadstore')
    if h >> 12 == 0b0101:
        mn, size, load, signed = LDST_REG[h >> 9 & 7]
        return ins(mn, (r(lo0), ('m', (r(lo3), r(lo6)))), 2, 'ld' if load else 'st',
                   (lo0, lo3, ('r', lo6, 0), size, signed), 'loadstore')
    if h >> 13 == 0b011 or h >> 12 == 0b1000:
        load = h >> 11 & 1
        size = 2 if h >> 12 == 0b1000 else (1 if h >> 12 & 1 else 4)
        off = imm5 * size
        mn = ('ldr' if load else 'str') + {4: '', 2: 'h', 1: 'b'}[size]
        return ins(mn, (r(lo0), ('m', (r(lo3), ('i0', off)))), 2, 'ld' if load else 'st',
                   (lo0, lo3, ('i', off), size, 0), 'loadstore')
    if h >> 12 == 0b1001:
        load = h >> 11 & 1
        return ins('ldr' if load else 'str', (r(r8), ('m', (r(13), ('i0', imm8 * 4)))), 2, 'ld' if load else 'st',
                   (r8, 13, ('i', imm8 * 4), 4, 0), 'loadstore')
    if top5 == 0b10100:
        return ins('adr', (r(r8), ('la', imm8 * 4)), 2, 'adr', (r8, imm8 * 4), 'extadr')
    if top5 == 0b10101:
        return ins('add', (r(r8), r(13), imm(imm8 * 4)), 2, 'add', (r8, 13, ('i', imm8 * 4), 0, None, 0), 'addsub')
    if h >> 12 == 0b1011:
        b = h >> 8 & 15
        if b == 0:
            off = (h & 0x7f) * 4
            sub = h >> 7 & 1
            return ins('sub' if sub else 'add', (r(13), imm(off)), 2, 'add',
                       (13, 13, ('i', off), sub, None, 0), 'addsub')
        if b == 2:
            mn, width, signed = EXT[h >> 6 & 3]
            return ins(mn, (r(lo0), r(lo3)), 2, 'ext', (lo0, lo3, 0, width, signed), 'extadr')
        if b in (4, 5):
            regs = imm8 | (h & 0x100) << 6
            if not regs:
                return UNPRED16
            return ins('push', (('l', regs),), 2, 'push', (regs,), 'multiple')
        if b == 6:
            if h >> 5 & 7 != 3:
                return UNDEF16
            if h & 0xc:
                return RES16
            if not h & 3:
                return UNPRED16
            dis, i, f = h >> 4 & 1, h >> 1 & 1, h & 1
            return ins('cpsid' if dis else 'cpsie', (('cps', i, f),), 2, 'cps', (dis, i, f), 'system')
        if b == 10:
            op = h >> 6 & 3
            if op == 2:
                return UNDEF16
            mn = ('rev', 'rev16', None, 'revsh')[op]
            return ins(mn, (r(lo0), r(lo3)), 2, mn, (lo0, lo3), 'extadr')
        if b in (12, 13):
            regs = imm8 | (h & 0x100) << 7
            if not regs:
                return UNPRED16
            return ins('pop', (('l', regs),), 2, 'pop', (regs,), 'multiple')
        if b == 14:
            return ins('bkpt', (imm(imm8),), 2, None, (), 'event')
        if b == 15 and imm8 in HINTS:
            return ins(HINTS[imm8], (), 2, 'nop', (), 'system')
        return UNDEF16
    if top5 in (0b11000, 0b11001):
        n, regs = r8, imm8
        if not regs:
            return UNPRED16
        if top5 & 1:
            wb = not regs >> n & 1
            return ins('ldm', (('r!' if wb else 'r', n), ('l', regs)), 2, 'ldm', (n, regs, wb), 'multiple')
        return ins('stm', (('r!', n), ('l', regs)), 2, 'stm', (n, regs, True), 'multiple')
    if h >> 12 == 0b1101:
        cond = h >> 8 & 15
        if cond == 14:
            return ins('udf', (imm(imm8),), 2, None, (), 'event')
        if cond == 15:
            return ins('svc', (imm(imm8),), 2, None, (), 'event')
        off = sx(imm8 << 1, 9)
        return ins('b' + CC[cond], (('lb', off),), 2, 'b', (off, cond, 0), 'branch')
    if top5 == 0b11100:
        off = sx(h << 1, 12)
        return ins('b', (('lb', off),), 2, 'b', (off, 14, 0), 'branch')
    raise AssertionError('not a 16-bit encoding: %04x' % h)


# ------------------------------------------------------------------- 32 bit

def expand_imm(v):
    """ThumbExpandImm_C: (value, carry or None when unchanged, predictable)."""
    b = v & 0xff
    if v >> 10 == 0:
        mode = v >> 8 & 3
        if mode == 0:
            return b, None, True
        ok = b != 0
        if mode == 1:
            return b << 16 | b, None, ok
        if mode == 2:
            return b << 24 | b << 8, None, ok
        return b << 24 | b << 16 | b << 8 | b, None, ok
    n = v >> 7
    u = 0x80 | v & 0x7f
    res = (u >> n | u << (32 - n)) & M32
    return res, res >> 31, True


def imm_shift(typ, n):
    if typ == 0:
        return LSL, n
    if typ == 1:
        return LSR, n or 32
    if typ == 2:
        return ASR, n or 32
    return (ROR, n) if n else (RRX, 1)


def bad(*regs):
    for x in regs:
        if x == 13 or x == 15:
            return True
    return False


def popcount(v):
    return bin(v).count('1')


LDW = {(0, 0): 'b', (0, 1): 'h', (0, 2): '', (1, 0): 'sb', (1, 1): 'sh'}


def decode32(h1, h2):
    top = h1 >> 11
    lown = h1 & 15

    if top == 0b11101:
        op = h1 >> 4 & 0x7f            # bits 10..4
        if op >> 5 == 0:               # 00xx xxx: load/store multiple, dual, exclusive
            if op in (0b0001000, 0b0001010):    # stm.w (increment after), W is bit 1
                wb = op >> 1 & 1
                regs = h2
                if h2 & 0xa000:
                    return RES32
                if lown == 15 or popcount(regs) < 2 or (wb and regs >> lown & 1):
                    return UNPRED32
                return ins('stm.w', (('r!' if wb else 'r', lown), ('l', regs)), 4, 'stm',
                           (lown, regs, bool(wb)), 'multiple')
            if op in (0b0001001, 0b0001011):    # ldm.w / pop.w
                wb = op >> 1 & 1
                regs = h2
                if h2 & 0x2000:
                    return RES32
                if lown == 13 and wb:
                    if popcount(regs) < 2 or regs >> 14 == 3:
                        return UNPRED32
                    return ins('pop.w', (('l', regs),), 4, 'pop', (regs,), 'multiple')
                if lown == 15 or popcount(regs) < 2 or regs >> 14 == 3 or (wb and regs >> lown & 1):
                    return UNPRED32
                return ins('ldm.w', (('r!' if wb else 'r', lown), ('l', regs)), 4, 'ldm',
                           (lown, regs, bool(wb)), 'multiple')
            if op == 0b0010010 and lown == 13:  # stmdb sp! = push.w
                if h2 & 0xa000:
                    return RES32
                if h2 == 0:
                    return UNPRED32
                return ins('push.w', (('l', h2),), 4, 'push', (h2,), 'multiple', MAY if popcount(h2) < 2 else OK)
            return UNDEF32
        if op >> 5 == 1:               # 01xx xxx: data processing (shifted register)
            dp, s = op >> 1 & 15, op & 1
            d, m = h2 >> 8 & 15, h2 & 15
            n5 = (h2 >> 10 & 0x1c) | (h2 >> 6 & 3)
            typ = h2 >> 4 & 3
            t, n = imm_shift(typ, n5)
            if dp == 0b0000 and s and d == 15:
                if h2 >> 15:
                    return RES32
                if bad(lown, m):
                    return UNPRED32
                ops = (r(lown), r(m)) + ((('s', t, n),) if n else ())
                return ins('tst.w', ops, 4, 'tst', (lown, m, t, n), 'logic')
            if dp == 0b0010 and lown == 15 and typ == 0 and n5 == 0:
                if h2 >> 15:
                    return RES32
                if s:
                    st = MAY if bad(d, m) else OK
                else:
                    st = MAY if d == 15 or m == 15 or (d == 13 and m == 13) else OK
                return ins('movs.w' if s else 'mov.w', (r(d), r(m)), 4, 'mov', (d, ('r', m), s, None), 'logic', st)
            if dp == 0b0011 and lown == 15:
                if h2 >> 15:
                    return RES32
                return ins('mvns.w' if s else 'mvn.w', (r(d), r(m), ('s', t, n)), 4, 'mvn', (d, m, t, n, s),
                           'logic', MAY if bad(d, m) else OK)
            return UNDEF32
        return UNDEF32                 # coprocessor

    if top == 0b11110:
        if not h2 >> 15:
            i3 = (h1 >> 10 & 1) << 11 | (h2 >> 12 & 7) << 8 | (h2 & 0xff)
            d = h2 >> 8 & 15
            if h1 >> 9 & 1 == 0:       # modified immediate
                dp, s = h1 >> 5 & 15, h1 >> 4 & 1
                v, c, predictable = expand_imm(i3)
                if dp == 0b1110:
                    if bad(d, lown):
                        return UNPRED32
                    return ins('rsbs.w' if s else 'rsb.w', (r(d), r(lown), imm(v)), 4, 'rsb', (d, lown, v, s),
                               'addsub', OK if predictable else MAY)
                if dp == 0b0010 and lown == 15:
                    return ins('movs.w' if s else 'mov.w', (r(d), imm(v)), 4, 'mov', (d, ('i', v), s, c), 'logic',
                               MAY if bad(d) or not predictable else OK)
                if dp == 0b1101 and s and d == 15:
                    return ins('cmp.w', (r(lown), imm(v)), 4, 'add', (None, lown, ('i', v), 1, None, 1), 'addsub',
                               MAY if lown == 15 or not predictable else OK)
                if dp == 0b1000 and s and d == 15:
                    return ins('cmn', (r(lown), imm(v)), 4, 'add', (None, lown, ('i', v), 0, None, 1), 'addsub',
                               MAY if lown == 15 or not predictable else OK)
                return UNDEF32
            op = h1 >> 4 & 31          # plain binary immediate
            if op == 0b00000 and lown == 15:
                return ins('adr.w', (r(d), ('la', i3)), 4, 'adr', (d, i3), 'extadr', MAY if bad(d) else OK)
            if op == 0b01010 and lown == 15:
                return ins('adr.w', (r(d), ('la', -i3)), 4, 'adr', (d, -i3), 'extadr', MAY if bad(d) else OK)
            if op == 0b00100:
                v = lown << 12 | i3
                return ins('movw', (r(d), imm(v)), 4, 'mov', (d, ('i', v), 0, None), 'logic', MAY if bad(d) else OK)
            return UNDEF32
        if h2 >> 14 == 3:
            if h2 >> 12 & 1 == 0:      # blx immediate: no such instruction here
                return UNDEF32
            s = h1 >> 10 & 1
            j1, j2 = h2 >> 13 & 1, h2 >> 11 & 1
            i1, i2 = 1 - (j1 ^ s), 1 - (j2 ^ s)
            off = s << 24 | i1 << 23 | i2 << 22 | (h1 & 0x3ff) << 12 | (h2 & 0x7ff) << 1
            off = sx(off, 25)
            return ins('bl', (('lb', off),), 4, 'b', (off, 14, 1), 'branch')
        # h2 is 10xx: miscellaneous control, b.w
        if h2 >> 12 & 1:
            return UNDEF32             # b.w T4 is not supported
        op = h1 >> 4 & 0x7f
        if op == 0b1111111 and h2 >> 12 == 0b1010:
            return ins('udf.w', (imm(lown << 12 | h2 & 0xfff),), 4, None, (), 'event')
        if h2 >> 13 & 1:
            return UNDEF32
        sysm = h2 & 0xff
        if op == 0b0111110 and h2 >> 12 == 8:
            if lown != 15:
                return RES32
            d = h2 >> 8 & 15
            if bad(d) or sysm not in SYSREG:
                return UNPRED32
            return ins('mrs', (r(d), ('sys', sysm, None)), 4, 'mrs', (d, sysm), 'system')
        if op == 0b0111000 and h2 >> 12 == 8:
            if h2 >> 8 & 3:
                return RES32
            mask = h2 >> 10 & 3
            if mask == 0 or (mask != 2 and sysm not in (0, 1, 2, 3)) or bad(lown) or sysm not in SYSREG:
                return UNPRED32
            return ins('msr', (('sys', sysm, mask), r(lown)), 4, 'msr', (lown, sysm, mask), 'system',
                       MAY if mask & 1 else OK)
        if op == 0b0111011 and h2 >> 12 == 8 and h2 >> 4 & 15 in (4, 5, 6):
            if lown != 15 or h2 >> 8 & 15 != 15:
                return RES32
            mn = {4: 'dsb', 5: 'dmb', 6: 'isb'}[h2 >> 4 & 15]
            return ins(mn, (('bar', h2 & 15),), 4, 'nop', (), 'system')
        return UNDEF32

    # top == 0b11111
    op = h1 >> 4 & 0x7f
    if op >> 5 == 0:                   # 00s u zz l: single loads and stores
        s, u, z, load = op >> 4 & 1, op >> 3 & 1, op >> 1 & 3, op & 1
        t = h2 >> 12
        if not load:
            if s or z == 3 or lown == 15 or u:
                return UNDEF32
            if h2 >> 6 & 0x3f == 0:
                size = (1, 2, 4)[z]
                m = h2 & 15
                st = MAY if t == 15 or bad(m) or (t == 13 and size != 4) else OK
                return ins('str' + LDW[0, z] + '.w', (r(t), ('m', (r(lown), r(m), ('s', LSL, h2 >> 4 & 3)))), 4,
                           'st', (t, lown, ('r', m, h2 >> 4 & 3), size, 0), 'loadstore', st)
            if z == 2 and lown == 13 and h2 & 0xfff == 0xd04:
                if bad(t):
                    return UNPRED32
                return ins('push.w', (('l', 1 << t),), 4, 'push', (1 << t,), 'multiple')
            return UNDEF32
        if (s, z) not in LDW:
            return UNDEF32
        size = (1, 2, 4)[z]
        mn = 'ldr' + LDW[s, z] + '.w'
        if t == 15 and size != 4:
            return UNDEF32             # memory hints
        if lown == 15:
            off = h2 & 0xfff
            if not u:
                off = -off
            return ins(mn, (r(t), ('m', (r(15), ('i0', off)))), 4, 'ldrlit', (t, off, size, s), 'loadstore',
                       MAY if t == 13 and size != 4 else OK)
        if u:
            return UNDEF32
        if h2 >> 6 & 0x3f == 0:
            m = h2 & 15
            return ins(mn, (r(t), ('m', (r(lown), r(m), ('s', LSL, h2 >> 4 & 3)))), 4, 'ld',
                       (t, lown, ('r', m, h2 >> 4 & 3), size, s), 'loadstore',
                       MAY if bad(m) or (t == 13 and size != 4) else OK)
        if z == 2 and not s and lown == 13 and h2 & 0xfff == 0xb04:
            return ins('pop.w', (('l', 1 << t),), 4, 'pop', (1 << t,), 'multiple', MAY if t == 13 else OK)
        return UNDEF32
    if op >> 4 == 0b010:               # 010 xxxx: data processing (register)
        if h2 >> 12 != 15:
            return UNDEF32
        d, m = h2 >> 8 & 15, h2 & 15
        if op >> 3 & 1 == 0:
            which = {0: 0, 4: 1, 1: 2, 5: 3}.get(op & 7)
            if lown != 15 or which is None or not h2 >> 7 & 1:
                return UNDEF32
            if h2 >> 6 & 1:
                return RES32
            mn, width, signed = EXT[which]
            rot = (h2 >> 4 & 3) * 8
            ops = (r(d), r(m)) + ((('s', ROR, rot),) if rot else ())
            return ins(mn + '.w', ops, 4, 'ext', (d, m, rot, width, signed), 'extadr', MAY if bad(d, m) else OK)
        if op & 15 == 0b1001 and h2 >> 4 & 15 in (8, 9, 11):
            if lown != m:
                return UNPRED32
            mn = {8: 'rev', 9: 'rev16', 11: 'revsh'}[h2 >> 4 & 15]
            return ins(mn + '.w', (r(d), r(m)), 4, mn, (d, m), 'extadr', MAY if bad(d, m) else OK)
        return UNDEF32
    if op == 0b0110000:                # multiply
        d, m = h2 >> 8 & 15, h2 & 15
        if h2 >> 12 != 15 or h2 >> 4 & 15:
            return UNDEF32
        if bad(d, lown, m):
            return UNPRED32
        return ins('mul', (r(d), r(lown), r(m)), 4, 'mul', (d, lown, m, 0), 'logic')
    return UNDEF32


def decode(h1, h2=0):
    return decode32(h1, h2) if is32(h1) else decode16(h1)


# --------------------------------------------------------------------- text

def reglist_text(regs):
    out = []
    n = 0
    while n < 16:
        if regs >> n & 1:
            e = n
            while e < 15 and regs >> (e + 1) & 1:
                e += 1
            out.append(REG[n] if e == n else REG[n] + '-' + REG[e])
            n = e + 1
        else:
            n += 1
    return '{' + ','.join(out) + '}'


def op_text(o, address, comments):
    k = o[0]
    if k == 'r':
        return REG[o[1]]
    if k == 'r!':
        return REG[o[1]] + '!'
    if k == 'i' or k == 'i0':
        v = o[1]
        if k == 'i0' and v == 0:
            return None
        if v > 9:
            comments.append('0x%x' % v)
        return '#%d' % v
    if k == 'l':
        return reglist_text(o[1])
    if k == 'la' or k == 'lb':
        base = address + 4
        if k == 'la':
            base -= base % 4
        target = base + o[1]
        comments.append('0x%x' % (target % (1 << 32)))
        return '.%+d' % (target - address)
    if k == 's':
        return '%s #%d' % (o[1], o[2])
    if k == 'm':
        parts = [op_text(x, address, comments) for x in o[1]]
        return '[' + ', '.join(x for x in parts if x is not None) + ']'
    if k == 'bar':
        return 'sy' if o[1] == 15 else '#%d' % o[1]
    if k == 'cps':
        return ('i' if o[1] else '') + ('f' if o[2] else '')
    if k == 'sys':
        name = SYSREG[o[1]]
        if o[2] is not None and o[1] < 4:
            name += {2: '_nzcvq', 1: '_g', 3: '_nzcvqg'}[o[2]]
        return name
    raise AssertionError(k)


def text(insn, address, h1, h2=None):
    """The line the formatter prints for insn at address."""
    comments = []
    raw = '%04x' % h1 if insn.size == 2 else '%04x %04x' % (h1, h2)
    ops = [op_text(o, address, comments) for o in insn.ops]
    line = raw.ljust(12) + ' ' + insn.mn.ljust(8) + ', '.join(o for o in ops if o is not None)
    if comments:
        line = line.ljust(36) + ' ; ' + ' '.join(comments)
    return line


# ---------------------------------------------------------------- execution

N_BIT, Z_BIT, C_BIT, V_BIT = 1 << 31, 1 << 30, 1 << 29, 1 << 28


class Memory(object):
    """Disjoint regions of bytes.  Outside of them reads give 0, writes are lost."""

    def __init__(self, regions):
        self.regions = [(start, bytearray(data)) for start, data in regions]

    def find(self, addr):
        for start, data in self.regions:
            if start <= addr < start + len(data):
                return data, addr - start
        return None, 0

    def read(self, addr, size):
        data, off = self.find(addr)
        if data is None:
            return 0
        v = 0
        for i in range(size):
            if off + i < len(data):
                v |= data[off + i] << 8 * i
        return v

    def write(self, addr, value, size):
        data, off = self.find(addr)
        if data is None:
            return
        for i in range(size):
            if off + i < len(data):
                data[off + i] = value >> 8 * i & 0xff


class State(object):
    """Architectural state.  r[13] is the selected stack pointer."""
    __slots__ = ('r', 'xpsr', 'msp', 'psp', 'control', 'primask', 'basepri', 'faultmask', 'handler', 'mem')

    def __init__(self, mem=None):
        self.r = [0] * 16
        self.xpsr = 0x01000000
        self.msp = self.psp = self.control = self.primask = self.basepri = self.faultmask = 0
        self.handler = False
        self.mem = mem

    def copy(self, mem=None):
        s = State(mem if mem is not None else self.mem)
        s.r = list(self.r)
        s.xpsr, s.msp, s.psp, s.control = self.xpsr, self.msp, self.psp, self.control
        s.primask, s.basepri, s.faultmask, s.handler = self.primask, self.basepri, self.faultmask, self.handler
        return s

    def regs(self):
        return tuple(self.r) + (self.xpsr, self.msp, self.psp, self.control, self.faultmask, self.basepri,
                                self.primask)

    def set_sp(self, v):
        v &= 0xfffffffc
        self.r[13] = v
        if self.control & 2:
            self.psp = v
        else:
            self.msp = v

    def set(self, n, v):
        if n == 13:
            self.set_sp(v)
        else:
            self.r[n] = v & M32

    def write_msp(self, v):
        self.msp = v & 0xfffffffc
        if not self.control & 2:
            self.r[13] = self.msp

    def write_psp(self, v):
        self.psp = v & 0xfffffffc
        if self.control & 2:
            self.r[13] = self.psp

    def write_control(self, v):
        self.control = v
        self.r[13] = self.psp if v & 2 else self.msp

    @property
    def privileged(self):
        return self.handler or not self.control & 1

    def nz(self, v):
        self.xpsr = self.xpsr & ~(N_BIT | Z_BIT) | (v & N_BIT) | (Z_BIT if v == 0 else 0)

    def set_c(self, c):
        self.xpsr = self.xpsr | C_BIT if c else self.xpsr & ~C_BIT

    def set_v(self, v):
        self.xpsr = self.xpsr | V_BIT if v else self.xpsr & ~V_BIT

    @property
    def c(self):
        return self.xpsr >> 29 & 1


def signed32(v):
    return v - (1 << 32) if v & 0x80000000 else v


def shift_c(v, typ, n, c):
    """(result, carry out) of shifting the word v."""
    if n == 0:
        return v, c
    if typ == RRX:
        return (c << 31) | v >> 1, v & 1
    if typ == LSL:
        return (v << n & M32, v >> (32 - n) & 1) if n <= 32 else (0, 0)
    if typ == LSR:
        return v >> n, v >> (n - 1) & 1
    if typ == ASR:
        s = signed32(v)
        return s >> n & M32, s >> (n - 1) & 1
    n %= 32
    res = (v >> n | v << (32 - n)) & M32
    return res, res >> 31


def cond_true(cond, xpsr):
    n, z, c, v = xpsr >> 31 & 1, xpsr >> 30 & 1, xpsr >> 29 & 1, xpsr >> 28 & 1
    base = cond >> 1
    if base == 0:
        res = z == 1
    elif base == 1:
        res = c == 1
    elif base == 2:
        res = n == 1
    elif base == 3:
        res = v == 1
    elif base == 4:
        res = c == 1 and z == 0
    elif base == 5:
        res = n == v
    elif base == 6:
        res = n == v and z == 0
    else:
        res = True
    return (not res) if cond & 1 and cond != 15 else res


IN_IT = 1       # inside an IT block: 16-bit data processing instructions leave the flags alone
DSP = 2         # DSP extension: the GE bits of the APSR exist
FP = 4          # floating point extension: CONTROL.FPCA exists


def quiet_in_it(insn):
    return insn.size == 2 and insn.k in ('add', 'rsb', 'logic', 'shift', 'mov', 'mvn', 'mul') and \
        not (insn.k == 'add' and insn.p[0] is None)


def execute(insn, s, pc_reads_plain=False, caps=0):
    """Apply insn to the State s of a processor with the given capabilities.

    PC as a source register reads as the instruction's address plus 4.  With
    pc_reads_plain it reads as the address itself: only used to recognise the
    recorded finding about it."""
    k, p, R = insn.k, insn.p, s.r
    pc = R[15]
    nxt = (pc + insn.size) & M32
    if caps & IN_IT and quiet_in_it(insn):
        old = s.xpsr
        execute(insn, s, pc_reads_plain, caps & ~IN_IT)
        s.xpsr = old
        return

    def rd(n):
        if n == 15:
            return pc if pc_reads_plain else (pc + 4) & M32
        return R[n]

    def done():
        R[15] = nxt

    if k == 'add':
        d, n, src, sub, carry, flags = p
        a = rd(n)
        b = src[1] if src[0] == 'i' else rd(src[1])
        if sub:
            b ^= M32
        cin = s.c if carry else sub
        total = a + b + cin
        res = total & M32
        st = signed32(a) + signed32(b) + cin
        if d == 15:
            R[15] = res & ~1
            return
        if d is not None:
            s.set(d, res)
        if flags:
            s.nz(res)
            s.set_c(total >> 32)
            s.set_v(not -(1 << 31) <= st < 1 << 31)
        done()
    elif k == 'rsb':
        d, n, v, flags = p
        b = R[n]
        res = (v - b) & M32
        sd = signed32(v) - signed32(b)
        s.set(d, res)
        if flags:
            s.nz(res)
            s.set_c(v >= b)
            s.set_v(not -(1 << 31) <= sd < 1 << 31)
        done()
    elif k == 'logic':
        op, d, n, m = p
        a, b = R[n], R[m]
        res = {'and': a & b, 'eor': a ^ b, 'orr': a | b, 'bic': a & (b ^ M32)}[op]
        s.set(d, res)
        s.nz(res)
        done()
    elif k == 'shift':
        d, n, typ, amount = p
        a = amount[1] if amount[0] == 'i' else R[amount[1]] & 0xff
        res, c = shift_c(R[n], typ, a, s.c)
        s.set(d, res)
        s.nz(res)
        s.set_c(c)
        done()
    elif k == 'mov':
        d, src, flags, c = p
        v = src[1] if src[0] == 'i' else rd(src[1])
        if d == 15:
            R[15] = v & ~1
            return
        s.set(d, v)
        if flags:
            s.nz(v)
            if c is not None:
                s.set_c(c)
        done()
    elif k == 'mvn':
        d, m, t, n, flags = p
        v, c = shift_c(R[m], t, n, s.c)
        v ^= M32
        s.set(d, v)
        if flags:
            s.nz(v)
            s.set_c(c)
        done()
    elif k == 'tst':
        n, m, t, a = p
        v, c = shift_c(R[m], t, a, s.c)
        s.nz(R[n] & v)
        s.set_c(c)
        done()
    elif k == 'mul':
        d, n, m, flags = p
        v = R[n] * R[m] & M32
        s.set(d, v)
        if flags:
            s.nz(v)
        done()
    elif k == 'ext':
        d, m, rot, width, signed = p
        v = (R[m] >> rot | R[m] << (32 - rot)) & ((1 << width) - 1)
        if signed and v >> (width - 1):
            v |= M32 & ~((1 << width) - 1)
        s.set(d, v)
        done()
    elif k in ('rev', 'rev16', 'revsh'):
        d, m = p
        v = R[m]
        b = [v & 255, v >> 8 & 255, v >> 16 & 255, v >> 24]
        if k == 'rev':
            v = b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3]
        elif k == 'rev16':
            v = b[2] << 24 | b[3] << 16 | b[0] << 8 | b[1]
        else:
            v = b[0] << 8 | b[1]
            if v & 0x8000:
                v |= 0xffff0000
        s.set(d, v)
        done()
    elif k == 'adr':
        d, off = p
        s.set(d, ((pc + 4) & ~3) + off & M32)
        done()
    elif k == 'b':
        off, cond, link = p
        if cond_true(cond, s.xpsr):
            if link:
                R[14] = nxt | 1
            R[15] = (pc + 4 + off) & M32
        else:
            done()
    elif k == 'bx':
        m, link = p
        target = rd(m)
        if link:
            R[14] = nxt | 1
        R[15] = target & ~1
    elif k == 'ld' or k == 'st':
        t, n, off, size, signed = p
        o = off[1] if off[0] == 'i' else R[off[1]] << off[2]
        addr = (rd(n) + o) & M32
        if k == 'st':
            s.mem.write(addr, R[t], size)
            done()
        else:
            v = s.mem.read(addr, size)
            load_to(s, t, v, size, signed, nxt)
    elif k == 'ldrlit':
        t, off, size, signed = p
        addr = (((pc + 4) & ~3) + off) & M32
        v = s.mem.read(addr, size)
        load_to(s, t, v, size, signed, nxt)
    elif k == 'push':
        regs, = p
        vals = [R[i] for i in range(16) if regs >> i & 1]
        addr = (R[13] - 4 * len(vals)) & M32
        s.set_sp(addr)
        for v in vals:
            s.mem.write(addr, v, 4)
            addr = (addr + 4) & M32
        done()
    elif k == 'pop' or k == 'ldm':
        if k == 'pop':
            (regs,), n, wb = p, 13, True
        else:
            n, regs, wb = p
        addr = base = R[n]
        cnt = popcount(regs)
        R[15] = nxt
        for i in range(16):
            if regs >> i & 1:
                s.set(i, s.mem.read(addr, 4))
                addr = (addr + 4) & M32
        if wb:
            s.set(n, base + 4 * cnt)
    elif k == 'stm':
        n, regs, wb = p
        addr = R[n]
        vals = [R[i] for i in range(16) if regs >> i & 1]
        for v in vals:
            s.mem.write(addr, v, 4)
            addr = (addr + 4) & M32
        if wb:
            s.set(n, addr)
        done()
    elif k == 'cps':
        dis, i, f = p
        if s.privileged:
            if i:
                s.primask = dis
            if f:
                s.faultmask = dis
        done()
    elif k == 'mrs':
        d, sysm = p
        v = 0
        if sysm < 8:
            if sysm & 1:
                v |= s.xpsr & 0x1ff
            if not sysm & 4:
                v |= s.xpsr & (0xf80f0000 if caps & DSP else 0xf8000000)
        elif sysm == 20:
            v = s.control & (7 if caps & FP else 3)
        elif s.privileged:
            v = {8: s.msp, 9: s.psp, 16: s.primask & 1, 17: s.basepri & 0xff, 18: s.basepri & 0xff,
                 19: s.faultmask & 1}[sysm]
        s.set(d, v)
        done()
    elif k == 'msr':
        n, sysm, mask = p
        v = R[n]
        if sysm < 8:
            if not sysm & 4:
                m = (0xf8000000 if mask & 2 else 0) | (0xf0000 if mask & 1 and caps & DSP else 0)
                s.xpsr = s.xpsr & ~m | v & m
        elif s.privileged:
            if sysm == 8:
                s.write_msp(v)
            elif sysm == 9:
                s.write_psp(v)
            elif sysm == 16:
                s.primask = v & 1
            elif sysm == 17:
                s.basepri = v & 0xff
            elif sysm == 18:
                b = v & 0xff
                if b and (b < s.basepri or s.basepri == 0):
                    s.basepri = b
            elif sysm == 19:
                s.faultmask = v & 1
            elif sysm == 20:
                c = s.control & ~1 | v & 1
                if not s.handler:
                    c = c & ~2 | v & 2
                if caps & FP:
                    c = c & ~4 | v & 4
                s.write_control(c)
        done()
    elif k == 'nop':
        done()
    else:
        raise AssertionError('no effect defined for %r' % insn.mn)


def load_to(s, t, v, size, signed, nxt):
    if signed:
        v = sx(v, 8 * size) & M32
    if t == 15:
        s.r[15] = v
        return
    s.set(t, v)
    s.r[15] = nxt


def unknown_store(insn):
    """Index, among the words stored, of one whose value is UNKNOWN (or None).

    Store multiple with write back and the base in the list, not lowest."""
    if insn.k != 'stm' or not insn.p[2]:
        return None
    n, regs, _ = insn.p
    if not regs >> n & 1 or not regs & ((1 << n) - 1):
        return None
    return popcount(regs & ((1 << n) - 1))


def reads_pc(insn):
    """True for the data-processing forms whose source registers include the PC."""
    if insn.k == 'add':
        return insn.p[1] == 15 or insn.p[2] == ('r', 15)
    if insn.k == 'mov':
        return insn.p[1] == ('r', 15)
    return False
