"""The formatter composes operand texts: order, separators, hidden operands, nesting, comments, column layout."""
import itertools
from .. import core, spaces
from ..machine import impl, word_bytes

ID = 'C31'
BOUNDS = {
    'quick': 'every operand class on all its values (16 registers, all 65536 lists, immediates and offsets around every '
             'power of two, all shift types x 0..32, all special registers x masks); all operand lists of up to 6 from '
             '14 operands, among them user written ones, hidden ones and nested memory operands; all memory operands '
             'over lists of up to 4; lists of every length up to 32 and memory operands nested as deep; 9 mnemonics and 4 words; and all histories of 8 of 6 instructions on one formatter; all histories of 4 '
             'changes to the parts of one instruction object, formatted after each',
    'thorough': 'as quick with histories of 9',
}
ASSUMPTIONS = ['shift amounts and register numbers are in range']
REG = ['r%d' % i for i in range(13)] + ['sp', 'lr', 'pc']
SHIFT = ['LSL', 'LSR', 'ASR', 'ROR', 'RRX']
SYS = {0: 'APSR', 1: 'IAPSR', 2: 'EAPSR', 3: 'XPSR', 5: 'IPSR', 6: 'EPSR', 7: 'IEPSR', 8: 'MSP', 9: 'PSP', 16: 'PRIMASK',
       17: 'BASEPRI', 18: 'BASEPRI_MAX', 19: 'FAULTMASK', 20: 'CONTROL'}


def reglist_text(bits):
    out = []
    i = 0
    while i < 16:
        if bits >> i & 1:
            j = i
            while j < 15 and bits >> (j + 1) & 1:
                j += 1
            out.append(REG[i] if i == j else '%s-%s' % (REG[i], REG[j]))
            i = j
        i += 1
    return '{' + ','.join(out) + '}'


def values(n):
    v = {0, 1, 9, 10, 11}
    for k in range(n):
        v |= {1 << k, (1 << k) - 1, (1 << k) + 1}
    return sorted(v)


class Lib(object):
    def __init__(self):
        import cmdis.formatter as F
        from cmdis.helpers import SRType
        from cmdis.bitstring import bitstring
        from cmdis.decoder import Instruction
        self.F, self.SRType, self.bits, self.Instruction = F, SRType, bitstring, Instruction
        lib = self

        class Note(F.Operand):
            """writes two comments"""
            def __init__(self, n):
                self.n = n

            def format(self, formatter):
                formatter.add_comment('first %d' % self.n)
                formatter.add_comment('at %x' % formatter.instruction.address)
                return 'note%d' % self.n

        class Quiet(F.Operand):
            """has a comment but no text"""
            def format(self, formatter):
                formatter.add_comment('quiet')

        class Empty(F.Operand):
            """an empty text is still an operand"""
            def format(self, formatter):
                return ''
        self.Note, self.Quiet, self.Empty = Note, Quiet, Empty

    def shift(self, t):
        return [self.SRType.SRType_LSL, self.SRType.SRType_LSR, self.SRType.SRType_ASR, self.SRType.SRType_ROR,
                self.SRType.SRType_RRX][t]

    def imm(self, v, hide=False):
        o = self.F.ImmediateOperand(v, hideIfZero=hide)
        if v == 0 and hide:
            return o, lambda a: (None, [])
        return o, lambda a: ('#%d' % v, ['0x%x' % v] if v > 9 else [])

    def label(self, off, align):
        o = self.F.LabelOperand(off, alignBase=align)

        def f(a):
            t = (a + 4 & ~3 if align else a + 4) + off
            return '.%+d' % (t - a), ['0x%x' % (t & 0xffffffff)]
        return o, f

    def mem(self, inner, wback):
        o = self.F.MemoryAccessOperand(*[i[0] for i in inner], **({'wback': True} if wback else {}))

        def f(a):
            texts, notes = [], []
            for _, g in inner:
                t, n = g(a)
                notes += n
                if t is not None:
                    texts.append(t)
            return '[' + ', '.join(texts) + ']' + ('!' if wback else ''), notes
        return o, f

    def const(self, o, text, notes=()):
        return o, lambda a: (text, list(notes))

    def pool(self):
        F = self.F
        c = self.const
        base = [c(F.RegisterOperand(3), 'r3'), c(F.RegisterOperand(13, True), 'sp!'), self.imm(0, True), self.imm(0),
                self.imm(10), self.imm(-4), c(F.ShiftRotateOperand(self.SRType.SRType_None, 0), None),
                c(F.ShiftRotateOperand(self.shift(3), 8), 'ROR #8'),
                c(F.ReglistOperand(self.bits(0x4035, 16)), '{r0,r2,r4-r5,lr}'),
                (self.Note(1), lambda a: ('note1', ['first 1', 'at %x' % a])), c(self.Quiet(), None, ['quiet']),
                c(self.Empty(), ''), self.label(-6, True)]
        return base + [self.mem([base[0], base[4]], False)]

    def instr(self, mn, word, wide, addr, ops):
        i = self.Instruction(mn, word, wide)
        i.address = addr
        i.operands = [o for o, _ in ops]
        return i


def expect(mn, word, wide, addr, ops):
    hexes = '%04x' % (word & 0xffff) + (' %04x' % (word >> 16) if wide else '')
    line = hexes.ljust(12) + ' ' + mn.ljust(8)
    texts, notes = [], []
    for _, f in ops:
        t, n = f(addr)
        notes += n
        if t is not None:
            texts.append(t)
    line = line + ', '.join(texts)
    if notes:
        line = line.ljust(36) + ' ; ' + ' '.join(notes)
    return line


KINDS = ['reg', 'list', 'imm', 'label', 'shift', 'barrier', 'cps', 'sys']
HEADS = [('add', 0x1234, False), ('x', 0, False), ('ldrsb.w', 0xffffffff, True), ('mnemonics', 0x00010002, True),
         ('a' * 8, 0xabcd, False), ('a' * 30, 0xabcdef01, True), ('', 1, False), ('a b', 0x80008000, True), ('%s{0}', 0xffff, False)]


def shards(tier):
    T = tier == 'thorough'
    out = [('values', k) for k in KINDS]
    out += [('lists', i, 6) for i in range(14)]
    out += [('mem', i, 4) for i in range(14)]
    out += [('heads', None)]
    out += [('edit', i) for i in range(14)]
    out += [('history', i, 9 if T else 8) for i in range(6)]
    return out


def run_shard(shard, rec):
    im = impl()
    L = Lib()
    F = L.F
    fmt = im.Formatter(None)

    def one(what, mn, word, wide, addr, ops, formatter=None):
        i = L.instr(mn, word, wide, addr, ops)
        try:
            got = (formatter or fmt).format(i)
        except Exception as e:
            got = 'raises %s: %s' % (type(e).__name__, e)
        want = expect(mn, word, wide, addr, ops)
        rec.transitions += 1
        rec.tick()
        if got != want:
            rec.violate('%s: formats as %r, should be %r' % (what, got, want), {'kind': 'format', 'operands': what})
            if len(rec.violations) >= rec.MAX_VIOLATIONS:
                raise core.StopShard()

    kind = shard[0]
    if kind == 'values':
        k = shard[1]
        cases = []
        if k == 'reg':
            cases = [('register %d' % n, L.const(F.RegisterOperand(n, *w), REG[n] + ('!' if w == (True,) else '')))
                     for n in range(16) for w in ((), (False,), (True,))]
        elif k == 'list':
            cases = [('list %#06x' % b, L.const(F.ReglistOperand(L.bits(b, 16)), reglist_text(b))) for b in range(0x10000)]
        elif k == 'imm':
            cases = [('immediate %d' % (v * sg), L.imm(v * sg, h)) for v in values(32) for sg in (1, -1) for h in (False, True)]
            for v in (0, 1, 10, 0xff, 0x80000000):
                for h in (False, True):
                    cases.append(('immediate %r' % L.bits(v, 32), (F.ImmediateOperand(L.bits(v, 32), hideIfZero=h), L.imm(v, h)[1])))
        elif k == 'label':
            for v in values(25):
                for sg in (1, -1):
                    for al in (False, True):
                        for a in (0, 2, 0x1002, 0x8000, 0xfffffffe, 0xfffffffc):
                            one('label %d at %#x' % (v * sg, a), 'b', 0xe000, False, a, [L.label(v * sg, al)])
        elif k == 'shift':
            cases = [('shift %d by %d' % (t, n), L.const(F.ShiftRotateOperand(L.shift(t), n), '%s #%d' % (SHIFT[t], n)))
                     for t in range(5) for n in range(33)]
            cases += [('no shift', L.const(F.ShiftRotateOperand(L.SRType.SRType_None, n), None)) for n in range(3)]
        elif k == 'barrier':
            cases = [('barrier %d' % n, L.const(F.BarrierOperand(n), 'sy' if n == 15 else '#%d' % n)) for n in range(16)]
        elif k == 'cps':
            cases = [('cps %d%d' % (a, b), L.const(F.CpsOperand(a, b), 'i' * a + 'f' * b)) for a in (False, True) for b in (False, True)]
        else:
            for n, name in SYS.items():
                for mask in (None, 0, 1, 2, 3):
                    m = '' if mask is None or n > 3 else ('', '_g', '_nzcvq', '_nzcvqg')[mask]
                    args = () if mask is None else (L.bits(mask, 2),)
                    cases.append(('special register %d mask %r' % (n, mask),
                                  L.const(F.SpecialRegisterOperand(L.bits(n, 8), *args), name + m)))
        for what, op in cases:
            one(what, 'add', 0x1234, False, 0x8000, [op])
            one(what + ' after r3', 'add', 0x1234, False, 0x8002, [L.const(F.RegisterOperand(3), 'r3'), op])
        rec.states_n(len(cases) or rec.transitions)
        rec.outcome(k)
    elif kind in ('lists', 'mem'):
        _, first, depth = shard
        pool = L.pool()
        for n in range(1, depth + 1):
            for rest in itertools.product(range(len(pool)), repeat=n - 1):
                ops = [pool[first]] + [pool[j] for j in rest]
                what = 'operands %r' % ([first] + list(rest),)
                if kind == 'lists':
                    one(what, 'ldr.w', 0xf8d0f000, True, 0x20000102, ops)
                else:
                    r = pool[0]
                    for wb in (False, True):
                        one('memory ' + what, 'str', 0x6001, False, 0x8006, [r, L.mem(ops, wb)])
                        if n < depth:
                            one('nested ' + what, 'str', 0x6001, False, 0x8006, [L.mem([r, L.mem(ops, wb)], not wb), r])
        # long lists: every operand of the pool at every position
        for n in range(depth + 1, 33):
            ops = [pool[(first + j * 5) % len(pool)] for j in range(n)]
            one('%d operands' % n, 'ldr.w', 0xf8d0f000, True, 0x20000102, ops)
            if kind == 'mem':
                one('memory with %d operands' % n, 'ldr.w', 0xf8d0f000, True, 0x20000102, [pool[0], L.mem(ops, n & 1 == 1)])
                # and nested n deep
                o = pool[first]
                for j in range(n):
                    o = L.mem([o, pool[(first + j) % len(pool)]], j % 3 == 0)
                one('memory nested %d deep' % n, 'str', 0x6001, False, 0x8006, [o])
        rec.states_n(rec.transitions)
        rec.outcome(kind)
    elif kind == 'heads':
        pool = L.pool()
        for mn, word, wide in HEADS:
            for n in range(3):
                for sel in itertools.product(range(len(pool)), repeat=n):
                    for a in (0, 0xfffffffe):
                        one('%r %#x operands %r' % (mn, word, sel), mn, word, wide, a, [pool[j] for j in sel])
        rec.states_n(rec.transitions)
        rec.outcome('heads')
    elif kind == 'edit':
        # one instruction object whose parts are replaced between uses
        _, first = shard
        pool = L.pool()
        edits = ['operands', 'mnemonic', 'address', 'more operands', 'other formatter', 'nothing']
        for path in itertools.product(range(len(edits)), repeat=4):
            i = L.instr('add', 0x1234, False, 0x8000, [pool[first]])
            ops, mn, addr, f = [pool[first]], 'add', 0x8000, im.Formatter(None)
            for n, e in enumerate(path):
                if e == 0:
                    ops = [pool[(first + 3 * n + 5) % len(pool)], pool[(n + 1) % len(pool)]]
                    i.operands = [o for o, _ in ops]
                elif e == 1:
                    mn = ('sub', 'ldrsb.w', 'x', 'add')[n]
                    try:
                        i._mnemonic = mn
                    except AttributeError:
                        pass
                    if i.mnemonic != mn:
                        # kept elsewhere: take what it says
                        mn = i.mnemonic
                elif e == 2:
                    addr = (0x8002, 0x1000, 0, 0x8000)[n]
                    i.address = addr
                elif e == 3:
                    ops = ops + [pool[(first + n) % len(pool)]]
                    i.operands.append(ops[-1][0])
                elif e == 4:
                    f = im.Formatter(None)
                got = f.format(i)
                want = expect(mn, 0x1234, False, addr, ops)
                rec.transitions += 1
                if got != want:
                    rec.violate('an instruction formats as %r, should be %r, after changing: %s' % (
                        got, want, ', '.join(edits[x] for x in path[:n + 1])), {'kind': 'edit', 'path': path[:n + 1]})
                    if len(rec.violations) >= rec.MAX_VIOLATIONS:
                        raise core.StopShard()
                    break
            rec.states_n(1)
            rec.tick()
        rec.outcome('edited instructions')
    else:
        _, first, depth = shard
        pool = L.pool()
        menu = [('nop', 0xbf00, False, 0, []), ('a', 0x1111, False, 2, [pool[4]]), ('b', 0x2222, False, 0x102, [pool[9], pool[0]]),
                ('c', 0x33334444, True, 0x100, [pool[13], pool[10]]), ('d', 0x5555, False, 6, [pool[2]]),
                ('e', 0x6666, False, 8, [pool[12], pool[4]])]
        for rest in itertools.product(range(6), repeat=depth - 1):
            f2 = im.Formatter(None)
            for j in (first,) + rest:
                one('after %r' % ((first,) + rest,), *menu[j], formatter=f2)
            rec.states_n(1)
        rec.outcome('histories')
    rec.traces = rec.transitions
    rec.sample('%r' % (shard[:2],))
