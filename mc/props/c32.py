"""Encodings a user adds with the decorator extend the instruction set and disturb nothing else."""
import itertools
from .. import core, spaces
from ..machine import enc, impl, word_bytes
from ..ref import isa
from ..vocab import vocabulary

ID = 'C32'
ISOLATE = True
BOUNDS = {
    'quick': 'all sequences of up to 3 of 7 user encodings (16-bit, 32-bit, overlapping built-in 16-bit and 32-bit ones with more and with '
             'fewer fixed bits, declining, without any fixed bit), built after each and (up to 2) only at the end; 20 words that change hands decoded before and after every build; after each '
             'sequence: all 59392 16-bit words for up to 1 and 5400 for more encodings, a vocabulary of every built-in '
             'rule, and 4900 more 32-bit words',
    'thorough': 'as quick with sequences of up to 4, all 16-bit words, and 80000 more 32-bit words',
}
ASSUMPTIONS = ['the order of encodings with equally many fixed bits is unspecified', 'words with wrong should-be bits are not compared']
NAMES = ['cbz', 'it', 'b.w', 'nop.w', 'udf15', 'any', 'dmbsy']
# words that go to another encoding when one is added, and their neighbours
PROBES = [(0xb100, None), (0xbb2f, None), (0xb500, None), (0xbf08, None), (0xbf00, None), (0xbfff, None), (0xde0f, None), (0xde0e, None),
          (0xb601, None), (0xba80, None), (0xf400, 0x8000), (0xf000, 0xa800), (0xf380, 0x8800), (0xf3af, 0x8000), (0xf3af, 0x8001),
          (0xf3bf, 0x8f5f), (0xf3bf, 0x8f5b), (0xf3bf, 0x8f4f), (0xf3ef, 0x8114), (0x4770, None)]


def shards(tier):
    n = 4 if tier == 'thorough' else 3
    return [(seq, how, tier) for k in range(n + 1) for seq in itertools.permutations(range(7), k)
            for how in ((0, 1) if k < n else (0,))]


def register(d, k, log):
    """Declare user encoding k the way the built-in ones are declared."""
    class Own(d.Instruction):
        note = 'the class says'

        def execute(self, cpu):
            log.append((k, self.note))
            cpu.pc = cpu.pc + self.size

    if k == 0:
        @d.instr('cbz', Own, '1011 0 0 i 1 imm5(5) Rn(3)', note='z')
        @d.instr('cbnz', Own, '1011 1 0 i 1 imm5(5) Rn(3)', note='nz')
        def cbz(x, i, imm5, Rn):
            x.fields = (i.unsigned << 5 | imm5.unsigned, Rn.unsigned)
    elif k == 1:
        @d.instr('it', Own, '1011 1111 cond(4) mask(4)', note=None)
        def it(x, cond, mask):
            x.fields = (cond.unsigned, mask.unsigned)
    elif k == 2:
        @d.instr('b.w', Own, '11110 S cond(4) imm6(6)', '10 J1 0 J2 imm11(11)', note=3)
        def bw(x, S, cond, imm6, J1, J2, imm11):
            if cond.unsigned >= 14:
                raise d.DecodeError()
            x.fields = (S.unsigned, cond.unsigned, imm6.unsigned, J1.unsigned, J2.unsigned, imm11.unsigned)
    elif k == 3:
        @d.instr('nop.w', Own, '1111 0011 1010 1111', '1000 0000 0000 0000', note=())
        def nopw(x):
            x.fields = ()
    elif k == 4:
        @d.instr('udf15', Own, '1101 1110 0000 1111', note='x')
        def udf15(x):
            x.fields = ()
    elif k == 6:
        @d.instr('dmbsy', Own, '1111 0011 1011 1111', '1000 1111 0101 1111', note='all')
        def dmbsy(x):
            x.fields = ()
    else:
        @d.instr('any', Own, 'what(16)', note='any')
        def whatever(x, what):
            x.fields = (what.unsigned,)


def user(k, h1, h2):
    """Mnemonic, fields and note when user encoding k takes the word."""
    if k == 0 and h2 is None and h1 & 0xf500 == 0xb100:
        z = not h1 & 0x800
        return ('cbz' if z else 'cbnz'), ((h1 >> 9 & 1) << 5 | h1 >> 3 & 31, h1 & 7), 'z' if z else 'nz'
    if k == 1 and h2 is None and h1 >> 8 == 0xbf:
        return 'it', (h1 >> 4 & 15, h1 & 15), None
    if k == 2 and h2 is not None and h1 >> 11 == 0b11110 and h2 & 0xd000 == 0x8000 and h1 >> 6 & 15 < 14:
        return 'b.w', (h1 >> 10 & 1, h1 >> 6 & 15, h1 & 63, h2 >> 13 & 1, h2 >> 11 & 1, h2 & 0x7ff), 3
    if k == 3 and (h1, h2) == (0xf3af, 0x8000):
        return 'nop.w', (), ()
    if k == 4 and h1 == 0xde0f and h2 is None:
        return 'udf15', (), 'x'
    if k == 5 and h2 is None:
        return 'any', (h1,), 'any'
    if k == 6 and (h1, h2) == (0xf3bf, 0x8f5f):
        return 'dmbsy', (), 'all'
    return None


def expect(active, h1, h2, ref):
    """('user', k, mnemonic, fields, note), ('built-in', mnemonic) or an outcome; None when not specified."""
    if 4 in active and h1 == 0xde0f and h2 is None:
        return ('user', 4) + user(4, h1, h2)
    if 6 in active and (h1, h2) == (0xf3bf, 0x8f5f):
        return ('user', 6) + user(6, h1, h2)
    if ref.st in (isa.RES, isa.MAY):
        return None
    if ref.st == isa.OK:
        return ('built-in', ref.mn)
    if ref.st == isa.UNPRED:
        return 'unpredictable'
    for k in (3, 0, 1, 2, 5):
        if k in active:
            u = user(k, h1, h2)
            if u:
                return ('user', k) + u
    return 'undefined'


_all = []


def prepare(shard):
    """Everything but the sequence itself, decoded once."""
    if not _all:
        tier = shard[-1]
        T = tier == 'thorough'
        _all.append([(h, None, isa.decode16(h)) for h in spaces.HW16])
        _all.append([w for w in vocabulary(2) if not (w[1] is None and isa.is32(w[0]))])
        more = {}
        for h1 in spaces.H1_32[::11 if T else 61] + [0xf3af, 0xf000, 0xf3bf, 0xf380, 0xf7f0, 0xf43f]:
            for h2 in spaces.H2_SET[h1 % 29::29 if T else 97] + [0x8000, 0x8001, 0xa000, 0x8f4f]:
                more[h1, h2] = (h1, h2, isa.decode32(h1, h2))
        _all.append(list(more.values()))
        im = impl()
        for h1, h2, ref in _all[0][::3] + _all[1]:
            try:
                im.decode(word_bytes(h1, h2), 0x8000)
            except Exception:
                pass


def select(seq, tier):
    if tier == 'thorough' or len(seq) < 2:
        return _all[0] + _all[1] + _all[2]
    off = sum((k + 1) * (n + 1) for n, k in enumerate(seq)) % 13
    return [w for w in _all[0] if w[0] >> 8 in (0xb1, 0xb9, 0xbf, 0xde) or w[0] % 13 == off] + _all[1] + _all[2]


def run_shard(shard, rec):
    seq, how, tier = shard
    im = impl()
    import cmdis.decoder as d
    import cmdis.disasm as dis
    log = []
    words = select(seq, tier)

    probes = [(h1, h2, isa.decode(h1, h2 or 0)) for h1, h2 in PROBES]

    def sweep(active, what, words=words):
        want_cache = [(h1, h2, ref, expect(active, h1, h2, ref), word_bytes(h1, h2)) for h1, h2, ref in words]
        for n, (h1, h2, ref, want, data) in enumerate(want_cache):
            if want is None:
                continue
            if not n & 0xfff:
                rec.tick()
            try:
                i = im.decode(data, 0x8000)
            except im.Undefined:
                got = 'undefined'
            except im.Unpredictable:
                got = 'unpredictable'
            except Exception as e:
                got = 'raises %s: %s' % (type(e).__name__, e)
            else:
                fields = getattr(i, 'fields', None)
                got = ('built-in', i.mnemonic) if fields is None else ('user', NAMES.index(i.mnemonic.replace('cbnz', 'cbz')),
                                                                      i.mnemonic, fields, i.note)
                if i.size != (2 if h2 is None else 4) or bytes(i.bytes) != bytes(data) or i.address != 0x8000:
                    got = 'size %d bytes %r address %#x' % (i.size, bytes(i.bytes), i.address)
                elif fields is not None and not n % 16:
                    cpu = im.CpuModel()
                    cpu.delegate = im.Mock()
                    cpu.pc = 0x100
                    del log[:]
                    cpu.execute([i])
                    if log != [(want[1], want[4])] or int(cpu.pc) != 0x100 + i.size:
                        got = 'executes as %r, pc %r' % (log, cpu.pc)
            rec.transitions += 1
            if got != want:
                rec.violate('%s: %s is %r, should be %r' % (what, enc(h1, h2), got, want), {'kind': 'decode', 'word': enc(h1, h2)})
                if len(rec.violations) >= rec.MAX_VIOLATIONS:
                    raise core.StopShard()
        rec.states_n(1)
        rec.traces += 1

    for n, k in enumerate(seq):
        if how == 0 or n == 0:
            # what is decoded now changes hands with the next build
            sweep(set(seq[:n]), 'after adding %s' % (', '.join(NAMES[x] for x in seq[:n]) or 'nothing'), probes)
        register(d, k, log)
        if how == 0:
            dis.decoder.build()
            sweep(set(seq[:n + 1]), 'after adding %s' % ', '.join(NAMES[x] for x in seq[:n + 1]), probes)
    if how == 1:
        dis.decoder.build()
        sweep(set(seq), 'after adding %s, built once' % ', '.join(NAMES[x] for x in seq), probes)
    # the first half of a 32-bit encoding is no 16-bit one
    for h1 in spaces.H1_32:
        if h1 % 37 and h1 & 0x7ff not in (0, 0x7ff):
            continue
        for data in (word_bytes(h1, None), word_bytes(h1, None) + bytearray(1)):
            rec.transitions += 1
            try:
                got = im.decode(data, 0x8000)
            except im.Undefined:
                continue
            except Exception as e:
                got = e
            rec.violate('after adding %s: half of a 32-bit encoding, %04x, is %r, should be undefined' % (
                ', '.join(NAMES[x] for x in seq), h1, got), {'kind': 'decode', 'word': '%04x' % h1})
            if len(rec.violations) >= rec.MAX_VIOLATIONS:
                raise core.StopShard()
    sweep(set(seq), 'after adding %s, built %s' % (', '.join(NAMES[x] for x in seq) or 'nothing',
                                                   'each time' if how == 0 else 'once'))
    rec.outcome('%d encodings, built %s' % (len(seq), 'each time' if how == 0 else 'once'))
    rec.sample('adding %s' % ', '.join(NAMES[x] for x in seq))
