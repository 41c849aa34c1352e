"""Which of several matching encodings decodes a word."""
import itertools
from .. import core, spaces

ID = 'C25'
BOUNDS = {
    'quick': 'every ordered list of up to 3 encodings over all 27 patterns of 3 significant bits (0, 1 or any), each '
             'accepting, declining or unpredictable, as 16-bit and as 32-bit encodings; every ordered list of 4 accepting '
             'encodings over the same patterns; for each, every setting of the significant bits; the same lists of up to 3 of encodings that fix all other bits, and of '
             '2 of both kinds; 11 nested encodings in 22 orders with every subset declining, unpredictable or missing; all pairs of 42 32-bit encodings that fix bits of one half or of none; tables of all patterns of 1 to 3 out of 8 bits in 6 orders',
    'thorough': 'as quick with lists of 3 over all 81 patterns of 4 bits, and lists of 4 with declining encodings',
}
ASSUMPTIONS = ['an encoding is more specific than another when it fixes more bits']

POS = {16: [0, 5, 9, 12], 32: [3, 9, 17, 31]}


def patterns(nbits, size, back=None):
    """[(spec strings, mask over index bits, match over index bits)]; all other bits fixed to back if given"""
    out = []
    for p in itertools.product('01*', repeat=nbits):
        bits = ['x'] * size
        if back is not None:
            bits = ['x' if i in POS[size][:nbits] else str(back >> i & 1) for i in range(size)]
        for c, pos in zip(p, POS[size]):
            if c != '*':
                bits[pos] = c
        top = '11110' if size == 32 else '000'
        for k, c in enumerate(top):
            bits[15 - k] = c

        def text(lo):
            s = ''
            for k in range(15, -1, -1):
                c = bits[lo + k]
                s += c + ' ' if c in '01' else 'x%s ' % 'abcdefghijklmnopqrstuvwxyzABCDEF'[lo + k]
            return s
        mask = sum(1 << i for i, c in enumerate(p) if c != '*')
        match = sum(1 << i for i, c in enumerate(p) if c == '1')
        out.append(((text(0),) if size == 16 else (text(0), text(16)), mask, match))
    return out


def shards(tier):
    out = [('small', size) for size in (16, 32)]
    for size in (16, 32):
        out += [('lists', size, 3, 3, 'adu' if tier == 'thorough' or size == 16 else 'ad', c) for c in spaces.chunks(list(range(27)), 14)]
        out += [('lists', size, 3, 4, 'a', c) for c in spaces.chunks(list(range(27)), 14)]
    for size in (16, 32):
        out += [('full', size, 3, 'ad', c) for c in spaces.chunks(list(range(27)), 9)]
        out += [('mixed', size, 2, 'adu', list(range(54)))]
        out += [('chain', size, c) for c in spaces.chunks(list(range(22)), 8)]
        out += [('wide', size, k) for k in range(6)]
    out += [('halves', k) for k in range(2)]
    if tier == 'thorough':
        out += [('mixed', size, 3, 'ad', c) for size in (16, 32) for c in spaces.chunks(list(range(54)), 27)]
        out += [('lists', size, 4, 3, 'a', c) for size in (16, 32) for c in spaces.chunks(list(range(81)), 27)]
        out += [('lists', 16, 3, 4, 'ad', c) for c in spaces.chunks(list(range(27)), 27)]
    return out


def run_shard(shard, rec):
    from cmdis import decoder as d
    kind, size = shard[:2]
    if kind == 'halves':
        return one_half(d, size, rec)
    nbytes = size // 8

    def fail(msg, **case):
        rec.violate(msg, dict(case, kind='decoder tree'))
        if len(rec.violations) >= rec.MAX_VIOLATIONS:
            raise core.StopShard()

    def accept(_i, **f):
        pass

    def decline(_i, **f):
        raise d.DecodeError()

    def unpred(_i, **f):
        raise d.UnpredictableError()
    H = {'a': accept, 'd': decline, 'u': unpred}
    weight = [bin(i).count('1') for i in range(16)]

    def words(nbits, back):
        out = []
        for v in range(1 << nbits):
            w = (0xf000 if size == 32 else 0) | back
            for i in range(nbits):
                w &= ~(1 << POS[size][i])
                if v >> i & 1:
                    w |= 1 << POS[size][i]
            out.append((v, w, bytearray(w >> 8 * k & 255 for k in range(nbytes))))
        return out

    def run(decs, ws, name, names=None):
        """decs: [(mask, match, behaviour)] in registration order"""
        order = sorted(range(len(decs)), key=lambda i: -weight[decs[i][0]] - (32 if decs[i][3:] else 0))
        t, objs = name
        for v, w, data in ws:
            rec.transitions += 1
            want = None
            for i in order:
                mask, match, b = decs[i][:3]
                if v & mask == match and b != 'd':
                    want = 'unpredictable' if b == 'u' else names[i] if names else i
                    break
            try:
                got = t.decode(data, 8).mnemonic
            except d.UndefinedInstructionError:
                got = None
            except d.UnpredictableError:
                got = 'unpredictable'
            if got != want:
                fail('encodings %s: %0*x decoded by %r, should be %r' % (
                    ['%s%s' % (objs[i][0], '' if decs[i][2] == 'a' else ' (%s)' % decs[i][2]) for i in range(len(decs))],
                    2 * nbytes, w, got, want), word=w, specs=[objs[i][0] for i in range(len(decs))])
                return

    back = 0x05c2 if size == 16 else 0x4a5af5c2
    if kind == 'small':
        pats = patterns(3, size)
        t = d.DecoderTree()
        t.build()
        for other in (False, True):
            if other:
                # only encodings of the other size
                specs = patterns(3, 48 - size)[0][0]
                t.add_decoder(d.Decoder(accept, 'other', d.Instruction, *specs))
                t.build()
            for b in (back, 0):
                run([], words(3, b), (t, []))
        # registered and built again after use
        for p, q in itertools.permutations(range(27), 2):
            rec.tick()
            t = d.DecoderTree()
            objs = []
            for j, k in enumerate((p, q)):
                t.add_decoder(d.Decoder(accept, 'zy'[j], d.Instruction, *pats[k][0]))
                objs.append(pats[k])
                t.build()
                run([(x[1], x[2], 'a') for x in objs], words(3, back), (t, objs), 'zy')
            rec.states_n(1)
        # too short
        for n in (2, 3):
            if size == 32:
                try:
                    t.decode(bytearray(words(3, back)[0][2][:n]))
                    fail('%d bytes of a 32-bit instruction decoded' % n, word=n)
                except d.UndefinedInstructionError:
                    pass
        rec.outcome('%d bits: rebuilt' % size)
    elif kind in ('full', 'mixed'):
        # encodings that fix every other bit too (without any field if all 3 are fixed), alone or with the others
        _, _, length, behaviours, firsts = shard
        pats = patterns(3, size, back)
        tag = [(True,)] * 27
        if kind == 'mixed':
            pats += patterns(3, size)
            tag += [()] * 27
        ws = words(3, back) + words(3, back ^ (1 << 11 if size == 16 else 1 << 26 | 1 << 1))
        choices = [(k, b) for k in range(len(pats)) for b in behaviours]
        near = {v: w for v, w, data in words(3, back)}
        made = {(slot, k, b): d.Decoder(H[b], slot, d.Instruction, *pats[k][0]) for slot in range(length) for k, b in choices}
        for n in range(1, length + 1):
            for first in [c for c in choices if c[0] in set(firsts)]:
                for rest in itertools.product(choices, repeat=n - 1):
                    rec.tick()
                    seq = (first,) + rest
                    t = d.DecoderTree()
                    for slot, (k, b) in enumerate(seq):
                        t.add_decoder(made[slot, k, b])
                    t.build()
                    # words away from the background match no full encoding
                    run([(pats[k][1], pats[k][2], b) + tag[k] for k, b in seq], ws[:8], (t, [pats[k] for k, b in seq]))
                    rest_ = [(slot, k, b) for slot, (k, b) in enumerate(seq) if not tag[k]]
                    run([(pats[k][1], pats[k][2], b) for slot, k, b in rest_], ws[8:],
                        (t, [pats[k] for slot, k, b in rest_]), [slot for slot, k, b in rest_])
                    rec.states_n(1)
        rec.outcome('%d bits: %s lists of up to %d' % (size, kind, length))
    elif kind == 'wide':
        wide(d, size, shard[2], back, H, rec, fail)
    elif kind == 'chain':
        # eleven nested encodings, each fixing one more bit, any of them declining or missing, in any rotation
        _, _, rots = shard
        free = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9] if size == 16 else [0, 3, 7, 10, 16, 18, 21, 24, 30, 31]
        made = {}
        for n in range(11):
            bits = [str(back >> i & 1) if i not in free[n:] else 'x' for i in range(size)]
            halves = [' '.join('x' + 'abcdefghijklmnopqrstuvwxyzABCDEF'[i] if bits[i] == 'x' else bits[i]
                               for i in range(lo + 15, lo - 1, -1)) for lo in range(0, size, 16)]
            for b in 'adu':
                made[n, b] = d.Decoder(H[b], n, d.Instruction, *halves)
        for rot in rots:
            order = list(range(11))
            order = order[rot % 11:] + order[:rot % 11]
            if rot >= 11:
                order.reverse()
            for case in itertools.product('ad', repeat=11):
                rec.tick()
                t = d.DecoderTree()
                # the declining ones are unpredictable or missing in the other two variants of each case
                for b in 'dum':
                    t = d.DecoderTree()
                    for n in order:
                        x = case[n] if case[n] == 'a' else b
                        if x != 'm':
                            t.add_decoder(made[n, x])
                    t.build()
                    for k in range(11):
                        # the word matches encodings 0..k only
                        w = back if k == 10 else back ^ 1 << free[k]
                        want = None
                        for n in range(k, -1, -1):
                            x = case[n] if case[n] == 'a' else b
                            if x in 'au':
                                want = n if x == 'a' else 'unpredictable'
                                break
                        rec.transitions += 1
                        try:
                            got = t.decode(bytearray(w >> 8 * i & 255 for i in range(nbytes)), 8).mnemonic
                        except d.UndefinedInstructionError:
                            got = None
                        except d.UnpredictableError:
                            got = 'unpredictable'
                        if got != want:
                            fail('nested encodings registered in order %s, others than %s %s: %0*x decoded by %r, should be %r' % (
                                order, [n for n in range(11) if case[n] == 'a'],
                                {'d': 'decline', 'u': 'are unpredictable', 'm': 'are missing'}[b], 2 * nbytes, w, got, want),
                                word=w, order=order, case=''.join(case))
                rec.states_n(3)
        rec.outcome('%d bits: nested' % size)
    else:
        _, _, nbits, length, behaviours, firsts = shard
        pats = patterns(nbits, size)
        ws = words(nbits, back)
        made = {}
        choices = [(k, b) for k in range(len(pats)) for b in behaviours]
        for slot in range(length):
            for k, b in choices:
                made[slot, k, b] = d.Decoder(H[b], slot, d.Instruction, *pats[k][0])
        for n in range(1, length + 1):
            if n < length and nbits == 4:
                continue
            for first in [c for c in choices if c[0] in set(firsts)]:
                for rest in itertools.product(choices, repeat=n - 1):
                    rec.tick()
                    seq = (first,) + rest
                    t = d.DecoderTree()
                    for slot, (k, b) in enumerate(seq):
                        t.add_decoder(made[slot, k, b])
                    t.build()
                    run([(pats[k][1], pats[k][2], b) for k, b in seq], ws, (t, [pats[k] for k, b in seq]))
                    rec.states_n(1)
        rec.outcome('%d bits: lists of up to %d, behaviours %s' % (size, length, behaviours))
    rec.traces = rec.transitions
    rec.sample('%r' % (shard,))


def wide(d, size, order, back, H, rec, fail):
    """Every pattern that fixes one, two or three of eight bits, all in one table: nothing is common to all of them."""
    free = [0, 2, 5, 7, 8, 9, 10, 12] if size == 16 else [0, 3, 7, 10, 16, 21, 24, 30]
    pats = []
    for n in (1, 2, 3):
        for pos in itertools.combinations(range(8), n):
            for val in range(1 << n):
                if n < 3 or sum(pos) % 3 == val % 3:
                    pats.append((pos, val))
    if order & 1:
        pats.reverse()
    if order >> 1:
        pats = pats[order >> 1::3] + pats[0::3] + pats[3 - (order >> 1)::3]
    for drop in range(8):
        # in the others some patterns are missing, decline or are unpredictable
        t = d.DecoderTree()
        decs = []
        for i, (pos, val) in enumerate(pats):
            b = 'a' if not drop else 'adaamauma'[(i * 7 + drop * (1 + sum(pos))) % 9]
            if b == 'm':
                continue
            mask = sum(1 << p for p in pos)
            match = sum((val >> k & 1) << p for k, p in enumerate(pos))
            bits = ['x'] * size
            for k, p in enumerate(pos):
                bits[free[p]] = str(val >> k & 1)
            if size == 32:
                bits[11:16] = '01111'
            halves = [' '.join('x' + 'abcdefghijklmnopqrstuvwxyzABCDEF'[j] if bits[j] == 'x' else bits[j]
                               for j in range(lo + 15, lo - 1, -1)) for lo in range(0, size, 16)]
            t.add_decoder(d.Decoder(H[b], i, d.Instruction, *halves))
            decs.append((mask, match, b, i, len(pos)))
        t.build()
        decs.sort(key=lambda x: -x[4])
        rec.tick()
        for v in range(256):
            w = (back | 0xf000 if size == 32 else 0)
            for p in range(8):
                w = w & ~(1 << free[p]) | (v >> p & 1) << free[p]
            want = None
            for mask, match, b, i, n in decs:
                if v & mask == match and b != 'd':
                    want = i if b == 'a' else 'unpredictable'
                    break
            rec.transitions += 1
            try:
                got = t.decode(bytearray(w >> 8 * k & 255 for k in range(size // 8)), 8).mnemonic
            except d.UndefinedInstructionError:
                got = None
            except d.UnpredictableError:
                got = 'unpredictable'
            if got != want:
                fail('a table of %d encodings fixing one to three bits: %0*x decoded by %r, should be %r' % (
                    len(decs), size // 4, w, got if got is None or got == 'unpredictable' else pats[got],
                    want if want is None or want == 'unpredictable' else pats[want]), word=w, order=order, drop=drop)
        rec.states_n(256)
    rec.outcome('%d bits: a wide table' % size)


def one_half(d, which, rec):
    """32-bit encodings that fix bits of only one halfword, or none at all, with and without attributes."""
    pats = []
    for top in ('x(16)', '11110 x(11)', '1111 0 y(3) 0 x(7)', '1110 1 x(11)', 'x(15) 1', 'x(8) 0000 1111', '1111 0000 0000 0001'):
        for low in ('z(16)', '1 z(15)', '0 z(15)', 'z(12) 0101', '1000 0000 0000 0000', '1 z(14) 0'):
            pats.append((top, low))

    def bits(spec):
        s = ''
        for t in spec.split():
            s += '*' * int(t[2:-1]) if '(' in t else t
        return s

    def handler(_i, **fields):
        _i.fields = sorted(fields.items())
    words = [(h1, h2) for h1 in (0xf000, 0xf001, 0xf07f, 0xf080, 0xf00f, 0xe80f, 0xe801, 0xf8ff, 0xff0f) for h2 in (0, 5, 0x8000, 0x8005, 0x8001, 0xffff)]
    for i, p in enumerate(pats):
        for j, q in enumerate(pats):
            if (i + j) % 2 != which:
                continue
            rec.tick()
            t = d.DecoderTree()
            for n, (spec, kw) in enumerate(((p, {}), (q, {'note': None, 'other': 5}))):
                t.add_decoder(d.Decoder(handler, 'e%d' % n, d.Instruction, *spec, **kw))
            t.build()
            full = [bits(x) + bits(y) for x, y in (p, q)]
            for h1, h2 in words:
                w = format(h1, '016b') + format(h2, '016b')
                fit = [n for n in (0, 1) if all(a in ('*', b) for a, b in zip(full[n], w))]
                fit.sort(key=lambda n: full[n].count('*'))
                # equally specific: the earlier one
                want = ('e%d' % fit[0], ) if fit else ('undefined',)
                rec.transitions += 1
                try:
                    x = t.decode(bytearray((h1 & 255, h1 >> 8, h2 & 255, h2 >> 8)), 4)
                    got = (x.mnemonic,)
                    n = int(x.mnemonic[1])
                    extra = (getattr(x, 'note', 0), getattr(x, 'other', 0))
                    if extra != ((0, 0), (None, 5))[n]:
                        got += ('attributes %r' % (extra,),)
                    names = sorted(set(c for c in 'xyz' if any(c + '(' in h for h in (p, q)[n])))
                    if [k for k, v in x.fields] != names:
                        got += ('fields %r' % (x.fields,),)
                except d.UndefinedInstructionError:
                    got = ('undefined',)
                if got != want:
                    rec.violate('encodings %r: %04x %04x gives %r, should be %r' % ((p, q), h1, h2, got, want),
                                {'kind': 'decoder tree', 'specs': [p, q], 'word': [h1, h2]})
                    if len(rec.violations) >= rec.MAX_VIOLATIONS:
                        raise core.StopShard()
            rec.states_n(1)
    rec.traces = rec.transitions
    rec.outcome('one half fixed')
