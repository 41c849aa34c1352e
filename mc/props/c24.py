"""Encoding specifications: which words an encoding accepts and which field bits its handler gets."""
import itertools
from .. import core, spaces

ID = 'C24'
BOUNDS = {
    'quick': 'every specification made of up to 4 elements of 10 kinds (fixed bits, 1, 2, 3 and 10 bit fields, fixed '
             'valued fields of 1, 2 and 10 bits) in 4 spellings, placed at either end of a 16-bit encoding or of either halfword of a 32-bit '
             'encoding; for each, every setting of the element bits and of single bits around them; encodings of 0 to 27 one-bit fields with 0 to 9 attributes',
    'thorough': 'as quick with up to 5 elements',
}
ASSUMPTIONS = ['specifications outside the documented grammar are only checked to be rejected where they contain '
               'characters it does not know or describe more or less than 16 bits',
               'field names are distinct within one encoding']

# kind -> (width, fixed value or None)
KINDS = {'0': (1, 0), '1': (1, 1), 'n': (1, None), 'n(1)': (1, None), 'n(2)': (2, None), 'n(3)': (3, None), 'n=10': (2, 2),
         'n=0': (1, 0), 'n(10)': (10, None), 'n=0110100101': (10, 0x1a5)}
NAMES = ['i', 'imm10', 'Rd', 'S1', 'typeX2', 'b01x', 'Q']


def elements(kinds):
    """[(text, name or None, width, fixed)] from most to least significant"""
    out = []
    for j, k in enumerate(kinds):
        w, fixed = KINDS[k]
        name = None if k in '01' else NAMES[j]
        out.append((k.replace('n', name or '', 1) if name else k, name, w, fixed))
    return out


def spell(els, how):
    if how == 0:
        return ' '.join(e[0] for e in els)
    if how == 1:
        # as tight as the grammar allows
        s = ''
        for i, e in enumerate(els):
            s += e[0]
            if i + 1 < len(els):
                plain = e[1] and not e[0].endswith(')')
                nxt = els[i + 1][0]
                if plain and not ('=' in e[0] and nxt[0] not in '01'):
                    s += ' '
        return s
    if how == 3:
        # any blank separates, also inside brackets
        ws = itertools.cycle('\t\n\r\x0b\x0c ')
        return ''.join(next(ws) + ''.join(c + next(ws) if c == '(' else next(ws) + c if c == ')' else c for c in e[0]) +
                       next(ws) for e in els)
    return '\t ' + '   '.join(e[0].replace('(', ' ( ').replace(')', ' )') for e in els) + ' \n'


def shards(tier):
    n = 5 if tier == 'thorough' else 4
    seqs = [s for k in range(1, n + 1) for s in itertools.product(sorted(KINDS), repeat=k) if sum(KINDS[x][0] for x in s) <= 13]
    return [('spec', c) for c in spaces.rotate_chunks(seqs, 64)] + [('bad',)] + [('many', n) for n in (16, 32)]


def run_shard(shard, rec):
    from cmdis.bitstring import bitstring
    from cmdis import decoder as d

    def fail(msg, **case):
        rec.violate(msg, dict(case, kind='specification'))
        if len(rec.violations) >= rec.MAX_VIOLATIONS:
            raise core.StopShard()

    class Insn(d.Instruction):
        pass

    def handler(_i, **fields):
        _i.fields = fields

    def tree(*args, **kw):
        t = d.DecoderTree()
        t.add_decoder(d.Decoder(handler, 'mnem', Insn, *args, **kw))
        t.build()
        return t

    def try_decode(t, word, size):
        data = bytearray(word >> 8 * k & 255 for k in range(size))
        try:
            return t.decode(data, 0x1000)
        except d.UndefinedInstructionError:
            return None

    def walk(els, low, width_total):
        """[(name, shift, width, fixed)] when the last element ends at bit `low`"""
        out = []
        pos = low
        for text, name, w, fixed in reversed(els):
            out.append((name, pos, w, fixed))
            pos += w
        return out, pos

    def check(els, how, place):
        spec = spell(els, how)
        n = sum(e[2] for e in els)
        pad = 16 - n
        f16 = 'f(%d)' % pad
        # place: where the elements are, and what fills the rest of the 16 bits
        if place == 'low16':
            args, size, base = ('000 f(%d) ' % (pad - 3) if pad > 3 else '000 ') + spec, 2, 0
            specs, low, fixed_extra, fill = (args,), 0, [(13, 3, 0)], (n, pad - 3)
        elif place == 'low1':
            specs, low, size = ('11110 ' + ('f(%d) ' % (pad - 5) if pad > 5 else '') + spec, 'g(16)'), 0, 4
            fixed_extra, fill = [(11, 5, 0x1e)], (n, pad - 5)
        elif place == 'low2':
            specs, low, size = ('11101 h(11)', (f16 + ' ') + spec), 16, 4
            fixed_extra, fill = [(11, 5, 0x1d)], (16 + n, pad)
        elif place == 'high2':
            specs, low, size = ('11111 h(11)', spec + ' ' + f16), 16 + pad, 4
            fixed_extra, fill = [(11, 5, 0x1f)], (16, pad)
        else:
            raise AssertionError(place)
        kw = {'setting': 7, 'other': None}
        t = tree(*specs, **kw)
        fields, end = walk(els, low, size * 8)
        fixed_bits = list(fixed_extra) + [(sh, w, v) for name, sh, w, v in fields if v is not None]
        mask = match = 0
        for sh, w, v in fixed_bits:
            mask |= (1 << w) - 1 << sh
            match |= v << sh
        names = {nm: (sh, w) for nm, sh, w, v in fields if nm}
        if fill[1] > 0:
            names['f'] = fill
        if place == 'low1':
            names['g'] = (16, 16)
        if place in ('low2', 'high2'):
            names['h'] = (0, 11)
        words = set()
        allbits = (1 << 8 * size) - 1
        sweep = min(n, 5)
        for back in (0, allbits, 0xa5a5a5a5 & allbits, 0x5a5a5a5a & allbits):
            w0 = back & ~mask | match
            words.add(w0)
            for b in range(8 * size):
                words.add(w0 ^ 1 << b)
            # every setting of the top (or all) element bits
            hi = low + n - sweep
            for v in range(1 << sweep):
                words.add(w0 & ~((1 << sweep) - 1 << hi) | v << hi)
        for word in words:
            is32 = word >> 11 & 31 in (0x1d, 0x1e, 0x1f)
            if is32 != (size == 4):
                continue
            rec.transitions += 1
            got = try_decode(t, word, size)
            want = word & mask == match
            if (got is not None) != want:
                fail('%r: %0*x is %s, should %s' % (specs, 2 * size, word, 'accepted' if got else 'refused',
                                                   'match' if want else 'not match'), specs=specs, word=word)
                return
            if got is None:
                continue
            if type(got) is not Insn or got.mnemonic != 'mnem' or got.size != size or got.address != 0x1000 or \
                    got.setting != 7 or got.other is not None or got.bytes != bytearray(word >> 8 * k & 255 for k in range(size)):
                fail('%r: %0*x gives %r' % (specs, 2 * size, word, got), specs=specs, word=word)
                return
            fs = got.fields
            if set(fs) != set(names):
                fail('%r: fields %r, should be %r' % (specs, sorted(fs), sorted(names)), specs=specs, word=word)
                return
            for nm, (sh, w) in names.items():
                x = fs[nm]
                if type(x) is not bitstring or x.width != w or x.unsigned != word >> sh & (1 << w) - 1:
                    fail('%r: %0*x has field %s = %r, should be the %d bits above bit %d' % (specs, 2 * size, word, nm, x, w, sh),
                         specs=specs, word=word)
                    return

    if shard[0] == 'many':
        many(d, shard[1], handler, Insn, bitstring, rec, fail)
    elif shard[0] == 'bad':
        good = '0000 i(4) Rd(8)'
        bad = []
        for k in range(len(good) + 1):
            for c in '.-:,;%&2[':
                s = good[:k] + c + good[k:]
                # inside a bit count or a name most of these only change it
                if c in '2' and (k == 0 or not (good[k - 1] == ' ' or k < 4)):
                    continue
                bad.append(s)
        bad += ['', '0', '0' * 15, '0' * 17, 'a(15)', 'a(17)', 'a(8) b(9)', 'a(8) b(7)', 'x=' + '0' * 15, '0000 i(4)', 'a(4) 0 b(12)',
                'a b c', '2', '0000000000000002', 'a(1x)' + '0' * 15]
        for s in bad:
            for specs in ((s,), ('1111' + '0' * 12, s), ) + (((s, '0' * 16),)):
                rec.tick()
                rec.transitions += 1
                try:
                    tree(*specs)
                    fail('malformed specification %r accepted' % (specs,), specs=specs)
                except (ValueError, AssertionError):
                    pass
            rec.states_n(1)
        rec.outcome('malformed')
    else:
        for kinds in shard[1]:
            els = elements(kinds)
            for how in (0, 1, 2, 3):
                for place in ('low16', 'low1', 'low2', 'high2'):
                    room = {'low16': 13, 'low1': 11}.get(place, 15)
                    if sum(e[2] for e in els) > room:
                        continue
                    rec.tick()
                    try:
                        check(els, how, place)
                    except core.StopShard:
                        raise
                    except Exception as e:
                        fail('%r (%s) raised %r' % (spell(els, how), place, e), specs=[spell(els, how)])
                    rec.states_n(1)
                    rec.outcome(place)
        rec.sample('%s' % spell(els, 0))
    rec.traces = rec.transitions


def many(d, size, handler, Insn, bitstring, rec, fail):
    """Encodings of 0 to 27 fields with 0 to 9 attributes: the handler gets every field and nothing else."""
    names = ['f%d' % k if k % 3 else 'Reg%dx' % k for k in range(27)]
    attr = ['a%d' % k for k in range(9)]
    for nf in range(0, (14 if size == 16 else 27) + 1):
        for na in range(10):
            rec.tick()
            if size == 16:
                specs = ('00 ' + ' '.join(names[:nf]) + ' ' + '0' * (14 - nf),)
                shifts = [13 - k for k in range(nf)]
                base = 0
            else:
                top = min(nf, 11)
                specs = ('11110 ' + ' '.join(names[:top]) + ' ' + '0' * (11 - top),
                         ' '.join(names[top:nf]) + ' ' + '1' * (16 - nf + top))
                shifts = [10 - k for k in range(top)] + [31 - k for k in range(nf - top)]
                base = 0xf000 | ((1 << 16 - nf + top) - 1 << 16)
            kw = {a: (k, a) for k, a in enumerate(attr[:na])}
            t = d.DecoderTree()
            t.add_decoder(d.Decoder(handler, 'mnem', Insn, *specs, **kw))
            t.build()
            for v in sorted({0, (1 << nf) - 1, 0x5555555 & (1 << nf) - 1, 0x2aaaaaa & (1 << nf) - 1} | {1 << k for k in range(nf)}):
                word = base
                for k in range(nf):
                    word |= (v >> k & 1) << shifts[k]
                rec.transitions += 1
                try:
                    x = t.decode(bytearray(word >> 8 * k & 255 for k in range(size // 8)), 0x20)
                    got = (type(x), {k: (b.width, b.unsigned) for k, b in x.fields.items()}, [getattr(x, a, None) for a in attr])
                except Exception as e:
                    got = 'raises %s: %s' % (type(e).__name__, e)
                want = (Insn, {names[k]: (1, v >> k & 1) for k in range(nf)}, [kw.get(a) for a in attr])
                if got != want:
                    fail('%r with %d attributes: %0*x gives %r, should be %r' % (specs, na, size // 4, word, got, want), specs=specs, word=word)
                    return
            rec.states_n(1)
    rec.outcome('%d bits: many fields' % size)
