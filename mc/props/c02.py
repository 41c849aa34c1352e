"""Decoding is a pure function of the bytes and the address."""
from .. import core, spaces
from ..machine import enc, impl, word_bytes
from ..ref import isa
from ..vocab import vocabulary

ID = 'C02'
BOUNDS = {
    'quick': 'histories of decode calls over a vocabulary with 2 members of every decoding rule (about 250 words, with '
             'undefined, unpredictable and truncated inputs): all ordered pairs at 2 addresses, all ordered triples '
             'over one member of every second rule; inputs as bytes, bytearray, memory slice and with trailing bytes; 8 members of every rule '
             'decoded straight after every encoding that differs in 1 or 2 bits; '
             'after each history every instruction decoded in it is compared again',
    'thorough': 'as quick with all triples over one member of every rule and 24 members of every rule after their neighbours',
}
ASSUMPTIONS = ['mc/ref/isa.py states what each encoding is']
ADDRS = (0x8000, 0x20000106)


def shards(tier):
    voc = vocabulary(2)
    out = [('pairs', c) for c in spaces.rotate_chunks(range(len(voc)), 24)]
    n = len(triple_words(tier))
    out += [('triples', c) for c in spaces.rotate_chunks(range(n), 24)]
    out += [('near', c) for c in spaces.rotate_chunks(range(len(vocabulary(near_n(tier)))), 24)]
    out += [('inputs', c) for c in spaces.rotate_chunks(range(len(voc)), 4)]
    return [x + (tier,) for x in out]


def near_n(tier):
    return 24 if tier == 'thorough' else 8


def triple_words(tier):
    voc = vocabulary(1)
    return voc if tier == 'thorough' else voc[::2]


def decode(im, data, addr):
    try:
        return im.decode(data, addr)
    except im.Undefined:
        return 'undefined'
    except im.Unpredictable:
        return 'unpredictable'
    except Exception as e:
        return 'raises %s: %s' % (type(e).__name__, e)


def agrees(fmt, got, ref, h1, h2, addr):
    """Problem with one decoded result, or None."""
    if isinstance(got, str):
        ok = {'undefined': (isa.UNDEF, isa.RES), 'unpredictable': (isa.UNPRED, isa.RES, isa.MAY)}.get(got, ())
        return None if ref.st in ok else got
    if ref.st not in (isa.OK, isa.MAY):
        return 'decodes as %s' % got.mnemonic
    if got.mnemonic != ref.mn or got.size != ref.size or got.address != addr or \
            bytes(got.bytes) != bytes(word_bytes(h1, h2)):
        return 'decodes as %s at %#x, size %d, bytes %r' % (got.mnemonic, got.address, got.size, bytes(got.bytes))
    t = fmt.format(got)
    w = isa.text(ref, addr, h1, h2)
    return None if t == w else 'formats as %r, should be %r' % (t, w)


def run_shard(shard, rec):
    kind, idx, tier = shard
    im = impl()
    fmt = im.Formatter(None)
    if kind == 'inputs':
        voc = vocabulary(2)
        for i in idx:
            rec.tick()
            h1, h2, ref = voc[i]
            raw = bytes(word_bytes(h1, h2))
            tails = (b'', b'\x00', b'\xff\xff', b'\x00\xf0\x00\xf8', bytes(range(64)))
            for addr in (0, 1 << 31, 0xfffffffc, 0x1236):
                for tail in tails:
                    if h2 is None and isa.is32(h1):
                        continue
                    for form in ('bytes', 'bytearray', 'view'):
                        data = raw + tail
                        d = data if form == 'bytes' else bytearray(data) if form == 'bytearray' else \
                            bytearray(b'zz' + data)[2:]
                        got = decode(im, d, addr)
                        rec.transitions += 1
                        p = agrees(fmt, got, ref, h1, h2, addr)
                        if p is None and bytes(d) != data:
                            p = 'the input buffer was changed'
                        if p is None and form != 'bytes' and not isinstance(got, str):
                            for k in range(len(d)):
                                d[k] ^= 0xff
                            p = agrees(fmt, got, ref, h1, h2, addr)
                            if p:
                                p = 'after the input buffer is overwritten: ' + p
                        if p:
                            rec.violate('decoding %s as %s with %d more bytes at %#x: %s' % (
                                enc(h1, h2), form, len(tail), addr, p), {'h1': h1, 'h2': h2, 'addr': addr})
            rec.outcome(ref.mn or ref.st)
        rec.states_n(len(idx))
        rec.traces = rec.transitions
        return
    if kind == 'near':
        # straight after each encoding that differs in one or two bits, whatever rule decodes that one
        voc = vocabulary(near_n(tier))
        for i in idx:
            rec.tick()
            h1, h2, ref = voc[i]
            data = bytes(word_bytes(h1, h2))
            n = 8 * len(data)
            if h2 is None and isa.is32(h1):
                continue
            flips = [(a,) for a in range(n)] + [(a, b) for a in range(n) for b in range(a)]
            for flip in flips:
                other = bytearray(data)
                for b in flip:
                    other[b >> 3] ^= 1 << (b & 7)
                first = decode(im, bytes(other), 0x8000)
                got = decode(im, data, 0x8000)
                rec.transitions += 2
                p = None
                if not isinstance(got, str) and not isinstance(first, str) and first is got:
                    p = 'is the same instruction object'
                elif isinstance(got, str) or got.mnemonic != ref.mn:
                    p = agrees(fmt, got, ref, h1, h2, 0x8000)
                elif len(flip) == 1 or flip[1] % 7 == 0:
                    p = agrees(fmt, got, ref, h1, h2, 0x8000)
                if p:
                    rec.violate('after decoding %s: %s at 0x8000 %s' % (' '.join('%02x' % b for b in other), enc(h1, h2), p),
                                {'kind': 'decodes', 'first': bytes(other).hex(), 'h1': h1, 'h2': h2})
                    break
            p = agrees(fmt, got, ref, h1, h2, 0x8000)
            if p:
                rec.violate('%s at 0x8000 %s' % (enc(h1, h2), p), {'kind': 'decodes', 'h1': h1, 'h2': h2})
            rec.states_n(len(flips))
            rec.outcome(ref.mn or ref.st)
        rec.traces = rec.transitions
        return
    voc = vocabulary(2) if kind == 'pairs' else triple_words(tier)
    inputs = [(h1, h2, ref, word_bytes(h1, h2)) for h1, h2, ref in voc]

    def go(seq):
        res = []
        for (h1, h2, ref, data), addr in seq:
            res.append(decode(im, data, addr))
        for got, ((h1, h2, ref, data), addr) in zip(res, seq):
            p = agrees(fmt, got, ref, h1, h2, addr)
            if p:
                rec.violate('after decoding %s: %s at %#x %s' % (
                    ', '.join('%s at %#x' % (enc(x[0][0], x[0][1]), x[1]) for x in seq), enc(h1, h2), addr, p),
                    {'kind': 'decodes', 'history': [[x[0][0], x[0][1], x[1]] for x in seq]})
                if len(rec.violations) >= rec.MAX_VIOLATIONS:
                    raise core.StopShard()
        rec.transitions += len(seq)
        rec.traces += 1

    for i in idx:
        rec.tick()
        for j in range(len(inputs)):
            if kind == 'pairs':
                for a in ADDRS:
                    go([(inputs[i], 0x8000), (inputs[j], a)])
                rec.states_n(2)
            else:
                for k in range(len(inputs)):
                    go([(inputs[i], 0x8000), (inputs[j], 0x20000106), (inputs[k], 0x8000)])
                rec.states_n(len(inputs))
        rec.outcome(voc[i][2].mn or voc[i][2].st)
    rec.sample('history beginning with %s' % enc(*voc[idx[0]][:2]))
