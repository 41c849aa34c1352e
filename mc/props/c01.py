"""Every encoding is classified exactly once: instruction, unpredictable or undefined."""
from .. import spaces
from ..machine import enc, impl, word_bytes
from ..ref import isa

ID = 'C01'
BOUNDS = {
    'quick': 'all 59392 16-bit encodings alone and followed by 4 different halfwords, all 6144 32-bit first halfwords '
             'alone; all 6144 x 65536 = 402653184 32-bit words',
    'thorough': 'as quick, and all 402653184 32-bit words again with two different pairs of bytes following them',
}
ASSUMPTIONS = [
    'mc/ref/isa.py states the supported subset correctly',
    'encodings that are architecturally unpredictable but which the tool accepts may decode or be rejected as '
    'unpredictable',
]


def shards(tier):
    out = [('16', c) for c in spaces.chunks(spaces.HW16, 8)]
    out.append(('prefix', None))
    out += [('full', c) for c in spaces.rotate_chunks(spaces.H1_32, 384)]
    if tier == 'thorough':
        out += [('tail0', c) for c in spaces.rotate_chunks(spaces.H1_32, 384)]
        out += [('tail1', c) for c in spaces.rotate_chunks(spaces.H1_32, 384)]
    return out


def judge(rec, ref, h1, h2, got, ins):
    st = ref.st
    ok = False
    if got == 'ok':
        ok = st in (isa.OK, isa.MAY) and ins.mnemonic == ref.mn and ins.size == ref.size
    elif got == 'undefined':
        ok = st in (isa.UNDEF, isa.RES)
    elif got == 'unpredictable':
        ok = st in (isa.UNPRED, isa.MAY, isa.RES)
    if not ok:
        if got == 'ok':
            got = 'decodes as "%s" of %d bytes' % (ins.mnemonic, ins.size)
        rec.violate('encoding %s: %s, should be %s' % (
            enc(h1, h2), got, '"%s" of %d bytes' % (ref.mn, ref.size) if ref.mn and st == isa.OK else st + (
                ' ("%s")' % ref.mn if ref.mn else '')), {'kind': 'decode', 'h1': h1, 'h2': h2})
        if len(rec.violations) >= rec.MAX_VIOLATIONS:
            from ..core import StopShard
            raise StopShard()


def classify(im, data):
    try:
        return 'ok', im.decode(data)
    except im.Undefined:
        return 'undefined', None
    except im.Unpredictable:
        return 'unpredictable', None
    except Exception as e:
        return 'raises %s: %s' % (type(e).__name__, e), None


def run_shard(shard, rec):
    kind, hs = shard
    im = impl()
    if kind == '16':
        for h in hs:
            rec.tick()
            ref = isa.decode16(h)
            for tail in ((), (0, 0), (0xff, 0xff), (0x00, 0xf0), (0x0d, 0xbf)):
                got, ins = classify(im, bytearray((h & 255, h >> 8) + tail))
                rec.transitions += 1
                judge(rec, ref, h, None, got, ins)
            rec.outcome(ref.mn if ref.st == isa.OK else ref.st)
        rec.states_n(len(hs))
        rec.sample('%s -> %s' % (enc(hs[0]), isa.decode16(hs[0]).mn))
    elif kind == 'prefix':
        for h1 in spaces.H1_32:
            got, ins = classify(im, word_bytes(h1))
            rec.transitions += 1
            if got != 'undefined':
                rec.violate('first halfword %04x of a 32-bit encoding alone: %s, should be undefined' % (h1, got),
                            {'kind': 'decode', 'h1': h1, 'h2': None})
        rec.states_n(len(spaces.H1_32))
    else:
        h2s = range(0x10000)
        tail = {'full': (), 'tail0': (0x00, 0xbf), 'tail1': (0xff, 0xf7)}[kind]
        n = 0
        outc = {}
        decode, Undefined, d32 = im.decode, im.Undefined, isa.decode32
        UNDEF, RES = isa.UNDEF, isa.RES
        for h1 in hs:
            rec.tick()
            import signal
            signal.alarm(150)
            a, b = h1 & 255, h1 >> 8
            for h2 in h2s:
                n += 1
                ref = d32(h1, h2)
                try:
                    ins = decode(bytearray((a, b, h2 & 255, h2 >> 8) + tail))
                    got = 'ok'
                except Undefined:
                    st = ref.st
                    if st is UNDEF or st is RES:
                        continue
                    got, ins = 'undefined', None
                except im.Unpredictable:
                    got, ins = 'unpredictable', None
                except Exception as e:
                    got, ins = 'raises %s: %s' % (type(e).__name__, e), None
                judge(rec, ref, h1, h2, got, ins)
                name = ref.mn if ref.st is isa.OK else ref.st
                outc[name] = outc.get(name, 0) + 1
        for k, v in outc.items():
            rec.outcome(k, v)
        total = sum(outc.values())
        if n > total:
            rec.outcome('undefined', n - total)
        rec.transitions += n
        if kind == 'full':
            rec.states_n(n)
        rec.sample('%s -> %s' % (enc(hs[0], 0xf001), isa.decode32(hs[0], 0xf001).mn or isa.decode32(hs[0], 0xf001).st))
    rec.traces = rec.transitions
