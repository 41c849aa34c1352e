"""The text of an instruction says exactly what the encoding is."""
from .. import core, spaces
from ..family import family_h1
from ..machine import enc, impl, word_bytes
from ..ref import isa

ID = 'C04'
BOUNDS = {
    'quick': 'all 16-bit encodings at 12 addresses; all supported 32-bit encodings except bl at 3 addresses, those with '
             'labels at 12; bl: all 2^24 encodings at 1 address, and 12 addresses x all '
             'first halfwords x 24 second halfwords; one formatter used for everything in a shard, including after '
             'rejected encodings',
    'thorough': 'as quick, all 2^24 bl encodings at 4 addresses, all other 32-bit encodings at 12 addresses',
}
ASSUMPTIONS = ['accepted architecturally unpredictable encodings are formatted like the predictable ones']
ADDRS = (0, 2, 4, 0x100, 0x1002, 0x7ffffffc, 0x7ffffffe, 0x80000000, 0xffffff00, 0xfffffffa, 0xfffffffc, 0xfffffffe)
ALLFAM = {'addsub', 'shift', 'logic', 'extadr', 'loadstore', 'multiple', 'system', 'event'}


def shards(tier):
    out = [('16', c) for c in spaces.rotate_chunks(spaces.HW16, 8)]
    out += [('32', c) for c in spaces.rotate_chunks(family_h1(ALLFAM), 96)]
    out += [('bl', c) for c in spaces.rotate_chunks(range(0xf000, 0xf800), 32)]
    out += [('blall', c) for c in spaces.rotate_chunks(range(0xf000, 0xf800), 128)]
    return [x + (tier,) for x in out]


def bl_h2():
    out = []
    for j in range(4):
        base = 0xd000 | (j >> 1) << 13 | (j & 1) << 11
        ds = {0, 0x7ff, 0x555, 0x2aa} | {1 << i for i in range(11)} | {0x7ff ^ 1 << i for i in range(11)}
        ds |= set(range(0, 2048, 13))
        out += [base | d for d in sorted(ds)]
    return out


def run_shard(shard, rec):
    kind, hs, tier = shard
    im = impl()
    fmt = im.Formatter(im.CpuModel())

    def one(h1, h2, ref, addrs):
        try:
            ins = im.decode(word_bytes(h1, h2), addrs[0])
        except im.Unpredictable:
            if ref.st is isa.MAY:
                return
            got = 'unpredictable'
        except Exception as e:
            got = repr(e)
        else:
            got = None
        for addr in addrs:
            if got is None:
                ins.address = addr
                try:
                    t = fmt.format(ins)
                except Exception as e:
                    t = 'raises %s: %s' % (type(e).__name__, e)
            else:
                t = got
            rec.transitions += 1
            w = isa.text(ref, addr, h1, h2)
            if t != w:
                rec.violate('%s at %#x is formatted as\n  %r, should be\n  %r' % (enc(h1, h2), addr, t, w),
                            {'kind': 'format', 'h1': h1, 'h2': h2, 'addr': addr})
                if len(rec.violations) >= rec.MAX_VIOLATIONS:
                    raise core.StopShard()
                return

    if kind == '16':
        for h in hs:
            rec.tick()
            ref = isa.decode16(h)
            if ref.mn is None:
                continue
            one(h, None, ref, ADDRS)
            rec.outcome(ref.mn)
        rec.sample(isa.text(isa.decode16(0x2000), 0, 0x2000))
    elif kind == '32':
        for h1 in hs:
            for h2 in range(0x10000):
                if not h2 & 0x3ff:
                    rec.tick()
                ref = isa.decode32(h1, h2)
                if ref.mn is None or ref.mn == 'bl':
                    continue
                label = ref.k == 'adr'
                one(h1, h2, ref, ADDRS if label else ADDRS if tier == 'thorough'
                    else (0x8000, 0xfffffffe, 0x20000002))
                rec.outcome(ref.mn)
    else:
        h2s = [b | d for b in (0xd000, 0xd800, 0xf000, 0xf800) for d in range(2048)] if kind == 'blall' else bl_h2()
        few = set(h2s[::len(h2s) // 24])
        for h1 in hs:
            for n, h2 in enumerate(h2s):
                if not n & 0xff:
                    rec.tick()
                one(h1, h2, isa.decode32(h1, h2), ADDRS if kind == 'bl' and h2 in few else
                        (0x8000, 0xfffffffe, 0x7ffffffc, 0x100) if tier == 'thorough' and kind == 'blall' else (0x8000,))
        rec.outcome('bl', len(hs) * len(h2s))
        rec.sample(isa.text(isa.decode32(hs[0], h2s[0]), 0, hs[0], h2s[0]))
    rec.traces = rec.transitions
    rec.states_n(rec.transitions)
