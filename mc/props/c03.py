"""Linear disassembly tiles the input: every byte once, in order, with the right addresses, and ends properly."""
import itertools
from .. import core, spaces
from ..machine import enc, impl
from ..ref import isa

ID = 'C03'
BOUNDS = {
    'quick': 'all buffers of 0..6 halfwords over 12 halfwords (16-bit, 32-bit prefixes, suffixes that are also prefixes, '
             'undefined, unpredictable), each with and without a trailing odd byte, at 4 addresses for <= 3 halfwords '
             'and 1 otherwise; read as bytes and bytearray; streams of 1000, 70000 and 150000 halfwords',
    'thorough': 'as quick with 7 halfwords',
}
ASSUMPTIONS = ['an undefined encoding in the last 3 bytes ends the stream quietly (as the code documents)']
ALPHABET = [0xbf00, 0x2005, 0xe7fe, 0xf000, 0xf801, 0xe92d, 0x4ff0, 0xf04f, 0xbf01, 0xb660, 0xffff, 0xe8bd]
ADDRS = (0, 0x8002, 0xfffffff8, 0x7fffffff + 1)
PAIR = {h for h in ALPHABET if isa.is32(h)}


def shards(tier):
    n = 7 if tier == 'thorough' else 6
    out = [('short', k) for k in range(4)]
    for k in range(4, n + 1):
        out += [('long', (k, pre)) for pre in itertools.product(range(12), repeat=2)]
    out.append(('stream', None))
    out += [('huge', k) for k in (0, 1)] + [('wide', k) for k in (0, 1)]
    return out


_ref = {}


def model(buf, addr):
    """([(address, bytes, mnemonic)], ending): the expected stream."""
    out = []
    off = 0
    while len(buf) - off >= 2:
        h1 = buf[off] | buf[off + 1] << 8
        left = len(buf) - off
        if isa.is32(h1):
            if left < 4:
                return out, 'end'
            h2 = buf[off + 2] | buf[off + 3] << 8
        else:
            h2 = None
        key = (h1, h2)
        ref = _ref.get(key)
        if ref is None:
            ref = _ref[key] = isa.decode(h1, h2 or 0)
        if ref.st in (isa.UNDEF, isa.RES):
            return out, 'end' if left < 4 else 'undefined'
        if ref.st == isa.UNPRED:
            return out, 'unpredictable'
        out.append((addr + off, buf[off:off + ref.size], ref.mn))
        off += ref.size
    return out, 'end'


def observe(im, data, addr):
    out = []
    g = im.Disassembler().disasm(data, addr)
    try:
        for i in g:
            out.append((i.address, bytes(i.bytes), i.mnemonic))
            if len(out) > len(data):
                return out, 'does not end'
        return out, 'end'
    except im.Undefined:
        return out, 'undefined'
    except im.Unpredictable:
        return out, 'unpredictable'
    except Exception as e:
        return out, 'raises %s: %s' % (type(e).__name__, e)


def check(rec, im, buf, addr):
    want = model(buf, addr)
    for form in (bytes, bytearray):
        data = form(buf)
        got = observe(im, data, addr)
        rec.transitions += len(got[0]) + 1
        rec.traces += 1
        if got != want or bytes(data) != buf:
            rec.violate('disassembling %s at %#x gives %r, should be %r' % (buf.hex(), addr, got, want),
                        {'kind': 'disasm', 'data': buf.hex(), 'addr': addr})
            if len(rec.violations) >= rec.MAX_VIOLATIONS:
                raise core.StopShard()
    rec.outcome('%d instructions, %s' % (len(want[0]), want[1]))
    rec.states_n(1)


def run_shard(shard, rec):
    kind, arg = shard
    im = impl()
    le = [bytes((h & 255, h >> 8)) for h in ALPHABET]
    if kind == 'short':
        for hs in itertools.product(range(12), repeat=arg):
            rec.tick()
            buf = b''.join(le[h] for h in hs)
            for a in ADDRS:
                for tail in (b'', b'\x00', b'\xf0', b'\xff'):
                    check(rec, im, buf + tail, a)
        # no address given
        if arg == 2:
            for hs in itertools.product(range(12), repeat=2):
                buf = b''.join(le[h] for h in hs)
                got = []
                try:
                    for i in im.Disassembler().disasm(buf):
                        got.append(i.address)
                except (im.Undefined, im.Unpredictable):
                    pass
                want = [x[0] for x in model(buf, 0)[0]]
                if got != want:
                    rec.violate('disassembling %s without an address gives addresses %r, should be %r' % (
                        buf.hex(), got, want), {'kind': 'disasm', 'data': buf.hex(), 'addr': 0})
        rec.sample('all buffers of %d halfwords' % arg)
    elif kind == 'long':
        n, pre = arg
        for hs in itertools.product(range(12), repeat=n - 2):
            rec.tick()
            buf = b''.join(le[h] for h in pre + hs)
            check(rec, im, buf, 0x8000)
            check(rec, im, buf + b'\xf0', 0xfffffff6)
    elif kind == 'stream':
        for pat in ((0xbf00,), (0xf000, 0xf801), (0xbf00, 0xf000, 0xf801), (0xf04f, 0x0005, 0x2005),
                    (0xe92d, 0x4ff0, 0xbf00, 0xe8bd, 0x8ff0)):
            for shift in range(len(pat)):
                rec.tick()
                hs = [0x2005] * shift + list(pat) * (1000 // len(pat))
                check(rec, im, b''.join(bytes((h & 255, h >> 8)) for h in hs), 0x10000)
    if kind == 'wide':
        # 32-bit instructions only, at every halfword of every power of two boundary up to 256 KiB
        hs = [0x2005] * arg
        for n in range(75000):
            hs += [0xf04f, n % 255 | n >> 3 & 0x700]
        check(rec, im, b''.join(bytes((h & 255, h >> 8)) for h in hs), 0x8000)
    if kind == 'huge':
        # longer than 64 KiB, never the same instruction at the same place of two blocks
        hs = [0x2005] * arg
        n = 0
        while len(hs) < 70000:
            hs += [0x2000 | n & 0x7ff] if n % 3 else [0xf04f, n % 255 | n >> 3 & 0x700]
            n += 1
        check(rec, im, b''.join(bytes((h & 255, h >> 8)) for h in hs), 0x8000)
