"""The package that setup.py builds (2to3 conversion included) behaves like the source tree."""
import contextlib
import importlib
import io
import itertools
import os
import re
import subprocess
import sys
from .. import core, spaces
from ..family import family_h1, make_states, pattern_bytes
from ..machine import enc, word_bytes

ID = 'C29'
NEEDS_BUILD = True
BOUNDS = {
    'quick': 'every 16-bit encoding and every supported 32-bit first halfword with 400 second halfwords decoded, formatted at 2 '
             'addresses and executed from 3 states by both; every bit string operation on all pairs of width 0..4 and 12 '
             'wide values; the pseudocode functions, utilities, register and memory operations on boundary values; the '
             'installed program run on 3 inputs',
    'thorough': 'as quick with every second halfword of the family sets and pairs of width 0..6',
}
ASSUMPTIONS = ['the source tree imports as it is under the test interpreter except for the console module']
ALLFAM = {'addsub', 'shift', 'logic', 'extadr', 'loadstore', 'multiple', 'system', 'event'}
MODULES = ['bitstring', 'decoder', 'disasm', 'formatter', 'helpers', 'instructions', 'mock_cpu', 'model', 'registers', 'utilities']


def shards(tier):
    T = tier == 'thorough'
    out = [('16', c, 1) for c in spaces.rotate_chunks(spaces.HW16, 16)]
    out += [('32', c, 1 if T else 13) for c in spaces.rotate_chunks(family_h1(ALLFAM) + list(range(0xf000, 0xf800, 61)), 24)]
    n = 6 if T else 4
    out += [('bits', c, n) for c in spaces.rotate_chunks(values(n), 8)]
    out += [('functions',), ('machine',), ('program',)]
    return out


def values(n):
    return [(w, v) for w in range(n + 1) for v in range(1 << w)] + \
        [(32, 0), (32, 0xffffffff), (32, 0x80000000), (32, 0x12345678), (33, 1 << 32), (64, (1 << 64) - 1), (64, 5), (16, 0x8000), (8, 0x7f),
         (12, 0xabc), (40, 0xdeadbeef12), (31, 1)]


def load(where):
    for k in [k for k in sys.modules if k == 'cmdis' or k.startswith('cmdis.')]:
        del sys.modules[k]
    sys.path.insert(0, where)
    importlib.invalidate_caches()
    try:
        top = importlib.import_module('cmdis')
        mods = {n: importlib.import_module('cmdis.' + n) for n in MODULES}
    finally:
        sys.path.remove(where)
    assert os.path.dirname(top.__file__) == os.path.join(where, 'cmdis'), top.__file__
    mods['__init__'] = top
    return mods


_both = []


def both(rec):
    if not _both:
        _both.extend([load(rec.stage.src), load(rec.stage.built())])
    return _both


def attempt(f):
    try:
        return f()
    except Exception as e:
        return 'raises ' + type(e).__name__


def plain(x):
    """results as comparable plain data"""
    n = type(x).__name__
    if n == 'bitstring':
        return ('bits', x.width, x.unsigned)
    if n == 'SRType':
        return x.name
    if isinstance(x, (tuple, list)):
        return [plain(i) for i in x]
    return (n, x)


OPS = ['__add__', '__sub__', '__mul__', '__floordiv__', '__mod__', '__and__', '__or__', '__xor__', '__eq__', '__ne__', '__lt__', '__le__',
       '__gt__', '__ge__']
ROPS = ['__radd__', '__rsub__', '__rmul__', '__rfloordiv__', '__rmod__', '__rand__', '__ror__', '__rxor__']
IOPS = ['__iadd__', '__isub__', '__imul__', '__ifloordiv__', '__imod__', '__iand__', '__ior__', '__ixor__']


def run_shard(shard, rec):
    kind = shard[0]
    src, lib = both(rec)
    pair = (src, lib)

    def fail(msg, **case):
        rec.violate(msg, dict(case, kind='build'))
        if len(rec.violations) >= rec.MAX_VIOLATIONS:
            raise core.StopShard()

    def same(what, f):
        """f(modules) gives the same on both"""
        rec.transitions += 1
        a, b = [attempt(lambda: plain(f(x))) for x in pair]
        if a != b:
            fail('%s: the source gives %r, the built package %r' % (what, a, b), what=what)

    if kind in ('16', '32'):
        hs, step = shard[1:]
        h2s = spaces.H2_SET[::step] if kind == '32' else [None]
        data = bytes(pattern_bytes(0x100, 3))
        DATA = 0x20000000
        machines = []
        for x in pair:
            cpu = x['model'].CpuModel()
            cpu.delegate = x['mock_cpu'].MockCpuModelDelegate()
            cpu.delegate.add_memory(DATA, len(data))
            cpu.delegate.write_memory_block(DATA, bytearray(data))
            machines.append((cpu, x['formatter'].Formatter(cpu), x['disasm'].decoder.decode))
        starts = [dict([(i, 0x11111111 * i & 0xffffffff) for i in range(13)]), dict([(i, DATA + 0x40 + 4 * i) for i in range(13)]),
                  dict([(i, (0, 1, 0x80000000, 0xffffffff, 0x7fffffff)[i % 5]) for i in range(13)])]
        ends = [{13: DATA + 0x80, 14: 0x1001, 15: 0x1000, 16: x, -4: c, 17: DATA + 0x80, 18: DATA + 0xc0} for x, c in
                ((0x01000000, 0), (0xf1000000, 2), (0x21000000, 1))]
        for h1 in hs:
            rec.tick()
            for h2 in h2s:
                res = []
                for cpu, fmt, dec in machines:
                    r = []
                    try:
                        ins = dec(word_bytes(h1, h2), 0x1000)
                    except Exception as e:
                        res.append([type(e).__name__])
                        continue
                    r.append((ins.mnemonic, ins.size, bytes(ins.bytes), ins.address))
                    for addr in (0x1000, 0xfffffffe):
                        ins.address = addr
                        r.append(attempt(lambda: fmt.format(ins)))
                    ins.address = 0x1000
                    for s, e in zip(starts, ends):
                        for st in (e, s):
                            for k in st:
                                cpu.delegate.write_register(k, st[k])
                        r.append(attempt(lambda: ins.execute(cpu)))
                        r.append([cpu.delegate.read_register(k) for k in list(range(19)) + [-4, -3, -2, -1]])
                        blk = cpu.delegate.read_memory_block(DATA, len(data))
                        if blk != data:
                            r.append(bytes(blk))
                            cpu.delegate.write_memory_block(DATA, bytearray(data))
                    res.append(r)
                rec.transitions += 1
                if res[0] != res[1]:
                    d = [(a, b) for a, b in zip(*res) if a != b] or res
                    fail('%s: the source and the built package differ: %r' % (enc(h1, h2), d[:2]), word=enc(h1, h2))
                rec.outcome(res[0][0] if len(res[0]) == 1 else res[0][0][0])
                rec.states_n(1)
    elif kind == 'bits':
        allv = values(shard[2])
        for w, v in shard[1]:
            rec.tick()
            mk = lambda x: x['bitstring'].bitstring(v, w)
            n = 'bitstring(%d, %d)' % (v, w)
            for attr in ('value', 'signed', 'unsigned', 'inverted', 'reversed', 'width', 'mask', 'binary_string', 'bytes'):
                same('%s.%s' % (n, attr), lambda x: getattr(mk(x), attr))
            for name, f in (('repr', repr), ('str', str), ('bool', bool), ('not', lambda b: not b), ('len', len), ('int', int), ('list', list),
                            ('hex', hex), ('%x', lambda b: '%x' % b), ('if', lambda b: 1 if b else 0), ('hash', hash), ('~', lambda b: ~b),
                            ('reverse', lambda b: b.reverse()), ('invert', lambda b: b.invert()), ('sum', sum),
                            ('bit_count', lambda b: b.bit_count()), ('lowest', lambda b: b.lowest_set_bit()),
                            ('highest', lambda b: b.highest_set_bit()), ('is_zero', lambda b: b.is_zero()), ('is_ones', lambda b: b.is_ones()),
                            ('is_zero_bit', lambda b: b.is_zero_bit()), ('is_ones_bit', lambda b: b.is_ones_bit()),
                            ('base8', lambda b: b.base_string(8)), ('base10', lambda b: b.base_string(10)), ('base16', lambda b: b.base_string()),
                            ('base2', lambda b: b.base_string(2)), ('base3', lambda b: b.base_string(3))):
                same('%s of %s' % (name, n), lambda x: f(mk(x)))
            for i in range(-2, 7):
                same('%s[%d]' % (n, i), lambda x: mk(x)[i])
                same('%s << %d' % (n, i), lambda x: mk(x) << i if i >= 0 else 0)
                same('%s >> %d' % (n, i), lambda x: mk(x) >> i if i >= 0 else 0)
                same('%s.sign_extend(%d)' % (n, i), lambda x: mk(x).sign_extend(w + i))
                same('%s.zero_extend(%d)' % (n, i), lambda x: mk(x).zero_extend(w + i))
                for j in range(-2, 7):
                    for st in (None, 2, -1):
                        same('%s[%d:%d:%s]' % (n, i, j, st), lambda x: mk(x)[i:j:st])
            for w2, v2 in allv:
                rec.tick()
                for op in OPS + ROPS:
                    same('%s.%s(%d, %d)' % (n, op, v2, w2), lambda x: getattr(mk(x), op)(x['bitstring'].bitstring(v2, w2)))
                    same('%s.%s(%d)' % (n, op, v2), lambda x: getattr(mk(x), op)(v2))
                for op in IOPS:
                    def inplace(x, other):
                        b = mk(x)
                        r = getattr(b, op)(other)
                        return [r, b]
                    same('%s.%s(%d, %d)' % (n, op, v2, w2), lambda x: inplace(x, x['bitstring'].bitstring(v2, w2)))
                    same('%s.%s(%d)' % (n, op, v2), lambda x: inplace(x, v2))
                if w2 and w2 < 6:
                    s = bin(v2)[2:].zfill(w2)
                    for op in OPS:
                        same('%s.%s(%r)' % (n, op, s), lambda x: getattr(mk(x), op)(s))
                    for op in OPS[:8] + ['__eq__']:
                        same('%s %s sequence' % (n, op), lambda x: getattr(mk(x), op)([int(c) for c in s]))
            rec.states_n(1)
        rec.outcome('bit strings')
    elif kind == 'functions':
        E = [0, 1, 5, 0x7fffffff, 0x80000000, 0xffffffff, 0x12345678]
        for a in E:
            for b in E:
                rec.tick()
                for c in '01':
                    same('AddWithCarry', lambda x: x['helpers'].AddWithCarry(x['bitstring'].bitstring(a), x['bitstring'].bitstring(b),
                                                                            x['bitstring'].bitstring(c)))
            for n in range(0, 36):
                for f in ('LSL', 'LSR', 'ASR', 'ROR', 'LSL_C', 'LSR_C', 'ASR_C', 'ROR_C', 'Align'):
                    same('%s(%#x, %d)' % (f, a, n), lambda x: getattr(x['helpers'], f)(x['bitstring'].bitstring(a), n))
            for f in ('hamming_weight', 'le16_to_bytes', 'le32_to_bytes', 'invert32', 'u32BEToFloat32BE'):
                if f == 'u32BEToFloat32BE' and a == 0xffffffff:
                    continue
                same('%s(%#x)' % (f, a), lambda x: getattr(x['utilities'], f)(a))
            for hi in range(32):
                for lo in range(hi + 1):
                    same('bfx(%#x, %d, %d)' % (a, hi, lo), lambda x: x['utilities'].bfx(a, hi, lo))
                    same('bfi(%#x, 0x55aa, %d, %d)' % (a, hi, lo), lambda x: x['utilities'].bfi(a, 0x55aa, hi, lo))
        for n in range(0, 9):
            by = [(17 * i + 3) & 255 for i in range(n)]
            for f in ('byteListToU32leList', 'byteListToU16leList', 'u32leListToByteList', 'u16leListToByteList', 'bytes_to_le16', 'bytes_to_le32'):
                same('%s(%r)' % (f, by), lambda x: getattr(x['utilities'], f)(by))
                same('%s(%r)' % (f, bytearray(by)), lambda x: getattr(x['utilities'], f)(bytearray(by)))
        for f in (0.0, -0.0, 1.5, -3.25e10, float('inf')):
            same('float %r' % f, lambda x: x['utilities'].float32beToU32be(f))
        for v in range(4096):
            same('ThumbExpandImm(%#x)' % v, lambda x: x['helpers'].ThumbExpandImm(x['bitstring'].bitstring(v, 12)))
        for t in range(4):
            for i in range(32):
                same('DecodeImmShift(%d, %d)' % (t, i), lambda x: x['helpers'].DecodeImmShift(x['bitstring'].bitstring(t, 2),
                                                                                           x['bitstring'].bitstring(i, 5)))
        # linear disassembly, including its ends
        h = [0x1c40, 0xfb00, 0xf001, 0xde00, 0xb600, 0xffff, 0xf000, 0xd000]
        for n in range(0, 4):
            for seq in itertools.product(h, repeat=n):
                for tail in (b'', b'\x40'):
                    rec.tick()
                    code = b''.join(bytes(word_bytes(w)) for w in seq) + tail

                    def dis(x):
                        out = []
                        try:
                            for i in x['disasm'].Disassembler().disasm(bytearray(code), 0x100):
                                out.append((i.mnemonic, i.address, i.size))
                        except Exception as e:
                            out.append(type(e).__name__)
                        return out
                    same('disassembly of %r' % code, dis)
        same('version', lambda x: x['__init__'].__version__)
        for m in MODULES:
            same('public names of ' + m, lambda x: sorted(k for k in vars(x[m]) if not k.startswith('_') and k != 'absolute_import'
                                                          and (callable(getattr(x[m], k)) and
                                                               getattr(getattr(x[m], k), '__module__', '').startswith('cmdis'))))
        rec.states_n(rec.transitions)
        rec.outcome('functions')
    elif kind == 'machine':
        names = sorted(src['registers'].CORE_REGISTER)
        same('register table', lambda x: sorted(x['registers'].CORE_REGISTER.items()))
        same('register names', lambda x: sorted(x['registers'].CORE_REGISTER_NAMES.items()))

        def machine(x):
            cpu = x['model'].CpuModel()
            cpu.delegate = x['mock_cpu'].MockCpuModelDelegate()
            cpu.delegate.add_memory(0x100, 16)
            return cpu
        for a in names:
            for b in names:
                rec.tick()

                def f(x):
                    cpu = machine(x)
                    cpu.write_register(a, 0xfedcba97)
                    cpu.write_register(b.upper(), x['bitstring'].bitstring(2, 8))
                    return [cpu.read_register(n) for n in names] + [cpu.is_privileged, cpu.ipsr, cpu.apsr.n, cpu.apsr.c, repr(cpu).split(' ', 1)[1]]
                same('%s then %s written' % (a, b), f)
        for a in range(0xfc, 0x114):
            for n in (8, 16, 32):
                for v in (0, 0x12345678, -1):
                    def g(x):
                        cpu = machine(x)
                        cpu.write_memory(a, v, n)
                        return [cpu.read_memory(a, n), cpu.read_memory_block(0x100, 16), cpu.read_memory_block(a, 3)]
                    same('%d bits written at %#x' % (n, a), g)
        def shown(f):
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                f()
            # 2to3 turns d.keys() into list(d.keys()): the lists of names compare as lists
            return re.sub(r'@0x[0-9a-f]+', '', re.sub(r'dict_keys\((\[.*?\])\)', r'\1', out.getvalue()))
        same('dump of a processor', lambda x: shown(machine(x).dump))
        same('dump of the decoders', lambda x: shown(x['disasm'].decoder.dump))
        for i in range(-3, 40):
            same('r[%d]' % i, lambda x: machine(x).r[i])
            same('s[%d]' % i, lambda x: machine(x).s[i])
        rec.states_n(rec.transitions)
        rec.outcome('machine')
    else:
        a = sorted(f for f in os.listdir(os.path.join(rec.stage.src, 'cmdis')) if f.endswith('.py'))
        b = sorted(f for f in os.listdir(os.path.join(rec.stage.built(), 'cmdis')) if f.endswith('.py'))
        if a != b:
            fail('the built package has modules %r, the source %r' % (b, a), what='modules')
        env = dict(os.environ, PYTHONPATH=rec.stage.built(), PYTHONDONTWRITEBYTECODE='1', HOME=rec.stage.dir)
        binary = os.path.join(rec.stage.dir, 'program.bin')
        with open(binary, 'wb') as f:
            f.write(b'\x00\x80\x00\x20\x09\x00\x00\x00\x05\x20\x40\x1c')
        for how in (['-m', 'cmdis'], ['-c', 'import sys; from cmdis.__main__ import main; sys.argv[0] = "cmdis"; main()']):
            for args, inp, want in (([binary], 'step\ns\nr0\nexit\nr1\n', ['r0', '=', '0x00000006', '(6)']),
                                    ([], 'wreg r3 0x10\n$cpu.r[3].unsigned+1\n', ['0x00000011', '(17)']), ([binary, '-d', 'info'], 'pc;quit\n', ['pc', '=', '0x00000008', '(8)'])):
                rec.tick()
                p = subprocess.run([core.PY, '-W', 'ignore'] + how + args, input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   env=env, cwd=rec.stage.dir, timeout=120)
                lines = [l.replace('>>> ', '').split() for l in p.stdout.decode().split('\n')]
                rec.transitions += 1
                if p.returncode != 0 or want not in lines:
                    fail('cmdis %s with input %r: exit %d, output %r, errors %r' % (
                        ' '.join(args[1:]), inp, p.returncode, p.stdout, p.stderr[-500:]), input=inp)
                rec.states_n(1)
        rec.outcome('program')
    rec.traces = rec.transitions
    rec.sample('%r' % (shard[:1] + ((enc(shard[1][0]),) if kind in ('16', '32') else ()),))
