"""What is shown is what is, and showing it changes nothing."""
import contextlib
import io
import itertools
import re
from .. import core, spaces
from ..machine import enc, impl, word_bytes
from ..ref import isa
from ..vocab import vocabulary
from .c22 import ALL, CORE, INDEX, Model

ID = 'C33'
NEEDS_BUILD = True
BOUNDS = {
    'quick': 'console: every history of 3 of 41 and of 4 of 20 commands (help, info, log levels, python expressions, register displays, errors and '
             'changes of registers and memory), all registers, memory and the log level compared after each; every command and '
             'alias listed by help; repr and dump of a processor after every history of 4 of 24 register changes; repr of '
             'every 16-bit and 40000 32-bit instructions before and after use; the dump of the instruction set and of every '
             'tree of up to 5 of 12 encodings and of 15 to 300 alike ones, and decoding before and after it',
    'thorough': 'as quick with histories of 4 of all 41 commands',
}
ASSUMPTIONS = ['how help lays out its lines and in what order a dump lists encodings is unspecified',
               'python expressions are those of one value, without comprehensions']
REGIONS = [(0x1000, 64)]
SHOW = ['help', '?', 'help step', 'info', 'i', 'map', 'log', 'log bogus', 'log Warning', 'log eRRor', 'log debug', 'LOG critical', 'reg', 'r1',
        '$cpu.r[0].unsigned', '$ cpu.r[1]', '$cpu.pc', '$None', '$1/0', '$nonsense', '$"a  b"', '$-5', '$2**33', '$cpu.read16(0x1008)',
        '$', '$1 +', '$cpu.apsr.n', '$(1,2)', '$True', '$cpu.read_register("bogus")', '$cmdis.__name__', 'unknown', '$cpu.sp.width']
CHANGE = ['wreg r0 5', 'wreg r1 0xfffffffe', 'ww 0x1008 0x12345678', 'wreg control 2', 'wreg sp 0x1010',
          '$cpu.write_register("r0", 0x80000000)', '$setattr(cpu.apsr, "n", 1)', '$cpu.write8(0x1009, 0xee)']
LEVEL = {'debug': 10, 'info': 20, 'warning': 30, 'error': 40, 'critical': 50}


def shards(tier):
    T = tier == 'thorough'
    every = SHOW + CHANGE
    out = [('console', c, every, 3) for c in spaces.rotate_chunks(every, 40)]
    sub = every if T else SHOW[::2] + CHANGE[:4]
    out += [('console', [c], sub, 4) for c in sub]
    out += [('help',)]
    out += [('cpu', i, 4) for i in range(24)]
    out += [('instr', c) for c in spaces.rotate_chunks(list(spaces.HW16), 8)]
    out += [('wide', c) for c in spaces.rotate_chunks(list(spaces.H1_32), 8)]
    out += [('manychildren', n) for n in (15, 16, 17, 33, 64, 100, 256, 300)]
    out += [('dump',)] + [('trees', i, 5) for i in range(12)]
    return out


def run_shard(shard, rec):
    def fail(msg, **case):
        rec.violate(msg, dict(case, kind='display'))
        if len(rec.violations) >= rec.MAX_VIOLATIONS:
            raise core.StopShard()
    from .. import console as C
    C.load(rec)         # everything is explored on the built package
    {'console': console, 'help': helps, 'cpu': processor, 'instr': instructions, 'wide': instructions, 'dump': dump,
     'trees': trees, 'manychildren': many_children}[shard[0]](shard, rec, fail)
    rec.count('operations', rec.transitions)


def bits(v, w):
    return "%d'b%s" % (w, format(v, '0%db' % w))


def expression(text, regs, mem):
    """(lines of words, error) that an expression shows; it may change the model."""
    r = regs.r

    def num(v):
        return [['0x%08x' % v, '(%d)' % v]]
    if text == 'cpu.r[0].unsigned':
        return num(r['r0'])
    if text == 'cpu.r[1]':
        return [[bits(r['r1'], 32)]]
    if text == 'cpu.pc':
        return [[bits(r['pc'], 32)]]
    if text == 'None':
        return []
    if text == '"a  b"':
        return [['a', 'b']]
    if text == '-5':
        return [['0x%08x' % -5, '(-5)']]
    if text == '2**33':
        return num(2 ** 33)
    if text == 'cpu.read16(0x1008)':
        return [[bits(int.from_bytes(mem.block(0x1008, 2), 'little'), 16)]]
    if text == 'cpu.apsr.n':
        return [[bits(r['xpsr'] >> 31, 1)]]
    if text == '(1,2)':
        return [['(1,', '2)']]
    if text == 'True':
        return [['True']]
    if text == 'cmdis.__name__':
        return [['cmdis']]
    if text == 'cpu.sp.width':
        return num(32)
    if text == 'cpu.write_register("r0", 0x80000000)':
        regs.write('r0', 0x80000000)
        return []
    if text == 'setattr(cpu.apsr, "n", 1)':
        regs.write('xpsr', r['xpsr'] | 1 << 31)
        return []
    if text == 'cpu.write8(0x1009, 0xee)':
        mem.write(0x1009, b'\xee')
        return []
    return None


def console(shard, rec, fail):
    from .. import console as C
    import logging
    m = C.load(rec)
    sim = C.Sim(m, REGIONS)
    root = logging.getLogger()
    _, firsts, alphabet, depth = shard
    for first in firsts:
        for rest in itertools.product(alphabet, repeat=depth - 1):
            rec.tick()
            sim.fresh()
            root.setLevel(30)
            level = 30
            regs, mem = Model(), C.Mem(REGIONS)
            seq = (first,) + rest
            for n, line in enumerate(seq):
                rec.transitions += 1
                path = ' | '.join(seq[:n + 1])
                try:
                    got = sim.do(line)
                except BaseException as e:
                    if isinstance(e, core.Hang):
                        raise
                    fail('%s: raised %r' % (path, e), commands=seq[:n + 1])
                    break
                w = line.split()
                cmd = w[0].lower()
                if cmd in ('help', '?'):
                    # "help COMMAND" may show nothing
                    if len(w) == 1 and not got:
                        fail('%s: shows no help' % path, commands=seq[:n + 1])
                elif cmd in ('info', 'i', 'map'):
                    if got:
                        fail('%s: prints %r' % (path, got), commands=seq[:n + 1])
                elif cmd == 'log':
                    lv = LEVEL.get(w[1].lower()) if len(w) > 1 else None
                    if lv is None:
                        if not C.is_error(got):
                            fail('%s: prints %r, should report an error' % (path, got), commands=seq[:n + 1])
                    else:
                        level = lv
                        if got:
                            fail('%s: prints %r' % (path, got), commands=seq[:n + 1])
                elif line.startswith('$'):
                    want = expression(line[1:].strip(), regs, mem)
                    if want is None:
                        if not got or got[0][:3] != ['Exception', 'while', 'executing']:
                            fail('%s: prints %r, should report an exception' % (path, got), commands=seq[:n + 1])
                        rec.outcome('exception')
                    else:
                        if got != want:
                            fail('%s: prints %r, should print %r' % (path, got, want), commands=seq[:n + 1])
                elif cmd == 'reg':
                    words = [x for l in got for x in l]
                    if sorted(zip(words[::2], words[1::2])) != C.dump_words(regs):
                        fail('%s: prints %r' % (path, got), commands=seq[:n + 1])
                elif cmd == 'unknown':
                    if not C.is_error(got):
                        fail('%s: prints %r, should report an error' % (path, got), commands=seq[:n + 1])
                else:
                    want = C.command(line, regs, mem)
                    if got != want:
                        fail('%s: prints %r, should print %r' % (path, got, want), commands=seq[:n + 1])
                rec.outcome(cmd[:12])
                diff = sim.differences(regs, mem)
                if root.level != level:
                    diff.append('the log level is %r, should be %r' % (root.level, level))
                if diff:
                    fail('after %s: %s' % (path, '; '.join(diff)), commands=seq[:n + 1])
                    break
            rec.states_n(1)
            rec.traces += 1
    root.setLevel(30)


def helps(shard, rec, fail):
    """Every name that help lists, in either case, is a command."""
    from .. import console as C
    m = C.load(rec)
    sim = C.Sim(m, REGIONS)
    names = set()
    for l in sim.do('help'):
        row = []
        for x in l:
            row.append(x.rstrip(','))
            if not x.endswith(','):
                break
        names |= set(row)
    for n in ('reg', 'wreg', 'reset', 'read8', 'read', 'r', 'rb', 'read16', 'r16', 'rh', 'read32', 'r32', 'rw', 'write8', 'write', 'w',
              'wb', 'write16', 'w16', 'wh', 'write32', 'w32', 'ww', 'step', 's', 'help', '?', 'disasm', 'd', 'log', 'exit', 'quit'):
        rec.transitions += 1
        rec.states_n(1)
        if n not in names:
            fail('help does not list %s' % n)
        for line in (n, n.upper(), ' %s ' % n.title()):
            sim.fresh()
            try:
                got = sim.do(line)
            except m.ToolExitException:
                if n not in ('exit', 'quit'):
                    fail('%r ends the session' % line)
                continue
            if n in ('exit', 'quit'):
                fail('%r does not end the session' % line)
            if any('unrecognized' in l for l in got):
                fail('%r is listed by help but unknown' % line)
        rec.traces += 1
    rec.outcome('help')


WRITES = [(n, v) for n in ('r0', 'r1', 'r7', 'r12', 'sp', 'lr', 'pc', 'xpsr') for v in (0x9abcdef0, 7)] + \
    [('control', 2), ('control', 0), ('msp', 0x4444), ('psp', 0x8888), ('r8', 0xffffffff), ('r14', 0x10), ('s0', 3), ('basepri', 4)]


def processor(shard, rec, fail):
    im = impl()
    _, first, depth = shard

    class Board(im.CpuModel):
        pass
    for k in range(depth):
        for rest in itertools.product(range(len(WRITES)), repeat=k):
            rec.tick()
            cpu = (im.CpuModel, Board)[(first + k) & 1]()
            cpu.delegate = im.Mock()
            regs = Model()
            seq = [WRITES[i] for i in (first,) + rest]
            for n, v in seq:
                cpu.write_register(n, v)
                regs.write(n, v)
            where = ', '.join('%s=%#x' % x for x in seq)
            r = regs.r
            for _ in (0, 1):
                rec.transitions += 2
                t = repr(cpu)
                want = 'pc=%x xpsr=%x rN=[%s]>' % (r['pc'], r['xpsr'], ' '.join('%x' % r[x] for x in CORE[:15]))
                if not (t.startswith('<%s@' % type(cpu).__name__) and t.split(' ', 1)[-1] == want):
                    fail('after %s repr is %r, should end in %r' % (where, t, want))
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    cpu.dump()
                pairs = sorted(re.findall(r'(\w+) *= *([0-9a-f]+)', out.getvalue()))
                if pairs != sorted((x, '%08x' % r[x]) for x in CORE):
                    fail('after %s dump shows %r' % (where, pairs))
                got = {x: cpu.delegate.read_register(INDEX[x]) for x in ALL}
                if got != r:
                    fail('after %s and a display: %s' % (where, ', '.join(x for x in ALL if got[x] != r[x])))
            rec.traces += 1
            rec.states_n(1)
    rec.outcome('processor')


def instructions(shard, rec, fail):
    im = impl()
    fmt = im.Formatter(None)
    cpu = im.CpuModel()
    cpu.delegate = im.Mock()
    h2s = (None,) if shard[0] == 'instr' else spaces.H2_SET[::61]
    for h1 in shard[1]:
        rec.tick()
        for h2 in h2s:
            ref = isa.decode(h1, h2 or 0)
            if ref.st is not isa.OK:
                continue
            i = im.decode(word_bytes(h1, h2), 0x1000)
            want = '%s %s>' % (ref.mn, '%04x' % h1 if h2 is None else '%08x' % (h2 << 16 | h1))
            text = fmt.format(i)
            for step in range(3):
                rec.transitions += 1
                t = repr(i)
                if not (t.startswith('<Instruction@0x') and ' '.join(t.split()[1:]) == want):
                    fail('repr of %s %s is %r, should end in %r' % (enc(h1, h2), ref.mn, t, want), word=enc(h1, h2))
                if fmt.format(i) != text:
                    fail('%s formats differently after repr' % enc(h1, h2), word=enc(h1, h2))
                if ref.k is not None:
                    i.execute(cpu)
            rec.states_n(1)
            rec.traces += 1
    rec.outcome('instructions')


def listing(tree):
    """(16-bit, 32-bit) lists of (mnemonic, mask, match) that a dump shows."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        tree.dump()
    t = out.getvalue()
    a, b = t.split('32-bit instructions:')
    return [[(x[0], int(x[1], 16), int(x[2], 16)) for x in re.findall(r'<Decoder@\S+ (\S*) ([0-9a-f]+)/([0-9a-f]+) ', p)]
            for p in (a, b)], t


def dump(shard, rec, fail):
    im = impl()
    import cmdis.decoder as d
    voc = vocabulary(4)

    def decode_all():
        out = []
        for h1, h2, ref in voc:
            try:
                i = im.decode(word_bytes(h1, h2), 0)
                out.append((i.mnemonic, i.size))
            except (d.UndefinedInstructionError, d.UnpredictableError) as e:
                out.append(type(e).__name__)
        return out
    before = decode_all()
    (narrow, wide), text = listing(d.DECODER_TREE)
    if decode_all() != before:
        fail('words decode differently after the decoders were dumped')
    if listing(d.DECODER_TREE)[1] != text:
        fail('a second dump differs')
    for h1, h2, ref in voc:
        rec.tick()
        rec.transitions += 1
        if ref.st is not isa.OK:
            continue
        w = h1 if h2 is None else h2 << 16 | h1
        if not any(w & mask == match and ref.mn.startswith(mn.split('.')[0]) for mn, mask, match in (narrow if h2 is None else wide)):
            fail('the dump lists no encoding for %s %s' % (enc(h1, h2), ref.mn), word=enc(h1, h2))
        rec.states_n(1)
        rec.traces += 1
    for part in (narrow, wide):
        if len(set(part)) != len(part):
            fail('the dump lists an encoding twice')
    rec.outcome('dump', len(narrow) + len(wide))


SPECS = [('1010 x(12)',), ('1010 1 x(11)',), ('1010 1010 x(8)',), ('0000 0000 0000 0001',), ('0000 x(12)',), ('x(16)',), ('y(2) 1 x(13)',),
         ('11110 x(11)', 'x(16)'), ('11110 1 x(10)', '1 x(15)'), ('11101 x(11)', '0 x(15)'), ('11111 x(11)', '1111 x(12)'),
         ('11110 x(11)', '1111 1111 1111 1111')]


def trees(shard, rec, fail):
    import cmdis.decoder as d
    _, first, depth = shard
    words = [0x0000, 0x0001, 0xa000, 0xa800, 0xaa55, 0x2000, 0xf000, 0xffff0000 | 0xf000, 0x8000f400, 0x1000e800, 0xf000f800]
    for k in range(depth):
        for rest in itertools.permutations([i for i in range(12) if i != first], k):
            rec.tick()
            t = d.DecoderTree()
            made = []
            for i in (first,) + rest:
                x = d.Decoder(lambda ins, **f: None, 'e%d' % i, d.Instruction, *SPECS[i])
                made.append(x)
                t.add_decoder(x)
            t.build()

            def decode_all():
                out = []
                for w in words:
                    try:
                        out.append(t.decode(bytearray(w >> 8 * j & 255 for j in range(4)), 0).mnemonic)
                    except d.UndefinedInstructionError:
                        out.append(None)
                return out
            before = decode_all()
            parts, text = listing(t)
            rec.transitions += 1
            got = [sorted(x[0] for x in p) for p in parts]
            want = [sorted('e%d' % i for i in (first,) + rest if (len(SPECS[i]) == 2) == wide) for wide in (False, True)]
            if got != want:
                fail('the dump of encodings %r lists %r' % ((first,) + rest, got))
            if any(text.count(repr(x)) != 1 for x in made):
                fail('the dump of encodings %r does not show each of them once' % ((first,) + rest,))
            if decode_all() != before:
                fail('words decode differently after encodings %r were dumped' % ((first,) + rest,))
            # encodings added but not built yet stay so
            later = [i for i in range(12) if i != first and i not in rest][:2]
            for i in later:
                t.add_decoder(d.Decoder(lambda ins, **f: None, 'e%d' % i, d.Instruction, *SPECS[i]))
            between = decode_all()
            listing(t)
            if decode_all() != between:
                fail('words decode differently after a dump between adding encodings %r to %r and building' % (later, (first,) + rest))
            rec.traces += 1
            rec.states_n(1)
    rec.outcome('trees')


def many_children(shard, rec, fail):
    """A dump lists every encoding of a tree with many of them side by side."""
    import cmdis.decoder as d
    n = shard[1]
    for wide in (False, True):
        for group in (1, 4, 16):
            rec.tick()
            t = d.DecoderTree()
            made = []
            for k in range(n):
                # `group` of them share the low bits
                low = format(k // group << 4 | (k % group if group > 1 else 0), '013b') if not wide else format(k * 7 % 512, '011b')
                specs = (('000' + low,) if not wide else ('11110' + low, 'x(%d) ' % (16 - len(format(k, 'b'))) + format(k, 'b')))
                x = d.Decoder(lambda ins, **f: None, 'e%d' % k, d.Instruction, *specs)
                made.append(x)
                t.add_decoder(x)
            t.build()
            for again in range(2):
                parts, text = listing(t)
                rec.transitions += 1
                got = [sorted(x[0] for x in p) for p in parts]
                names = sorted('e%d' % k for k in range(n))
                want = [[], names] if wide else [names, []]
                if got != want:
                    fail('the dump of %d %d-bit encodings lists %d and %d, without %r' % (
                        n, 32 if wide else 16, len(got[0]), len(got[1]), sorted(set(names) - set(got[wide]))[:3]))
                if any(text.count(repr(x)) != 1 for x in made):
                    fail('the dump of %d encodings does not show each of them once' % n)
            rec.traces += 1
            rec.states_n(1)
    rec.outcome('many children')
