"""Bit strings are values: no operation changes anything but its own target.

Explicit-state exploration.  A state is a tuple of variables, each a (width, value)
pair; the transitions are assignments `t = f(...)` and in-place updates of one
variable.  Every transition is executed on real bit string objects and the whole
resulting state, including the variables that were not assigned and the module's
bit constants, is compared with the model's.
"""
import itertools
from .. import core, spaces
from ..ref import bits as B

ID = 'C19'
BOUNDS = {
    'quick': 'all states of three variables of width 0..2 and of two variables of width 0..4 or of 31..130 bits, every transition out of '
             'each; and all transition sequences of length 3 from two initial states of two variables (length 2 from three of 33..129 bits), without merging states',
    'thorough': 'as quick with three variables of width 0..3, and all sequences of length 3 from 10 initial states and of '
                'length 4 over the in-place updates, copies and constant producing operations',
}
ASSUMPTIONS = ['two variables never name the same object (what an in-place update of a shared object does to its other '
               'names is unspecified)',
               'results wider than 16 bits are compared but not explored further']

OPS = ['+', '-', '*', '//', '&', '|', '^', '%']
SIGNED_LIMIT = 16


def model_bin(op, a, b):
    if op == '//' and b[1] == 0:
        return None
    return B.binop(op, B.V(*a), B.V(*b)).key()


def apply_py(op, x, y):
    if op == '+':
        return x + y
    if op == '-':
        return x - y
    if op == '*':
        return x * y
    if op == '//':
        return x // y
    if op == '&':
        return x & y
    if op == '|':
        return x | y
    if op == '^':
        return x ^ y
    return x % y


def apply_inplace(op, x, y):
    if op == '+':
        x += y
    elif op == '-':
        x -= y
    elif op == '*':
        x *= y
    elif op == '//':
        x //= y
    elif op == '&':
        x &= y
    elif op == '|':
        x |= y
    elif op == '^':
        x ^= y
    else:
        x %= y
    return x


def rev(w, v):
    return B.from_lsb(B.bits_lsb(w, v)[::-1]).key()


def sl(a, b, st=None):
    def f(w, v):
        return B.from_lsb(B.bits_lsb(w, v)[a:b:st]).key()
    return f


def setitem(i, k):
    def f(w, v):
        if not -w <= i < w:
            return None
        bl = B.bits_lsb(w, v)
        bl[i] = k
        return B.from_lsb(bl).key()
    return f


def setslice(a, b):
    def f(t, y):
        bl = B.bits_lsb(*t)
        lo, hi, _ = slice(a, b).indices(t[0])
        if hi < lo:
            return None
        bl[lo:hi] = [y[1] >> i & 1 for i in range(hi - lo)]
        return B.from_lsb(bl).key()
    return f


def sext(d):
    return lambda w, v: B.V(w + d, v | (-1 << w if v >> (w - 1) else 0)).key() if w else None


def put(a, b):
    def f(x, y):
        x[a:b] = y
        return x
    return f


def seti(i, k):
    def f(x):
        x[i] = k
        return x
    return f


def attr(name, fn):
    def f(x):
        setattr(x, name, fn(x))
        return x
    return f


def unary(bs, b0, b1):
    """name, model, implementation of operations producing a new bit string from one"""
    return [
        ('bitstring({0})', lambda w, v: (w, v), lambda x: bs(x)),
        ('bitstring({0}, len + 1)', lambda w, v: (w + 1, v), lambda x: bs(x, x.width + 1)),
        ('bitstring({0}, 1)', lambda w, v: B.V(1, v).key(), lambda x: bs(x, 1)),
        ('~{0}', lambda w, v: B.V(w, ~v).key(), lambda x: ~x),
        ('{0}.inverted', lambda w, v: B.V(w, ~v).key(), lambda x: x.inverted),
        ('{0}.reversed', rev, lambda x: x.reversed),
        ('{0}[:]', sl(None, None), lambda x: x[:]),
        ('{0}[1:]', sl(1, None), lambda x: x[1:]),
        ('{0}[0:1]', sl(0, 1), lambda x: x[0:1]),
        ('{0}[::-1]', sl(None, None, -1), lambda x: x[::-1]),
        ('{0}[0]', lambda w, v: (1, v & 1) if w else None, lambda x: x[0]),
        ('{0}[-1]', lambda w, v: (1, v >> (w - 1)) if w else None, lambda x: x[-1]),
        ('{0}.is_zero_bit()', lambda w, v: (1, int(v == 0)), lambda x: x.is_zero_bit()),
        ('{0}.is_ones_bit()', lambda w, v: (1, int(v == (1 << w) - 1)), lambda x: x.is_ones_bit()),
        ('{0}.zero_extend(len)', lambda w, v: (w, v), lambda x: x.zero_extend(x.width)),
        ('{0}.zero_extend(len + 1)', lambda w, v: (w + 1, v), lambda x: x.zero_extend(x.width + 1)),
        ('{0}.sign_extend(len)', lambda w, v: (w, v), lambda x: x.sign_extend(x.width)),
        ('{0}.sign_extend(len + 1)', sext(1), lambda x: x.sign_extend(x.width + 1)),
        ('{0} << 1', lambda w, v: B.V(w, v << 1).key(), lambda x: x << 1),
        ('{0} << 0', lambda w, v: (w, v), lambda x: x << 0),
        ('{0} >> 1', lambda w, v: (w, v >> 1), lambda x: x >> 1),
        ('{0} >> 0', lambda w, v: (w, v), lambda x: x >> 0),
        ('{0} + 0', lambda w, v: (w, v), lambda x: x + 0),
        ('{0} * 1', lambda w, v: (w, v), lambda x: x * 1),
        ('{0} - "1"', lambda w, v: B.V(w, v - 1).key(), lambda x: x - '1'),
        ('{0} | 0', lambda w, v: (w, v), lambda x: x | 0),
        ('{0} & 3', lambda w, v: (w, v & 3), lambda x: x & 3),
        ('{0} ^ "1"', lambda w, v: B.V(w, v ^ 1).key(), lambda x: x ^ '1'),
        ('{0} % 1', lambda w, v: (w + 1, v << 1 | 1), lambda x: x % 1),
        ('{0} % bit0', lambda w, v: (w + 1, v << 1), lambda x: x % b0),
        ('bit1 % {0}', lambda w, v: (w + 1, 1 << w | v), lambda x: b1 % x),
        ('bit1 + {0}', lambda w, v: B.V(1, 1 + v).key(), lambda x: b1 + x),
        ('5 + {0}', lambda w, v: B.V(32, 5 + v).key(), lambda x: 5 + x),
    ]


def mutators(bs, b0, b1):
    """name, model, implementation of in-place updates of one variable"""
    return [
        ('{0}.reverse()', rev, lambda x: (x.reverse(), x)[1]),
        ('{0}.invert()', lambda w, v: B.V(w, ~v).key(), lambda x: (x.invert(), x)[1]),
        ('{0} <- {0}.reverse()', rev, lambda x: x.reverse()),
        ('{0} <- {0}.invert()', lambda w, v: B.V(w, ~v).key(), lambda x: x.invert()),
        ('{0} += 1', lambda w, v: B.V(w, v + 1).key(), lambda x: apply_inplace('+', x, 1)),
        ('{0} -= "1"', lambda w, v: B.V(w, v - 1).key(), lambda x: apply_inplace('-', x, '1')),
        ('{0} %= 1', lambda w, v: (w + 1, v << 1 | 1), lambda x: apply_inplace('%', x, 1)),
        ('{0} %= bit0', lambda w, v: (w + 1, v << 1), lambda x: apply_inplace('%', x, b0)),
        ('{0} ^= 1', lambda w, v: B.V(w, v ^ 1).key(), lambda x: apply_inplace('^', x, 1)),
        ('{0} <<= 1', lambda w, v: B.V(w, v << 1).key(), lambda x: x.__ilshift__(1)),
        ('{0} >>= 1', lambda w, v: (w, v >> 1), lambda x: x.__irshift__(1)),
        ('{0}[0] = bit1', setitem(0, 1), seti(0, b1)),
        ('{0}[-1] = 0', setitem(-1, 0), seti(-1, 0)),
        ('{0}.value = 5', lambda w, v: B.V(w, 5).key(), attr('value', lambda x: 5)),
        ('{0}.width = len + 1', lambda w, v: (w + 1, v), attr('width', lambda x: x.width + 1)),
        ('{0}.width = len - 1', lambda w, v: B.V(w - 1, v).key() if w else None, attr('width', lambda x: x.width - 1)),
        ('{0}.set(bit1)', lambda w, v: (1, 1), lambda x: (x.set(b1), x)[1]),
    ]


def mutators2():
    return [
        ('{0}.set({1})', lambda t, y: y, lambda x, y: (x.set(y), x)[1]),
        ('{0}[:] = {1}', setslice(None, None), put(None, None)),
        ('{0}[1:] = {1}', lambda t, y: setslice(1, None)(t, y) if t[0] else None, put(1, None)),
    ]


def transitions(nvars, bs, b0, b1, small=False, merge=True):
    """list of (name, model(state) -> (target, (w, v)) or None, impl(vars) -> new target value)"""
    names = 'abc'[:nvars]
    out = []
    un = unary(bs, b0, b1)
    if small:
        keep = ('bitstring({0})', '{0}[:]', '{0}[0]', '{0}.is_zero_bit()', '{0}.zero_extend(len)',
                '{0}.sign_extend(len)', '{0} << 0', '{0}.reversed', '{0} | 0')
        un = [u for u in un if u[0] in keep]
    for t in range(nvars):
        for s in range(nvars):
            if not merge and s == t:
                continue
            for name, m, f in un:
                out.append(('%s = %s' % (names[t], name.format(names[s])), t,
                            lambda st, m=m, s=s: m(*st[s]), lambda vs, f=f, s=s: f(vs[s])))
        for name, m, f in mutators(bs, b0, b1):
            out.append((name.format(names[t]), t, lambda st, m=m, t=t: m(*st[t]), lambda vs, f=f, t=t: f(vs[t])))
        for s in range(nvars):
            for name, m, f in mutators2():
                out.append((name.format(names[t], names[s]), t, lambda st, m=m, t=t, s=s: m(st[t], st[s]),
                            lambda vs, f=f, t=t, s=s: f(vs[t], vs[s])))
            for op in OPS:
                if small and op in '*//&':
                    continue
                out.append(('%s %s= %s' % (names[t], op, names[s]), t,
                            lambda st, op=op, t=t, s=s: model_bin(op, st[t], st[s]),
                            lambda vs, op=op, t=t, s=s: apply_inplace(op, vs[t], vs[s])))
        if small:
            continue
        for s in range(nvars):
            for r in range(nvars):
                if not merge and (s == r or t not in (s, r)):
                    continue
                for op in OPS:
                    out.append(('%s = %s %s %s' % (names[t], names[s], op, names[r]), t,
                                lambda st, op=op, s=s, r=r: model_bin(op, st[s], st[r]),
                                lambda vs, op=op, s=s, r=r: apply_py(op, vs[s], vs[r])))
    return out


def wide_values():
    return [(w, v & (1 << w) - 1) for w in (31, 32, 33, 63, 64, 65, 100, 130) for v in (-2, 0x1234567890abcdef1234567890abcdef1, 1 << 32)]


def all_values(n):
    if n == 'wide':
        return wide_values() + [(0, 0), (1, 1), (3, 5)]
    return [(w, v) for w in range(n + 1) for v in range(1 << w)]


def shards(tier):
    n = 3 if tier == 'thorough' else 2
    out = [('states', 3, n, x) for x in all_values(n)]
    out += [('states', 2, 4, x) for x in all_values(4)]
    out += [('states', 2, 'wide', x) for x in wide_values()]
    inits = [((2, 2), (3, 5)), ((1, 1), (2, 0))]
    if tier == 'thorough':
        inits += [((0, 0), (1, 0)), ((4, 9), (4, 9)), ((3, 7), (1, 1)), ((8, 0x80), (4, 5)), ((2, 1), (0, 0)), ((1, 0), (1, 1)), ((5, 17), (2, 3)),
                  ((3, 0), (3, 6))]
    out += [('seq', 3, i, part, False) for i in inits for part in range(8)]
    if tier == 'thorough':
        out += [('seq', 4, i, part, True) for i in inits[:2] for part in range(8)]
    wide = [((64, 0x8000000100000001), (2, 1)), ((33, 0x1ffffffff), (65, 5)), ((129, 1 << 128 | 1 << 64 | 6), (1, 1))]
    out += [('seq', 3 if tier == 'thorough' else 2, i, part, False) for i in wide for part in range(8)]
    return out


def check_state(vs, st, name, fail, consts):
    for x, (w, v) in zip(vs, st):
        if x.width != w or x.value != v or x.mask != (1 << w) - 1:
            fail('after %s: %s is width %d value %#x mask %#x, should be width %d value %#x' % (
                name, 'abc'[vs.index_of(x)], x.width, x.value, x.mask, w, v), ops=name)
            return
    for x, v in zip(consts, (0, 1)):
        if x.width != 1 or x.value != v:
            fail('after %s: bit%d is width %d value %#x' % (name, v, x.width, x.value), ops=name)


class Vars(list):
    def index_of(self, x):
        for i, y in enumerate(self):
            if y is x:
                return i


def observe(x, w, v, fail, name):
    got = (x.width, x.unsigned, x.mask, x.binary_string, x.signed, bool(x), len(x), int(x), list(x), repr(x), x.bytes)
    want = (w, v, (1 << w) - 1, B.binary(w, v), B.signed(w, v), v != 0, w, v, B.bits_lsb(w, v),
            "%d'b%s" % (w, B.binary(w, v)), bytearray((v >> 8 * i) & 255 for i in range((w + 7) // 8)))
    if got != want:
        fail('after %s: a variable reads %r, should read %r' % (name, got, want), ops=name)


def run_shard(shard, rec):
    from cmdis import bitstring as bmod
    bs, b0, b1 = bmod.bitstring, bmod.bit0, bmod.bit1
    kind, n = shard[:2]

    def fail(msg, **case):
        rec.violate(msg, dict(case, kind='bitstring values'))
        # repair shared constants so that one failure does not hide the rest of the report
        if len(rec.violations) >= rec.MAX_VIOLATIONS:
            raise core.StopShard()

    if kind == 'states':
        _, nv, limit, first = shard
        ts = transitions(nv, bs, b0, b1)
        for rest in itertools.product(all_values(limit), repeat=nv - 1):
            rec.tick()
            st = (first,) + rest
            desc = None
            for name, t, model, impl in ts:
                want = model(st)
                if want is None:
                    continue
                vs = Vars(bs(v, w) for w, v in st)
                before = list(vs)
                full = 'a, b, c = %s; %s' % (', '.join("%d'b%s" % (w, B.binary(w, v)) for w, v in st), name)
                try:
                    r = impl(vs)
                except Exception as e:
                    fail('%s raised %r' % (full, e), ops=full)
                    continue
                if ' = ' in name and name[1] == ' ' and any(r is x for x in before + [b0, b1]):
                    fail('%s: the result is the same object as an operand' % full, ops=full)
                vs[t] = r
                new = list(st)
                new[t] = want
                check_state(vs, new, full, fail, (b0, b1))
                rec.transitions += 1
            rec.states_n(1)
        rec.outcome('%d variables' % nv)
        rec.sample('all transitions out of states starting with %r' % (first,))
    else:
        _, depth, init, part, small = shard
        ts = transitions(2, bs, b0, b1, small=small, merge=False)
        k = len(ts)
        for first in range(part, k, 8):
            for seq in itertools.product(range(k), repeat=depth - 1):
                rec.tick()
                seq = (first,) + seq
                st = list(init)
                # model first: skip sequences with an inapplicable step
                states = []
                ok = True
                for i in seq:
                    want = ts[i][2](st)
                    if want is None or want[0] > (SIGNED_LIMIT if init[0][0] < 16 else 3 * init[0][0]) and ts[i][0].find('5 +') < 0:
                        ok = False
                        break
                    st = list(st)
                    st[ts[i][1]] = want
                    states.append(st)
                if not ok:
                    rec.count('sequences with an inapplicable step')
                    continue
                vs = Vars(bs(v, w) for w, v in init)
                name = '; '.join(ts[i][0] for i in seq)
                try:
                    for j, i in enumerate(seq):
                        # fill anything that may be remembered about a value
                        for x in vs:
                            x.binary_string
                            x.signed
                            hash(x)
                        vs[ts[i][1]] = ts[i][3](vs)
                except Exception as e:
                    fail('%s raised %r' % (name, e), ops=name)
                    continue
                for x, (w, v) in zip(vs, st):
                    observe(x, w, v, fail, 'a, b = %r; %s' % (init, name))
                    if w and hash(x) != hash(bs(v, w)):
                        fail('after %s: hash differs from that of an equal bit string' % name, ops=name)
                if b0.width != 1 or b0.value or b1.width != 1 or b1.value != 1:
                    fail('after %s: bit0, bit1 are %r, %r' % (name, b0, b1), ops=name)
                rec.transitions += depth
                rec.traces += 1
                rec.states_n(1)
        rec.outcome('sequences of length %d' % depth)
        rec.sample('sequences of length %d from %r starting with %s' % (depth, init, ts[part][0]))
    if kind == 'states':
        rec.traces += rec.transitions
