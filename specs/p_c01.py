"""C01: byte and bit-field packing."""
import struct
import z3
from pyvc import core, interp, vals, models, loops
from pyvc.core import Unsupported
from pyvc.driver import Unit
from pyvc.vals import SInt, SBool, SBytes, SymBase, is_sym, mk_int, mk_bool, lift_int, and_, or_, not_, ite, fresh_int, pow2
from pyvc.models import SSeq, OptInt
from necroassembler import utils
from necroassembler.exceptions import InvalidBitRange

LEVEL = 'proof'
ASSUMPTIONS = ['arguments are integers or None; bit positions are non-negative integers',
               'pow2 facts 2^a * 2^b = 2^(a+b), 2^(a+1) = 2 * 2^a (instances used as lemmas)']
SIZES = {'pack_byte': (1, 'little'), 'pack_8s': (1, 'little'), 'pack_le16u': (2, 'little'), 'pack_le16s': (2, 'little'),
         'pack_be16u': (2, 'big'), 'pack_be16s': (2, 'big'), 'pack_le32u': (4, 'little'), 'pack_le32s': (4, 'little'),
         'pack_be32u': (4, 'big'), 'pack_be32s': (4, 'big'), 'pack_le64u': (8, 'little'), 'pack_le64s': (8, 'little')}


class Reject(Exception):
    pass


def fn(name):
    return getattr(utils, name)


def arg_seq(name='a'):
    n = fresh_int('nargs', 0, None)
    f = z3.Function('arg', z3.IntSort(), z3.IntSort())
    g = z3.Function('arg.none', z3.IntSort(), z3.BoolSort())
    return SSeq(n, lambda k: OptInt(g(k), SInt(f(k))), name), n, f, g


def spec_byte(v, width, order, i):
    k = i if order == 'little' else width - 1 - i
    return (v / z3.IntVal(1 << (8 * k))) % 256


def pack_unit(name):
    width, order = SIZES[name]

    def body(c):
        seq, n, f, g = arg_seq()
        try:
            r = interp.icall(fn(name), (models.StarSym(seq) if hasattr(models, 'StarSym') else interp.StarSym(seq),), {})
        except Exception as e:
            c.fail('%s/raises' % name, '%s: %s' % (type(e).__name__, e))
            return
        r = SBytes.of(r)
        if r is None:
            c.fail('%s/type' % name, 'not bytes')
            return
        if not c.prove('%s/length' % name, lift_int(r.length()) == n.t * width):
            return
        q = z3.Int('q')
        c.add(z3.And(q >= 0, q < n.t))
        for i in range(width):
            v = z3.If(g(q), z3.IntVal(0), f(q))
            c.prove('%s/byte%d' % (name, i), r.at(q * width + i) == spec_byte(v, width, order, i),
                    lambda m: str(m))
    return body


def field_spec(base, item):
    """OR value (mod 2^w) into bits start..end of base, or reject"""
    (end, start), value = item
    c = core.ctx()
    if bool(end < start):
        raise Reject()
    w = end - start + 1
    P, half, ps = pow2(w), pow2(w - 1), pow2(start)
    if is_sym(start) or is_sym(end):
        lemmas(c, value, w, start, end)
    if bool(or_(value < -half, value >= P)):
        raise Reject()
    field = ite(value < 0, value + P, value) if is_sym(value) else value % P
    return or_int(base, field * ps)


def or_int(a, b):
    return a | b


def lemmas(c, value, w, start, end):
    P, ps, pe, half = (lift_int(pow2(x)) for x in (w, start, end + 1, w - 1))
    c.axiom(P * ps == pe, ('l1', str(P), str(ps)))
    c.axiom(P == 2 * half, ('l2', str(P)))
    for v in (value.t, (value + SInt(P)).t):
        # 0 <= v < 2^w  =>  0 <= v*2^s < 2^(e+1)   (monotonicity of multiplication)
        c.axiom(z3.Implies(z3.And(v >= 0, v < P), z3.And(v * ps >= 0, v * ps < pe)), ('l3', str(v), str(P)))


def items_seq(single):
    n = fresh_int('nfields', 0, None)
    fe, fs, fv = (z3.Function('field.' + x, z3.IntSort(), z3.IntSort()) for x in ('end', 'start', 'value'))

    def elem(k):
        c = core.ctx()
        c.axiom(fs(k) >= 0, ('fs', str(k)))
        e, s, v = SInt(fe(k)), SInt(fs(k)), SInt(fv(k))
        if single:
            return (s, v)
        return ((e, s), v)

    def norm(k):
        c = core.ctx()
        c.axiom(fs(k) >= 0, ('fs', str(k)))
        s = SInt(fs(k))
        return ((s, s) if single else (SInt(fe(k)), s)), SInt(fv(k))
    return SSeq(n, elem, 'fields'), n, norm


def bits_unit(name, single=False, pack=None):
    """pack_bits and its wrappers: fold of field_spec over any number of fields"""
    def body(c):
        seq, n, norm = items_seq(single)
        base = SInt(z3.Int('base'))
        final = SInt(z3.Int('fold.final'))
        raised = z3.Bool('fold.rejects')

        def step(s, x):
            return field_spec(s, x)

        def equal(a, b):
            return lift_int(a) == lift_int(b) if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)) else False
        rule = loops.Fold('pack_bits', base, lambda: SInt(z3.Int('base.k')), step, Reject, InvalidBitRange, final, raised, equal)
        attach(c, rule)
        try:
            r = interp.icall(fn(name), (base, interp.StarSym(seq)), {})
        except InvalidBitRange:
            c.prove('%s/rejects-iff-a-field-does-not-fit' % name, raised)
            return
        except Exception as e:
            c.fail('%s/raises' % name, '%s: %s' % (type(e).__name__, e))
            return
        c.prove('%s/accepts-iff-every-field-fits' % name, z3.Not(raised))
        if pack is None:
            if not isinstance(r, (int, SInt)):
                c.fail('%s/result' % name, 'not an integer')
                return
            c.prove('%s/result' % name, lift_int(r) == final.t)
            return
        width, order = pack
        f = SBytes.of(r)
        f = f.fixed() if f is not None else None
        if f is None or len(f) != width:
            c.fail('%s/length' % name, 'wrong length')
            return
        for i in range(width):
            c.prove('%s/byte%d' % (name, i), lift_int(f[i]) == spec_byte(final.t, width, order, i))
    return body


def attach(c, rule):
    """loops over the symbolic field sequence are verified by this contract"""
    c.static['fold'] = rule


def fixed_unit(name, nf, single=False, pack=None):
    """bounded companion: exactly nf fields, the loop unrolled (independent of its shape)"""
    def body(c):
        base = SInt(z3.Int('base'))
        want = base
        items = []
        for k in range(nf):
            e, s, v = (SInt(z3.Int('%s%d' % (x, k))) for x in ('end', 'start', 'value'))
            c.add(s.t >= 0)
            items.append((s, v) if single else ((e, s), v))
        try:
            r = interp.icall(fn(name), (base,) + tuple(items), {})
        except InvalidBitRange:
            r = None
        except Exception as e:
            c.fail('%s/raises' % name, '%s: %s' % (type(e).__name__, e))
            return
        try:
            for k, it in enumerate(items):
                want = field_spec(want, ((it[0], it[0]), it[1]) if single else it)
        except Reject:
            want = None
        info = lambda m: str(m)
        if (r is None) != (want is None):
            c.fail('%s[%d]/accepts-iff-spec' % (name, nf), info)
        elif r is None:
            c.prove('%s[%d]/reject' % (name, nf), True)
        elif pack is None:
            c.prove('%s[%d]/result' % (name, nf), lift_int(r) == lift_int(want), info)
        else:
            width, order = pack
            f = SBytes.of(r)
            f = f.fixed() if f is not None else None
            if f is None or len(f) != width:
                c.fail('%s/length' % name, 'wrong length')
                return
            c.prove('%s[%d]/bytes' % (name, nf),
                    z3.And([lift_int(f[i]) == spec_byte(lift_int(want), width, order, i) for i in range(width)]), info)
    return body


def neg_fix_unit(c):
    v, n = SInt(z3.Int('v')), fresh_int('bits', 1, None)
    for b in (8, 16, 32, 64):
        c.solver.push()
        c.solver.pop()
    b = (8, 16, 32, 64)[c.choose(4)]
    c.add(z3.And(v.t >= 0, v.t < (1 << b)))
    r = interp.icall(utils.neg_fix, (v, b), {})
    c.prove('neg_fix/%d' % b, lift_int(r) == z3.If(v.t >= (1 << (b - 1)), v.t - (1 << b), v.t))


def in_range_unit(c):
    """in_bit_range(v, n) <=> 0 <= v < 2^n (n = 1..64); in_bit_range_decimal: the decimal range of C02/C05"""
    v = SInt(z3.Int('v'))
    b = c.choose(64) + 1
    r = interp.icall(utils.in_bit_range, (v, b), {})
    c.prove('in_bit_range/%d' % b, vals.lift_bool(r) == z3.And(v.t >= 0, v.t < (1 << b)))


def in_range_dec_unit(c):
    v = SInt(z3.Int('v'))
    b = c.choose(64) + 1
    s = bool(c.choose(2))
    r = bool(interp.icall(utils.in_bit_range_decimal, (v, b, s), {}))
    want = z3.And(v.t >= -(1 << (b - 1)), v.t < (1 << (b - 1 if s else b)))
    c.prove('in_bit_range_decimal/%d/%s' % (b, s), want if r else z3.Not(want))


WRAP = {'pack_bits': (False, None), 'pack_bit': (True, None), 'pack_bits_le32u': (False, (4, 'little')),
        'pack_bits_le16u': (False, (2, 'little')), 'pack_bits_be16u': (False, (2, 'big'))}


def units(tier, dep=False):
    out = []
    U = 'necroassembler.utils.'
    for name in SIZES:
        if hasattr(utils, name):
            out.append(Unit('C01.' + name, pack_unit(name), [U + name, U + 'neg_fix'] if name.endswith('s') else [U + name]))
    for name, (single, pack) in WRAP.items():
        if hasattr(utils, name):
            out.append(Unit('C01.%s' % name, bits_unit(name, single, pack), [U + name, U + 'pack_bits', U + 'in_bit_range']))
            if not dep:
                for nf in (1, 2) if not pack else ():
                    out.append(Unit('C01.%s.%d-fields' % (name, nf), fixed_unit(name, nf, single, pack), [U + name],
                                    bounded='exactly %d fields (the unbounded unit is C01.%s)' % (nf, name), timeout_ms=4000))
    out.append(Unit('C01.in_bit_range', in_range_unit, [U + 'in_bit_range'], bounded='field widths 1..64'))
    return out


# ---------------------------------------------------------------------------
def ref_pack(name, args):
    width, order = SIZES[name]
    return b''.join(((0 if a is None else a) % (1 << (8 * width))).to_bytes(width, order) for a in args)


def ref_bits(base, items):
    for (e, s), v in items:
        w = e - s + 1
        if w < 1 or not -(1 << (w - 1)) <= v < (1 << w):
            return 'InvalidBitRange'
        base |= (v % (1 << w)) << s
    return base


def edge(rng, bits):
    k = rng.choice((0, 1, bits - 1, bits, bits + 1, 2 * bits))
    return rng.choice((1, -1)) * ((1 << k) + rng.choice((-2, -1, 0, 1, 2, rng.randrange(1 << bits))))


def concrete(conc, tier, rng, wits, deadline):
    N = 400 if tier == 'quick' else 6000
    for name in SIZES:
        if not hasattr(utils, name):
            continue
        w = SIZES[name][0]
        for k in range(N):
            args = [rng.choice((None, 0, 1, -1, edge(rng, 8 * w))) for _ in range(rng.choice((0, 1, 1, 2, 3, 5)))]
            try:
                got = fn(name)(*args).hex()
            except Exception as e:
                got = type(e).__name__
            conc.case(dict(call=name, args=args), ref_pack(name, args).hex(), got, key='%s%r' % (name, tuple(args)))
    for name, (single, pack) in WRAP.items():
        if not hasattr(utils, name):
            continue
        for k in range(N * 2):
            items = []
            for _ in range(rng.choice((0, 1, 1, 2, 3, 4))):
                s = rng.randrange(0, 40)
                e = s + rng.choice((-1, 0, 0, 1, 3, 4, 7, 15, 31)) if not single else s
                w = max(1, e - s + 1)
                v = rng.choice((0, 1, -1, (1 << w) - 1, 1 << w, -(1 << (w - 1)), -(1 << (w - 1)) - 1, rng.randrange(1 << w), -rng.randrange(1, 1 << w)))
                items.append(((e, s), v))
            base = rng.choice((0, 1, 0xffffffff, rng.randrange(1 << 32)))
            want = ref_bits(base, items)
            args = [(e, v) for (e, s), v in items] if single else items
            try:
                got = fn(name)(base, *args)
            except InvalidBitRange:
                got = 'InvalidBitRange'
            except Exception as e:
                got = type(e).__name__
            if pack and isinstance(want, int):
                want = (want % (1 << (8 * pack[0]))).to_bytes(*pack).hex()
                got = got.hex() if isinstance(got, bytes) else got
            conc.case(dict(call=name, base=base, fields=items), want, got, key='%s %r %r' % (name, base, items))
