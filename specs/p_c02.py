"""C02: range checking of integer operands (Assembler.parse_integer)."""
import z3
from pyvc import core, interp, vals, models
from pyvc.driver import Unit
from pyvc.vals import SInt, SBool, STok, SObj, is_sym, mk_int, mk_bool, lift_int, lift_bool, and_, or_, not_, fresh_int, pow2, tok_info
from pyvc.models import OptInt, OpaqueStr
from necroassembler.assembler import Assembler
from necroassembler import utils
from necroassembler.exceptions import NotInBitRange, NegativeSignNotAllowed, UnknownLabel
from . import numlit
from .isa import ASM

LEVEL = 'proof'
ASSUMPTIONS = ['field width is an integer >= 1',
               'the written number and its notation are given by the contracts of _get_math_formula, _internal_parse_integer '
               'and apply_math_formula (C03, C04)', 'pow2 fact 2^(n) = 2 * 2^(n-1)']


def contracts(c, isnone, dec, value, formula_raises):
    def formula(c, args, kw):
        return STok(tok_info('base')), STok(tok_info('pre')), STok(tok_info('post'))

    def internal(c, args, kw):
        return OptInt(isnone, SInt(z3.Int('literal'))), SBool(dec)

    def apply(c, args, kw):
        if c.branch(formula_raises):
            raise UnknownLabel('x')
        return SInt(value)
    return {ASM + '_get_math_formula': formula, ASM + '_internal_parse_integer': internal, ASM + 'apply_math_formula': apply}


def unit(bits):
    def body(c):
        isnone, dec, value, fr = z3.Bool('notnumber'), z3.Bool('decimal'), z3.Int('number'), z3.Bool('formula.unknown')
        signed = z3.Bool('signed')
        c.static['contracts'] = contracts(c, isnone, dec, value, fr)
        host = Assembler()
        asm = SObj(Assembler, {}, host=host)
        tok = STok(tok_info('token'))
        n = bits if bits is not None else fresh_int('bits', 1, None)
        try:
            r = interp.icall(Assembler.parse_integer, (asm, tok, n, SBool(signed)), {})
        except NotInBitRange:
            r = 'NotInBitRange'
        except NegativeSignNotAllowed:
            r = 'NegativeSignNotAllowed'
        except UnknownLabel:
            r = 'UnknownLabel'
        except Exception as e:
            r = type(e).__name__
        P, H = lift_int(pow2(n)), lift_int(pow2(n - 1))
        c.axiom(P == 2 * H, ('p2h', str(P)))
        nm = 'parse_integer'
        info = lambda m: dict(result=str(r), model=str(m)[:600])
        number = z3.And(z3.Not(isnone), z3.Not(fr))
        if r == 'UnknownLabel':
            c.prove(nm + '/unknown-label', z3.And(z3.Not(isnone), fr), info)
        elif r == 'NegativeSignNotAllowed':
            c.prove(nm + '/negative-literal', z3.And(number, z3.Not(dec), value < 0), info)
        elif r == 'NotInBitRange':
            c.prove(nm + '/out-of-range', z3.And(number, z3.Or(
                z3.And(z3.Not(dec), value >= P),
                z3.And(dec, signed, z3.Or(value < -H, value >= H)),
                z3.And(dec, z3.Not(signed), z3.Or(value < -H, value >= P)))), info)
        elif r is None:
            c.prove(nm + '/not-a-number', isnone, info)
        elif isinstance(r, OptInt) or not isinstance(r, (int, SInt)):
            c.fail(nm + '/result-kind', info)
        else:
            v = lift_int(r)
            c.prove(nm + '/accepted', z3.And(number, z3.If(dec, z3.If(
                signed, z3.And(value >= -H, value < H, v == value),
                z3.And(value >= -H, value < P, v == z3.If(value < 0, value + P, value))),
                z3.And(value >= 0, value < P, v == value))), info)
    return body


def units(tier, dep=False):
    F = [ASM + 'parse_integer', 'necroassembler.utils.in_bit_range', 'necroassembler.utils.in_bit_range_decimal']
    out = [Unit('C02.parse_integer', unit(None), F)]
    if not dep:
        for b in (1, 5, 8, 16, 32, 64):
            out.append(Unit('C02.parse_integer.%d-bits' % b, unit(b), F, bounded='field width %d (the unbounded unit is C02.parse_integer)' % b))
    return out


def cpu_classes():
    from necroassembler.cpu import mos6502, lr35902, z80, mips32, thumb, mc68000, intel8086, powerpc
    out = [Assembler]
    for m in (mos6502, lr35902, z80, mips32, thumb, mc68000, intel8086, powerpc):
        for k, v in sorted(vars(m).items()):
            if isinstance(v, type) and issubclass(v, Assembler) and v is not Assembler and v.__module__ == m.__name__:
                out.append(v)
    return out


class Synthetic(Assembler):
    """every notation at once"""
    hex_prefixes = ('$', '0x')
    hex_suffixes = ('h',)
    bin_prefixes = ('%',)
    bin_suffixes = ('b',)
    oct_prefixes = ('@',)
    oct_suffixes = ('o',)
    dec_prefixes = ('!',)
    dec_suffixes = ('d',)


def real(a, text, bits, signed):
    try:
        return a.parse_integer(text, bits, signed)
    except NotInBitRange:
        return 'out of range'
    except NegativeSignNotAllowed:
        return 'negative'
    except Exception:
        return 'rejected'


def ref(a, text, bits, signed):
    try:
        r = numlit.number(text, a, {})
    except (numlit.Bad, numlit.Unknown):
        return 'rejected'
    if r is None:
        return None
    v, dec = r
    if not dec and v < 0:
        return 'negative'
    try:
        return numlit.fit(v, dec, bits, signed)
    except numlit.Bad:
        return 'out of range'


def texts(a, v):
    m, s = abs(v), '-' if v < 0 else ''
    out = ['%d' % v]
    out += [p + s + '%x' % m for p in a.hex_prefixes] + [s + '%x' % m + p for p in a.hex_suffixes]
    out += [p + s + bin(m)[2:] for p in a.bin_prefixes] + [s + bin(m)[2:] + p for p in a.bin_suffixes]
    out += [p + s + '%o' % m for p in a.oct_prefixes] + [s + '%o' % m + p for p in a.oct_suffixes]
    out += [p + '%d' % v for p in a.dec_prefixes] + ['%d' % v + p for p in a.dec_suffixes]
    return out


def concrete(conc, tier, rng, wits, deadline):
    hosts = [c() for c in cpu_classes()] + [Synthetic()]
    widths = (1, 2, 3, 4, 5, 8, 12, 16, 20, 24, 26, 32, 64)
    for a in hosts:
        cn = type(a).__name__
        for b in widths:
            vs = set()
            for k in (b - 1, b):
                for d in (-1, 0, 1):
                    vs |= {(1 << k) + d, -(1 << k) + d}
            vs |= {0, 1, -1}
            if tier != 'quick':
                vs |= {rng.randrange(-(1 << b), 1 << (b + 1)) for _ in range(20)}
            for v in sorted(vs):
                for signed in (False, True):
                    for t in texts(a, v) + ["'%s'" % chr(v) if 32 < v < 127 else '7', '%d+1' % v, '%d-1' % v]:
                        conc.case(dict(cpu=cn, token=t, bits=b, signed=signed), ref(a, t, b, signed), real(a, t, b, signed),
                                  key='%s %s %d %s' % (cn, t, b, signed))
        # formulas over every notation, with negative, large and selected values
        for b in (4, 8, 16, 32, 64):
            for k in range(60 if tier == 'quick' else 600):
                v = rng.choice((0, 1, 2, 127, 128, 255, 256, (1 << b) - 1, 1 << b, 1 << (b - 1), 0x1234, rng.randrange(1 << b)))
                w = rng.choice((0, 1, 2, 3, 128, 255, 256, (1 << b) - 1, 1 << (b - 1), v + 1, v))
                t = rng.choice(('', '', '<', '>', '<<', '>>', '<>', '<<<')) + rng.choice(texts(a, v)) + rng.choice('+--*/&|') + rng.choice(texts(a, w))
                signed = bool(k & 1)
                want, got = ('rejected' if x == 'out of range' else x for x in (ref(a, t, b, signed), real(a, t, b, signed)))
                conc.case(dict(cpu=cn, token=t, bits=b, signed=signed), want, got, key='%s %s %d %s' % (cn, t, b, signed))
