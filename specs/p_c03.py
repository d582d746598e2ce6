"""C03: the value of a numeric literal (Assembler._internal_parse_integer)."""
import z3
from pyvc import core, interp, vals, models, strs
from pyvc.driver import Unit
from pyvc.vals import SInt, SBool, STok, SObj, is_sym, mk_bool, lift_int, lift_bool, tok_info
from pyvc.models import OptInt
from necroassembler.assembler import Assembler
from . import numlit
from .isa import ASM
from .p_c02 import cpu_classes, Synthetic

LEVEL = 'proof'
ASSUMPTIONS = ["int(text, base), str.isdigit, str.startswith/endswith and slicing have Python's meaning",
               'texts are Python strings of any length and content']


class Reject(Exception):
    pass


def literal(t, cfg):
    """the property, on an unknown text"""
    if not (t.length() >= 1):
        raise Reject()
    if t.length() == 3:
        if t[0] == "'" and t[2] == "'":
            return models.m_ord(t[1:2]), False
    for base, pres in ((16, cfg.hex_prefixes), (2, cfg.bin_prefixes), (8, cfg.oct_prefixes), (10, cfg.dec_prefixes)):
        for p in pres:
            if t.startswith(p):
                try:
                    return models.m_int(t[len(p):], base), base == 10
                except ValueError:
                    raise Reject()
    for base, sufs in ((16, cfg.hex_suffixes), (2, cfg.bin_suffixes), (8, cfg.oct_suffixes), (10, cfg.dec_suffixes)):
        for s in sufs:
            if t.endswith(s):
                body = t[:-len(s)]
                if body.isdigit():
                    try:
                        return models.m_int(body, base), base == 10
                    except ValueError:
                        raise Reject()
    try:
        return models.m_int(t), True
    except ValueError:
        return None


def literal_unit(cls, mk):
    def body(c):
        host = cls()
        t = mk(c)
        asm = SObj(cls, {}, host=host)
        try:
            got = interp.icall(Assembler._internal_parse_integer, (asm, t), {})
        except Exception as e:
            got = e
        try:
            want = literal(t, host)
        except Reject as e:
            want = e

        def info(m):
            return dict(text=strs.concretize(t, m) if isinstance(t, strs.SStr) else str(t), implementation=repr(got), specification=repr(want))
        nm = '%s.literal' % cls.__name__
        if isinstance(want, Exception) or isinstance(got, Exception):
            if isinstance(want, Exception) and isinstance(got, Exception):
                c.prove(nm + '/reject', True)
            else:
                c.fail(nm + '/accepts-iff-spec', info)
            return
        if not (isinstance(got, tuple) and len(got) == 2):
            c.fail(nm + '/result', info)
            return
        v, dec = got
        if want is None or v is None:
            if want is None and v is None:
                c.prove(nm + '/not-a-number', True)
            else:
                c.fail(nm + '/number-iff-spec', info)
            return
        c.prove(nm + '/value', z3.And(lift_int(v) == lift_int(want[0]), lift_bool(dec) == lift_bool(want[1])), info)
    return body


def units(tier, dep=False):
    out = []
    done = set()
    for cls in cpu_classes() + [Synthetic]:
        if cls._internal_parse_integer is not Assembler._internal_parse_integer:
            pass
        h = cls()
        key = tuple(getattr(h, a + b) for a in ('hex_', 'bin_', 'oct_', 'dec_') for b in ('prefixes', 'suffixes'))
        if key in done:
            continue
        done.add(key)
        out.append(Unit('C03.literal.%s' % cls.__name__, literal_unit(cls, lambda c: STok(tok_info('token'))),
                        [ASM + '_internal_parse_integer']))
    if not dep:
        from . import p_c04
        out += p_c04.split_units(tier)
        for n in range(0, 5):
            out.append(Unit('C03.literal.Synthetic.%d-characters' % n, literal_unit(Synthetic, lambda c, n=n: strs_text(n)),
                            [ASM + '_internal_parse_integer'], bounded='texts of exactly %d characters' % n))
    return out


class _T(strs.SStr):
    pass


def strs_text(n):
    r = strs.text('t', n)
    return strs.SStr([]) if r == '' and isinstance(r, str) else r


def ref(text, cfg):
    try:
        r = numlit.literal(text, cfg)
    except numlit.Bad:
        return 'rejected'
    return (None, False) if r is None else r


def real(a, text):
    try:
        return a._internal_parse_integer(text)
    except Exception:
        return 'rejected'


ALPHA = "0123456789abfFhHoOdDxX$%@!'\"#_+- &QqlzG"


def ref_number(a, t):
    try:
        r = numlit.number(t, a, {})
        return 'not a number' if r is None else numlit.fit(r[0], r[1], 64, False)
    except (numlit.Bad, numlit.Unknown):
        return 'rejected'


def real_number(a, t):
    try:
        r = a.parse_integer(t, 64, False)
        return 'not a number' if r is None else r
    except Exception:
        return 'rejected'


def concrete(conc, tier, rng, wits, deadline):
    hosts = [c() for c in cpu_classes()] + [Synthetic()]
    for a in hosts:
        cn = type(a).__name__
        ts = set()
        for x in ['$', '0x', '%', '@', '!', '&', '0b', '0o', 'Q', '', '&H', '#']:
            for y in ['', '0', '1', '10', '17', '255', 'ff', 'FF', '8', '9', 'g', 'zz', '-1', '+1', '1_0', ' 1', '2', '0x10', '0b1']:
                for z in ['', 'h', 'H', 'b', 'B', 'o', 'O', 'd', 'D', 'q']:
                    ts.add(x + y + z)
        for x in sorted({p for q in ('hex_', 'bin_', 'oct_', 'dec_') for p in getattr(a, q + 'prefixes')}):
            for y in sorted({p for q in ('hex_', 'bin_', 'oct_', 'dec_') for p in getattr(a, q + 'prefixes') + getattr(a, q + 'suffixes')}):
                ts |= {x + y + '1', x + '1' + y, x + y + x + '10', y + x + '7', '1' + x + y, '10' + x + x, x + '1_1', x + '_1', x + '1_', x + ' 1'}
        for ch in map(chr, range(32, 127)):
            ts |= {"'%s'" % ch, "'%s" % ch, '"%s"' % ch}
        ts |= {"'ab'", "'a'b", "''", "'", 'label', 'LABEL', '_x', 'a.b', '٣', '१h'}
        for _ in range(300 if tier == 'quick' else 6000):
            ts.add(''.join(rng.choice(ALPHA) for _ in range(rng.choice((1, 2, 2, 3, 3, 4, 5, 8)))))
        for t in sorted(ts):
            conc.case(dict(cpu=cn, text=t), ref(t, a), real(a, t), key='%s %r' % (cn, t))
            conc.case(dict(cpu=cn, operand=t), ref_number(a, t), real_number(a, t), key='%s operand %r' % (cn, t))
