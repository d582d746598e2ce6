"""C04: operand formulas."""
import itertools
import z3
from pyvc import core, interp, vals, models, strs
from pyvc.core import Unsupported
from pyvc.driver import Unit
from pyvc.interp import contains_
from pyvc.vals import SInt, SBool, STok, SObj, is_sym, mk_int, mk_bool, lift_int, lift_bool, tok_info, fresh_int
from pyvc.models import OptInt, OpaqueStr
from necroassembler.assembler import Assembler
from necroassembler.exceptions import UnknownLabel, AssemblerException
from . import numlit
from .isa import ASM
from .p_c02 import cpu_classes, Synthetic

LEVEL = 'proof'
OPS = numlit.OPS
ASSUMPTIONS = ['no entry of labels is named like a number (established by Label.assemble, unit C10.label)',
               'bitwise & and | of two unbounded integers are the same uninterpreted function in code and specification']


class Reject(Exception):
    pass


def isin(ch, s):
    return bool(contains_(s, ch))


def split(t):
    """declarative split of a text with symbolic characters (same as numlit.split)"""
    n = len(t)
    k = 0
    while k < n and isin(t[k], '<>'):
        k += 1
    pre, rest = t[:k], t[k:]
    m = n - k
    if m and isin(rest[0], OPS):
        return pre, rest, ''
    j = 0
    if m >= 3 and bool(rest[0] == "'") and bool(rest[2] == "'"):
        j = 3
    while j < m and not isin(rest[j], OPS):
        j += 1
    return pre, rest[:j], rest[j:]


def split_unit(n):
    def body(c):
        t = strs.text('t', n)
        asm = SObj(Assembler, {}, host=Assembler())
        got = interp.icall(Assembler._get_math_formula, (asm, t), {})
        want = split(t)
        want = (want[1], want[0], want[2])

        def info(m):
            return dict(text=strs.concretize(t, m), implementation=[strs.concretize(x, m) for x in got], specification=[strs.concretize(x, m) for x in want])
        c.prove('formula-split', z3.And([strs.eq_goal(a, b) for a, b in zip(got, want)] + [z3.BoolVal(len(got) == 3)]), info)
    return body


def split_units(tier):
    return [Unit('C04.split.%d-characters' % n, split_unit(n), [ASM + '_get_math_formula'],
                 bounded='operand texts of exactly %d characters (any characters)' % n) for n in range(0, 6 if tier == 'quick' else 8)]


# ---- evaluation -----------------------------------------------------------
def key_of(t):
    if isinstance(t, str):
        return 'lit:' + t
    return ','.join(chr(x) if isinstance(x, int) else x.name if isinstance(x, strs.OSeg) else str(x) for x in t.items)


def arg_facts(t):
    k = key_of(t)
    num, bad, lab = z3.Bool('arg(%s).number' % k), z3.Bool('arg(%s).malformed' % k), z3.Bool('arg(%s).label' % k)
    # no label is named like a number, well-formed or not (Label.assemble, C10.label)
    core.ctx().axiom(z3.Not(z3.And(lab, z3.Or(num, bad))), ('label names', k))
    return num, bad, z3.Int('arg(%s).value' % k), lab, z3.Int('arg(%s).address' % k)


def c_parse_integer(c, args, kw):
    self, t, bits, signed = args
    num, bad, v, lab, addr = arg_facts(t)
    if bits != 64 or signed is not False:
        raise Unsupported('formula argument parsed with an unexpected width')
    if c.branch(bad):
        raise ValueError('malformed')
    if c.branch(num):
        return SInt(v)
    return None


def c_label(c, args, kw):
    num, bad, v, lab, addr = arg_facts(args[1])
    if c.branch(lab):
        return SInt(addr)
    return None


def arg_value(t):
    num, bad, v, lab, addr = arg_facts(t)
    c = core.ctx()
    if c.branch(bad):
        raise Reject('malformed')
    if c.branch(num):
        return SInt(v)
    if c.branch(lab):
        return SInt(addr)
    raise Reject('unknown')


def select(pre, value):
    """pre: list of characters, left to right"""
    low, acc, any_ = 0, 0, False
    for ch in pre:
        if bool(ch == '>'):
            value = value >> 8
        else:
            acc = acc | (((value >> (8 * low)) & 0xFF) << (8 * low))
            low += 1
            any_ = True
    return acc if any_ else value


def apply_op(op, a, b):
    if bool(op == '+'):
        return a + b
    if bool(op == '-'):
        return a - b
    if bool(op == '*'):
        return a * b
    if bool(op == '/'):
        if bool(b == 0):
            raise Reject('division')
        return models.BUILTINS and vals.floordiv(a, b) if is_sym(a) or is_sym(b) else a // b
    if bool(op == '&'):
        return a & b
    return a | b


def evaluate_unit(npre, shape):
    """npre selectors (each < or >), then len(shape) operations with arguments of shape[i] characters"""
    def body(c):
        asm = SObj(Assembler, {}, host=Assembler())
        c.static['contracts'] = {ASM + 'parse_integer': c_parse_integer, ASM + 'get_label_absolute_address_by_name': c_label}
        value = SInt(z3.Int('base'))
        pre = []
        for i in range(npre):
            ch = strs.char('sel%d' % i)
            c.add(z3.Or(ch.items[0] == ord('<'), ch.items[0] == ord('>')))
            pre.append(ch)
        ops, args, post = [], [], ''
        for i, n in enumerate(shape):
            op = strs.char('op%d' % i)
            c.add(z3.Or([op.items[0] == ord(x) for x in OPS]))
            a = strs.text('arg%d' % i, n)
            for x in (a.items if isinstance(a, strs.SStr) else []):
                c.add(z3.And([x != ord(y) for y in OPS]))
            ops.append(op)
            args.append(a)
            post = post + op + a
        pret = ''
        for ch in pre:
            pret = pret + ch
        try:
            got = interp.icall(Assembler.apply_math_formula, (asm, pret, post, value), {})
        except Exception as e:
            got = e
        try:
            want = select(pre, value)
            for op, a in zip(ops, args):
                b = 1 if isinstance(a, str) and a == '' else arg_value(a)
                want = apply_op(op, want, b)
        except Reject as e:
            want = e

        def info(m):
            return dict(selectors=strs.concretize(pret, m), operations=strs.concretize(post, m), implementation=repr(got), specification=repr(want))
        if isinstance(got, Exception) or isinstance(want, Exception):
            if isinstance(got, Exception) and isinstance(want, Exception):
                ok = isinstance(got, UnknownLabel) if str(want) == 'unknown' else True
                c.prove('formula-value/reject', ok, info)
            else:
                c.fail('formula-value/accepts-iff-spec', info)
        elif not isinstance(got, (int, SInt)):
            c.fail('formula-value/kind', info)
        else:
            c.prove('formula-value', lift_int(got) == lift_int(want), info)
    return body


def label_unit(which):
    """address lookup by operand text: base name through labels, then the same selectors / operations"""
    def body(c):
        base, pre, post = STok(tok_info('base')), OpaqueStr('pre'), OpaqueStr('post')
        known, org, off = z3.Bool('label.known'), z3.Int('label.org'), z3.Int('label.base')
        seen = {}

        class Labels(models.SymBase):
            pytype = dict

            def sym_contains(self, k):
                if k is not base and not (isinstance(k, STok) and k.info is base.info):
                    raise Unsupported('labels looked up with another key')
                return SBool(known)

            def __getitem__(self, k):
                if not (isinstance(k, STok) and k.info is base.info):
                    raise Unsupported('labels looked up with another key')
                if not c.branch(known):
                    raise KeyError('label')
                return {'org': SInt(org), 'base': SInt(off), 'section': None}

            def get(self, k, d=None):
                return self[k] if c.branch(known) else d

        def formula(c, args, kw):
            return base, pre, post
        F = z3.Function('formula', z3.IntSort(), z3.IntSort())

        def apply(c, args, kw):
            a = dict(zip(('self', 'pre_formula', 'post_formula', 'value'), args), **kw)
            if a['pre_formula'] is not pre or a['post_formula'] is not post:
                raise Unsupported('formula parts exchanged')
            return SInt(F(lift_int(a['value'])))
        c.static['contracts'] = {ASM + '_get_math_formula': formula, ASM + 'apply_math_formula': apply}
        asm = SObj(Assembler, dict(labels=Labels()), host=Assembler())
        start = SInt(z3.Int('start'))
        name = STok(tok_info('operand'))
        if which == 'absolute':
            got = interp.icall(Assembler.get_label_absolute_address_by_name, (asm, name), {})
            want = F(org + off)
        else:
            got = interp.icall(Assembler.get_label_relative_address_by_name, (asm, name, start), {})
            want = F(org + off - start.t)
        if got is None:
            c.prove('label-%s/unknown' % which, z3.Not(known))
        else:
            c.prove('label-%s/value' % which, z3.And(known, lift_int(got) == want))
    return body


def units(tier, dep=False):
    out = [Unit('C04.label-%s' % w, label_unit(w), [ASM + 'get_label_%s_address_by_name' % w, ASM + 'get_label_%s_address' % w])
           for w in ('absolute', 'relative')]
    if dep:
        return out
    out += split_units(tier)
    shapes = [(n, ()) for n in range(0, 5)] + [(0, (a,)) for a in (0, 1, 2)] + [(0, (a, b)) for a in (0, 1) for b in (0, 1)] + \
        [(1, (1,)), (2, (0,)), (0, (1, 1, 1)), (1, (0, 1))]
    if tier != 'quick':
        shapes += [(5, ()), (2, (1, 1)), (0, (2, 2, 2)), (0, (1, 1, 1, 1))]
    for npre, sh in shapes:
        out.append(Unit('C04.evaluate.%d-selectors.%s' % (npre, 'x'.join(map(str, sh)) or 'none'), evaluate_unit(npre, sh),
                        [ASM + 'apply_math_formula'], budget=200,
                        bounded='%d selectors, operations with arguments of %r characters' % (npre, sh)))
    from . import p_c04u
    out += p_c04u.units(tier)
    return out


# ---------------------------------------------------------------------------
LABELS = {'lab': 0x1234, 'zero': 0, 'far': 0x89ABCDEF, 'l.x': 7, 'abc': 0x0FFF}


def host(cls):
    a = cls()
    for k, v in LABELS.items():
        a.labels[k] = {'base': v & 0xF, 'org': v - (v & 0xF), 'section': None}
    return a


def ref(a, t, start):
    try:
        r = numlit.number(t, a, LABELS)
    except (numlit.Bad, numlit.Unknown) as e:
        r = 'rejected'
    else:
        if r is not None:
            try:
                r = numlit.fit(r[0], r[1], 64, False)
            except numlit.Bad:
                r = 'rejected'
    out = [r]
    for st in (0, start):
        try:
            out.append(numlit.label_value(t, a, LABELS, st))
        except (numlit.Bad, numlit.Unknown) as e:
            out.append('rejected')
    return out


def real(a, t, start):
    out = []
    for f in (lambda: a.parse_integer(t, 64, False), lambda: a.get_label_absolute_address_by_name(t),
              lambda: a.get_label_relative_address_by_name(t, start)):
        try:
            out.append(f())
        except Exception:
            out.append('rejected')
    return out


def gen(rng, a):
    def term():
        k = rng.random()
        if k < 0.35:
            return rng.choice(sorted(LABELS))
        if k < 0.45:
            return rng.choice(("'+'", "'a'", "'<'", "'-'", "';'"))
        if k < 0.5:
            return rng.choice(('nolab', '', 'x', '?'))
        v = rng.choice((0, 1, 2, 3, 5, 255, 256, 0x1234, rng.randrange(1 << 20), rng.randrange(1 << rng.choice((24, 32, 56, 62)))))
        from .p_c02 import texts
        return rng.choice(texts(a, v))
    t = ''.join(rng.choice('<>') for _ in range(rng.choice((0, 0, 0, 0, 1, 1, 2, 3, 4, rng.randrange(5, 12))))) + term()
    for _ in range(rng.choice((0, 0, 1, 1, 2, 3, 4, rng.randrange(0, 12)))):
        t += rng.choice(OPS) + (term() if rng.random() < 0.85 else '')
    if rng.random() < 0.05:
        t = rng.choice('-+') + t
    if rng.random() < 0.03:
        i = rng.randrange(len(t) + 1)
        t = t[:i] + rng.choice('<>+-*/&|') + t[i:]
    return t


def concrete(conc, tier, rng, wits, deadline):
    for cls in cpu_classes() + [Synthetic]:
        a = host(cls)
        for k in range(1500 if tier == 'quick' else 20000):
            t = gen(rng, a)
            start = rng.choice((0, 4, 0x1000, 0x2000))
            if not t:
                continue
            conc.case(dict(cpu=cls.__name__, operand=t, relative_to=start), ref(a, t, start), real(a, t, start), key='%s %s @%d' % (cls.__name__, t, start))
