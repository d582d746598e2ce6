"""ARM Thumb (ARM7TDMI data sheet, chapter 5 'THUMB instruction set'): the nineteen instruction formats.

Offsets are written in bytes.  Numeric operands of branches are the distance from pc + 4; #immediates are constants,
except in  ldr rd, [pc, #label]  where the distance from (pc + 4) & ~2 to the label is meant."""
import z3
from pyvc import core, interp, loops, vals
from pyvc.driver import Unit
from pyvc.models import SSeq
from pyvc.vals import SInt, SBool, STok, SymTokens, SObj, and_, or_, not_, tok_info, fresh_int, lift_int, is_sym
from .isa import Reject, need, fitnum, low, le, up, oneof, lookup, branch

ALIGN = 2
LOW = {'R%d' % k: k for k in range(8)}
HIGH = dict({'R%d' % k: k - 8 for k in range(8, 16)}, FP=3, IP=4, SP=5, LR=6, PC=7)
PC, SP = ('PC', 'R15'), ('SP', 'R13')

ALU = dict(AND=0, EOR=1, LSL=2, LSR=3, ASR=4, ADC=5, SBC=6, ROR=7, TST=8, NEG=9, CMP=10, CMN=11, ORR=12, MUL=13, BIC=14, MVN=15)
SHIFT = dict(LSL=0, LSR=1, ASR=2)
IMM8 = dict(MOV=0, CMP=1, ADD=2, SUB=3)
HI = dict(ADD=0, CMP=1, MOV=2)
# loads and stores  rd, [rb, ro]
MEMREG = dict(STR=0x5000, STRH=0x5200, STRB=None, LDSB=0x5600, LDR=0x5800, LDRH=0x5A00, LDRB=0x5C00, LDSH=0x5E00)
# rd, [rb, #imm]: opcode, log2 of the unit
MEMIMM = dict(STR=(0x6000, 2), LDR=(0x6800, 2), LDRB=(0x7800, 0), LDRH=(0x8800, 1))
COND = dict(BEQ=0, BNE=1, BCS=2, BCC=3, BMI=4, BPL=5, BVS=6, BVC=7, BHI=8, BLS=9, BGE=10, BLT=11, BGT=12, BLE=13)

MNEMONICS = sorted(set(ALU) | set(IMM8) | set(MEMREG) | set(COND) | {'BX', 'BL', 'B', 'SWI', 'PUSH'})
CLASSES = {'l': ['r%d' % k for k in range(8)] + ['R3'], 'h': ['r%d' % k for k in range(8, 16)] + ['fp', 'IP', 'sp', 'lr', 'PC', 'r16'],
           '#': ['#0', '#1', '#2', '#3', '#4', '#7', '#8', '#31', '#32', '#124', '#127', '#128', '#255', '#256', '#0xff', '#0x1f', '#62', '#64', '#-1', '#-4', '#lab',
                 '#508', '#512', '#1020', '#1024', '#0x3fc', '#0x7fc', '#254', '#', '#0b101', '#fwd', '#zp'],
           'I': ['0', '2', '4', '1', '-2', '-4', '254', '256', '-256', '-258', '2046', '2048', '-2048', '-2050', '0xffe', '0x200000', '0x7ffffe', '4194302', '-4194304',
                 'lab', 'fwd', 'zp', 'nolab', '10', '255'],
           'L': ['r0', 'r1', 'R2', 'r7', 'r0-r3', 'R1-r5', 'r5-r2', 'r2-r2', 'lr', 'LR', 'r8', 'r6-r9', 'r0-r1-r2', 'pc', '-', 'q', 'r4-'],
           'P': ['pc', 'sp', 'R15', 'r13']}
VOCAB = sorted(set(sum(CLASSES.values(), []))) + ['[', ']', '{', '}', '']


def SHAPES(m):
    if m == 'PUSH':
        return [('{',) + ('L',) * k + e for k in range(4) for e in (('}',), ('lr', '}'), ('LR', '}'))]
    if m in MEMREG:
        return [('l', '[', a, b, ']') for a in 'llP' for b in 'l###']
    if m in COND or m in ('B', 'BL', 'SWI'):
        return ['I']
    if m == 'BX':
        return ['l', 'h']
    return ['ll', 'l#', 'll#', 'lll', 'lh', 'hl', 'hh', 'lP#', 'P#', 'l#']


def half(op, *fields):
    v = op
    for x, shift in fields:
        v = v | x << shift
    return le(v, 2)


def reg(t, table):
    r = lookup(t, table)
    if r is None:
        raise Reject('register')
    return r


def is_imm(t):
    return bool(and_(t.startswith('#'), length(t) > 1))


def length(t):
    return t.length() if is_sym(t) else len(t)


def const(E, t, limit, unit=0):
    """a constant 0..limit counted in units; 8-bit fields also take the negative spelling of a byte"""
    need(is_imm(t))
    k, v, dec = E.value(t[1:])
    need(k == 'num')
    if limit == 255 and unit == 0:
        return fitnum(v, dec, 8)
    need(and_(v >= 0, v <= limit << unit))
    need((v & ((1 << unit) - 1)) == 0, 'alignment')
    return low(v, 8 + unit) >> unit


def distance(E, t, bits):
    """halfwords from pc + 4; `bits` is the width of the distance in bytes"""
    need(and_(length(t) > 0, not_(t.startswith('#'))))
    k, v, dec = E.value(t)
    if k == 'num':
        v = low(fitnum(v, dec, bits, True), bits)
        need((v & 1) == 0, 'alignment')
        return v >> 1
    return branch(E, t, bits, E.pc + 4, align=2, shift=1)


def literal(E, t):
    """ldr rd, [pc, #...]: words after (pc + 4) & ~2"""
    need(is_imm(t))
    t = t[1:]
    if E.kind(t) == 'num':
        return const_text(E, t, 255, 2)
    a = E.addr(t)
    base = E.pc + 4
    base = base - (base & 2)
    r = E.rel(t, base)
    need((a & 3) == 0, 'alignment')
    need(and_(r >= 0, r <= 1023))
    return low(r, 10) >> 2


def const_text(E, t, limit, unit):
    k, v, dec = E.value(t)
    need(and_(v >= 0, v <= limit << unit))
    need((v & ((1 << unit) - 1)) == 0, 'alignment')
    return low(v, 8 + unit) >> unit


def spec(E, m, T, n):
    if m == 'PUSH':
        need(n >= 4)
        need(and_(T[1] == '{', T[-1] == '}'))
        lr = bool(up(T[-2]) == 'LR')
        return half(0xB400, (1 if lr else 0, 8), (registers(T, 2, n - 2 if lr else n - 1), 0))
    if m == 'BX':
        need(n == 2)
        k = lookup(T[1], LOW)
        if k is not None:
            return half(0x4700, (k, 3))
        return half(0x4740, (reg(T[1], HIGH), 3))
    if m == 'SWI':
        need(n == 2)
        need(T[1].isdigit())
        v = T[1].to_int() if is_sym(T[1]) else decimal(T[1])
        need(v <= 255)
        return half(0xDF00, (low(v, 8), 0))
    if m == 'B':
        need(n == 2)
        return half(0xE000, (distance(E, T[1], 12), 0))
    if m in COND:
        need(n == 2)
        return half(0xD000 | COND[m] << 8, (distance(E, T[1], 9), 0))
    if m == 'BL':
        need(n == 2)
        d = distance(E, T[1], 23)
        return half(0xF000, (d >> 11, 0)) + half(0xF800, (d & 0x7FF, 0))
    if m in MEMREG:
        need(n == 6)
        need(and_(T[2] == '[', T[5] == ']'))
        rd = reg(T[1], LOW)
        b = lookup(T[3], LOW)
        if b is not None:
            o = lookup(T[4], LOW)
            if o is not None:
                need(MEMREG[m] is not None)
                return half(MEMREG[m], (o, 6), (b, 3), (rd, 0))
            need(m in MEMIMM)
            op, unit = MEMIMM[m]
            return half(op, (const(E, T[4], 31, unit), 6), (b, 3), (rd, 0))
        need(m == 'LDR')
        if bool(oneof(T[3], PC)):
            return half(0x4800, (rd, 8), (literal(E, T[4]), 0))
        need(oneof(T[3], SP))
        return half(0x9800, (rd, 8), (const(E, T[4], 255, 2), 0))
    if bool(n == 4):
        rd = reg(T[1], LOW)
        s = lookup(T[2], LOW)
        if s is not None:
            if m in SHIFT:
                return half(SHIFT[m] << 11, (const(E, T[3], 31), 6), (s, 3), (rd, 0))
            need(m in ('ADD', 'SUB'))
            op = 0x1800 if m == 'ADD' else 0x1A00
            r = lookup(T[3], LOW)
            if r is not None:
                return half(op, (r, 6), (s, 3), (rd, 0))
            return half(op | 0x400, (const(E, T[3], 7), 6), (s, 3), (rd, 0))
        need(m == 'ADD')
        if bool(oneof(T[2], PC)):
            return half(0xA000, (rd, 8), (const(E, T[3], 255, 2), 0))
        need(oneof(T[2], SP))
        return half(0xA800, (rd, 8), (const(E, T[3], 255, 2), 0))
    need(n == 3)
    x, y = T[1], T[2]
    d, s = lookup(x, LOW), lookup(y, LOW)
    if d is not None and s is not None:
        need(m in ALU)
        return half(0x4000, (ALU[m], 6), (s, 3), (d, 0))
    if is_imm(y):
        if d is not None:
            need(m in IMM8)
            return half(0x2000 | IMM8[m] << 11, (d, 8), (const(E, y, 255), 0))
        need(and_(m == 'ADD', oneof(x, SP)))
        return half(0xB000, (const(E, y, 127, 2), 0))
    need(m in HI)
    if d is not None:
        return half(0x4440 | HI[m] << 8, (reg(y, HIGH), 3), (d, 0))
    d = reg(x, HIGH)
    if s is not None:
        return half(0x4480 | HI[m] << 8, (s, 3), (d, 0))
    return half(0x44C0 | HI[m] << 8, (reg(y, HIGH), 3), (d, 0))


def decimal(t):
    try:
        return int(t)
    except ValueError:
        raise Reject('number')


# --- recorded findings: encodings pinned by the existing tests that are not the architecture's -------------------------
FINDINGS = [('LDRB', ['r0', '[', 'r1', '#8', ']']), ('PUSH', ['{', 'lr', '}'])]


def deviation(E, m, T, n):
    if m == 'LDRB' and bool(n == 6):
        if not (bool(and_(T[2] == '[', T[5] == ']')) and bool(oneof(T[1], LOW)) and bool(oneof(T[3], LOW)) and is_imm(T[4])):
            return None

        def scaled():
            k, v, dec = E.value(T[4][1:])
            need(k == 'num')
            v = fitnum(v, dec, 8) >> 2
            need(v <= 31)
            return half(0x7800, (v, 6), (reg(T[3], LOW), 3), (reg(T[1], LOW), 0))
        return 'LDRB rd, [rb, #imm]: offset field is imm >> 2', scaled
    if m == 'PUSH' and bool(n >= 4) and bool(and_(T[1] == '{', T[-1] == '}')) and bool(up(T[-2]) == 'LR'):
        return 'PUSH {..., lr}: bit 11 set instead of bit 8', lambda: half(0xBC00, (registers(T, 2, n - 2), 0))
    return None


# --- register lists: any number of elements ---------------------------------------------------------------------------
def element(state, t):
    """state with the registers of one list element added"""
    k = lookup(t, LOW)
    if k is not None:
        return state | (1 << k if isinstance(k, int) else select(k))
    need(t.contains('-') if is_sym(t) else '-' in t)
    if is_sym(t):
        parts = t.split('-')
        need(parts.length() == 2)
        a, b = parts.item(0), parts.item(1)
    else:
        need(t.count('-') == 1)
        a, b = t.split('-')
    a, b = reg(a, LOW), reg(b, LOW)
    need(a <= b)
    for k in range(8):
        if bool(and_(a <= k, k <= b)):
            state = state | 1 << k
    return state


def select(k):
    for j in range(8):
        if bool(k == j):
            return 1 << j
    raise Reject('register')


RL = z3.Function('rlist', z3.IntSort(), z3.IntSort(), z3.IntSort())
BADRL = z3.Function('rlist.rejects', z3.IntSort(), z3.IntSort(), z3.BoolSort())


def registers(T, a, b):
    """mask of the register list T[a:b]"""
    if not isinstance(T, SymTokens):
        state = 0
        for t in T[a:b]:
            state = element(state, t)
        return state
    a, b = lift_int(a), lift_int(b)
    if bool(SBool(BADRL(a, b))):
        raise Reject('register list')
    core.CTX.axiom(z3.And(RL(a, b) >= 0, RL(a, b) <= 255), ('rl', str(a), str(b)))
    return SInt(RL(a, b), 255)


def c_rlist(c, args, kwargs):
    from .isa import bind
    self, tokens = bind(args, kwargs, ('self', 'tokens'))
    if not isinstance(tokens, SymTokens) or tokens.name != 't':
        raise core.Unsupported('register list from another source')
    a = tokens.start
    b = lift_int(tokens.length()) + a
    try:
        return registers(tokens, a, SInt(b))
    except Reject:
        from necroassembler.cpu.thumb import InvalidRList
        raise InvalidRList()




def units(cls):
    host = cls()

    def body(c):
        c.static['cfg'] = host
        c.static['contracts'] = {}
        n = fresh_int('n', 0, None)

        def tok(k):
            return STok(tok_info('e[%s]' % k))
        seq = SSeq(n, tok, 'elements')
        final, raised = SInt(z3.Int('fold.final')), z3.Bool('fold.rejects')

        def fresh():
            s = fresh_int('state', 0, 255)
            return SInt(s.t, 255)
        c.static['fold'] = loops.Fold('Thumb.rlist', 0, fresh, element, (Reject,), (Exception,), final, raised,
                                      lambda x, y: lift_int(x) == lift_int(y))
        asm = SObj(cls, {}, host=host)
        try:
            r = interp.icall(interp.getattr_(asm, '_rlist'), (seq,), {})
        except core.PathKill:
            raise
        except Exception as e:
            if isinstance(e, (core.Unsupported, z3.Z3Exception)):
                raise
            c.prove('Thumb.rlist/rejects-iff-an-element-does', raised, info=lambda m: repr(e))
            return
        c.prove('Thumb.rlist/result', lift_int(r) == final.t)
    return [Unit('Thumb._rlist', body, functions=['necroassembler.cpu.thumb.AssemblerThumb._rlist'], timeout_ms=8000)]
