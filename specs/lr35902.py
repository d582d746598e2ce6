"""Sharp LR35902 (Game Boy): instruction table (Game Boy programming manual, chapter 'CPU instruction set')."""
from .isa import Reject, imm, le, up, need, lookup, fitnum, low, oneof
from pyvc.vals import and_, or_, not_

R8 = dict(B=0, C=1, D=2, E=3, H=4, L=5, A=7)             # 6 = (HL)
R16 = dict(BC=0, DE=1, HL=2, SP=3)
RPUSH = dict(BC=0, DE=1, HL=2, AF=3)
CC = dict(NZ=0, Z=1, NC=2, C=3)
INDA = {'BC': 0, 'DE': 1, 'HL+': 2, 'HL-': 3}
NAMES = ('A F B C D E H L AF BC DE HL HL+ HL- SP Z NZ NC').split() + ['(', ')', '[', ']']

FIXED = dict(NOP=[0x00], RLCA=[0x07], RRCA=[0x0F], RLA=[0x17], RRA=[0x1F], DAA=[0x27], CPL=[0x2F], SCF=[0x37], CCF=[0x3F],
             HALT=[0x76], RETI=[0xD9], DI=[0xF3], EI=[0xFB],
             BRA=[0x1F])                                # the assembler's own second name of RRA
# number: row; letters: the operand spellings the assembler knows for  A,r  A,(HL)  A,n  r  (HL)  n
ALU = dict(ADD=(0, True, True, True, False, True, False), ADC=(1, True, True, True, False, False, False),
           SUB=(2, False, False, True, True, True, True), SBC=(3, True, True, True, False, False, True),
           AND=(4, False, False, False, True, True, True), XOR=(5, 'A', False, True, True, True, True),
           OR=(6, True, True, True, True, True, True), CP=(7, True, True, False, True, True, True))
CB = dict(RLC=0, RRC=1, RL=2, RR=3, SLA=4, SRA=5, SWAP=6, SRL=7)
BITS = dict(BIT=1, RES=2, SET=3)
DIGITS = {str(k): k for k in range(8)}
RST = {'%02XH' % (8 * k): k for k in range(8)}

MNEMONICS = sorted(set(FIXED) | set(ALU) | set(CB) | set(BITS) | {'LD', 'LDH', 'INC', 'DEC', 'JP', 'JR', 'CALL', 'RET', 'PUSH', 'POP', 'RST', 'STOP'})

REGS = ['A', 'b', 'C', 'D', 'e', 'H', 'l']
CLASSES = {'r': REGS, 'w': ['BC', 'de', 'HL', 'SP', 'AF', 'HL+', 'hl-'], 'c': ['Z', 'nz', 'C', 'NC'], 'b': ['0', '3', '7', '8', '5', '1'],
           'I': ['0', '1', '$ff', '255', '256', '-1', '-128', '-129', '$100', '$ffff', '65535', '65536', '-32769', 'lab', 'fwd', 'zp', '$7f', '128', '127', '$80', '%101', 'nolab'],
           's': ['SP+4', 'SP-4', 'SP+-3', 'SP+zp', 'SP+200', 'SP-129', 'SP-128', 'SP+$f0', 'SP+', 'sp+4', 'SP+nolab'],
           'h': ['$FF00+5', '$FF00+C', '$FF00+$80', '$FF00+zp', '$FF00+256', '$ff00+5', '$FF00+'],
           'v': sorted(RST) + ['08h', '0', '$08']}
VOCAB = sorted(set(sum(CLASSES.values(), []))) + ['F', '(', ')', '[', ']', '']
BRACKETS = [('(', ')'), ('[', ']')]


def SHAPES(m):
    ind = lambda x: [('(', x, ')'), ('[', x, ']')]
    if m in FIXED:
        return ['']
    if m in ALU:
        return ['r', 'rr', 'rI', 'I', 'Ar', 'AI', 'ww', 'wI'] + ind('w') + [('A',) + x for x in ind('w')]
    if m in CB:
        return ['r'] + ind('HL')
    if m in BITS:
        return ['br', 'bb'] + [('b',) + x for x in ind('HL')]
    if m == 'LD':
        out = ['rr', 'rI', 'wI', 'ww', 'ws', 'rs']
        for x in ('w', 'I', 'r', 'h'):
            for y in ind(x):
                out += [('r',) + y, ('A',) + y, y + ('r',), y + ('A',), y + ('w',), y + ('I',)]
        return out
    return {'LDH': [('A', '(', 'I', ')'), ('A', '[', 'I', ']'), ('(', 'I', ')', 'A'), ('[', 'I', ']', 'A')],
            'INC': ['r', 'w'] + ind('w'), 'DEC': ['r', 'w'] + ind('w'), 'JP': ['I', 'cI'] + ind('w'), 'JR': ['I', 'cI'], 'CALL': ['I', 'cI'],
            'RET': ['', 'c'], 'PUSH': ['w'], 'POP': ['w'], 'RST': ['v'], 'STOP': ['', 'b']}[m]


def get(t, table, why='operand'):
    r = lookup(t, table)
    if r is None:
        raise Reject(why)
    return r


def value(t):
    need(not_(oneof(t, NAMES)), 'name instead of a value')
    return t


def indirect(a, b):
    need(or_(and_(a == '(', b == ')'), and_(a == '[', b == ']')), 'brackets')


def is_(t, name):
    return bool(up(t) == name)


def relative(E, t):
    """jr: distance from the next instruction; a number is the distance itself"""
    k, v, dec = E.value(value(t))
    if k == 'num':
        return low(fitnum(v, dec, 8, True), 8)
    E.addr(t)
    r = E.rel(t, E.pc + 2)
    need(and_(r >= -128, r <= 127))
    return low(r, 8)


def spec(E, m, T, n):
    if m in FIXED:
        need(n == 1)
        return FIXED[m]
    if m == 'STOP':
        if bool(n == 2):
            need(T[1] == '0')
        else:
            need(n == 1)
        return [0x10, 0x00]
    if m == 'RET' and bool(n == 1):
        return [0xC9]
    if bool(n == 2):
        x = T[1]
        if m in CB:
            return [0xCB, CB[m] << 3 | get(x, R8)]
        if m in ALU:
            row, ar, ah, ai, r, h, i = ALU[m]
            k = lookup(x, R8)
            if k is not None:
                need(r)
                return [0x80 | row << 3 | k]
            need(i)
            return [0xC6 | row << 3, imm(E, value(x), 8)]
        if m in ('INC', 'DEC'):
            k = lookup(x, R8)
            if k is not None:
                return [(0x04 if m == 'INC' else 0x05) | k << 3]
            return [(0x03 if m == 'INC' else 0x0B) | get(x, R16) << 4]
        if m in ('PUSH', 'POP'):
            return [(0xC5 if m == 'PUSH' else 0xC1) | get(x, RPUSH) << 4]
        if m == 'RET':
            return [0xC0 | get(x, CC) << 3]
        if m in ('JP', 'CALL'):
            return [0xC3 if m == 'JP' else 0xCD] + le(imm(E, value(x), 16), 2)
        if m == 'JR':
            return [0x18, relative(E, x)]
        if m == 'RST':
            return [0xC7 | get(x, RST) << 3]
        raise Reject('shape')
    if bool(n == 3):
        x, y = T[1], T[2]
        if m in BITS:
            return [0xCB, BITS[m] << 6 | get(x, DIGITS) << 3 | get(y, R8)]
        if m in ('JP', 'CALL'):
            c = get(x, CC)
            return [(0xC2 if m == 'JP' else 0xC4) | c << 3] + le(imm(E, value(y), 16), 2)
        if m == 'JR':
            c = get(x, CC)
            return [0x20 | c << 3, relative(E, y)]
        if m == 'ADD' and is_(x, 'HL'):
            return [0x09 | get(y, R16) << 4]
        if m == 'ADD' and is_(x, 'SP'):
            return [0xE8, imm(E, value(y), 8, True)]
        if m in ALU:
            row, ar, ah, ai, r, h, i = ALU[m]
            need(is_(x, 'A'))
            k = lookup(y, R8)
            if k is not None:
                need(ar)
                if ar == 'A':
                    need(is_(y, 'A'))
                return [0x80 | row << 3 | k]
            need(ai)
            return [0xC6 | row << 3, imm(E, value(y), 8)]
        if m == 'LD':
            if is_(x, 'HL') and bool(or_(y.startswith('SP+'), y.startswith('SP-'))):
                t = y[3:] if bool(y.startswith('SP+')) else y[2:]
                return [0xF8, imm(E, t, 8, True)]
            if is_(x, 'SP') and is_(y, 'HL'):
                return [0xF9]
            d = lookup(x, R8)
            if d is not None:
                s = lookup(y, R8)
                if s is not None:
                    return [0x40 | d << 3 | s]
                return [0x06 | d << 3, imm(E, value(y), 8)]
            return [0x01 | get(x, R16) << 4] + le(imm(E, value(y), 16), 2)
        raise Reject('shape')
    if bool(n == 4):
        indirect(T[1], T[3])
        need(is_(T[2], 'HL'))
        if m in CB:
            return [0xCB, CB[m] << 3 | 6]
        if m in ALU and ALU[m][5]:
            return [0x86 | ALU[m][0] << 3]
        if m in ('INC', 'DEC'):
            return [0x34 if m == 'INC' else 0x35]
        if m == 'JP':
            return [0xE9]
        raise Reject('shape')
    need(n == 5)
    if bool(or_(T[1] == '(', T[1] == '[')):         # ( x ) y
        indirect(T[1], T[3])
        x, y = T[2], T[4]
        if m == 'LDH':
            need(is_(y, 'A'))
            return [0xE0, imm(E, value(x), 8)]
        need(m == 'LD')
        if is_(y, 'A'):
            if bool(or_(up(x) == '$FF00+C', up(x) == 'C')):
                return [0xE2]
            if bool(and_(x.startswith('$FF00+'), x != '$FF00+C')):
                return [0xE0, imm(E, x[6:], 8)]
            k = lookup(x, INDA)
            if k is not None:
                return [0x02 | k << 4]
        if is_(x, 'HL'):
            k = lookup(y, R8)
            if k is not None:
                return [0x70 | k]
            return [0x36, imm(E, value(y), 8)]
        value(x)
        if is_(y, 'A'):
            return [0xEA] + le(imm(E, x, 16), 2)
        need(is_(y, 'SP'))
        return [0x08] + le(imm(E, x, 16), 2)
    x, y = T[1], T[3]                               # x ( y )
    indirect(T[2], T[4])
    if m in BITS:
        need(is_(y, 'HL'))
        return [0xCB, BITS[m] << 6 | get(x, DIGITS) << 3 | 6]
    if m in ALU and ALU[m][2]:
        need(and_(is_(x, 'A'), is_(y, 'HL')))
        return [0x86 | ALU[m][0] << 3]
    if m == 'LDH':
        need(is_(x, 'A'))
        return [0xF0, imm(E, value(y), 8)]
    need(m == 'LD')
    d = get(x, R8)
    if is_(y, 'HL'):
        return [0x46 | d << 3]
    need(is_(x, 'A'))
    k = lookup(y, INDA)
    if k is not None:
        return [0x0A | k << 4]
    if is_(y, 'C'):
        return [0xF2]
    if bool(and_(y.startswith('$FF00+'), y != '$FF00+C')):
        return [0xF0, imm(E, y[6:], 8)]
    return [0xFA] + le(imm(E, value(y), 16), 2)
