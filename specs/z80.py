"""Zilog Z80: instruction table (Z80 CPU user manual, chapter 'Z80 instruction set'), with the undocumented halves of
IX and IY, SLL and OUT (C),0.  d: displacement of (IX+d); e: relative distance; n, nn: immediates, low byte first."""
from .isa import Reject, imm, le, up, need, lookup, fitnum, low, oneof
from pyvc.vals import and_, or_, not_

NOBLANK = True
R8 = dict(B=0, C=1, D=2, E=3, H=4, L=5, A=7)             # 6 = (HL)
R16 = dict(BC=0, DE=1, HL=2, SP=3)
RPUSH = dict(BC=0, DE=1, HL=2, AF=3)
CC = dict(NZ=0, Z=1, NC=2, C=3, PO=4, PE=5, P=6, M=7)
NAMES = 'A B C D E F H L I R IXH IXL IYH IYL AF BC DE HL PC SP IX IY'.split()
INDEX = dict(IX=0xDD, IY=0xFD)
HALF = dict(IXH=(0xDD, 4), IXL=(0xDD, 5), IYH=(0xFD, 4), IYL=(0xFD, 5))

FIXED = dict(NOP=[0x00], RLCA=[0x07], RRCA=[0x0F], RLA=[0x17], RRA=[0x1F], DAA=[0x27], CPL=[0x2F], SCF=[0x37], CCF=[0x3F],
             HALT=[0x76], EXX=[0xD9], DI=[0xF3], EI=[0xFB], NEG=[0xED, 0x44], RETN=[0xED, 0x45], RETI=[0xED, 0x4D],
             RRD=[0xED, 0x67], RLD=[0xED, 0x6F],
             LDI=[0xED, 0xA0], CPI=[0xED, 0xA1], INI=[0xED, 0xA2], OUTI=[0xED, 0xA3],
             LDD=[0xED, 0xA8], CPD=[0xED, 0xA9], IND=[0xED, 0xAA], OUTD=[0xED, 0xAB],
             LDIR=[0xED, 0xB0], CPIR=[0xED, 0xB1], INIR=[0xED, 0xB2], OTIR=[0xED, 0xB3],
             LDDR=[0xED, 0xB8], CPDR=[0xED, 0xB9], INDR=[0xED, 0xBA], OTDR=[0xED, 0xBB])
ALU = dict(ADD=0, ADC=1, SUB=2, SBC=3, AND=4, XOR=5, OR=6, CP=7)
WITH_A = ('ADD', 'ADC', 'SBC')                           # written with the accumulator: ADD A,n but SUB n
CB = dict(RLC=0, RRC=1, RL=2, RR=3, SLA=4, SRA=5, SLL=6, SRL=7)
BITS = dict(BIT=1, RES=2, SET=3)
DIGITS = {str(k): k for k in range(8)}
RST = {'%XH' % (8 * k): k for k in range(8)}
IM = {'0': 0x46, '1': 0x56, '2': 0x5E, '0/1': 0x4E}

MNEMONICS = sorted(set(FIXED) | set(ALU) | set(CB) | set(BITS) | set('LD INC DEC JP JR CALL RET PUSH POP RST DJNZ EX IN OUT IM'.split()))

CLASSES = {'r': ['A', 'b', 'C', 'D', 'e', 'H', 'l'], 'R': ['I', 'r', 'F', 'IXH', 'ixl', 'IYH', 'IYL'],
           'w': ['BC', 'de', 'HL', 'SP', 'AF', 'IX', 'iy', 'PC'], 'c': sorted(CC) + ['nz', 'm'], 'b': ['0', '3', '7', '8', '5', '1', '0/1', '2'],
           'I': ['0', '1', '$ff', '255', '256', '-1', '-128', '-129', '$100', '$ffff', '65535', '65536', '-32769', 'lab', 'fwd', 'zp',
                 '$7f', '128', '127', '$80', '%101', 'nolab'],
           'x': ['IX+4', 'ix-4', 'IY+0', 'iy+127', 'IX+128', 'IY-128', 'IX-129', 'IX+zp', 'IY+$f0', 'ix+', 'IY-', 'IX+nolab', 'IY+lab', 'IX--3', 'IY+-5'],
           'v': sorted(RST) + ['08h', '0', '$08', '08H']}
VOCAB = sorted(set(sum(CLASSES.values(), []))) + ["AF'", '(', ')', '']


def SHAPES(m):
    ind = lambda x: [('(', x, ')')]
    if m in FIXED:
        return ['']
    if m in ALU:
        return ['r', 'R', 'rr', 'rR', 'rI', 'I', 'Ar', 'AI', 'AR', 'ww', 'wI'] + [p + q for p in ((), ('A',)) for x in 'wxI' for q in ind(x)]
    if m in CB:
        return ['r', ('(', 'HL', ')'), ('(', 'x', ')'), ('(', 'x', ')'), ('(', 'w', ')')]
    if m in BITS:
        return ['br', 'bb', 'br', ('b', '(', 'HL', ')'), ('b', '(', 'x', ')'), ('b', '(', 'x', ')')]
    if m == 'LD':
        out = ['rr', 'rI', 'wI', 'ww', 'rR', 'Rr', 'RR', 'RI', 'rx']
        for x in ('w', 'I', 'r', 'x'):
            for y in ind(x):
                out += [('r',) + y, ('A',) + y, ('w',) + y, y + ('r',), y + ('A',), y + ('w',), y + ('I',)]
        return out
    return {'INC': ['r', 'R', 'w', ('(', 'HL', ')'), ('(', 'x', ')')], 'DEC': ['r', 'R', 'w', ('(', 'HL', ')'), ('(', 'x', ')')],
            'JP': ['I', 'cI', ('(', 'w', ')')], 'JR': ['I', 'cI'], 'DJNZ': ['I'], 'CALL': ['I', 'cI'],
            'RET': ['', 'c'], 'PUSH': ['w'], 'POP': ['w'], 'RST': ['v'], 'IM': ['b'],
            'EX': ['ww', ('AF', "AF'"), ('DE', 'HL'), ('(', 'SP', ')', 'w'), ('(', 'w', ')', 'w')],
            'IN': [('r', '(', 'C', ')'), ('A', '(', 'I', ')'), ('r', '(', 'I', ')')], 'OUT': [('(', 'C', ')', 'r'), ('(', 'I', ')', 'A'), ('(', 'C', ')', 'b')]}[m]


def has(k):
    return lambda T, n: bool(n == k)


SPLIT = {'LD': [lambda T, n: bool(n == 3) and oneof(T[1], R8), has(3),
                lambda T, n: bool(n == 5) and bool(T[1] == '(') and up(T[2]) == 'HL',
                lambda T, n: bool(n == 5) and bool(T[1] == '(') and or_(up(T[2]).startswith('IX+'), up(T[2]).startswith('IX-')),
                lambda T, n: bool(n == 5) and bool(T[1] == '(') and or_(up(T[2]).startswith('IY+'), up(T[2]).startswith('IY-')),
                lambda T, n: bool(n == 5) and T[1] == '(',
                lambda T, n: bool(n == 5) and oneof(T[1], R8)]}


def get(t, table, why='operand'):
    r = lookup(t, table)
    if r is None:
        raise Reject(why)
    return r


def indexed(t):
    """prefix byte and displacement text of IX+d / IX-d, or None"""
    u = up(t)
    for name, prefix in INDEX.items():
        if bool(u.startswith(name + '+')):
            return prefix, t[3:]
        if bool(u.startswith(name + '-')):
            return prefix, t[2:]
    return None


def value(t):
    need(not_(oneof(t, NAMES)), 'name instead of a value')
    need(indexed(t) is None, 'index instead of a value')
    return t


def is_(t, name):
    return bool(up(t) == name)


def disp(E, t):
    return imm(E, t, 8, True)


def n8(E, t):
    return [imm(E, value(t), 8)]


def nn(E, t):
    return le(imm(E, value(t), 16), 2)


def relative(E, t):
    k, v, dec = E.value(value(t))
    if k == 'num':
        return low(fitnum(v, dec, 8, True), 8)
    E.addr(t)
    r = E.rel(t, E.pc + 2)
    need(and_(r >= -128, r <= 127))
    return low(r, 8)


def half(t):
    for name, v in HALF.items():
        if is_(t, name):
            return v
    return None


def reg8(t):
    """prefix bytes and code of a register or of a half of an index register; None: something else"""
    k = lookup(t, R8)
    if k is not None:
        return [], k
    h = half(t)
    return None if h is None else ([h[0]], h[1])


def index16(t):
    for name, v in INDEX.items():
        if is_(t, name):
            return v
    return None


def alu8(E, m, y):
    row = ALU[m]
    r = reg8(y)
    if r is not None:
        return r[0] + [0x80 | row << 3 | r[1]]
    return [0xC6 | row << 3] + n8(E, y)


def memory(E, t, head, tail):
    """instructions on (HL), (IX+d), (IY+d): head(0x06-like code) bytes around the displacement"""
    if is_(t, 'HL'):
        return head + tail
    x = indexed(t)
    if x is None:
        raise Reject('memory operand')
    return [x[0]] + head + [disp(E, x[1])] + tail


def spec(E, m, T, n):
    if m in FIXED:
        need(n == 1)
        return FIXED[m]
    if m == 'RET' and bool(n == 1):
        return [0xC9]
    if bool(n == 2):
        return one(E, m, T[1])
    if bool(n == 3):
        return two(E, m, T[1], T[2])
    if bool(n == 4):
        need(and_(T[1] == '(', T[3] == ')'))
        return mem(E, m, T[2])
    need(n == 5)
    if bool(T[1] == '('):
        need(T[3] == ')')
        return mem_reg(E, m, T[2], T[4])
    need(and_(T[2] == '(', T[4] == ')'))
    return reg_mem(E, m, T[1], T[3])


def one(E, m, x):
    if m in CB:
        return [0xCB, CB[m] << 3 | get(x, R8)]
    if m in ALU and m not in WITH_A:
        return alu8(E, m, x)
    if m in ('INC', 'DEC'):
        r = reg8(x)
        if r is not None:
            return r[0] + [(0x04 if m == 'INC' else 0x05) | r[1] << 3]
        code = 0x03 if m == 'INC' else 0x0B
        k = lookup(x, R16)
        if k is not None:
            return [code | k << 4]
        p = index16(x)
        need(p is not None)
        return [p, code | 0x20]
    if m in ('PUSH', 'POP'):
        code = 0xC5 if m == 'PUSH' else 0xC1
        k = lookup(x, RPUSH)
        if k is not None:
            return [code | k << 4]
        p = index16(x)
        need(p is not None)
        return [p, code | 0x20]
    if m == 'RET':
        return [0xC0 | get(x, CC) << 3]
    if m in ('JP', 'CALL'):
        return [0xC3 if m == 'JP' else 0xCD] + nn(E, x)
    if m in ('JR', 'DJNZ'):
        return [0x18 if m == 'JR' else 0x10, relative(E, x)]
    if m == 'RST':
        return [0xC7 | get(x, RST) << 3]
    if m == 'IM':
        return [0xED, get(x, IM)]
    raise Reject('shape')


def two(E, m, x, y):
    if m in BITS:
        return [0xCB, BITS[m] << 6 | get(x, DIGITS) << 3 | get(y, R8)]
    if m in ('JP', 'CALL'):
        c = get(x, CC)
        return [(0xC2 if m == 'JP' else 0xC4) | c << 3] + nn(E, y)
    if m == 'JR':
        c = get(x, CC)
        need(c <= 3)
        return [0x20 | c << 3, relative(E, y)]
    if m == 'EX':
        if is_(x, 'AF'):
            need(up(y) == "AF'")
            return [0x08]
        need(and_(up(x) == 'DE', up(y) == 'HL'))
        return [0xEB]
    if m in WITH_A:
        if is_(x, 'A'):
            return alu8(E, m, y)
        if is_(x, 'HL'):
            code = {'ADD': [0x09], 'ADC': [0xED, 0x4A], 'SBC': [0xED, 0x42]}[m]
            return code[:-1] + [code[-1] | get(y, R16) << 4]
        p = index16(x)
        need(and_(p is not None, m == 'ADD'))
        k = lookup(y, dict(BC=0, DE=1, SP=3))
        if k is None:
            need(up(y) == up(x))
            k = 2
        return [p, 0x09 | k << 4]
    need(m == 'LD')
    d = lookup(x, R8)
    if d is not None:
        s = lookup(y, R8)
        if s is not None:
            return [0x40 | d << 3 | s]
        if is_(x, 'A') and bool(oneof(y, ('I', 'R'))):
            return [0xED, 0x57 if is_(y, 'I') else 0x5F]
        h = half(y)
        if h is not None:
            need(not_(oneof(x, ('H', 'L'))))            # the prefix would turn H and L into halves too
            return [h[0], 0x40 | d << 3 | h[1]]
        return [0x06 | d << 3] + n8(E, y)
    h = half(x)
    if h is not None:
        s = lookup(y, dict(B=0, C=1, D=2, E=3, A=7))
        if s is not None:
            return [h[0], 0x40 | h[1] << 3 | s]
        g = half(y)
        if g is not None:
            need(g[0] == h[0])
            return [h[0], 0x40 | h[1] << 3 | g[1]]
        return [h[0], 0x06 | h[1] << 3] + n8(E, y)
    if bool(oneof(x, ('I', 'R'))):
        need(is_(y, 'A'))
        return [0xED, 0x47 if is_(x, 'I') else 0x4F]
    if is_(x, 'SP'):
        if is_(y, 'HL'):
            return [0xF9]
        p = index16(y)
        if p is not None:
            return [p, 0xF9]
    k = lookup(x, R16)
    if k is not None:
        return [0x01 | k << 4] + nn(E, y)
    p = index16(x)
    need(p is not None)
    return [p, 0x21] + nn(E, y)


def mem(E, m, x):
    """m (x)"""
    if m in CB:
        if is_(x, 'HL'):
            return [0xCB, CB[m] << 3 | 6]
        p = indexed(x)
        need(p is not None)
        return [p[0], 0xCB, disp(E, p[1]), CB[m] << 3 | 6]
    if m in ALU and m not in WITH_A:
        return memory(E, x, [0x86 | ALU[m] << 3], [])
    if m in ('INC', 'DEC'):
        return memory(E, x, [0x34 if m == 'INC' else 0x35], [])
    need(m == 'JP')
    if is_(x, 'HL'):
        return [0xE9]
    p = index16(x)
    need(p is not None)
    return [p, 0xE9]


def mem_reg(E, m, x, y):
    """m (x), y"""
    if m == 'EX':
        need(is_(x, 'SP'))
        if is_(y, 'HL'):
            return [0xE3]
        p = index16(y)
        need(p is not None)
        return [p, 0xE3]
    if m == 'OUT':
        if is_(x, 'C'):
            k = lookup(y, R8)
            if k is None:
                need(y == '0')
                k = 6
            return [0xED, 0x41 | k << 3]
        need(is_(y, 'A'))
        return [0xD3] + n8(E, x)
    need(m == 'LD')
    if is_(x, 'HL') or indexed(x) is not None:
        k = lookup(y, R8)
        if k is not None:
            return memory(E, x, [0x70 | k], [])
        return memory(E, x, [0x36], n8(E, y))
    if bool(oneof(x, ('BC', 'DE'))):
        need(is_(y, 'A'))
        return [0x02 if is_(x, 'BC') else 0x12]
    a = value(x)
    if is_(y, 'A'):
        return [0x32] + nn(E, a)
    if is_(y, 'HL'):
        return [0x22] + nn(E, a)
    k = lookup(y, R16)
    if k is not None:
        return [0xED, 0x43 | k << 4] + nn(E, a)
    p = index16(y)
    need(p is not None)
    return [p, 0x22] + nn(E, a)


def reg_mem(E, m, x, y):
    """m x, (y)"""
    if m in BITS:
        b = get(x, DIGITS)
        if is_(y, 'HL'):
            return [0xCB, BITS[m] << 6 | b << 3 | 6]
        p = indexed(y)
        need(p is not None)
        return [p[0], 0xCB, disp(E, p[1]), BITS[m] << 6 | b << 3 | 6]
    if m in WITH_A:
        need(is_(x, 'A'))
        return memory(E, y, [0x86 | ALU[m] << 3], [])
    if m == 'IN':
        if is_(y, 'C'):
            return [0xED, 0x40 | get(x, R8) << 3]
        need(is_(x, 'A'))
        return [0xDB] + n8(E, y)
    need(m == 'LD')
    d = lookup(x, R8)
    if d is not None:
        if is_(y, 'HL') or indexed(y) is not None:
            return memory(E, y, [0x46 | d << 3], [])
        need(is_(x, 'A'))
        if bool(oneof(y, ('BC', 'DE'))):
            return [0x0A if is_(y, 'BC') else 0x1A]
        return [0x3A] + nn(E, y)
    if is_(x, 'HL'):
        return [0x2A] + nn(E, y)
    k = lookup(x, R16)
    if k is not None:
        return [0xED, 0x4B | k << 4] + nn(E, y)
    p = index16(x)
    need(p is not None)
    return [p, 0x2A] + nn(E, y)
