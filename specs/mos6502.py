"""MOS 6502: instruction set table (from the MOS MCS6500 programming manual)."""
from .isa import Reject, imm, branch, le, oneof, up, need, lookup
from pyvc.vals import and_, or_, not_

IMPLIED = dict(BRK=0x00, CLC=0x18, SEC=0x38, CLI=0x58, SEI=0x78, CLV=0xB8, CLD=0xD8, SED=0xF8, NOP=0xEA,
               TAX=0xAA, TXA=0x8A, DEX=0xCA, INX=0xE8, TAY=0xA8, TYA=0x98, DEY=0x88, INY=0xC8, RTI=0x40, RTS=0x60,
               TXS=0x9A, TSX=0xBA, PHA=0x48, PLA=0x68, PHP=0x08, PLP=0x28)
BRANCH = dict(BPL=0x10, BMI=0x30, BVC=0x50, BVS=0x70, BCC=0x90, BCS=0xB0, BNE=0xD0, BEQ=0xF0)

# aaabbbcc: group 01 has the regular layout
MODES = {}
for k, name in enumerate(('ORA', 'AND', 'EOR', 'ADC', 'STA', 'LDA', 'CMP', 'SBC')):
    b = k << 5 | 1
    MODES[name] = dict(indx=b, zp=b | 4, imm=b | 8, abs=b | 12, indy=b | 16, zpx=b | 20, absy=b | 24, absx=b | 28)
del MODES['STA']['imm']
for k, name in enumerate(('ASL', 'ROL', 'LSR', 'ROR')):
    b = k << 5 | 2
    MODES[name] = dict(zp=b | 4, acc=b | 8, abs=b | 12, zpx=b | 20, absx=b | 28)
MODES['STX'] = dict(zp=0x86, abs=0x8E, zpy=0x96)
MODES['LDX'] = dict(imm=0xA2, zp=0xA6, abs=0xAE, zpy=0xB6, absy=0xBE)
MODES['DEC'] = dict(zp=0xC6, abs=0xCE, zpx=0xD6, absx=0xDE)
MODES['INC'] = dict(zp=0xE6, abs=0xEE, zpx=0xF6, absx=0xFE)
MODES['BIT'] = dict(zp=0x24, abs=0x2C)
MODES['JMP'] = dict(abs=0x4C, ind=0x6C)
MODES['JSR'] = dict(abs=0x20)
MODES['STY'] = dict(zp=0x84, abs=0x8C, zpx=0x94)
MODES['LDY'] = dict(imm=0xA0, zp=0xA4, abs=0xAC, zpx=0xB4, absx=0xBC)
MODES['CPY'] = dict(imm=0xC0, zp=0xC4, abs=0xCC)
MODES['CPX'] = dict(imm=0xE0, zp=0xE4, abs=0xEC)

MNEMONICS = sorted(set(IMPLIED) | set(BRANCH) | set(MODES))
VOCAB = ['A', 'a', 'X', 'x', 'Y', 'y', '(', ')', '[', ']', '#', '#5', '#$ff', '#-1', '#256', '#-129', '#lab', '#fwd',
         '5', '$ff', '$0100', '255', '256', '-1', '65535', '65536', '-32768', 'lab', 'fwd', 'zp', 'nolab', '#nolab', '%101',
         '@17', '$zz', '#$zz', '(5)', '<lab', '>lab', 'lab+1', '#<lab', '127', '128', '-128', '-129']


def address(E, t, zp, ab):
    k, v, dec = E.value(t)
    if k == 'num':
        a = imm(E, t, 16)
    else:
        a = E.known(t)
        if a is None:                   # forward label: always 16 bit
            if ab is None:
                raise Reject('no absolute form')
            a = E.addr(t)
            need(and_(a >= 0, a < 65536))
            return [ab] + le(a, 2)
    if zp is not None:
        if bool(and_(a >= 0, a <= 255)):
            return [zp, a]
    if ab is None:
        raise Reject('no absolute form')
    need(and_(a >= 0, a < 65536))
    return [ab] + le(a, 2)


def spec(E, m, T, n):
    if m in IMPLIED:
        need(n == 1)
        return [IMPLIED[m]]
    if m in BRANCH:
        need(n == 2)
        return [BRANCH[m], branch(E, T[1], 8, E.pc + 2)]
    md = MODES[m]
    if bool(n == 2):
        t = T[1]
        if bool(oneof(t, ('A',))):
            if 'acc' not in md:
                raise Reject('accumulator')
            return [md['acc']]
        if bool(t.startswith('#')):
            if 'imm' not in md:
                raise Reject('immediate')
            return [md['imm'], imm(E, t[1:], 8)]
        return address(E, t, md.get('zp'), md.get('abs'))
    if bool(n == 3):
        if bool(T[1].startswith('#')):
            raise Reject('indexed immediate')
        r = lookup(T[2], {'X': 0, 'Y': 1})
        if r is None:
            raise Reject('index')
        if bool(r == 0):
            return address(E, T[1], md.get('zpx'), md.get('absx'))
        return address(E, T[1], md.get('zpy'), md.get('absy'))
    if bool(n == 4):
        need(and_(T[1] == '(', T[3] == ')', not_(T[2].startswith('#'))))
        return address(E, T[2], None, md.get('ind'))
    if bool(n == 5):
        need(and_(T[1] == '(', not_(T[2].startswith('#'))))
        if bool(and_(oneof(T[3], ('X',)), T[4] == ')')):
            return address(E, T[2], md.get('indx'), None)
        if bool(and_(T[3] == ')', oneof(T[4], ('Y',)))):
            return address(E, T[2], md.get('indy'), None)
    raise Reject('operand shape')
