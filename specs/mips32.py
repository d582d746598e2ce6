"""MIPS32: instruction table (MIPS32 Architecture For Programmers Vol. II)."""
from .isa import Reject, imm, branch, be, oneof, up, need, lookup, fitnum, low
from pyvc.vals import and_, or_, not_

NAMES = ('zero at v0 v1 a0 a1 a2 a3 t0 t1 t2 t3 t4 t5 t6 t7 s0 s1 s2 s3 s4 s5 s6 s7 t8 t9 k0 k1 gp sp fp ra').split()
REG = {}
for k, nm in enumerate(NAMES):
    REG['$' + nm.upper()] = k
    REG['$%d' % k] = k

# SPECIAL function codes
R3 = dict(add=0x20, addu=0x21, sub=0x22, subu=0x23, slt=0x2A, sltu=0x2B)            # rd, rs, rt
R3['and'], R3['or'], R3['xor'], R3['nor'] = 0x24, 0x25, 0x26, 0x27
SHIFT = dict(sll=0x00, srl=0x02, sra=0x03)                                         # rd, rt, sa
SHIFTV = dict(sllv=0x04, srlv=0x06, srav=0x07)                                     # rd, rt, rs
MULDIV = dict(mult=0x18, multu=0x19, div=0x1A, divu=0x1B)                          # rs, rt
MFROM = dict(mfhi=0x10, mflo=0x12)                                                 # rd
MTO = dict(mthi=0x11, mtlo=0x13, jr=0x08)                                          # rs
CODE = {'syscall': 0x0C, 'break': 0x0D}
# primary opcodes
I3 = dict(addi=(8, True), addiu=(9, False), slti=(10, True), sltiu=(11, False), andi=(12, False), ori=(13, False), xori=(14, False))
BR2 = dict(beq=4, bne=5)
BR1 = dict(blez=6, bgtz=7)
MEM = dict(lb=0x20, lh=0x21, lw=0x23, lbu=0x24, lhu=0x25, sb=0x28, sh=0x29, sw=0x2B)
JUMP = dict(j=2, jal=3, trap=0x1A)
HALF = dict(lui=(0x0F, True), lhi=(0x19, True), llo=(0x18, False))                 # the named half of a 32-bit value

MNEMONICS = sorted(m.upper() for m in list(R3) + list(SHIFT) + list(SHIFTV) + list(MULDIV) + list(MFROM) + list(MTO) + list(CODE) + list(I3)
                   + list(BR2) + list(BR1) + list(MEM) + list(JUMP) + list(HALF) + ['jalr'])
ALIGN = 4
REGS = ['$0', '$1', '$31', '$t0', '$T5', '$sp', '$RA', '$zero', '$16', '$fp']
CLASSES = {'R': REGS,
           'I': ['0', '1', '31', '32', '-1', '-32768', '-32769', '32767', '32768', '65535', '65536', '0xffff', '0x8000', '0x10000', '5', '0b11', 'lab', 'fwd', 'zp', 'nolab',
                 'lab+4', '<lab', '131068', '131072', '-131072', '6', '0x12345678', '268435456', '268435455', '0xffffffff', '4294967296', '-2147483648', '+1', '-4', '8']}
VOCAB = REGS + CLASSES['I'] + ['(', ')', '$32', '$', '$s8', 't0', '', '$-1', '$01', '0xzz']


def SHAPES(m):
    m = m.lower()
    if m in R3 or m in SHIFTV:
        return ['RRR']
    if m in SHIFT or m in I3 or m in BR2:
        return ['RRI']
    if m in MULDIV:
        return ['RR']
    if m in BR1 or m in HALF:
        return ['RI']
    if m in MFROM or m in MTO or m == 'jalr':
        return ['R']
    if m in MEM:
        return [('R', 'I', '(', 'R', ')')]
    if m in JUMP:
        return ['I']
    return ['']


def reg(t):
    r = lookup(t, REG)
    if r is None:
        raise Reject('register')
    return r


def notreg(t):
    need(not_(t.startswith('$')))


def word(op=0, rs=0, rt=0, rd=0, sa=0, fn=0, imm16=None):
    w = op << 26 | rs << 21 | rt << 16
    w = w | imm16 if imm16 is not None else w | rd << 11 | sa << 6 | fn
    return be(w, 4)


def distance(E, t):
    """branch field: words between the delay slot and the target"""
    notreg(t)
    k, v, dec = E.value(t)
    if k == 'num':                      # the distance in bytes
        v = low(fitnum(v, dec, 18, True), 18)
        need((v & 3) == 0)
        return v >> 2
    return branch(E, t, 18, E.pc + 4, align=4, shift=2)


def spec(E, M, T, n):
    m = M.lower()
    if m in R3:
        need(n == 4)
        return word(rd=reg(T[1]), rs=reg(T[2]), rt=reg(T[3]), fn=R3[m])
    if m in SHIFTV:
        need(n == 4)
        return word(rd=reg(T[1]), rt=reg(T[2]), rs=reg(T[3]), fn=SHIFTV[m])
    if m in SHIFT:
        need(n == 4)
        notreg(T[3])
        return word(rd=reg(T[1]), rt=reg(T[2]), sa=imm(E, T[3], 5), fn=SHIFT[m])
    if m in MULDIV:
        need(n == 3)
        return word(rs=reg(T[1]), rt=reg(T[2]), fn=MULDIV[m])
    if m in MFROM:
        need(n == 2)
        return word(rd=reg(T[1]), fn=MFROM[m])
    if m in MTO:
        need(n == 2)
        return word(rs=reg(T[1]), fn=MTO[m])
    if m == 'jalr':
        need(n == 2)
        return word(rs=reg(T[1]), rd=31, fn=9)
    if m in CODE:
        need(n == 1)
        return word(fn=CODE[m])
    if m in I3:
        need(n == 4)
        notreg(T[3])
        op, signed = I3[m]
        return word(op, rt=reg(T[1]), rs=reg(T[2]), imm16=imm(E, T[3], 16, signed))
    if m in BR2:
        need(n == 4)
        return word(BR2[m], rs=reg(T[1]), rt=reg(T[2]), imm16=distance(E, T[3]))
    if m in BR1:
        need(n == 3)
        return word(BR1[m], rs=reg(T[1]), imm16=distance(E, T[2]))
    if m in MEM:
        need(n == 6)
        notreg(T[2])
        need(and_(T[3] == '(', T[5] == ')'))
        k, v, dec = E.value(T[2])
        need(k == 'num', 'label offset')
        return word(MEM[m], rs=reg(T[4]), rt=reg(T[1]), imm16=low(fitnum(v, dec, 16, True), 16))
    if m in HALF:
        need(n == 3)
        notreg(T[2])
        op, high = HALF[m]
        v = imm(E, T[2], 32)
        return word(op, rt=reg(T[1]), imm16=v >> 16 if high else v & 0xFFFF)
    if m in JUMP:
        need(n == 2)
        notreg(T[1])
        v = imm(E, T[1], 32)
        if E.kind(T[1]) == 'num':
            need(v < 1 << 28)
        v = (v & 0xFFFFFFF) >> 2            # the region and the low two bits are not encoded
        return be(JUMP[m] << 26 | v, 4)
    raise Reject('unknown')
