"""PowerPC (PowerPC User Instruction Set Architecture, Book I-III, and the POWER instructions of the 601): the forms the
assembler supports.

Opcodes are given as primary opcode and extended opcode; the base word is computed from them.  Numeric branch operands are
byte distances (relative branches) or byte addresses (absolute ones); the field holds words."""
from .isa import Reject, imm, branch, be, need, lookup, fitnum, low, oneof
from pyvc.vals import and_, or_, not_

GPR = {'R%d' % k: k for k in range(32)}
FPR = {'F%d' % k: k for k in range(32)}
ALIGN = 4

FORMS = {}          # mnemonic -> list of (base word, operands as (letter, position of the lowest bit, width))
OPERANDS = {'D': ('r', 21, 5), 'A': ('r', 16, 5), 'B': ('r', 11, 5), '0': ('0', 16, 5),
            'd': ('f', 21, 5), 'a': ('f', 16, 5), 'b': ('f', 11, 5), 'c': ('f', 6, 5),
            's': ('s', 0, 16), 'u': ('u', 0, 16), 'L': ('p', 2, 24), 'l': ('p', 2, 14), 'J': ('q', 2, 24), 'j': ('q', 2, 14),
            'T': ('n', 21, 5), 'I': ('n', 16, 5), 'N': ('n', 11, 5), 'H': ('n', 11, 2), 'C': ('n', 23, 3), 'G': ('n', 21, 1),
            'R': ('n', 18, 3), 'S': ('n', 21, 2), 'E': ('n', 21, 4), 'V': ('n', 12, 4), 'F': ('n', 17, 8), 'Z': ('n', 11, 15)}


def form(names, base, ops=''):
    for m in names.split():
        FORMS.setdefault(m.upper(), []).append((base, [OPERANDS[o] for o in ops]))


def xform(names, op, xo, ops, extra=0):
    form(names, op << 26 | xo << 1 | extra, ops)


def rc(names, op, xo, ops):
    """with and without the record bit"""
    for m in names.split():
        xform(m, op, xo, ops)
        xform(m + '.', op, xo, ops, 1)


def oe(names, xo, ops):
    """with and without the overflow and record bits"""
    for m in names.split():
        rc(m, 31, xo, ops)
        rc(m + 'o', 31, xo | 512, ops)


# fixed point arithmetic
for m, xo in dict(add=266, addc=10, adde=138, divw=491, divwu=459, mullw=235, mull=235, subf=40, subfc=8, subfe=136,
                  doz=264, mul=107, div=331, divs=363).items():
    oe(m, xo, 'DAB')
oe('sub', 40, 'DBA')
oe('subc', 8, 'DBA')
for m, xo in dict(addme=234, addze=202, neg=104, subfme=232, subfze=200, abs=360, nabs=488).items():
    oe(m, xo, 'DA')
for m, xo in dict(mulhw=75, mulwd=75, mulhwu=11).items():
    rc(m, 31, xo, 'DAB')
form('addi', 14 << 26, 'D0s')
form('addis', 15 << 26, 'D0u')
form('li', 14 << 26, 'Ds')
form('lis', 15 << 26, 'Du')
form('addic', 12 << 26, 'DAs')
form('addic.', 13 << 26, 'DAs')
form('subfic', 8 << 26, 'DAs')
form('dozi', 9 << 26, 'DAs')
form('mulli', 7 << 26, 'DAs')
xform('clcs', 31, 531, 'DA')
# logic
for m, xo in dict(eqv=284, nand=476, nor=124, orc=412, slw=24, srw=536, sraw=792, xor=316, andc=60, rrib=537, maskg=29, maskir=541,
                  slq=152, srq=664, sllq=216, srlq=728, sle=153, sre=665, sleq=217, sreq=729, sraq=920, srea=921).items():
    rc(m, 31, xo, 'ADB')
rc('and', 31, 28, 'ADB')
rc('or', 31, 444, 'ADB')
rc('cntlzw', 31, 26, 'AD')
rc('extsb', 31, 954, 'AD')
rc('extsh', 31, 922, 'AD')
for m, xo in dict(srawi=824, sliq=184, sriq=696, slliq=248, srliq=760, sraiq=952).items():
    rc(m, 31, xo, 'ADN')
for k, m in enumerate('ori oris xori xoris andi. andis.'.split()):
    form(m, (24 + k) << 26, 'ADu')
form('nop', 24 << 26)
# comparisons
for m, xo, d in (('cmp', 0, None), ('cmpl', 32, None), ('cmpw', 0, 0), ('cmplw', 32, 0), ('cmpd', 0, 1), ('cmpld', 32, 1)):
    base = 31 << 26 | xo << 1 | (d or 0) << 21
    form(m, base, 'CAB')
    if d is None:
        form(m, base, 'CGAB')
    else:
        form(m, base, 'AB')
for m, op, d, i in (('cmpi', 11, None, 's'), ('cmpli', 10, None, 'u'), ('cmpwi', 11, 0, 's'), ('cmplwi', 10, 0, 'u'), ('cmpdi', 11, 1, 's'), ('cmpldi', 10, 1, 'u')):
    base = op << 26 | (d or 0) << 21
    form(m, base, 'CA' + i)
    if d is None:
        form(m, base, 'CGA' + i)
    else:
        form(m, base, 'A' + i)
# traps
TO = dict(lt=16, le=20, eq=4, ge=12, gt=8, nl=12, ne=24, ng=20, llt=2, lle=6, lge=5, lgt=1, lnl=5, lng=6)
for cc, to in TO.items():
    xform('tw' + cc, 31, 4, 'AB', to << 21)
    form('tw' + cc + 'i', 3 << 26 | to << 21, 'As')
form('twi', 3 << 26, 'TAs')
xform('tw', 31, 4, 'TAB')
xform('trap', 31, 4, '', 31 << 21)
# branches
for suffix, aa, lk, L, l in (('', 0, 0, 'L', 'l'), ('l', 0, 1, 'L', 'l'), ('a', 1, 0, 'J', 'j'), ('la', 1, 1, 'J', 'j')):
    x = aa << 1 | lk
    form('b' + suffix, 18 << 26 | x, L)
    form('bc' + suffix, 16 << 26 | x, 'TI' + l)
    form('bdnz' + suffix, 16 << 26 | 16 << 21 | x, l)
    form('bdz' + suffix, 16 << 26 | 18 << 21 | x, l)
CC = dict(lt=(12, 0), le=(4, 1), eq=(12, 2), ge=(4, 0), gt=(12, 1), nl=(4, 0), ne=(4, 2), ng=(4, 1), so=(12, 3), ns=(4, 3), un=(12, 3), nu=(4, 3))
for cc, (bo, bi) in CC.items():
    for suffix, aa, lk, l in (('', 0, 0, 'l'), ('l', 0, 1, 'l'), ('a', 1, 0, 'j'), ('la', 1, 1, 'j')):
        form('b' + cc + suffix, 16 << 26 | bo << 21 | bi << 16 | aa << 1 | lk, l)
    for lk in (0, 1):
        xform('b' + cc + 'lr' + 'l' * lk, 19, 16, '', bo << 21 | bi << 16 | lk)
        xform('b' + cc + 'ctr' + 'l' * lk, 19, 528, '', bo << 21 | bi << 16 | lk)
for lk in (0, 1):
    for name, xo in (('bcctr', 528), ('bclr', 16)):
        xform(name + 'l' * lk, 19, xo, 'TI', lk)
        xform(name + 'l' * lk, 19, xo, 'TIH', lk)
    for name, bo, xo in (('blr', 20, 16), ('bdnzlr', 16, 16), ('bdzlr', 18, 16), ('bctr', 20, 528)):
        xform(name + 'l' * lk, 19, xo, '', bo << 21 | lk)
        xform(name + 'l' * lk, 19, xo, 'H', bo << 21 | lk)
    xform('bctr' + 'l' * lk, 19, 528, 'TI', lk)
# condition register
for m, xo in dict(crand=257, crandc=129, creqv=289, crnand=225, crnor=33, cror=449, crorc=417, crxor=193).items():
    xform(m, 19, xo, 'TIN')
form('mcrf', 19 << 26, 'CR')
xform('mcrfs', 63, 64, 'CR')
xform('mcrxr', 31, 512, 'C')
# loads and stores, indexed
for m, xo in dict(lbzx=87, lhzx=279, lhax=343, lwzx=23, lhbrx=790, lwbrx=534, lswx=533, lwarx=20, stbx=215, sthx=407, stwx=151, sthbrx=918,
                  stwbrx=662, stswx=661, eciwx=310, ecowx=438).items():
    xform(m, 31, xo, 'D0B')
rc('lscbx', 31, 277, 'D0B')
xform('stwcx.', 31, 150, 'D0B', 1)
for m, xo in dict(lbzux=119, lhzux=311, lhaux=375, lwzux=55, stbux=247, sthux=439, stwux=183).items():
    xform(m, 31, xo, 'DAB')
for m, xo in dict(lfsx=535, lfdx=599, stfiwx=983, stfsx=663, stfdx=727).items():
    xform(m, 31, xo, 'd0B')
for m, xo in dict(lfsux=567, lfdux=631, stfsux=695, stfdux=759).items():
    xform(m, 31, xo, 'dAB')
xform('lswi', 31, 597, 'D0N')
xform('stswi', 31, 725, 'D0N')
# cache, storage and system
for m, xo in dict(icbi=982, dcbt=278, dcbtst=246, dcbz=1014, dcbst=54, dcbf=86, dcba=758, dcbi=470).items():
    xform(m, 31, xo, '0B')
xform('dcbzl', 31, 1014, '0B', 1 << 21)
xform('dcbt', 31, 278, '0BE')
for m, xo in dict(dst=342, dstst=374).items():
    xform(m, 31, xo, 'ABS')
    xform(m + 't', 31, xo, 'ABS', 1 << 25)
xform('dss', 31, 822, 'S')
xform('dssall', 31, 822, '', 1 << 25)
xform('sync', 31, 598, '')
xform('sync', 31, 598, 'S')
xform('lwsync', 31, 598, '', 1 << 21)
xform('ptesync', 31, 598, '', 2 << 21)
xform('eieio', 31, 854, '')
xform('isync', 19, 150, '')
xform('rfi', 19, 50, '')
form('sc', 17 << 26 | 2)
xform('tlbia', 31, 370, '')
xform('tlbsync', 31, 566, '')
xform('tlbld', 31, 978, 'B')
xform('tlbli', 31, 1010, 'B')
xform('mtsrin', 31, 242, 'DB')
xform('mfsrin', 31, 659, 'DB')
form('attn', 256 << 1, 'Z')


def spr(names, xo, n):
    xform(names, 31, xo, 'D', (n & 31) << 16 | (n >> 5) << 11)


for nm, n in dict(mq=0, xer=1, lr=8, ctr=9).items():
    spr('mf' + nm, 339, n)
    spr('mt' + nm, 467, n)
for nm, n in dict(mfrtcu=4, mfrtcl=5).items():
    spr(nm, 339, n)
for nm, n in dict(mtrtcu=20, mtrtcl=21, mttbl=284, mttbu=285).items():
    spr(nm, 467, n)
spr('mftb', 371, 268)
spr('mftbu', 371, 269)
xform('mfcr', 31, 19, 'D')
xform('mfmsr', 31, 83, 'D')
xform('mtmsr', 31, 146, 'D')
# floating point
for m, xo in dict(fmr=72, fabs=264, fneg=40, fnabs=136, frsp=12, frsqrte=26, fsqrt=22, fctiw=14, fctiwz=15).items():
    rc(m, 63, xo, 'db')
rc('fres', 59, 24, 'db')
rc('fsqrts', 59, 22, 'db')
for m, xo in dict(fadd=21, fsub=20, fdiv=18).items():
    rc(m, 63, xo, 'dab')
    rc(m + 's', 59, xo, 'dab')
rc('fmul', 63, 25, 'dac')
rc('fmuls', 59, 25, 'dac')
for m, xo in dict(fmadd=29, fmsub=28, fnmadd=31, fnmsub=30).items():
    rc(m, 63, xo, 'dacb')
    rc(m + 's', 59, xo, 'dacb')
rc('fsel', 63, 23, 'dacb')
xform('fcmpu', 63, 0, 'Cab')
xform('fcmpo', 63, 32, 'Cab')
rc('mffs', 63, 583, 'd')
rc('mtfsb0', 63, 70, 'T')
rc('mtfsb1', 63, 38, 'T')
rc('mtfsfi', 63, 134, 'CV')
rc('mtfsf', 63, 711, 'Fb')

MNEMONICS = sorted(FORMS)


def not_register(t):
    need(not_(or_(oneof(t, GPR), oneof(t, FPR))))


def reg(t, table):
    r = lookup(t, table)
    need(r is not None, 'register')
    return r


def operand(E, kind, width, t):
    """(field value, is it a label)"""
    if kind == 'r':
        return reg(t, GPR), False
    if kind == '0':                         # rA or the literal 0
        return reg(t, dict(GPR, **{'0': 0})), False
    if kind == 'f':
        return reg(t, FPR), False
    not_register(t)
    label = E.kind(t) != 'num'
    if kind == 'p':
        if not label:
            k, v, dec = E.value(t)
            v = low(fitnum(v, dec, width + 2, True), width + 2)
            need(v & 3 == 0)
            return v >> 2, False
        return branch(E, t, width + 2, E.pc, align=4, shift=2), True
    if kind == 'q':
        if not label:
            k, v, dec = E.value(t)
            v = low(fitnum(v, dec, width + 2, True), width + 2)
            need(v & 3 == 0)
            return v >> 2, False
        v = imm(E, t, width + 1)
        need(v & 3 == 0)
        return v >> 2, True
    return imm(E, t, width, kind == 's'), label


def spec(E, m, T, n):
    for base, ops in FORMS[m]:
        if not bool(n == len(ops) + 1):
            continue
        w, labels = base, 0
        for k, (kind, pos, width) in enumerate(ops):
            v, label = operand(E, kind, width, T[k + 1])
            labels += label
            w = w | v << pos
        need(labels <= 1, 'only one field of a word can be a label')
        return be(w, 4)
    raise Reject('operands')


REGS = ['r0', 'r1', 'R2', 'r31', 'r16', 'R0', 'r15']
CLASSES = {'r': REGS, '0': REGS + ['0'], 'f': ['f0', 'f1', 'F2', 'f31', 'F17'],
           'n': ['0', '1', '2', '3', '4', '7', '8', '15', '16', '31', '32', '-1', '0x1f', '0x20', '127', '128', '255', '32767', '32768', 'lab', 'fwd', 'zp', 'nolab', 'R3', 'F1'],
           'i': ['0', '1', '-1', '-32768', '-32769', '32767', '32768', '65535', '65536', '0xffff', '0x8000', '0x10000', 'lab', 'fwd', 'zp', 'nolab', 'lab+4', 'R7'],
           'p': ['0', '4', '-4', '6', '1', '32764', '32768', '-32768', '-32772', '65532', '0xfffc', '0x10000', '33554428', '33554432', '-33554432', '-33554436',
                 '0x3fffffc', '0x4000000', 'lab', 'fwd', 'zp', 'nolab', 'lab+4', 'lab+2', 'R3']}
for k, v in dict(s='i', u='i', q='p').items():
    CLASSES[k] = CLASSES[v]
VOCAB = REGS + CLASSES['f'] + CLASSES['n'] + CLASSES['i'] + CLASSES['p'] + ['r32', 'f32', 'cr0', '', 'r', 'r01', '$3', '(', 'r-1']
PER = 25


def SHAPES(m):
    return [''.join(k for k, p, w in ops) for b, ops in FORMS.get(m, [(0, [])])]
