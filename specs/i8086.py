"""Intel 8086 (8086 Family User's Manual, table 4-12): the forms the assembler supports.

Memory operands are [BX|BP + SI|DI], [SI], [DI], [BP], [BX], each with an optional 16-bit displacement, or [address] where
the form has its own direct address.  A memory operand without a register to tell its size is a byte (MOV, SHL, SHR) or a
word (POP, MUL, DIV).  Numeric branch operands are the distance from the next instruction."""
import z3
from necroassembler.cpu import intel8086
from pyvc import core, interp, vals
from pyvc.driver import Unit
from pyvc.vals import SInt, fresh_int, lift_int, and_, or_, not_, is_sym
from .isa import Reject, need, fitnum, low, le, up, oneof, lookup, branch, imm, bind

R8 = dict(AL=0, CL=1, DL=2, BL=3, AH=4, CH=5, DH=6, BH=7)
R16 = dict(AX=0, CX=1, DX=2, BX=3, SP=4, BP=5, SI=6, DI=7)
SEG = dict(ES=0, CS=1, SS=2, DS=3)
PAIR = {('BX', 'SI'): 0, ('BX', 'DI'): 1, ('BP', 'SI'): 2, ('BP', 'DI'): 3}
SINGLE = dict(SI=4, DI=5, BP=6, BX=7)

PLAIN = dict(DAA=0x27, DAS=0x2F, AAA=0x37, AAS=0x3F, NOP=0x90, CBW=0x98, CWD=0x99, WAIT=0x9B, PUSHF=0x9C, POPF=0x9D, SAHF=0x9E, LAHF=0x9F,
             MOVSB=0xA4, MOVSW=0xA5, CMPSB=0xA6, CMPSW=0xA7, STOSB=0xAA, STOSW=0xAB, LODSB=0xAC, LODSW=0xAD, SCASB=0xAE, SCASW=0xAF,
             INTO=0xCE, IRET=0xCF, XLAT=0xD7, LOCK=0xF0, REPNZ=0xF2, REPZ=0xF3, HLT=0xF4, CMC=0xF5, CLC=0xF8, STC=0xF9, CLI=0xFA, STI=0xFB,
             CLD=0xFC, STD=0xFD)
ALU = {m: 8 * k for k, m in enumerate(('ADD', 'OR', 'ADC', 'SBB', 'AND', 'SUB', 'XOR', 'CMP'))}
SHORT = dict({m: 0x70 + k for k, m in enumerate(('JO', 'JNO', 'JB', 'JNB', 'JZ', 'JNZ', 'JBE', 'JA', 'JS', 'JNS', 'JPE', 'JPO', 'JL', 'JGE', 'JLE', 'JG'))},
             LOOPNZ=0xE0, LOOPZ=0xE1, LOOP=0xE2, JCXZ=0xE3)
GROUP = dict(DIV=6, MUL=4)
SHIFT = dict(SHL=4, SHR=5)
MNEMONICS = sorted(set(PLAIN) | set(ALU) | set(SHORT) | set(GROUP) | set(SHIFT) |
                   set('MOV TEST XCHG LEA LES LDS POP PUSH INC DEC JMP CALL RET RETF INT AAM AAD IN OUT'.split()))


def data(t):
    """text of an immediate: anything but a register or a bracket"""
    return not_(or_(oneof(t, R8), oneof(t, R16), oneof(t, SEG), t == '[', t == ']'))


INDEX_AT = (1, 3, 5)        # tokens between the brackets


def closes(T, n, s, k):
    """the first ] from token s on is the one at s + k"""
    if is_sym(T):
        return bool(vals.mk_bool(T.found_at(']', s, k)))
    return n > s + k and T[s + k] == ']' and ']' not in T[s:s + k]


def memory(E, T, s, k):
    """what stands between the brackets: (mod, r/m, text of the displacement or None)"""
    if E.sym:
        r = E.ctx.store.get('mem', {}).get((s, k))
        if r is not None:           # the handler used the contract of _get_modrm_mod
            return outcome(E.ctx, s, k)
    return memory_of(T, s, k)


def memory_of(T, s, k):
    a = T[s]
    rm = lookup(a, SINGLE)
    need(rm is not None)
    if k == 1:
        # there is no [BP] without displacement
        return (2, 6, '0') if bool(up(a) == 'BP') else (0, rm, None)
    p, b = T[s + 1], T[s + 2]
    if bool(and_(p == '+', or_(up(a) == 'BX', up(a) == 'BP'), or_(up(b) == 'SI', up(b) == 'DI'))):
        rm = 2 * (1 if bool(up(a) == 'BP') else 0) + (1 if bool(up(b) == 'DI') else 0)
        if k == 3:
            return 0, rm, None
        p, b = T[s + 3], T[s + 4]
    else:
        need(k == 3)
    need(or_(p == '+', p == '-'))
    return 2, rm, p + b


# --- contract of _get_modrm_mod ---------------------------------------------------------------------------------------
def outcome(c, s, k):
    """rejected, or mod, r/m and the displacement text: fixed by the tokens s .. s + k - 1"""
    r = c.store['mem'].get((s, k, 'done'))
    if r is None:
        nm = 'mem%d.%d' % (s, k)
        if not c.branch(z3.Bool(nm + '.ok')):
            r = 'no'
        else:
            rm = SInt(fresh_int(nm + '.rm', 0, 7).t, 7)
            if k == 1:
                r = (2, 6, '0') if c.branch(rm.t == 6) else (0, rm, None)
            elif k == 5 or c.branch(z3.Bool(nm + '.displaced')):
                r = 2, rm, vals.STok(vals.tok_info(nm + '.displacement'))
            else:
                r = 0, rm, None
        c.store['mem'][s, k, 'done'] = r
    if r == 'no':
        raise Reject('memory operand')
    return r


def length_case(n):
    if isinstance(n, int):
        return n if n in INDEX_AT else None
    return next((k for k in INDEX_AT if bool(n == k)), None)


def c_modrm_mod(c, args, kwargs):
    arg, = bind(args, kwargs, ('arg',))
    if not isinstance(arg, vals.SymTokens) or arg.name != 't' or c.merging or not isinstance(arg.start, int):
        return interp.NOCONTRACT
    k = length_case(arg.length())
    if k is None:
        raise intel8086.InvalidOpCodeArguments()
    s = arg.start
    c.store.setdefault('mem', {})[s, k] = True
    try:
        mod, rm, d = outcome(c, s, k)
        if k == 1:
            c.assume(oneof(arg[0], SINGLE))             # postconditions, see the unit
    except Reject:
        if k == 1:
            c.assume(not_(oneof(arg[0], SINGLE)))
        raise intel8086.InvalidOpCodeArguments()
    return mod, rm, k, d


def text_key(t):
    return t if isinstance(t, str) else t.key


def units(cls):
    def body(c):
        c.static['cfg'] = cls()
        c.static['contracts'] = {}
        n = fresh_int('n', 0, None)
        toks = vals.SymTokens('t', n)
        k = length_case(n)
        got = want = None
        try:
            got = interp.icall(intel8086._get_modrm_mod, (toks,), {})
        except Exception as e:
            if isinstance(e, (z3.Z3Exception, core.Unsupported)):
                raise
        try:
            need(k is not None)
            want = memory_of(toks, 0, k)
        except Reject:
            pass
        name = '8086._get_modrm_mod/'
        if got is None or want is None:
            c.prove(name + 'rejects-iff-spec', got is None and want is None)
            if k == 1:
                c.prove(name + 'no-register', not_(oneof(toks[0], SINGLE)))
            return
        mod, rm, d = want
        if k == 1:
            c.prove(name + 'register', oneof(toks[0], SINGLE))
            c.prove(name + 'shape', z3.And((lift_int(rm) == 6) == (lift_int(mod) == 2)))
            ok = d == got[3]
        else:
            ok = (d is None) == (mod == 0) and (k == 3 or d is not None) and (d is None) == (got[3] is None) and (
                d is None or text_key(d) == text_key(got[3]))
        c.prove(name + 'displacement', ok)
        c.prove(name + 'result', z3.And(*[lift_int(x) == lift_int(y) for x, y in zip(got, (mod, rm, k))]))
    return [Unit('8086._get_modrm_mod', body, functions=['necroassembler.cpu.intel8086._get_modrm_mod'], timeout_ms=8000)]


class Operand:
    """cls: r8 r16 seg | m (mod, rm, displacement) | d (address text) | x (any other text)"""

    def __init__(self, E, T, n, i):
        need(n > i)
        t = self.t = T[i]
        self.next = i + 1
        for cls, table in (('r8', R8), ('r16', R16), ('seg', SEG)):
            r = lookup(t, table)
            if r is not None:
                self.cls, self.v = cls, r
                return
        if not bool(t == '['):
            need(t != ']')
            self.cls = 'x'
            return
        k = next((k for k in INDEX_AT if closes(T, n, i + 1, k)), None)
        need(k is not None)
        self.next = i + k + 2
        a = T[i + 1]
        if k == 1 and not bool(oneof(a, SINGLE)):
            need(not_(or_(oneof(a, R8), oneof(a, R16), oneof(a, SEG))))
            self.cls, self.t = 'd', a
            return
        self.cls = 'm'
        self.v = memory(E, T, i + 1, k)

    def modrm(self, E, reg):
        """ModR/M byte and displacement of a register or memory operand"""
        if self.cls == 'm':
            mod, rm, disp = self.v
            return [mod << 6 | reg << 3 | rm] + ([] if disp is None else le(low(imm(E, disp.lstrip('+'), 16, True), 16), 2))
        return [0xC0 | reg << 3 | self.v]


def target(t):
    return not_(or_(oneof(t, R8), oneof(t, R16), oneof(t, SEG)))


def distance(E, t, bits, end):
    need(target(t))
    k, v, dec = E.value(t)
    if k == 'num':
        return le(low(fitnum(v, dec, bits, True), bits), bits // 8)
    return le(branch(E, t, bits, E.pc + end), bits // 8)


def has_colon(t):
    return bool(t.contains(':') if is_sym(t) else ':' in t)


def far(E, t):
    if is_sym(t):
        parts = t.split(':')
        need(parts.length() == 2)
        s, o = parts.item(0), parts.item(1)
    else:
        need(t.count(':') == 1)
        s, o = t.split(':')
    o = le(imm(E, o, 16), 2)
    return o + le(imm(E, s, 16), 2)


def spec(E, m, T, n):
    if m in PLAIN:
        need(n == 1)
        return [PLAIN[m]]
    if m in ('RET', 'RETF'):
        op = 0xC2 if m == 'RET' else 0xCA
        if bool(n == 1):
            return [op + 1]
        need(n == 2)
        need(data(T[1]))
        return [op] + le(imm(E, T[1], 16), 2)
    if m in ('AAM', 'AAD'):
        op = 0xD4 if m == 'AAM' else 0xD5
        if bool(n == 1):
            return [op, 10]
        need(n == 2)
        k, v, dec = E.value(T[1])
        need(k == 'num')
        return [op, low(fitnum(v, dec, 8), 8)]
    need(n > 1)
    if m in SHORT:
        need(n == 2)
        need(not has_colon(T[1]))
        return [SHORT[m]] + distance(E, T[1], 8, 2)
    if m in ('JMP', 'CALL'):
        need(n == 2)
        if has_colon(T[1]):
            return [0xEA if m == 'JMP' else 0x9A] + far(E, T[1])
        return [0xE9 if m == 'JMP' else 0xE8] + distance(E, T[1], 16, 3)
    if m == 'INT':
        need(n == 2)
        if bool(T[1] == '3'):
            return [0xCC]
        need(data(T[1]))
        return [0xCD] + le(imm(E, T[1], 8), 1)
    if m == 'OUT':
        need(n == 3)
        al = bool(up(T[2]) == 'AL')
        need(or_(al, up(T[2]) == 'AX'))
        if bool(up(T[1]) == 'DX'):
            return [0xEE if al else 0xEF]
        need(data(T[1]))
        return [0xE6 if al else 0xE7] + le(imm(E, T[1], 8), 1)
    a = Operand(E, T, n, 1)
    if m in ('LES', 'LDS'):         # only the form with a direct address
        need(a.cls == 'r16')
        need(n == 5)
        need(and_(T[2] == '[', T[4] == ']', target(T[3])))
        return [0xC4 if m == 'LES' else 0xC5, 6 | a.v << 3] + le(imm(E, T[3], 16), 2)
    if m in ('POP', 'PUSH', 'INC', 'DEC') or m in GROUP or m in SHIFT:
        if m in SHIFT and bool(n > a.next):
            need(and_(n == a.next + 1, T[a.next] == '1'))
        else:
            need(n == a.next)
        if m in SHIFT:
            need(a.cls in ('r8', 'r16', 'm'))
            return [0xD1 if a.cls == 'r16' else 0xD0] + a.modrm(E, SHIFT[m])
        if m in GROUP:
            need(a.cls in ('r16', 'm'))
            return [0xF7] + a.modrm(E, GROUP[m])
        if a.cls == 'r16':
            return [dict(INC=0x40, DEC=0x48, PUSH=0x50, POP=0x58)[m] | a.v]
        need(m in ('PUSH', 'POP'))
        if a.cls == 'seg':
            need(or_(m == 'PUSH', up(a.t) != 'CS'))
            return [(6 if m == 'PUSH' else 7) | a.v << 3]
        need(and_(m == 'POP', a.cls == 'm'))
        return [0x8F] + a.modrm(E, 0)
    b = Operand(E, T, n, a.next)
    need(n == b.next)
    al, ax = (a.cls == 'r8' and bool(up(a.t) == 'AL')), (a.cls == 'r16' and bool(up(a.t) == 'AX'))
    forms = a.cls, b.cls
    if m == 'IN':
        need(al or ax)
        w = 1 if ax else 0
        if b.cls == 'r16':
            need(up(b.t) == 'DX')
            return [0xEC | w]
        need(b.cls == 'x')
        return [0xE4 | w] + le(imm(E, b.t, 8), 1)
    if m == 'LEA':
        need(forms == ('r16', 'm'))
        return [0x8D] + b.modrm(E, a.v)
    if m in ('TEST', 'XCHG'):
        if m == 'TEST' and (al or ax) and b.cls == 'x':
            return [0xA8 if al else 0xA9] + le(imm(E, b.t, 8 if al else 16), 1 if al else 2)
        need(forms in (('r8', 'r8'), ('r8', 'm'), ('r16', 'r16'), ('r16', 'm')))
        return [(0x84 if m == 'TEST' else 0x86) | (1 if a.cls == 'r16' else 0)] + b.modrm(E, a.v)
    op = 0x88 if m == 'MOV' else ALU[m]
    if forms in (('r8', 'r8'), ('m', 'r8')):
        return [op] + a.modrm(E, b.v)
    if forms in (('r16', 'r16'), ('m', 'r16')):
        return [op | 1] + a.modrm(E, b.v)
    if forms in (('r8', 'm'), ('r16', 'm')):
        return [op | (2 if a.cls == 'r8' else 3)] + b.modrm(E, a.v)
    if m != 'MOV':
        need((al or ax) and b.cls == 'x')
        return [op | (4 if al else 5)] + le(imm(E, b.t, 8 if al else 16), 1 if al else 2)
    if b.cls == 'seg':
        need(a.cls in ('r16', 'm'))
        return [0x8C] + a.modrm(E, b.v)
    if a.cls == 'seg':
        need(b.cls in ('r16', 'm'))
        return [0x8E] + b.modrm(E, a.v)
    if b.cls == 'd':
        need(al or ax)
        return [0xA0 if al else 0xA1] + le(imm(E, b.t, 16), 2)
    if a.cls == 'd':
        need(or_(up(b.t) == 'AL', up(b.t) == 'AX'))
        return [0xA2 if bool(up(b.t) == 'AL') else 0xA3] + le(imm(E, a.t, 16), 2)
    need(b.cls == 'x')
    if a.cls == 'r8':
        return [0xB0 | a.v] + le(imm(E, b.t, 8), 1)
    if a.cls == 'r16':
        return [0xB8 | a.v] + le(imm(E, b.t, 16), 2)
    need(a.cls == 'm')
    x = a.modrm(E, 0)
    return [0xC6] + x + le(imm(E, b.t, 8), 1)


# MOV covers most paths: one unit per shape of the first operand
SPLIT = {'MOV': [lambda T, n: bool(n > 1) and T[1] == '[', lambda T, n: bool(n > 1) and oneof(T[1], R16), lambda T, n: bool(n > 1) and oneof(T[1], R8)]}


# --- recorded findings: pinned by the existing tests ------------------------------------------------------------------
FINDINGS = [('AAM', []), ('AAD', []), ('AAM', ['0x0A']), ('AAD', ['10'])]


def deviation(E, m, T, n):
    if m not in ('AAM', 'AAD') or bool(n > 2):
        return None
    if bool(n == 2):
        k, v, dec = E.value(T[1])
        if k != 'num' or not bool(low(fitnum(v, dec, 8), 8) == 10):
            return None
    return '%s (base 10): the base byte 0A is missing' % m, lambda: [0xD4 if m == 'AAM' else 0xD5]


# --- CPython cross-check ----------------------------------------------------------------------------------------------
CLASSES = {'8': list(R8) + ['al', 'Bh', 'AL'], '6': list(R16) + ['ax', 'Si', 'AX', 'DX'], 's': list(SEG) + ['ds'],
           'B': ['BX', 'BP', 'bp', 'bx'], 'X': ['SI', 'DI', 'si'], 'b': ['BX', 'BP', 'SI', 'DI', 'bp', 'AX', 'CL'], '+': ['+', '-'],
           'n': ['0', '1', '2', '10', '0x0A', '0x17', '127', '128', '-1', '-128', '-129', '255', '256', '0xff', '0ffh', '0x100', '32767', '32768', '-32768', '-32769', '65535',
                 '65536', '0xffff', '0x10000', '0x1000', 'lab', 'fwd', 'zp', 'nolab', '3', '0b101', '101b', '17d'],
           'f': ['1:2', '0x1234:0x5678', 'lab:zp', 'zp:lab', '65535:65536', '1:2:3', ':', '1:', ':1', 'fwd:fwd', '0xffff:0xffff'],
           '1': ['1', '1', '2', 'CL', '0x1'], 'P': ['+']}
VOCAB = sorted(set(sum(CLASSES.values(), []))) + ['[', ']', '', '3']
MEM = ['[b]', '[b+n]', '[BPX]', '[BPX+n]', '[B+n]']
PER = 60


def SHAPES(m):
    if m in PLAIN or m in ('RET', 'RETF', 'AAM', 'AAD'):
        return ['', '', 'n']
    if m in SHORT or m in ('JMP', 'CALL', 'INT'):
        return ['n', 'n', 'f']
    if m in SHIFT:
        return [x + y for x in ['8', '6'] + MEM for y in ('', '1')]
    if m in GROUP or m in ('POP', 'PUSH', 'INC', 'DEC'):
        return ['6', 's', '8'] + MEM
    if m in ('IN', 'OUT'):
        return ['8n', '6n', 'n8', 'n6', '86', '68', '66']
    return [x + y for x in ['8', '6', 's'] + MEM for y in ['8', '6', 's', 'n', '[n]'] + MEM] + ['[n]8', '[n]6', '8n', '6n'] * 3
