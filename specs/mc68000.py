"""Motorola 68000 (M68000 Programmer's Reference Manual): MOVE/MOVEA, the immediate arithmetic group, LEA/JMP/JSR,
Bcc/DBcc, RTS, NOP, with the twelve addressing modes of the 68000.

Numeric operands of branches and of pc-relative modes are the displacement itself; for labels it is the distance from
the address of the extension word (instruction + 2 for branches)."""
import z3
from pyvc import core, interp, vals
from necroassembler.cpu import mc68000
from pyvc.driver import Unit
from pyvc.vals import SInt, SObj, fresh_int, lift_int, and_, or_, not_, is_sym
from .isa import Reject, need, fitnum, low, be, up, oneof, lookup, branch, imm, bind

ALIGN = 2
D = {'D%d' % k: k for k in range(8)}
A = {'A%d' % k: k for k in range(8)}
CONDITIONS = ('T', 'F', 'HI', 'LS', 'CC', 'CS', 'NE', 'EQ', 'VC', 'VS', 'PL', 'MI', 'GE', 'LT', 'GT', 'LE')
BCC = {'B' + x: k for k, x in enumerate(CONDITIONS) if k > 1}
DBCC = dict({'DB' + x: k for k, x in enumerate(CONDITIONS)}, DBRA=1)
IMMEDIATE = dict(ORI=0x0000, ANDI=0x0200, SUBI=0x0400, ADDI=0x0600, EORI=0x0A00, CMPI=0x0C00)
TO_STATUS = ('ORI', 'ANDI', 'EORI')
SIZES = ('', '.W', '.B', '.L')

MNEMONICS = sorted([m + s for m in IMMEDIATE for s in SIZES] + ['MOVE' + s for s in SIZES] + ['MOVEA', 'MOVEA.W', 'MOVEA.L', 'JMP', 'JSR', 'LEA', 'LEA.L',
                   'RTS', 'NOP'] + [m + s for m in BCC for s in ('', '.B', '.W')] + [m + s for m in DBCC for s in ('', '.W')])

DATA_ALTERABLE = ('Dn', '(An)', '(An)+', '-(An)', '(d16,An)', '(d8,An,Xn)', '.W', '.L')
CONTROL = ('(An)', '(d16,An)', '(d8,An,Xn)', '.W', '.L', '(d16,PC)', '(d8,PC,Xn)')
ALL = DATA_ALTERABLE + ('An', '#', '(d16,PC)', '(d8,PC,Xn)')


def displacement(t):
    return and_(not_(or_(oneof(t, D), oneof(t, A), t == '(', t == ')')), not_(t.startswith('#')))


def length(t):
    return t.length() if is_sym(t) else len(t)


def index_word(t):
    """bits 15..8 of the brief extension word"""
    u = up(t)
    if bool(u.endswith('.L')):
        size, t = 8, t[:-2]
    elif bool(u.endswith('.W')):
        size, t = 0, t[:-2]
    else:
        size = 0
    d = lookup(t, D)
    if d is not None:
        return d << 4 | size
    a = lookup(t, A)
    need(a is not None)
    return a << 4 | size | 0x80


def relative(E, t, bits, pos):
    k, v, dec = E.value(t)
    if k == 'num':
        return low(fitnum(v, dec, bits, True), bits)
    return branch(E, t, bits, E.pc + pos)


def ea(E, T, n, i, pos, size, allow):
    if E.sym:
        r = E.ctx.store.get('ea', {}).get(ea_key(i, pos, size, allow))
        if r is not None:               # the handler used the contract of _mode for this operand
            return operand(E.ctx, r)
    return ea_of(E, T, n, i, pos, size, allow)


def ea_of(E, T, n, i, pos, size, allow):
    """operand at token i, its extension words at byte `pos` of the instruction: (next token, mode, register, extension)"""
    def take(mode, *result):
        need(mode in allow, 'addressing mode')
        return result
    need(n > i)
    t = T[i]
    r = lookup(t, D)
    if r is not None:
        return take('Dn', i + 1, 0, r, [])
    r = lookup(t, A)
    if r is not None:
        return take('An', i + 1, 1, r, [])
    if bool(t.startswith('#')):
        need(length(t) > 1)
        need('#' in allow)
        v = be(imm(E, t[1:], 8 * size), max(size, 2))
        return i + 1, 7, 4, v
    if bool(t == '('):
        need(n > i + 2)
        x, y = T[i + 1], T[i + 2]
        r = lookup(x, A)
        if r is not None:
            need(y == ')')
            if '(An)+' in allow and bool(n > i + 3) and bool(T[i + 3] == '+'):       # (elsewhere the + is left over)
                return i + 4, 3, r, []
            return take('(An)', i + 3, 2, r, [])
        need(displacement(x))
        need(n > i + 3)
        z = T[i + 3]
        if bool(y == ')'):
            if bool(up(z) == '.W'):
                need('.W' in allow)
                return i + 4, 7, 0, be(imm(E, x, 16), 2)
            need(up(z) == '.L')
            need('.L' in allow)
            return i + 4, 7, 1, be(imm(E, x, 32), 4)
        r = lookup(y, A)
        if r is None:
            need(up(y) == 'PC')
        if bool(z == ')'):
            if r is not None:
                need('(d16,An)' in allow)
                return i + 4, 5, r, be(low(imm(E, x, 16, True), 16), 2)
            need('(d16,PC)' in allow)
            return i + 4, 7, 2, be(relative(E, x, 16, pos), 2)
        w = index_word(z)
        need(n > i + 4)
        need(T[i + 4] == ')')
        if r is not None:
            need('(d8,An,Xn)' in allow)
            return i + 5, 6, r, [w, low(imm(E, x, 8, True), 8)]
        need('(d8,PC,Xn)' in allow)
        return i + 5, 7, 3, [w, relative(E, x, 8, pos)]
    if '-(An)' in allow and bool(t == '-') and bool(n > i + 3) and bool(and_(T[i + 1] == '(', T[i + 3] == ')')):
        r = lookup(T[i + 2], A)
        if r is not None:
            return take('-(An)', i + 4, 4, r, [])
    need(displacement(t))
    if bool(up(t).endswith('.W')):
        return i + 1, 7, 0, be(imm(E, t[:-2], 16), 2)
    if bool(up(t).endswith('.L')):
        t = t[:-2]
    return i + 1, 7, 1, be(imm(E, t, 32), 4)


def word(op, *fields):
    for x, shift in fields:
        op = op | x << shift
    return be(op, 2)


def distance(E, t, bits):
    need(displacement(t))
    k, v, dec = E.value(t)
    if k == 'num':
        d = low(fitnum(v, dec, bits, True), bits)
        need((d & 1) == 0, 'alignment')
        return d
    return branch(E, t, bits, E.pc + 2, align=2)


def spec(E, m, T, n):
    base, _, suffix = m.partition('.')
    size = {'B': 1, 'W': 2, 'L': 4, '': 2}[suffix]
    if m == 'RTS':
        need(n == 1)
        return [0x4E, 0x75]
    if m == 'NOP':
        need(n == 1)
        return [0x4E, 0x71]
    if base in ('MOVE', 'MOVEA'):
        s = {1: 1, 2: 3, 4: 2}[size]
        i, sm, sr, sx = ea(E, T, n, 1, 2, size, [x for x in ALL if size > 1 or x != 'An'])
        need(n > i)
        r = lookup(T[i], A) if size > 1 else None
        if r is not None:
            need(n == i + 1)
            return word(0x0040, (s, 12), (r, 9), (sm, 3), (sr, 0)) + sx
        need(base == 'MOVE')
        i, dm, dr, dx = ea(E, T, n, i, 2 + len(sx), size, DATA_ALTERABLE)
        need(n == i)
        return word(0, (s, 12), (dr, 9), (dm, 6), (sm, 3), (sr, 0)) + sx + dx
    if base in IMMEDIATE:
        need(n > 2)
        op = IMMEDIATE[base]
        t = T[1]
        need(and_(t.startswith('#'), length(t) > 1))
        if base in TO_STATUS and bool(n == 3):
            if bool(up(T[2]) == 'CCR'):
                need(suffix in ('', 'B'))
                return be(op | 0x3C, 2) + be(imm(E, t[1:], 8), 2)
            if bool(up(T[2]) == 'SR'):
                need(suffix in ('', 'W'))
                return be(op | 0x7C, 2) + be(imm(E, t[1:], 16), 2)
        x = be(imm(E, t[1:], 8 * size), max(size, 2))
        i, dm, dr, dx = ea(E, T, n, 2, 2 + len(x), size, DATA_ALTERABLE)
        need(n == i)
        return word(op | {1: 0, 2: 0x40, 4: 0x80}[size], (dm, 3), (dr, 0)) + x + dx
    if base in ('JMP', 'JSR', 'LEA'):
        i, sm, sr, sx = ea(E, T, n, 1, 2, 0, CONTROL)
        if base == 'LEA':
            need(n == i + 1)
            r = lookup(T[i], A)
            need(r is not None)
            return word(0x41C0, (r, 9), (sm, 3), (sr, 0)) + sx
        need(n == i)
        return word(0x4EC0 if base == 'JMP' else 0x4E80, (sm, 3), (sr, 0)) + sx
    if base in BCC:
        need(n == 2)
        if size == 1:
            d = distance(E, T[1], 8)
            need(d != 0, 'a null short displacement announces a word one')
            return [0x60 | BCC[base], d]
        return [0x60 | BCC[base], 0] + be(distance(E, T[1], 16), 2)
    need(base in DBCC)
    need(n == 3)
    r = lookup(T[1], D)
    need(r is not None)
    return word(0x50C8, (DBCC[base], 8), (r, 0)) + be(distance(E, T[2], 16), 2)


# --- contract of AssemblerMC68000._mode -------------------------------------------------------------------------------
NAMES = {'(xxx).W': '.W', '(xxx).L': '.L', '#<data>': '#'}
NOT_AN = [x for x in ALL if x != 'An']
# (first token, byte of the first extension word, operand size, allowed modes): the uses proved by the units below
USES = ([(1, 2, s, ALL if s > 1 else NOT_AN) for s in (1, 2, 4)] + [(1, 2, None, CONTROL)]
        + [(i, 2 + k, None, DATA_ALTERABLE) for i, k in ((2, 0), (2, 2), (2, 4), (4, 0), (5, 0), (5, 2), (5, 4), (6, 2))])


def ea_key(i, pos, size, allow):
    """the operand size matters for immediates only"""
    return i, pos, size if '#' in allow else None, frozenset(allow)


SHAPE = {1: (0, 2, 4), 3: (0,), 4: (0, 2, 4), 5: (2,)}     # extension bytes possible for each number of tokens
USE_KEYS = {ea_key(*u) for u in USES}


def operand(c, key):
    """the outcome both sides agree on: rejected, or tokens used, mode, register and extension bytes (after linking)"""
    done = c.store['ea'].get(('done', key))
    if done is None:
        nm = 'ea%d.%d' % key[:2]
        if not c.branch(z3.Bool(nm + '.ok')):
            done = None, None, None, None
        else:
            used = next((k for k in (1, 3, 4) if c.branch(z3.Int(nm + '.used') == k)), 5)
            sizes = SHAPE[used]
            size = next((k for k in sizes[:-1] if c.branch(z3.Int(nm + '.size') == k)), sizes[-1])
            c.add(z3.Int('ntokens') >= key[0] + used)
            done = (key[0] + used, SInt(fresh_int(nm + '.mode', 0, 7).t, 7), SInt(fresh_int(nm + '.reg', 0, 7).t, 7),
                    [SInt(fresh_int('%s.x%d' % (nm, k), 0, 255).t, 255) for k in range(size)])
        c.store['ea'][('done', key)] = done
    if done[0] is None:
        raise Reject('operand')
    return done


def c_mode(c, args, kwargs):
    self, instr, i, offset, size, black = bind(args, kwargs, ('self', 'instr', 'start_index', 'offset', 'size', 'blacklist'), dict(blacklist=()))
    key = None
    if isinstance(i, int) and isinstance(offset, int) and isinstance(size, int) and not is_sym(black) and set(black) <= set(mc68000.MODES):
        key = ea_key(i, 2 + offset, size, [x for x in ALL if x not in {NAMES.get(y, y) for y in black}])
    if key not in USE_KEYS or c.merging:
        return interp.NOCONTRACT
    c.store.setdefault('ea', {})[key] = key
    try:
        j, m, r, x = operand(c, key)
        if 'An' not in key[3]:
            c.assume(not_(oneof(interp.getattr_(instr, 'tokens')[i], A)))       # postcondition, see the units
    except Reject:
        raise mc68000.InvalidMode(instr)
    return j, m, r, vals.SBytes([x])


def units(cls):
    """_mode itself, for every way it is used: index, mode, register and (once linked) extension bytes are those of ea_of"""
    host = cls()

    def unit(use):
        i, pos, size, allow = use
        black = tuple(k for k in mc68000.MODES if NAMES.get(k, k) not in allow)
        name = 'MC68000._mode(%d,%d,%s,%s)' % (i, pos - 2, size, 'not ' + ' '.join(black))

        def body(c):
            from . import isa
            c.static['cfg'] = host
            c.static['contracts'] = isa.CONTRACTS
            n = fresh_int('ntokens', 1, None)
            toks = vals.SymTokens('t', n, first=vals.STok(vals.tok_info('t0')))
            org, ctr = fresh_int('current_org', 0, None), fresh_int('org_counter', 0, None)
            c.add((org.t + ctr.t) % 2 == 0)
            asm = SObj(cls, dict(current_org=org, org_counter=ctr, assembled_bytes=vals.opaque_bytes('asm', True)), host=host)
            c.store['lift'] = {id(host): asm}
            ins = SObj(isa.st_mod.Instruction, dict(tokens=toks, line=1, context=None))
            sz = fresh_int('size', 0, 4) if size is None else size
            got = why = None
            try:
                j, m, r, data = interp.icall(interp.getattr_(asm, '_mode'), (ins, i, pos - 2, sz), dict(blacklist=black))
                got = isa.link_blob(c, asm, vals.SBytes.of(bytes(pos)) + data, True)
            except isa.OutOfBlob:
                c.fail(name + '/patch', None)
                return
            except Exception as e:
                if isinstance(e, (z3.Z3Exception, core.Unsupported)):
                    raise
                why = repr(e)
            E = isa.SymEnv(c, host, org + ctr)
            try:
                want = ea_of(E, toks, n, i, pos, size, allow)
            except Reject as e:
                want = None
                why = str(e)

            def info(model):
                return dict(implementation=isa.show(got, model) if got is not None else 'rejects (%s)' % why,
                            specification=isa.show(want[3], model) if want is not None else 'rejects (%s)' % why, operands=isa.describe(c, model))
            if got is None or want is None:
                c.prove(name + '/rejects-iff-spec', got is None and want is None, info)
                return
            j2, m2, r2, x = want
            if len(got) != pos + len(x) or j2 - i not in SHAPE or len(x) not in SHAPE[j2 - i]:
                c.fail(name + '/length', info)
                return
            if 'An' not in allow:
                c.prove(name + '/not-An', not_(oneof(toks[i], A)), info)
            got, x = isa.unify(c, got + [j, m, r], [0] * pos + x + [j2, m2, r2])
            c.prove(name + '/operand', z3.And([lift_int(a) == lift_int(b) for a, b in zip(got, x)]), info)
        return Unit(name, body, functions=['necroassembler.cpu.mc68000.AssemblerMC68000._mode'], timeout_ms=8000, budget=200)
    return [unit(u) for u in USES]


# --- CPython cross-check ----------------------------------------------------------------------------------------------
CLASSES = {'d': ['d%d' % k for k in range(8)] + ['D3', 'd8'], 'a': ['a%d' % k for k in range(8)] + ['A2', 'a8'],
           'x': ['d1', 'D2', 'a3', 'A4', 'd5.w', 'D6.L', 'a7.l', 'A0.W', 'a0.b', 'd7.L', 'pc', 'x'],
           'n': ['0', '1', '5', '-1', '-2', '17', '127', '128', '-128', '-129', '255', '256', '$7f', '$80', '$ff', '$1234', '$ffff', '$10000', '32767', '32768', '-32768', '-32769',
                 '65535', '65536', '70000', '%101', 'lab', 'fwd', 'zp', 'lab', 'nolab', '$ffffffff', '$100000000', '-', '+', '4294967295', '-2147483648', '-2147483649'],
           'w': ['100.w', '$ffff.W', 'lab.w', 'zp.W', '-1.w', '65536.w', 'lab.l', '$123456.L', '5.l', 'fwd.w', '.w'],
           '#': ['#0', '#1', '#-1', '#255', '#256', '#-128', '#-129', '#$ff', '#$1234', '#65535', '#65536', '#-32768', '#$ffffffff', '#4294967296', '#lab', '#zp', '#fwd', '#', '#nolab', '#100'],
           'S': ['ccr', 'CCR', 'sr', 'SR']}
VOCAB = sorted(set(sum(CLASSES.values(), []))) + ['(', ')', '+', '-', 'PC', 'pc', '.w', '.L', '']
MODES = ['d', 'a', '(a)', '(a)+', '-(a)', '(na)', '(nax)', '(np)', '(npx)', '(n).', '(n)!', 'n', 'w', '#']
CLASSES['p'] = ['pc', 'PC']
CLASSES['.'] = ['.w', '.W']
CLASSES['!'] = ['.l', '.L']
PER = 80


def SHAPES(m):
    base = m.split('.')[0]
    if base == 'MOVE':
        return [x + y for x in MODES for y in MODES]
    if base == 'MOVEA' or base == 'LEA':
        return [x + 'a' for x in MODES]
    if base in IMMEDIATE:
        return ['#' + y for y in MODES] + ['#S'] * 3
    if base in ('JMP', 'JSR'):
        return MODES
    return ['n', 'dn', 'n'] if base in BCC else ['dn']
