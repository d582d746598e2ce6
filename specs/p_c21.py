"""C21: cartridge and console headers and checksums."""
import ast
import os
import hashlib
import struct
import sys
import tempfile
import time
import z3
from pyvc import core, interp, vals, models
from pyvc.core import Unsupported, PathKill
from pyvc.driver import Unit
from pyvc.loops import Rule, Poison, assigned_names
from pyvc.models import SSeq, SEnum, SRange
from pyvc.vals import (SymBase, SInt, SBool, SBytes, SObj, Seg, SymTokens, STok, is_sym, lift_int, fresh_int, opaque_bytes, bytes_eq_goal, tok_info)
from necroassembler.assembler import Assembler
from necroassembler.exceptions import AssemblerException, LabelNotAllowed, InvalidArgumentsForDirective
from necroassembler.statements import Directive
from necroassembler.platforms import gameboy, nes, gba, genesis, psx
from .isa import ASM
from .objs import event, events
from . import isa, p_c06

LEVEL = 'proof'
ASSUMPTIONS = ['the image the drivers receive is the result of assemble_file and link (C01-C10); link runs the registered passes (C05)',
               'the bytes of the operands are those of parse_bytes_or_ascii (C07)',
               'files written are the ones opened, sequentially', 'an executable for the PSX is smaller than 4 GiB and not empty']
GB, NES = 'necroassembler.platforms.gameboy.AssemblerGameboy.', 'necroassembler.platforms.nes.AssemblerNES.'
MOD = 65536

# documented layout of the cartridge header at 0x100 (Pan Docs): entry point, logo, then the fields
LOGO = bytes.fromhex('CEED6666CC0D000B03730083000C000D0008111F8889000EDCCC6EE6DDDDD999BBBB67636E0EECCCDDDC999FBBB9333E')
GB_HEADER = bytearray(0x50)
GB_HEADER[0:4] = b'\x00\xC3\x50\x01'            # nop; jp $0150
GB_HEADER[4:0x34] = LOGO
GB_HEADER[0x4A] = 1                             # destination: not Japan
GB_HEADER[0x4B] = 0x33                          # the new licensee code is used
GB_HEADER = bytes(GB_HEADER)
NES_HEADER = b'NES\x1a' + bytes([2, 0]) + bytes(10)     # 2 PRG banks, CHR RAM, mapper 0
GB_FIELDS = dict(cartridge_title=(0x134, 16), cartridge_license=(0x144, 2), cartridge_cgb=(0x143, 1), cartridge_sgb=(0x146, 1), cartridge_type=(0x147, 1),
                 cartridge_destination=(0x14A, 1))
NES_FIELDS = dict(cartridge_prg_roms=(4, 1), cartridge_chr_roms=(5, 1))


def at(b, i):
    return b.at(i if not isinstance(i, int) else z3.IntVal(i))


def update(img, pairs):
    """the image with some bytes replaced"""
    old = SBytes(img.segs)
    n = lift_int(old.length())

    def f(k):
        r = old.at(k)
        for i, v in pairs:
            r = z3.If(k == i, v if isinstance(v, z3.ExprRef) else lift_int(v), r)
        return r
    return SBytes([Seg(n, f, ('spec-update', core.CTX.fresh('u')))])


# ---- header directives ---------------------------------------------------------
def state(c, cls, flag=None, image=None):
    host = cls()
    asm = p_c06.state(c)
    asm = SObj(cls, asm.attrs, host=host)
    if image is not None:
        asm.attrs['assembled_bytes'] = image
    if flag is not None:
        asm.attrs['cartridge_set'] = flag
    c.store['lift'] = {id(host): asm}
    c.static['cfg'] = host
    c.static['real_str'] = True
    return asm, host


def instruction(c):
    n = fresh_int('ntokens', 1)
    toks = SymTokens('t', n)
    return SObj(Directive, dict(tokens=toks, line=1, context=None)), toks, n


def call(asm, host, name, ins):
    f = host.directives.get(name.upper())
    if f is None:
        core.CTX.fail('.%s/registered' % name, 'directive is not registered')
        raise PathKill()
    try:
        interp.icall(f, (ins,), {})
    except Exception as e:
        return e
    return None


def gb_header_body(c):
    c.static['contracts'] = p_c06.CONTRACTS
    asm, host = state(c, gameboy.AssemblerGameboy)
    ins, toks, n = instruction(c)
    s = p_c06.S(asm)
    L = lift_int(s.img.length())
    err = call(asm, host, 'cartridge', ins)
    rej = False
    try:
        p_c06.need(c, L == 256)
        p_c06.set_org(c, s, z3.IntVal(0x100), s.end)
        p_c06.need(c, lift_int((s.img + s.out).length()) == 0x100)
    except p_c06.Rejected:
        rej = True
    if not rej:
        s.out = SBytes([list(GB_HEADER)])
        s.ctr = s.ctr + len(GB_HEADER)
    p_c06.check(c, '.cartridge', asm, s, err, rej)
    flag = interp.getattr_(asm, 'cartridge_set')
    if not rej and err is None:
        c.prove('.cartridge/flag', flag is True)
        c.prove('.cartridge/at-0x100', lift_int(s.img.length()) == 0x100)


def nes_header_body(c):
    c.static['contracts'] = p_c06.CONTRACTS
    asm, host = state(c, nes.AssemblerNES)
    ins, toks, n = instruction(c)
    s = p_c06.S(asm)
    err = call(asm, host, 'cartridge', ins)
    rej = False
    try:
        p_c06.need(c, lift_int(s.img.length()) == 0)
    except p_c06.Rejected:
        rej = True
    if not rej:
        s.out = SBytes([list(NES_HEADER)])
        s.ctr = s.ctr + 16
    p_c06.check(c, '.cartridge', asm, s, err, rej)
    if not rej and err is None:
        c.prove('.cartridge/flag', interp.getattr_(asm, 'cartridge_set') is True)


def fill_unit(cls, name, address, size, least):
    def body(c):
        box = {}
        c.static['fixed_limit'] = 20

        def c_bytes(c, args, kw):
            self, toks = isa.bind(args, kw, ('self', 'tokens'))
            if not isinstance(toks, SymTokens):
                raise Unsupported('operands')
            c.prove('.%s/all-operands' % name, toks.start == 1 and toks.stop is None and toks.name == 't')
            if c.branch(z3.Bool('operands.hold.a.label')):
                raise LabelNotAllowed.__new__(LabelNotAllowed)
            if c.branch(z3.Bool('operands.bad')):
                raise AssemblerException.__new__(AssemblerException)
            box['blob'] = opaque_bytes('operands')
            return box['blob']
        c.static['contracts'] = dict(p_c06.CONTRACTS)
        c.static['contracts'][ASM + 'parse_bytes_or_ascii'] = c_bytes
        flag = bool(c.choose(2))
        asm, host = state(c, cls, flag)
        ins, toks, n = instruction(c)
        img = asm.attrs['assembled_bytes']
        if flag:
            c.add(lift_int(img.length()) >= least)          # the header is there
        s = p_c06.S(asm)
        err = call(asm, host, name, ins)
        rej = not flag or not bool(n >= 2) or c.branch(z3.Or(z3.Bool('operands.hold.a.label'), z3.Bool('operands.bad')))
        blob = opaque_bytes('operands')
        m = lift_int(blob.length())
        if not rej:
            rej = not c.branch(m <= size)
        nm = '.' + name
        if rej:
            if err is None:
                c.fail(nm + '/accepts-iff-specified', 'accepted, the definition rejects it')
            else:
                c.prove(nm + '/rejects', isinstance(err, AssemblerException))
            return
        old = s.img
        s.img = SBytes([Seg(lift_int(old.length()), lambda k: z3.If(z3.And(k >= address, k < address + m), blob.at(k - address), old.at(k)),
                            ('spec-fill', c.fresh('f')))])
        p_c06.check(c, nm, asm, s, err, False)
    return Unit('C21.%s.%s' % (cls.__name__, name), body, [(GB if cls is gameboy.AssemblerGameboy else NES) + '_cartridge_fill'])


# ---- checksums -----------------------------------------------------------------
class SumLoop(Rule):
    """a loop over the image that adds up something; the accumulator matters modulo 65536.

    expected() -> (image, first, step, term(position), rejects(position))"""

    def __init__(self, name, expected):
        self.name, self.expected = name, expected
        self.f = z3.Function(name + '.sum', z3.IntSort(), z3.IntSort())

    def matches(self, it):
        s = it.seq if isinstance(it, SEnum) else it
        if isinstance(s, SBytes) and core.CTX.entails(lift_int(s.length()) <= 64):
            return False                # a field of the header: unrolled
        return isinstance(it, SRange) or isinstance(s, SSeq) and s.name == 'bytes' or isinstance(s, SBytes) and s.fixed() is None

    def element(self, it, j):
        if isinstance(it, SBytes):
            return SInt(SBytes(it.segs).at(j), 255)
        if isinstance(it, SRange):
            return it.a + SInt(j) * it.step
        if isinstance(it, SEnum):
            return (SInt(j) + it.start, it.seq.elem(j))
        return it.elem(j)

    def upto(self, img, j):
        """the sum of the first j terms"""
        return self.f(j)

    def __call__(self, node, it, fr):
        c = core.CTX
        img, first, step, term, bad = self.expected()
        a, st = (it.a, it.step) if isinstance(it, SRange) else (0, 1)
        if st != step or not c.entails(lift_int(a) == first):
            raise Unsupported('another order of summation')
        targets = {x.id for x in ast.walk(node.target) if isinstance(x, ast.Name)}
        names = assigned_names(node.body) | targets
        accs = [v for v in sorted(names - targets) if v in fr.vars and not isinstance(fr.vars[v], Poison)]
        if len(accs) != 1 or not isinstance(fr.vars[accs[0]], (int, SInt)):
            raise Unsupported('accumulator')
        acc = accs[0]
        L = lift_int(img.length())
        count = z3.If(L > first, (L - first + (step - 1)) / step, z3.IntVal(0))
        n = lift_int(it.length())
        self.image(img)
        c.prove(self.name + '/starts-at-zero', lift_int(fr.vars[acc]) % MOD == 0)
        c.prove(self.name + '/covers-the-image', n == count)
        c.add(self.f(z3.IntVal(0)) == 0)
        for v in names:
            fr.vars[v] = Poison(v)
        k = c.choose(2)
        if k == 0:
            j = z3.Int(c.fresh('iter'))
            c.assume(z3.And(j >= 0, j < n))
            x = self.element(it, j)
            s = fresh_int('sum')
            c.add(s.t % MOD == self.f(j) % MOD)
            fr.vars[acc] = s
            p = first + step * j
            err = None
            try:
                interp.assign(node.target, x, fr)
                kind, v = interp.exec_block(node.body, fr)
                if kind not in ('normal', 'continue', None) and (kind, v) != interp.NORMAL:
                    raise Unsupported('the loop is left early')
            except IndexError as e:
                err = e
            want_bad = c.branch(bad(p)) if bad is not None else False
            if want_bad or err is not None:
                c.prove(self.name + '/rejects-iff-specified', bool(want_bad) and err is not None)
                raise PathKill()
            got = fr.vars[acc]
            if not isinstance(got, (int, SInt)):
                raise Unsupported('accumulator')
            c.prove(self.name + '/step', lift_int(got) % MOD == (self.f(j) + term(p)) % MOD)
            self.image(img)
            raise PathKill()
        if bad is not None and c.branch(z3.And(n > 0, bad(first + step * (n - 1)))):
            raise IndexError('past the end')
        r = fresh_int('total')
        c.add(r.t % MOD == self.f(n) % MOD)
        fr.vars[acc] = r
        core.CTX.store['total'] = self.f(n)
        return interp.exec_block(node.orelse, fr)

    def image(self, img):
        got = self.current()
        core.CTX.prove(self.name + '/image-while-summing', bytes_eq_goal(got, img))


def header_sum(img, lo, hi, each):
    t = z3.IntVal(0)
    for i in range(lo, hi):
        t = t + at(img, i) + each
    return t


def gb_fix_body(c):
    asm, host = state(c, gameboy.AssemblerGameboy, bool(c.choose(2)))
    c.static['contracts'] = {}
    img = SBytes(asm.attrs['assembled_bytes'].segs)
    L = lift_int(img.length())
    h = (-header_sum(img, 0x134, 0x14D, 1)) % 256
    one = update(img, [(0x14D, h)])

    def expected():
        return one, 0, 1, lambda p: z3.If(z3.Or(p == 0x14E, p == 0x14F), z3.IntVal(0), one.at(p)), None
    rule = SumLoop('global-checksum', expected)
    rule.current = lambda: asm.attrs['assembled_bytes']
    c.static['rules'] = [rule]
    err = None
    try:
        for f in host.post_link_passes:
            interp.icall(f, () if getattr(f, '__self__', None) is host else (asm,), {})
    except Exception as e:
        err = e
    nm = 'post-link'
    short = not c.branch(L >= 0x150)
    if short or err is not None:
        c.prove(nm + '/accepts-iff-the-header-fits', short and err is not None, repr(err))
        return
    if 'total' not in c.store:
        c.fail(nm + '/global-checksum', 'the image is not summed')
        return
    g = c.store['total'] % MOD
    want = update(img, [(0x14D, h), (0x14E, g / 256), (0x14F, g % 256)])
    c.prove(nm + '/image', bytes_eq_goal(asm.attrs['assembled_bytes'], want))


# ---- drivers -------------------------------------------------------------------
class File(SymBase):
    """a file being written: every byte of a gap is zero"""

    def __init__(self, name):
        self.fname, self.data, self.pos, self.open = name, SBytes([]), 0, True

    def write(self, b):
        b = SBytes.of(b)
        if b is None:
            raise TypeError('bytes expected')
        c = core.CTX
        n = self.data.length()
        if not c.entails(lift_int(self.pos) >= lift_int(n)):
            raise Unsupported('file written out of order')
        if c.branch(lift_int(b.length()) > 0):
            gap = lift_int(self.pos) - lift_int(n)
            if not c.entails(gap == 0):
                f = gap if is_sym(self.pos) or is_sym(n) else None
                self.data = self.data + (SBytes([[0] * (self.pos - n)]) if f is None else SBytes([Seg(gap, lambda i: z3.IntVal(0), ('gap', c.fresh('g')))]))
            self.data = self.data + b
            self.pos = self.data.length()
        return b.length()

    def seek(self, p, whence=0):
        if whence != 0:
            raise Unsupported('seek')
        self.pos = p
        return p

    def tell(self):
        return self.pos

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return None

    def close(self):
        if self.open:
            event('save', self.fname, self.data)
        self.open = False

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('file.%s' % n)


SRC, DST = 'given-source', 'given-destination'


def driver(c, module, cls):
    """run main() on a machine where assembling gives an arbitrary image"""
    host = cls()
    asm = SObj(cls, dict(assembled_bytes=opaque_bytes('nothing', True)), host=host)
    c.store['lift'] = {id(host): asm}
    made = []
    img = opaque_bytes('image', True)

    def mk(c, args, kw):
        if args or kw or made:
            raise Unsupported('construction')
        made.append(1)
        return asm

    def c_file(c, args, kw):
        self, fn = isa.bind(args, kw, ('self', 'filename'))
        event('assemble', fn)

    def c_link(c, args, kw):
        self, linker = isa.bind(args, kw, ('self', 'linker'), dict(linker=None))
        if linker is not None:
            raise Unsupported('linker')
        event('link')
        asm.attrs['assembled_bytes'] = img
        for f in list(interp.getattr_(asm, 'post_link_passes')):
            interp.icall(f, () if getattr(f, '__self__', None) in (host, asm) else (asm,), {})

    def c_save(c, args, kw):
        self, fn = isa.bind(args, kw, ('self', 'filename'))
        event('save', fn, SBytes(asm.attrs['assembled_bytes'].segs))

    class Sys:
        argv = ['driver', SRC, DST]
    name = cls.__module__ + '.' + cls.__qualname__
    c.static['contracts'] = {name: mk, ASM + 'assemble_file': c_file, ASM + 'link': c_link, ASM + 'save': c_save}
    c.static['modules'] = {'sys': Sys}
    c.static['verifying'] = {module.__name__ + '.main', ASM + 'main'}

    def op(fn, mode='r'):
        if mode != 'wb':
            raise Unsupported('open mode')
        return File(fn)
    c.static['open'] = op
    return asm, img


def outcome(c, nm, module):
    err = None
    try:
        interp.icall(module.main, (), {})
    except Exception as e:
        err = e
    ev = events()
    if err is not None:
        return err, None
    # exactly: the source is assembled and linked, one file is written
    ok = [e[0] for e in ev] == ['assemble', 'link', 'save'] and ev[0][1] == SRC and ev[2][1] == DST
    c.prove(nm + '/assembles-links-saves', bool(ok), repr([tuple(str(x)[:40] for x in e) for e in ev]))
    return None, ev[-1][2] if ok else None


def gba_body(c):
    asm, img = driver(c, gba, gba.AssemblerThumb)
    img0 = SBytes(img.segs)
    c.static['rules'] = []
    err, out = outcome(c, 'gba', gba)
    L = lift_int(img0.length())
    short = not c.branch(L > 0xBD)
    if short or err is not None:
        c.prove('gba/accepts-iff-the-header-fits', short and err is not None, repr(err))
        return
    if out is None:
        return
    want = update(img0, [(0xBD, (-(header_sum(img0, 0xA0, 0xBD, 0) + 0x19)) % 256)])
    c.prove('gba/image', bytes_eq_goal(out, want))


def genesis_body(c):
    asm, img = driver(c, genesis, genesis.AssemblerMC68000)
    img0 = SBytes(img.segs)
    L = lift_int(img0.length())

    def expected():
        return img0, 0x200, 2, lambda p: img0.at(p) * 256 + img0.at(p + 1), lambda p: p + 1 >= L
    rule = SumLoop('genesis-checksum', expected)
    rule.current = lambda: asm.attrs['assembled_bytes']
    c.static['rules'] = [rule]
    err, out = outcome(c, 'genesis', genesis)
    # the words of the image are summed: an odd image has none at its end
    rej = c.branch(z3.Or(L < 0x190, z3.And(L > 0x200, L % 2 == 1)))
    if rej or err is not None:
        c.prove('genesis/accepts-iff-specified', bool(rej) and err is not None, repr(err))
        return
    if out is None:
        return
    if 'total' not in c.store:
        c.fail('genesis/checksum', 'the image is not summed')
        return
    g = c.store['total'] % MOD
    c.prove('genesis/image', bytes_eq_goal(out, update(img0, [(0x18E, g / 256), (0x18F, g % 256)])))


def psx_header(size):
    """the documented header of an executable; size = 4 bytes"""
    h = [0] * 0x800

    def put(off, b):
        h[off:off + len(b)] = list(b)
    put(0, b'PS-X EXE')
    put(0x10, (0x80010000).to_bytes(4, 'little'))       # pc
    put(0x14, b'\xff\xff\xff\xff')                      # gp
    put(0x18, (0x80010000).to_bytes(4, 'little'))       # load address
    put(0x1C, size)
    put(0x30, (0x801FFFF0).to_bytes(4, 'little'))       # stack
    put(0x4C, b'Sony Computer Entertainment Inc. for Europe area')
    return h


def psx_body(c):
    asm, img = driver(c, psx, psx.AssemberPSX)
    img0 = SBytes(img.segs)
    c.static['rules'] = []
    L = lift_int(img0.length())
    err, out = outcome(c, 'psx', psx)
    pad = (-L) % 2048
    total = L + pad
    if not c.branch(L > 0):
        return              # nothing to run: no claim
    c.assume(total < 1 << 32)           # the address space of the machine
    if err is not None:
        c.fail('psx/accepts', repr(err))
        return
    if out is None:
        return
    size = [SInt((total / (1 << (8 * k))) % 256, 255) for k in range(4)]
    want = SBytes([psx_header(size)]) + img0 + SBytes([Seg(pad, lambda i: z3.IntVal(0), ('spec-pad', 0))])
    c.prove('psx/length', lift_int(out.length()) == 0x800 + total)
    c.prove('psx/file', bytes_eq_goal(out, want))
    c.prove('psx/little-endian', psx.AssemberPSX.big_endian is False)


def units(tier):
    out = [Unit('C21.gameboy.cartridge', gb_header_body, [GB + '_generate_cartridge_header']),
           Unit('C21.nes.cartridge', nes_header_body, [NES + '_generate_cartridge_header'])]
    for n, (a, k) in GB_FIELDS.items():
        out.append(fill_unit(gameboy.AssemblerGameboy, n, a, k, 0x150))
    for n, (a, k) in NES_FIELDS.items():
        out.append(fill_unit(nes.AssemblerNES, n, a, k, 16))
    out.append(Unit('C21.gameboy.checksums', gb_fix_body, [GB + '_fix'], timeout_ms=60000))
    out.append(Unit('C21.gba', gba_body, ['necroassembler.platforms.gba.main']))
    out.append(Unit('C21.genesis', genesis_body, ['necroassembler.platforms.genesis.main']))
    out.append(Unit('C21.psx', psx_body, ['necroassembler.platforms.psx.main']))
    return out


# ---- cross-check on CPython -----------------------------------------------------
def ref_gb(img):
    if len(img) < 0x150:
        return 'rejected'
    b = bytearray(img)
    x = 0
    for v in b[0x134:0x14D]:
        x = (x - v - 1) & 0xFF
    b[0x14D] = x
    t = (sum(b) - b[0x14E] - b[0x14F]) & 0xFFFF
    b[0x14E:0x150] = t.to_bytes(2, 'big')
    return bytes(b)


def ref_gba(img):
    if len(img) <= 0xBD:
        return 'rejected'
    b = bytearray(img)
    b[0xBD] = (-(sum(b[0xA0:0xBD]) + 0x19)) & 0xFF
    return bytes(b)


def ref_genesis(img):
    if len(img) < 0x190 or len(img) > 0x200 and len(img) % 2:
        return 'rejected'
    b = bytearray(img)
    t = sum(struct.unpack('>%dH' % ((len(b) - 0x200) // 2), b[0x200:])) if len(b) > 0x200 else 0
    b[0x18E:0x190] = (t & 0xFFFF).to_bytes(2, 'big')
    return bytes(b)


def ref_psx(img):
    pad = bytes(-len(img) % 2048)
    return bytes(psx_header(list((len(img) + len(pad)).to_bytes(4, 'little')))) + img + pad


def ref_same(img):
    return bytes(img)


def run_main(main, source, blob):
    """(bytes saved, files written)"""
    with tempfile.TemporaryDirectory() as d:
        src, dst, inc = (os.path.join(d, x) for x in ('in.s', 'out.bin', 'blob.bin'))
        with open(inc, 'wb') as f:
            f.write(blob)
        with open(src, 'w') as f:
            f.write(source % dict(blob=inc))
        old = sys.argv
        sys.argv = ['driver', src, dst]
        try:
            main()
            with open(dst, 'rb') as f:
                return f.read()
        except Exception:
            return 'rejected'
        finally:
            sys.argv = old


def sizes(rng, around):
    k = rng.random()
    if k < 0.6:
        return max(0, rng.choice(around) + rng.randrange(-3, 4))
    return rng.randrange(1, 9000)


def blob(rng, n):
    k = rng.random()
    if k < 0.15:
        return bytes(n)
    if k < 0.3:
        return b'\xff' * n
    return rng.randbytes(n)


def fields_case(rng, cls, header, fields, base):
    """a random program with header directives; returns (source, expected image before the passes)"""
    lines, img, ok = [], bytearray(), True
    flag = False
    if base:
        n = base if rng.random() < 0.9 else base + rng.choice((-1, 1))
        if n:
            lines.append('.incbin "%(blob)s"')
    else:
        n = 0
        if rng.random() < 0.05:
            lines.append('.db 1')
            n = 1
    pre = blob(rng, n) if base else b'\1' * n
    img += pre
    if rng.random() < 0.95:
        lines.append('.cartridge')
        ok = ok and len(img) == base
        img += header
        flag = True
    extra = rng.randrange(0, 40)
    if extra:
        v = rng.randbytes(extra)
        lines.append('.db ' + ', '.join(map(str, v)))
        img += v
    for _ in range(rng.randrange(0, 7)):
        name = rng.choice(sorted(fields))
        at_, size = fields[name]
        k = rng.random()
        if k < 0.3 and size > 2:
            t = ''.join(rng.choice('ABCDEFGHIJ KLMNO') for _ in range(rng.choice((1, 5, 11, 15, 16, 16, 17))))
            ops, val = '"%s"' % t, t.encode()
        else:
            val = bytes(rng.randrange(256) for _ in range(rng.choice((1, 1, size, size, size + 1))))
            ops = ', '.join(rng.choice(('%d' % x, '$%02X' % x)) for x in val)
        if k > 0.97:
            ops, val = 'undefined_label', None
        elif k > 0.95:
            ops, val = '256', None
        elif k > 0.93:
            ops, val = '', None
        lines.append('.%s %s' % (name, ops))
        if val is None or len(val) > size or not flag:
            ok = False
        elif ok:
            img[at_:at_ + len(val)] = val
    return '\n'.join(lines) + '\n', pre, bytes(img) if ok else 'rejected'


def assemble(cls, source, pre):
    with tempfile.TemporaryDirectory() as d:
        inc = os.path.join(d, 'blob.bin')
        with open(inc, 'wb') as f:
            f.write(pre)
        try:
            a = cls()
            a.assemble(source % dict(blob=inc))
            a.link()
            return bytes(a.assembled_bytes)
        except Exception:
            return 'rejected'


def concrete(conc, tier, rng, wits, deadline):
    N = 600 if tier == 'quick' else 5000
    inc = '.incbin "%(blob)s"\n'
    for k in range(N):
        if time.time() > deadline:
            break
        for nm, main, ref, around in (('gameboy', gameboy.AssemblerGameboy.main, ref_gb, (0, 0x134, 0x14D, 0x14F, 0x150, 0x8000)),
                                      ('gba', gba.main, ref_gba, (0, 0xA0, 0xBC, 0xBE, 0xC0)),
                                      ('genesis', genesis.main, ref_genesis, (0, 0x18E, 0x190, 0x200, 0x400)),
                                      ('psx', psx.main, ref_psx, (2, 2048, 4096, 6144)),
                                      ('nes', nes.main, ref_same, (2, 16))):
            b = blob(rng, sizes(rng, around) if nm != 'psx' else max(1, sizes(rng, around)))
            conc.case(dict(driver=nm, image=b.hex()), ref(b), run_main(main, inc, b), key='%s %s' % (nm, b.hex()))
        src, pre, img = fields_case(rng, gameboy.AssemblerGameboy, GB_HEADER, GB_FIELDS, 0x100)
        want = img if img == 'rejected' else ref_gb(img)
        conc.case(dict(platform='gameboy', source=src, blob=pre.hex()), want, assemble(gameboy.AssemblerGameboy, src, pre), key='gb %s %s' % (src, pre.hex()))
        src, pre, img = fields_case(rng, nes.AssemblerNES, NES_HEADER, NES_FIELDS, 0)
        conc.case(dict(platform='nes', source=src), img, assemble(nes.AssemblerNES, src, pre), key='nes ' + src)
    # images of real cartridge sizes
    for nm, main, ref, n in (('genesis', genesis.main, ref_genesis, 0x80000), ('genesis', genesis.main, ref_genesis, 0x80002), ('genesis', genesis.main, ref_genesis, 0x20002),
                             ('genesis', genesis.main, ref_genesis, 0x200002), ('gameboy', gameboy.AssemblerGameboy.main, ref_gb, 0x8000),
                             ('gameboy', gameboy.AssemblerGameboy.main, ref_gb, 0x10001), ('gameboy', gameboy.AssemblerGameboy.main, ref_gb, 0x100000),
                             ('gba', gba.main, ref_gba, 0x200000), ('psx', psx.main, ref_psx, 0x100800), ('psx', psx.main, ref_psx, 0x12345), ('nes', nes.main, ref_same, 0xA010)):
        b = rng.randbytes(n)
        if time.time() < deadline:
            want, got = ref(b), run_main(main, inc, b)
            conc.case(dict(driver=nm, size=n, image='random.Random(%d) bytes, first: %s' % (len(b), b[:16].hex())), hashlib.sha256(repr(want).encode()).hexdigest(),
                      hashlib.sha256(repr(got).encode()).hexdigest(), key='%s of %d bytes' % (nm, n))
    # the header is at 0x100 whatever the regions before it
    for src in ('.fill 16\n.org 0 $7FFF\n.fill 240\n.cartridge\n', '.org 0 $7FFF\n.fill 256\n.cartridge\n', '.org 0 $FF\n.fill 256\n.cartridge\n',
                '.org 0 $7FFF\n.fill 255\n.cartridge\n', '.fill 256\n.cartridge\n.org $150 $7FFF\n.db 1\n'):
        got = assemble(gameboy.AssemblerGameboy, src, b'')
        conc.case(dict(platform='gameboy', source=src), 'rejected or a header at 0x100', got, ok=got == 'rejected' or got[0x100:0x134] == GB_HEADER[:0x34])
