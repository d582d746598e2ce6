"""C20: the ELF linker writes a consistent relocatable object.

The specification lays the file out as a list of pieces (header, section headers, code, section names, symbol names,
symbols); every offset and index in it is computed from the position of the piece it describes.  Sections and labels are
unknown in number; the tables built by loops are described by recurrences (prefix(j + 1) = prefix(j) + entry(j)), proved
for an arbitrary iteration of the real loop."""
import struct
import z3
from pyvc import core, interp, vals, models
from pyvc.core import Unsupported, PathKill
from pyvc.driver import Unit
from pyvc.loops import Rule, Poison, assigned_names
from pyvc.models import SSeq, SEnum
from pyvc.vals import (SymBase, SInt, SBool, SBytes, SObj, Seg, STok, is_sym, lift_int, mk_int, mk_bool, fresh_int, opaque_bytes, bytes_eq_goal,
                       tok_info)
from necroassembler import linker
from necroassembler.assembler import Assembler
from necroassembler.exceptions import AssemblerException, SectionAlreadyDefined, SymbolAlreadyExported, UnknownLabel
from necroassembler.linker import ELF
from necroassembler.statements import Directive
from .isa import ASM
from pyvc.vals import SymTokens
from .objs import OMap, event, events, prove_events
from . import isa, p_c06, p_c07

LEVEL = 'proof'
ASSUMPTIONS = ['section names and labels are unknown byte strings (text encoding is Python\'s), without NUL',
               'the sections a program declares have start, offset, size and permissions as recorded by directive_section and assemble '
               '(directive_section proved here, the closing of the last section in C06)']
LI = 'necroassembler.linker.ELF.'


class Bad(Exception):
    """the specification rejects"""


def I(x):
    return SInt(x) if not isinstance(x, (int, SInt)) else x


def fld(v, width, big):
    """an unsigned field"""
    if is_sym(v):
        if not core.CTX.branch(z3.And(v.t >= 0, v.t < (1 << (8 * width)))):
            raise Bad('field')
        v = SInt(v.t, (1 << (8 * width)) - 1)
    elif not 0 <= v < 1 << (8 * width):
        raise Bad('field')
    b = [(v >> (8 * k)) & 255 for k in range(width)]
    return b[::-1] if big else b


class World:
    """the assembler state given to the linker"""

    def __init__(self, bits, big):
        self.bits, self.big = bits, big
        self.n = fresh_int('sections', 0, None)
        self.m = fresh_int('labels', 0, None)
        self.code = opaque_bytes('code', True)
        self.entry = {}         # values stored in the current iteration: {(collection, key): value}
        self.done = set()
        S = z3.IntSort()
        self.uf = {k: z3.Function(k, S, S) for k in ('sec.start', 'sec.offset', 'sec.size', 'lab.base', 'lab.org', 'lab.secindex', 'names.len',
                                                     'secprefix.len', 'labprefix.len', 'exported.before')}
        self.perm = {l: z3.Function('sec.perm.' + l, S, z3.BoolSort()) for l in 'RWXE'}
        self.exported = z3.Function('lab.exported', S, z3.BoolSort())
        self.hassec = z3.Function('lab.hassection', S, z3.BoolSort())
        self.cur = None
        c = core.CTX
        for f in ('secprefix', 'labprefix'):
            c.add(self.uf[f + '.len'](z3.IntVal(0)) == 1)
        c.add(self.uf['exported.before'](z3.IntVal(0)) == 0)

    def val(self, f, j, low=0):
        t = self.uf[f](j)
        core.CTX.axiom(t >= low, (f, str(z3.simplify(j))))
        return SInt(t)

    def name(self, coll, j):
        return NameStr(coll, j)

    def prefix(self, coll, j):
        """the string table before element j"""
        j = z3.simplify(j)
        n = self.val(coll + 'prefix.len', j, 1).t
        return opaque_bytes('%s.names[..%s]' % (coll, j), False, SInt(n))

    @property
    def shsize(self):
        return 40 if self.bits == 32 else 64

    @property
    def symsize(self):
        return 16 if self.bits == 32 else 24

    def headers(self, j):
        j = z3.simplify(j)
        return opaque_bytes('section headers[..%s]' % j, False, SInt(self.shsize * (j + 1)))

    def symbols(self, j):
        j = z3.simplify(j)
        n = self.val('exported.before', j).t
        return opaque_bytes('symbols[..%s]' % j, False, SInt(self.symsize * (n + 1)))

    # -- the specification of one entry
    @property
    def word(self):
        return 4 if self.bits == 32 else 8

    def header_entry(self, name, type_, flags, addr, offset, size, link, info, align, entsize):
        w, b = self.word, self.big
        return SBytes([fld(name, 4, b) + fld(type_, 4, b) + fld(flags, w, b) + fld(addr, w, b) + fld(offset, w, b) + fld(size, w, b)
                       + fld(link, 4, b) + fld(info, 4, b) + fld(align, w, b) + fld(entsize, w, b)])

    @property
    def base(self):
        """where the code starts: after the header and one entry per section plus null, names, symbol names, symbols"""
        return (52 if self.bits == 32 else 64) + self.shsize * (self.n + 4)

    def flags(self, j):
        r, w, x = self.perm['R'](j), self.perm['W'](j), z3.Or(self.perm['X'](j), self.perm['E'](j))
        return SInt(z3.If(r, 2, 0) + z3.If(w, 1, 0) + z3.If(x, 4, 0), 7)

    def section_entry(self, j, align):
        size = self.val('sec.size', j)
        t = SInt(z3.If(size.t == 0, z3.IntVal(8), z3.IntVal(1)), 9)
        return self.header_entry(self.val('secprefix.len', j, 1), t, self.flags(j), self.val('sec.start', j), self.base + self.val('sec.offset', j),
                                 size, 0, 0, align, 0)

    def symbol_entry(self, k, e_type):
        b = self.big
        if not core.CTX.branch(self.hassec(k)):
            raise Bad('label outside sections')
        sec = self.section_of(k)
        value = self.val('lab.org', k) + self.val('lab.base', k)
        if bool(e_type == 1):
            value = value - self.val('sec.start', sec.t)
        name, shndx = self.val('labprefix.len', k, 1), sec + 1
        if self.bits == 32:
            return SBytes([fld(name, 4, b) + fld(value, 4, b) + fld(0, 4, b) + [0x10, 0] + fld(shndx, 2, b)])
        return SBytes([fld(name, 4, b) + [0x10, 0] + fld(shndx, 2, b) + fld(value, 8, b) + fld(0, 8, b)])

    def section_of(self, k):
        t = self.uf['lab.secindex'](k)
        core.CTX.axiom(z3.And(t >= 0, t < self.n.t), ('secindex', str(z3.simplify(k))))
        return SInt(t)


class NameStr(SymBase):
    """name number j of a collection"""
    pytype = str

    def __init__(self, coll, j):
        self.coll, self.j = coll, z3.simplify(j)

    def encode(self, *a):
        if a not in ((), ('utf-8',), ('utf8',)):
            raise Unsupported('encoding')
        return opaque_bytes('%s.name[%s]' % (self.coll, self.j))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('name.%s' % n)


class Perm(SymBase):
    pytype = str

    def __init__(self, W, j):
        self.W, self.j = W, j

    def sym_contains(self, x):
        if x not in self.W.perm:
            raise Unsupported('permission letter')
        return SBool(self.W.perm[x](self.j))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('permissions.%s' % n)


class SecKey(SymBase):
    pytype = str

    def __init__(self, k):
        self.k = k

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('section name.%s' % n)


class Record(SymBase):
    """the dictionary kept for one section or label"""
    pytype = dict

    def __init__(self, W, coll, j):
        self.W, self.coll, self.j = W, coll, z3.simplify(j)

    def __getitem__(self, key):
        W, j = self.W, self.j
        if self.coll == 'sec' and key in ('start', 'offset', 'size'):
            return W.val('sec.' + key, j)
        if self.coll == 'sec' and key == 'permissions':
            return Perm(W, j)
        if self.coll == 'lab' and key in ('base', 'org'):
            return W.val('lab.' + key, j)
        if self.coll == 'lab' and key == 'section':
            return SecKey(j)
        if key in ('elf_string_offset', 'elf_section_index'):
            if W.cur is not None and W.cur == (self.coll, self.j) and (self.coll, key) in W.entry:
                return W.entry[self.coll, key]
            if (self.coll, key) in W.done:
                return W.val(self.coll + 'prefix.len', j, 1) if key == 'elf_string_offset' else SInt(j)
            raise Unsupported('%s before it is known' % key)
        raise Unsupported('%s key %s' % (self.coll, key))

    def __setitem__(self, key, v):
        W = self.W
        if core.CTX.merging:
            raise core.Impure('store')
        if W.cur is None or W.cur != (self.coll, self.j) or key not in ('elf_string_offset', 'elf_section_index'):
            raise Unsupported('store in %s[%s]' % (self.coll, key))
        W.entry[self.coll, key] = v

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('dict.%s' % n)


class Coll(SymBase):
    """assembler.sections / assembler.labels"""
    pytype = dict

    def __init__(self, W, coll, n):
        self.W, self.coll, self.n = W, coll, n

    def length(self):
        return self.n

    def items(self):
        return SSeq(self.n, lambda j: (self.W.name(self.coll, j), Record(self.W, self.coll, j)), self.coll)

    def values(self):
        return SSeq(self.n, lambda j: Record(self.W, self.coll, j), self.coll)

    def keys(self):
        return SSeq(self.n, lambda j: self.W.name(self.coll, j), self.coll)

    def __getitem__(self, k):
        if isinstance(k, NameStr) and k.coll == self.coll:
            return Record(self.W, self.coll, k.j)
        if self.coll == 'sec' and isinstance(k, SecKey):
            if not core.CTX.branch(self.W.hassec(k.k)):
                raise KeyError('section')
            return Record(self.W, 'sec', self.W.section_of(k.k).t)
        raise Unsupported('lookup in %s' % self.coll)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('dict.%s' % n)


class Exports(SymBase):
    pytype = list

    def __init__(self, W):
        self.W = W

    def sym_contains(self, x):
        if isinstance(x, NameStr) and x.coll == 'lab':
            return SBool(self.W.exported(x.j))
        raise Unsupported('export lookup')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('exports.%s' % n)


class Tables(Rule):
    """a loop over all sections or all labels that extends some of the tables"""

    def __init__(self, W, align, e_type):
        self.W, self.align, self.e_type = W, align, e_type

    def matches(self, it):
        if isinstance(it, SEnum):
            it = it.seq
        return isinstance(it, SSeq) and it.name in ('sec', 'lab')

    def tables(self, coll):
        """(initial value, value before element j, what element j adds)"""
        W = self.W

        def names(j):
            return SBytes(W.name(coll, j).encode().segs + [[0]])
        out = {coll + '.names': (bytes(1), lambda j: W.prefix(coll, j), names)}
        if coll == 'sec':
            out['section headers'] = (bytes(W.shsize), W.headers, lambda j: W.section_entry(j, self.align))
        else:
            out['symbols'] = (bytes(W.symsize), W.symbols, lambda j: W.symbol_entry(j, self.e_type))
        return out

    def __call__(self, node, it, fr):
        W, c = self.W, core.CTX
        seq = it.seq if isinstance(it, SEnum) else it
        coll = seq.name
        if not c.entails(lift_int(seq.n) == lift_int(W.n if coll == 'sec' else W.m)):
            raise Unsupported('part of a collection')
        targets = {x.id for x in __import__('ast').walk(node.target) if hasattr(x, 'id')}
        names = assigned_names(node.body) | targets
        carried = {}
        for v in sorted(names - targets):
            if v in fr.vars and not isinstance(fr.vars[v], Poison):
                b = SBytes.of(fr.vars[v]) if isinstance(fr.vars[v], (bytes, SBytes)) else None
                f = b.fixed() if b is not None else None
                for t, (init, pre, add) in self.tables(coll).items():
                    if f is not None and len(f) == len(init) and all(isinstance(x, int) and x == y for x, y in zip(f, init)):
                        carried[v] = t, pre, add
        if not carried:
            raise Unsupported('loop over %s: no table starts here' % coll)
        k = c.choose(2)
        for v in names:
            fr.vars[v] = Poison(v)
        stores = {(coll, 'elf_string_offset'): coll + '.names', (coll, 'elf_section_index'): 'section headers'}
        mine = [key for key, t in stores.items() if t in [x[0] for x in carried.values()]]
        if k == 0:
            j = z3.Int(c.fresh('iter'))
            c.assume(z3.And(j >= 0, j < lift_int(seq.n)))
            W.cur, W.entry = (coll, z3.simplify(j)), {}
            for v, (t, pre, add) in carried.items():
                fr.vars[v] = pre(j)
            wanted = coll == 'sec' or c.branch(W.exported(j))
            why = None
            try:
                interp.assign(node.target, self.elem(it, j), fr)
                r = interp.exec_block(node.body, fr)
                if r[0] not in ('normal', 'continue', None) and r != interp.NORMAL:
                    raise Unsupported('loop over %s leaves early' % coll)
                got = {t: fr.vars[v] for v, (t, p, a) in carried.items()}
            except (struct.error, KeyError) as e:
                got, why = None, e
            adds = {}
            try:
                for v, (t, pre, add) in carried.items():
                    adds[t] = pre(j) + (add(j) if wanted else b'')
            except Bad:
                adds = None
            nm = 'elf.link/%s' % coll
            if got is None or adds is None:
                c.prove(nm + '/entry-rejects-iff-spec', got is None and adds is None, str(why))
            else:
                for t in sorted(adds):
                    if not isinstance(got[t], (bytes, SBytes)):
                        raise Unsupported('table %s' % t)
                    c.prove('%s/entry-of-%s' % (nm, t.replace(' ', '-')), bytes_eq_goal(got[t], adds[t]))
                for key in mine:
                    if not wanted:
                        continue
                    if key not in W.entry:
                        raise Unsupported('%s is not stored in this loop' % key[1])
                    want = W.val(coll + 'prefix.len', j, 1) if key[1] == 'elf_string_offset' else SInt(j)
                    c.prove('%s/%s' % (nm, key[1]), lift_int(W.entry[key]) == want.t)
                # the recurrence of the lengths, used below
            raise PathKill()
        n = lift_int(seq.n)
        for t in [x[0] for x in carried.values()]:
            if t in ('section headers', 'symbols') and c.branch(z3.Bool('rejected ' + t)):
                raise struct.error('some entry')
        for v, (t, pre, add) in carried.items():
            fr.vars[v] = pre(n)
        W.cur = None
        W.done |= set(mine)
        return interp.exec_block(node.orelse, fr)


def layout(W, machine, e_type, align):
    """the whole file, or Bad"""
    c = core.CTX
    b, w = W.big, W.word
    n, m = lift_int(W.n), lift_int(W.m)
    for t in ('section headers', 'symbols'):
        if c.branch(z3.Bool('rejected ' + t)):
            raise Bad(t)
    names = W.prefix('sec', n) + b'.shstrtab\0.strtab\0.symtab\0'
    at = W.val('secprefix.len', n, 1)
    strings, symbols = W.prefix('lab', m), W.symbols(m)
    body = [W.code, names, strings, symbols]
    pos, p = [], W.base
    for x in body:
        pos.append(p)
        p = p + models.m_len(x)
    hsize = 52 if W.bits == 32 else 64
    ident = b'\x7fELF' + bytes([2 if W.bits == 64 else 1, 2 if b else 1, 1, 0]) + bytes(8)
    head = SBytes.of(ident) + SBytes([fld(e_type, 2, b) + fld(machine, 2, b) + fld(1, 4, b)])
    rest = [W.header_entry(at, 3, 0x20, 0, pos[1], models.m_len(names), 0, 0, 0, 0),
            W.header_entry(at + 10, 3, 0x20, 0, pos[2], models.m_len(strings), 0, 0, 0, 0),
            W.header_entry(at + 18, 2, 0, 0, pos[3], models.m_len(symbols), W.n + 2, 1, 0, W.symsize)]
    head = head + SBytes([fld(0, w, b) + fld(0, w, b) + fld(hsize, w, b) + fld(0, 4, b) + fld(hsize, 2, b) + fld(0, 2, b) + fld(0, 2, b)
                          + fld(W.shsize, 2, b) + fld(W.n + 4, 2, b) + fld(W.n + 1, 2, b)])
    table = W.headers(n)
    for x in rest:
        table = table + x
    out = head + table
    for x in body:
        out = out + x
    return out, pos, dict(header=head, table=table, names=names, strings=strings, symbols=symbols, at=at)


def link_body(bits, big):
    def body(c):
        c.static['contracts'] = {ASM + 'get_label_absolute_address': c_absolute}
        W = World(bits, big)
        e_type, machine, align = fresh_int('e_type', 0, 65535), fresh_int('machine', 0, 65535), fresh_int('alignment', 0, None)
        c.add(z3.And(e_type.t < 65536, machine.t < 65536))
        c.static['rules'] = [Tables(W, align, e_type)]
        asm = SObj(Assembler, dict(sections=Coll(W, 'sec', W.n), labels=Coll(W, 'lab', W.m), exports=Exports(W), assembled_bytes=W.code), host=Assembler())
        elf = interp.icall(ELF, (bits, big, e_type, machine), dict(alignment=align))
        nm = 'elf.link'
        why = ''
        try:
            got = interp.icall(interp.getattr_(elf, 'link'), (asm,), {})
        except (struct.error, KeyError) as e:
            got, why = None, str(e)
        try:
            want, pos, parts = layout(W, machine, e_type, align)
        except Bad as e:
            want, why = None, str(e)
        if got is None or want is None:
            c.prove(nm + '/rejects-iff-spec', got is None and want is None, why)
            return
        c.prove(nm + '/file', bytes_eq_goal(got, want))
        c.prove(nm + '/code-unchanged', asm.attrs['assembled_bytes'] is W.code and len(W.code.segs) == 1)
        # what the offsets of the specification mean
        total = models.m_len(parts['header']) + models.m_len(parts['table'])
        c.prove(nm + '/code-at-base', lift_int(total) == lift_int(pos[0]))
        c.prove(nm + '/names-in-table', z3.And(parts['at'].t + 26 == lift_int(models.m_len(parts['names']))))
    return body


def c_absolute(c, args, kwargs):
    self, label = isa.bind(args, kwargs, ('self', 'label'))
    return label['org'] + label['base']


# ---- unknown symbols -------------------------------------------------------
class Pending(SymBase):
    pytype = dict

    def __init__(self, n):
        self.n = n

    def length(self):
        return self.n

    def items(self):
        return SSeq(self.n, lambda j: (SInt(z3.Function('reloc.address', z3.IntSort(), z3.IntSort())(j)), Opaque('reloc.data[%s]' % z3.simplify(j))), 'relocs')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('dict.%s' % n)


class Opaque(SymBase):
    def __init__(self, name):
        self.name = name

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('%s.%s' % (self.name, n))


class Stop(Exception):
    pass


class EachOnce(Rule):
    def __init__(self, box):
        self.box = box

    def matches(self, it):
        return isinstance(it, SSeq) and it.name == 'relocs'

    def entry(self, it, fr):
        core.CTX.prove('elf.link/relocates-all', z3.And(lift_int(it.n) == self.box['n'].t, z3.BoolVal(not events())))

    def start(self, j, x, fr):
        core.CTX.store['events'] = []
        return x

    def after(self, x, y, out, fr):
        ev = events()
        ok = len(ev) == 1 and ev[0][0] == 'relocate' and is_sym(ev[0][1]) and ev[0][1].t.eq(x[0].t) and isinstance(ev[0][2], Opaque) and ev[0][2].name == x[1].name
        core.CTX.prove('elf.link/each-unknown-symbol-is-relocated', bool(ok), repr(ev))
        core.CTX.prove('elf.link/relocation-errors-are-not-hidden', bool(ok) and (out[0] == 'raise') == bool(ev[0][3]))

    def leave(self, it, fr):
        self.box['left'] = True
        if core.CTX.branch(z3.Bool('some relocation fails')):
            raise Stop()
        raise PathKill()        # the rest is the unit elf.link


def relocations_body(c):
    box = {}

    def c_relocate(c, args, kwargs):
        self, address, data = isa.bind(args, kwargs, ('self', 'address', 'symbol_data'))
        fails = c.branch(z3.Bool('relocate.fails'))
        event('relocate', address, data, fails)
        if fails:
            raise Stop()
        return None
    c.static['contracts'] = {LI + 'relocate': c_relocate}
    n = fresh_int('unknown symbols', 1, None)
    box['n'] = n
    c.static['rules'] = [EachOnce(box)]
    elf = interp.icall(ELF, (32, False, 1, 3), {})
    elf.attrs['relocations'] = Pending(n)
    asm = SObj(Assembler, dict(sections={}, labels={}, exports=[], assembled_bytes=opaque_bytes('code', True)), host=Assembler())
    try:
        interp.icall(interp.getattr_(elf, 'link'), (asm,), {})
        c.fail('elf.link/relocates-all', 'unknown symbols are never relocated')
    except Stop:
        c.prove('elf.link/failure-of-relocate-rejects', True)


def resolve_body(c):
    """an unknown symbol is recorded (not silently dropped), and relocate of the class itself rejects"""
    c.static['contracts'] = {}
    elf = interp.icall(ELF, (32, False, 1, 3), {})
    rec = {}
    elf.attrs['relocations'] = rec
    address, data = c.fresh('address'), Opaque('data')
    r = interp.icall(interp.getattr_(elf, 'resolve_unknown_symbol'), (Opaque('assembler'), address, data), {})
    c.prove('elf.resolve_unknown_symbol/recorded', list(rec.items()) == [(address, data)] and rec[address] is data)
    c.prove('elf.resolve_unknown_symbol/value', r == 0 and isinstance(r, int))
    try:
        interp.icall(interp.getattr_(elf, 'relocate'), (address, data), {})
        c.fail('elf.relocate/rejects', 'accepted')
    except linker.RelocationNotImplemented:
        c.prove('elf.relocate/rejects', True)
    dummy = interp.icall(linker.Dummy, (), {})
    code = opaque_bytes('code', True)
    asm = SObj(Assembler, dict(assembled_bytes=code), host=Assembler())
    c.prove('dummy.link/identity', interp.icall(interp.getattr_(dummy, 'link'), (asm,), {}) is code)
    lab = STok(tok_info('label'))
    d = SObj(type('Data', (), {}), dict(label=lab))
    try:
        interp.icall(interp.getattr_(dummy, 'resolve_unknown_symbol'), (asm, address, d), {})
        c.fail('dummy.resolve_unknown_symbol/rejects', 'accepted')
    except UnknownLabel:
        c.prove('dummy.resolve_unknown_symbol/rejects', True)


# ---- .section and .export ------------------------------------------------------
class Ch(SymBase):
    """one character of an unknown text"""
    pytype = str

    def __init__(self, t):
        self.t = t

    def in_str(self, cont):
        return SBool(z3.Or([self.t == ord(x) for x in cont])) if cont else False

    def __eq__(self, o):
        if isinstance(o, str):
            return SBool(self.t == ord(o)) if len(o) == 1 else False
        raise Unsupported('comparison of characters')

    def __ne__(self, o):
        return vals.not_(self == o)
    __hash__ = None

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('character.%s' % n)


class Letters(SSeq):
    """an unknown text, looked at character by character"""
    pytype = str
    f = z3.Function('letter', z3.IntSort(), z3.IntSort())

    def __init__(self):
        super().__init__(fresh_int('permissions.len', 1, None), lambda j: Ch(self.f(j)), 'letters')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('permissions.%s' % n)


class Operands(SymTokens):
    """the operands of .section"""

    def __init__(self, n, letters):
        super().__init__('t', n)
        self.letters = letters

    def elem(self, k):
        return self.letters if k == 2 else super().elem(k)

    def __getitem__(self, i):
        if i == 2 and isinstance(i, int):
            if not bool(self.length() > 2):
                raise IndexError('list index out of range')
            return self.letters
        return super().__getitem__(i)


def c_parse(c, args, kw):
    return isa.c_parse_integer(c, args, kw)


def section_body(c):
    c.static['contracts'] = p_c06.CONTRACTS
    n = fresh_int('ntokens', 1)
    letters = Letters()
    toks = Operands(n, letters)
    open_ = c.choose(2)
    prev = {'start': fresh_int('start', 0), 'offset': fresh_int('offset', 0), 'permissions': Opaque('permissions of the open section')}
    was = prev['start'], prev['permissions'], prev['offset']
    cur = STok(tok_info('open section')) if open_ else None
    stored = []
    table = OMap('sections', lambda k: prev, log=stored.append)
    asm = p_c06.state(c, current_section=cur, sections=table)
    if open_:
        c.add(table.present(cur))
        c.add(cur.length().t > 0)
    host = asm.host
    c.static['cfg'] = host
    ins = SObj(Directive, dict(tokens=toks, line=1, context=None))
    f = (host or Assembler()).directives.get('SECTION')
    nm = '.section'
    s = p_c06.S(asm)
    err = None
    try:
        interp.icall(Assembler.directive_section if f is None else getattr(f, '__func__', f), (asm, ins), {})
    except Exception as e:
        err = e
    rej = False
    o = p_c06.Ops(c, asm, toks, n)
    name = None
    try:
        o.count(2, 3)
        name = p_c07.name_of(toks.elem(1))
        p_c06.need(c, z3.Not(table.present(name)))
        i = z3.Int('i')
        p_c06.need(c, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < letters.n.t), z3.Or([Letters.f(i) == ord(x) for x in 'RWXE']))))
        if o.has(3):
            p_c06.set_org(c, s, o.num(3, 64), z3.IntVal(0))
    except p_c06.Rejected:
        rej = True
    p_c06.check(c, nm, asm, s, err, rej)
    if rej or err is not None:
        return
    ev = stored
    ok = len(ev) == 1 and ev[0][0] == 'store' and isinstance(ev[0][3], dict) and ev[0][2] == 'tok:' + name.key
    c.prove(nm + '/one-section-added', ok, repr([e[2] for e in ev]))
    if not ok:
        return
    d = ev[0][3]
    a = asm.attrs
    now = (s.img + s.out).length()
    c.prove(nm + '/becomes-current', isinstance(a['current_section'], STok) and a['current_section'].key == name.key)
    c.prove(nm + '/start', lift_int(d['start']) == s.pc)
    c.prove(nm + '/offset', lift_int(d['offset']) == lift_int(now))
    c.prove(nm + '/permissions', d['permissions'] is letters)
    if open_:
        c.prove(nm + '/previous-size', 'size' in prev and lift_int(prev['size']) == lift_int(now) - prev['offset'].t)
        c.prove(nm + '/previous-unchanged', prev['permissions'] is was[1] and prev['start'] is was[0] and prev['offset'] is was[2])


class Names(SymBase):
    """any number of names exported before"""
    pytype = list

    def sym_contains(self, x):
        if not isinstance(x, STok):
            raise Unsupported('export of another kind')
        return SBool(z3.Bool('exported(%s)' % x.key))

    def append(self, x):
        event('export', x)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('exports.%s' % n)


def export_body(c):
    c.static['contracts'] = p_c06.CONTRACTS
    n = fresh_int('ntokens', 1)
    toks = SymTokens('t', n)
    exports = Names()
    asm = p_c06.state(c, exports=exports)
    ins = SObj(Directive, dict(tokens=toks, line=1, context=None))
    f = Assembler().directives.get('EXPORT')
    err = None
    try:
        interp.icall(Assembler.directive_export if f is None else getattr(f, '__func__', f), (asm, ins), {})
    except Exception as e:
        err = e
    nm = '.export'
    rej = not bool(n == 2)
    if not rej:
        name = p_c07.name_of(toks.elem(1))
        rej = bool(exports.sym_contains(name))
    got = asm.attrs['exports']
    if rej or err is not None:
        c.prove(nm + '/accepts-iff-specified', rej and err is not None, repr(err))
        return
    if got is not exports:
        raise Unsupported('representation of the exports')
    ev = [e for e in events() if e[0] == 'export']
    c.prove(nm + '/appended', len(ev) == 1 and isinstance(ev[0][1], STok) and ev[0][1].key == name.key, repr(ev))


PLATFORMS = {'i386_elf32': (32, False, 1, 3, 0), 'x86_64_elf64': (64, False, 1, 0x3E, 0), 'ppc_elf32': (32, True, 1, 0x14, 4)}
CPUS = {'i386_elf32': 'necroassembler.cpu.intel8086.AssemblerIntel8086', 'x86_64_elf64': 'necroassembler.cpu.x86.AssemblerX86',
        'ppc_elf32': 'necroassembler.cpu.powerpc.AssemblerPowerPC'}


def platform_body(name):
    """the command of a platform assembles for its CPU with an ELF linker of its class, byte order, type, machine, alignment"""
    import importlib
    module = importlib.import_module('necroassembler.platforms.' + name)

    def body(c):
        def mk(cc, args, kw):
            event('elf', isa.bind(args, kw, ('bits', 'big_endian', 'e_type', 'machine', 'alignment'), dict(alignment=0)))
            return 'the linker'

        def run(cc, args, kw):
            a = isa.bind(args, kw, ('cls', 'pre_link_passes', 'post_link_passes', 'linker'), dict(pre_link_passes=[], post_link_passes=[], linker=None))
            event('main', a[0].__module__ + '.' + a[0].__qualname__, list(a[1]), list(a[2]), a[3])
        c.static['contracts'] = {'necroassembler.linker.ELF': mk, ASM + 'main': run}
        c.static['verifying'] = {module.__name__ + '.main'}
        interp.icall(module.main, (), {})
        ev = events()
        c.prove('platform/one-linker', [e[0] for e in ev] == ['elf', 'main'], repr(ev))
        if len(ev) == 2:
            c.prove('platform/elf-parameters', tuple(ev[0][1]) == PLATFORMS[name], repr(ev[0]))
            c.prove('platform/cpu-and-linker', ev[1][1:] == (CPUS[name], [], [], 'the linker'), repr(ev[1]))
    return body


def units(tier):
    out = [Unit('C20.platform.' + n, platform_body(n), ['necroassembler.platforms.%s.main' % n]) for n in sorted(PLATFORMS)]
    for bits in (32, 64):
        for big in (False, True):
            out.append(Unit('C20.elf.link.%d%s' % (bits, 'be' if big else 'le'), link_body(bits, big),
                            [LI + f for f in ('__init__', 'link', '_build_null_section', '_build_section', '_build_string_section', '_build_symtab_section',
                                              '_symbol_value')], budget=200))
    out.append(Unit('C20.elf.relocations', relocations_body, [LI + 'link']))
    out.append(Unit('C20.linker.resolve', resolve_body, [LI + 'resolve_unknown_symbol', LI + 'relocate', 'necroassembler.linker.Dummy.link',
                                                         'necroassembler.linker.Dummy.resolve_unknown_symbol']))
    out.append(Unit('C20.section', section_body, [ASM + 'directive_section', ASM + 'stringify']))
    out.append(Unit('C20.export', export_body, [ASM + 'directive_export', ASM + 'stringify']))
    return out


# ---- cross-check on CPython: random programs, parsed back by an independent reader -----------
class Rejects(Exception):
    pass


def program(rng):
    """(source, expectation(e_type, bits))"""
    lines, img, pc = [], bytearray(), 0
    secs, labels, exports, uses = [], {}, [], []
    bad = None
    names = ['.text', '.data', 'x', 'a.b', 'caf\xe9', 'long_section_name_number_one', '.bss', 'z9', 'rodata', '"quoted one"']
    rng.shuffle(names)
    lab = 0
    cur = None
    for _ in range(rng.choice((0, 1, 1, 2, 2, 3, 4, 6))):
        name = names.pop() if rng.random() < 0.97 or not secs else rng.choice(secs)['token']
        perm = ''.join(rng.choice('RWXE') for _ in range(rng.choice((1, 1, 2, 3, 4)))) if rng.random() < 0.97 else rng.choice(('RQ', 'rx', 'RX1', 'AX'))
        org = rng.choice((None, None, 0, 0x1000, 0x8000, 0x10000, 0xFFFFFFF0, 0x123456789)) if rng.random() < 0.6 else None
        if rng.random() < 0.25:         # code outside any section, or more code for the open one
            n = rng.randrange(1, 4)
            lines.append('.db ' + ', '.join('%d' % (k + 1) for k in range(n)))
            img += bytes(range(1, n + 1))
            pc += n
        lines.append('.section %s %s' % (name, perm) + ('' if org is None else ' %d' % org))
        if any(x['token'] == name for x in secs) or any(x not in 'RWXE' for x in perm):
            bad = bad or 'section'
        if org is not None:
            pc = org
        if secs:
            secs[-1]['size'] = len(img) - secs[-1]['offset']
        cur = dict(token=name, name=name.strip('"'), perm=perm, start=pc, offset=len(img))
        secs.append(cur)
        for _ in range(rng.choice((0, 0, 1, 2, 3, 5))):
            k = rng.random()
            if k < 0.35:
                lab += 1
                ln = rng.choice(('l', 'label_', 'M.', 'very_long_label_name_')) + str(lab)
                labels[ln] = (pc, cur)
                lines.append(ln + ':')
            elif k < 0.8:
                n = rng.randrange(1, 9)
                v = [rng.randrange(256) for _ in range(n)]
                lines.append('.db ' + ', '.join(map(str, v)))
                img += bytes(v)
                pc += n
            elif labels and k < 0.96:
                ln = rng.choice(sorted(labels))
                uses.append((len(img), ln))
                lines.append('.dd ' + ln)
                img += bytes(4)
                pc += 4
            elif k >= 0.96:
                ln = rng.choice(('nowhere', 'missing', 'elsewhere'))
                uses.append((len(img), ln))
                lines.append('.dd ' + ln)
                img += bytes(4)
                pc += 4
    if rng.random() < 0.1 and not secs:
        lines.append('early:')
        labels['early'] = (pc, None)
    for ln in sorted(labels):
        if rng.random() < 0.6:
            exports.append(ln)
            lines.append('.export ' + ln)
    for ln in ('missing', 'nowhere'):
        if rng.random() < (0.5 if any(u == ln for _, u in uses) else 0.06):
            exports.append(ln)
            lines.append('.export ' + ln)
    if exports and rng.random() < 0.05:
        lines.append('.export ' + rng.choice(exports))
        bad = bad or 'export'
    if secs:
        secs[-1]['size'] = len(img) - secs[-1]['offset']
    return '\n'.join(lines) + '\n', (bytes(img), secs, labels, exports, uses, bad)


def expectation(P, bits, big, e_type, machine, align, sub):
    img, secs, labels, exports, uses, bad = P
    if bad:
        return 'rejected'
    img = bytearray(img)
    top = 1 << bits
    todo = []
    for at, ln in uses:
        if ln not in labels:
            todo.append((at, ln))
            continue
        v = labels[ln][0]
        if v >= 1 << 32:
            return 'rejected'
        img[at:at + 4] = v.to_bytes(4, 'big' if big else 'little')
    if todo and not sub:
        return 'rejected'
    out = dict(klass=bits, big=big, type=e_type, machine=machine, entry=0, phnum=0, relocated=todo if sub else [], code=bytes(img), sections=[], symbols={})
    for s in secs:
        fl = (2 if 'R' in s['perm'] else 0) | (1 if 'W' in s['perm'] else 0) | (4 if 'X' in s['perm'] or 'E' in s['perm'] else 0)
        if s['start'] >= top:
            return 'rejected'
        out['sections'].append((s['name'], 8 if s['size'] == 0 else 1, fl, s['start'], s['offset'], s['size'], align,
                                bytes(img[s['offset']:s['offset'] + s['size']])))
    for ln in exports:
        if ln in labels:
            v, s = labels[ln]
            if s is None:
                return 'rejected'
            if e_type == 1:
                v -= s['start']
            if not 0 <= v < top:
                return 'rejected'
            out['symbols'][ln] = (v, s['name'], 1, 0, 0, 0)
    return out


def text_at(tab, off):
    e = tab.index(b'\0', off)
    return tab[off:e].decode()


def parse_elf(data):
    """an independent reader; raises on anything inconsistent"""
    def ck(x, why):
        if not x:
            raise ValueError(why)
    ck(data[:4] == b'\x7fELF', 'magic')
    bits = {1: 32, 2: 64}[data[4]]
    big = {1: False, 2: True}[data[5]]
    ck(data[6] == 1 and not any(data[8:16]), 'ident')
    E = '>' if big else '<'
    f = E + ('HHIIIIIHHHHHH' if bits == 32 else 'HHIQQQIHHHHHH')
    (typ, mach, ver, entry, phoff, shoff, flags, ehsize, phentsize, phnum, shentsize, shnum, shstrndx) = struct.unpack_from(f, data, 16)
    ck(ver == 1 and ehsize == struct.calcsize(f) + 16 and flags == 0, 'header')
    ck(shentsize == (40 if bits == 32 else 64), 'shentsize')
    ck(phoff == 0 and phnum == 0, 'program headers')
    ck(shoff >= ehsize and shoff + shnum * shentsize <= len(data), 'section table')
    sf = E + ('IIIIIIIIII' if bits == 32 else 'IIQQQQIIQQ')
    sh = [struct.unpack_from(sf, data, shoff + k * shentsize) for k in range(shnum)]
    ck(not any(sh[0]), 'null section')
    ck(shnum >= 4, 'tables')

    def content(k):
        s = sh[k]
        ck(s[4] + s[5] <= len(data), 'section %d outside the file' % k)
        return data[s[4]:s[4] + s[5]]
    used = [(0, ehsize), (shoff, shoff + shnum * shentsize)]
    ck(sh[shstrndx][1] == 3, 'shstrndx')
    strs = content(shstrndx)
    ck(strs[:1] == b'\0' and strs[-1:] == b'\0', 'section names')
    names = [text_at(strs, s[0]) for s in sh]
    ck(names[-3:] == ['.shstrtab', '.strtab', '.symtab'], 'order of the tables: %r' % names)
    ck(shstrndx == shnum - 3 and sh[-2][1] == 3 and sh[-1][1] == 2, 'table types')
    st = sh[-1]
    ck(st[6] == shnum - 2 and st[9] == (16 if bits == 32 else 24) and st[5] % st[9] == 0, 'symtab header')
    sn, tab = content(shnum - 2), content(shnum - 1)
    ck(sn[:1] == b'\0' and sn[-1:] == b'\0', 'symbol names')
    syms = []
    for k in range(0, len(tab), st[9]):
        if bits == 32:
            n, v, size, info, other, idx = struct.unpack_from(E + 'IIIBBH', tab, k)
        else:
            n, info, other, idx, v, size = struct.unpack_from(E + 'IBBHQQ', tab, k)
        syms.append((text_at(sn, n), v, size, info, other, idx))
    ck(syms and syms[0] == ('', 0, 0, 0, 0, 0), 'reserved symbol')
    ck(st[7] == 1, 'first global symbol')
    for k in range(shnum - 3, shnum):
        used.append((sh[k][4], sh[k][4] + sh[k][5]))
    used.sort()
    for (a, b), (c2, d) in zip(used, used[1:]):
        ck(b <= c2, 'overlapping parts')
    mine = list(range(1, shnum - 3))
    return dict(klass=bits, big=big, type=typ, machine=mach, entry=entry, phnum=phnum, names=names, sh=sh, mine=mine, syms=syms, used=used, content=content)


def observation(data, code_len):
    p = parse_elf(data)
    out = {k: p[k] for k in ('klass', 'big', 'type', 'machine', 'entry', 'phnum')}
    # the code is what the headers and tables leave over
    at = 0
    gaps = []
    for a, b in p['used']:
        if a > at:
            gaps.append((at, a))
        at = max(at, b)
    if at < len(data):
        gaps.append((at, len(data)))
    if len(gaps) > 1 or (not gaps and code_len):
        raise ValueError('gaps %r' % gaps)
    base, end = gaps[0] if gaps else (None, None)
    out['code'] = data[base:end] if gaps else b''
    secs = []
    for k in p['mine']:
        name, typ, fl, addr, off, size, link, info, align, ent = p['sh'][k]
        if link or info or ent:
            raise ValueError('section %d' % k)
        if not gaps and size == 0:
            pos = 0         # no code: nothing to point at
        else:
            pos = off - base
        secs.append((p['names'][k], typ, fl, addr, pos, size, align, data[off:off + size]))
    out['sections'] = secs
    out['symbols'] = {}
    for name, v, size, info, other, idx in p['syms'][1:]:
        if idx not in p['mine'] or name in out['symbols']:
            raise ValueError('symbol %s' % name)
        out['symbols'][name] = (v, p['names'][idx], info >> 4, info & 15, other, size)
    return out


def platforms(conc, rng):
    """the platform commands, end to end in a scratch directory"""
    import importlib
    import os
    import shutil
    import sys
    import tempfile
    base = tempfile.mkdtemp(prefix='necro-')
    try:
        for name, (bits, big, e_type, machine, align) in sorted(PLATFORMS.items()):
            for k in range(6):
                data = [rng.randrange(256) for _ in range(rng.choice((1, 4, 6, 17)))]
                more = [rng.randrange(256) for _ in range(rng.choice((3, 4, 8)))]
                src = ".section .text RX\nstart: .db %s\nlast: .dd 1\n.section .data RW\nvar: .db %s\n.export last\n.export var\n" % (
                    ', '.join(map(str, data)), ', '.join(map(str, more)))
                text = bytes(data) + (1).to_bytes(4, 'big' if big else 'little')
                sp, dst = os.path.join(base, 'a.s'), os.path.join(base, 'a.o')
                with open(sp, 'w') as h:
                    h.write(src)
                old = sys.argv
                sys.argv = [name, sp, dst]
                try:
                    importlib.import_module('necroassembler.platforms.' + name).main()
                    with open(dst, 'rb') as h:
                        raw = h.read()
                    p = parse_elf(raw)
                    got = [p['klass'], p['big'], p['type'], p['machine'], [(p['names'][j], p['content'](j), p['sh'][j][8]) for j in p['mine']],
                           [(s[0], s[1], p['names'][s[5]]) for s in p['syms'][1:]]]
                except Exception as e:
                    got = repr(e)
                finally:
                    sys.argv = old
                want = [bits, big, e_type, machine, [('.text', text, align), ('.data', bytes(more), align)], [('last', len(data), '.text'), ('var', 0, '.data')]]
                conc.case(dict(platform=name, source=src), want, got)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def concrete(conc, tier, rng, wits, deadline):
    import time
    from necroassembler.exceptions import AssemblerException as AE
    for k in range(2400 if tier == 'quick' else 12000):
        if time.time() > deadline:
            break
        src, P = program(rng)
        bits, big = rng.choice((32, 64)), rng.random() < 0.5
        e_type, machine, align, sub = rng.choice((1, 1, 2, 3)), rng.choice((3, 4, 8, 20, 40, 62, 243, 65535)), rng.choice((0, 1, 4, 16)), rng.random() < 0.3
        seen = []

        class Sub(ELF):
            def relocate(self, address, data):
                seen.append((address, data.label if isinstance(data.label, str) else str(data.label)))
        try:
            a = Assembler()
            a.big_endian = big
            a.assemble(src)
            linker = (Sub if sub else ELF)(bits, big, e_type, machine, alignment=align)
            a.link(linker)
            raw = bytes(a.assembled_bytes)
        except Exception:
            got = 'rejected'
        else:
            try:
                got = observation(raw, len(P[0]))
                got['relocated'] = seen
            except (ValueError, KeyError, IndexError, struct.error, UnicodeDecodeError) as e:
                got = 'unreadable: %s' % e
        want = expectation(P, bits, big, e_type, machine, align, sub)
        conc.case(dict(source=src, bits=bits, big_endian=big, e_type=e_type, machine=machine, alignment=align, relocates=sub), want, got,
                  key='%s|%s' % ((bits, big, e_type, machine, align, sub), src))
    platforms(conc, rng)
    # the default linker embeds nothing
    for k in range(30):
        src, P = program(rng)
        img, secs, labels, exports, uses, bad = P
        try:
            a = Assembler()
            a.assemble(src)
            a.link()
            got = bytes(a.assembled_bytes)
        except AE:
            got = 'rejected'
        want = 'rejected' if bad or any(u not in labels or labels[u][0] >> 32 for _, u in uses) else None
        if want is None:
            want = bytearray(img)
            for at, u in uses:
                want[at:at + 4] = labels[u][0].to_bytes(4, 'little')
            want = bytes(want)
        conc.case(dict(source=src, linker='default'), want, got)
