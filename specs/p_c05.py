"""C05: label operands are patched with exactly the resolved value, or link fails."""
import time
import itertools

import z3
from pyvc import core, interp, vals, models, loops
from pyvc.core import Unsupported, PathKill
from pyvc.driver import Unit
from pyvc.loops import Rule
from pyvc.models import SSeq
from pyvc.vals import (SymBase, SInt, SBool, STok, SBytes, SObj, is_sym, mk_int, mk_bool, lift_int, lift_bool, fresh_int, tok_info, opaque_bytes, pow2)
from necroassembler.assembler import Assembler, LabelData
from necroassembler import utils
from necroassembler.exceptions import (UnknownLabel, AlignmentError, NotInBitRange, OnlyForwardAddressesAllowed, InvalidBitRange,
                                       NegativeSignNotAllowed)
from .isa import ASM
from . import isa
from .objs import event, events, prove_events

LEVEL = 'proof'
ASSUMPTIONS = ['a recorded operand lies inside the image (every encoder proves it for its own instruction: obligation "patched inside the instruction"), '
               'has a field width of at least 1 and one of the sizes 1, 2, 3, 4, 8 bytes (the sizes the callers use)',
               'the address a label text denotes is given by the contract of get_label_*_by_name (C04); the linker and the operand filter are arbitrary functions',
               'an operand filter is a pure function']
SIZES = (1, 2, 3, 4, 8)


class Relocs(SymBase):
    """labels_addresses: any number of recorded operands"""
    pytype = dict
    name = 'labels_addresses'

    def __init__(self, make):
        self.make = make
        self.memo = {}

    def length(self):
        return SInt(z3.Int('noperands'))

    def sym_elem(self, j):
        return SInt(z3.Int('address'))

    def __getitem__(self, k):
        if not (isinstance(k, SInt) and k.t.eq(z3.Int('address'))):
            raise Unsupported('another key of labels_addresses')
        return self.make()

    get = __getitem__

    def items(self):
        return View(self, lambda: (SInt(z3.Int('address')), self.make()))

    def values(self):
        raise Unsupported('values of labels_addresses without their keys')

    def keys(self):
        return self

    def copy(self):
        return self

    def __bool__(self):
        return bool(self.length() > 0)


class View(SymBase):
    name = 'labels_addresses'

    def __init__(self, d, f):
        self.d, self.f = d, f

    def length(self):
        return self.d.length()

    def sym_elem(self, j):
        return self.f()


def spec_pack_bits(c, args, kw):
    base, *items = args
    if kw:
        raise TypeError('keyword')
    for (end, start), v in items:
        w = end - start + 1
        if not bool(w >= 1):
            raise InvalidBitRange()
        P, H = lift_int(pow2(w)), lift_int(pow2(w - 1))
        c.axiom(P == 2 * H, ('p2h', str(P)))
        if not c.branch(z3.And(lift_int(v) >= -H, lift_int(v) < P)):
            raise InvalidBitRange()
        x = SInt(z3.If(lift_int(v) < 0, lift_int(v) + P, lift_int(v)) * lift_int(pow2(start)))
        base = x if isinstance(base, int) and base == 0 else base | x
    return base


def filtered(v):
    return SInt(z3.Function('filter', z3.IntSort(), z3.IntSort())(lift_int(v)))


class Callable_:
    def __init__(self, f):
        self.f = f

    def __call__(self, *a):
        return self.f(*a)
    __call__.__module__ = 'specs.p_c05'


class Case:
    """one recorded operand in every shape"""

    def __init__(self, size, part=None):
        """part: (relative, bits, filter) of this unit; None: all of them"""
        c = core.CTX
        rel, bits, filt = part if part is not None else (c.choose(2), c.choose(2), c.choose(2))
        self.size = size
        self.label = STok(tok_info('label'))
        self.width = fresh_int('bits_size', 1, None)
        self.relative = SInt(z3.Int('relative_base')) if rel else None
        self.align = fresh_int('alignment', 1, None)
        self.bits = None
        if bits:
            end, start = fresh_int('bits.end', 0, None), fresh_int('bits.start', 0, None)
            c.add(start.t <= end.t)
            self.bits = (end, start)
        self.filter = Callable_(filtered) if filt else None
        self.hook = Callable_(lambda a, v: event('hook', a, v)) if c.choose(2) else None
        self.obj = SObj(LabelData, dict(label=self.label, size=size, bits_size=self.width, relative=self.relative, alignment=self.align,
                                        bits=self.bits, filter=self.filter, hook=self.hook, offset=fresh_int('offset')))


class Patch(Rule):
    """every recorded operand: resolved, checked, written into exactly its own bytes"""

    def __init__(self, asm, linker):
        self.asm, self.linker = asm, linker
        self.where = ''

    def matches(self, it):
        return getattr(it, 'name', None) == 'labels_addresses'

    def start(self, j, x, fr):
        c = core.CTX
        img = opaque_bytes(c.fresh('image'), True)
        self.asm.attrs['assembled_bytes'] = img
        a = z3.Int('address')
        case = self.asm.attrs['labels_addresses'].make()
        c.assume(z3.And(a >= 0, a + case.attrs['size'] <= lift_int(img.length())))
        c.store['events'] = []
        return SBytes(img.segs)

    def leave(self, it, fr):
        self.asm.attrs['assembled_bytes'] = opaque_bytes(core.CTX.fresh('image'), True)
        core.CTX.store['events'] = []

    def after(self, pre, x, out, fr):
        c = core.CTX
        d = c.store['case']
        nm = 'link/operand'
        rel = d.relative is not None
        post = self.asm.attrs['assembled_bytes']
        known = z3.Bool('label.known')
        info = lambda m: dict(outcome=repr(out[1]) if out[0] == 'raise' else out[0], relative=rel, bits=d.bits is not None, filter=d.filter is not None,
                              hook=d.hook is not None, size=d.size, big_endian=str(m.eval(z3.Bool('big_endian'))), model=str(m)[:400])
        v = z3.If(known, addr_of(d.label, d.relative), z3.Int('linker.symbol'))
        A = z3.If(known, addr_of(d.label, None), z3.Int('linker.symbol'))
        P, H = lift_int(pow2(d.width)), lift_int(pow2(d.width - 1))
        c.axiom(P == 2 * H, ('p2h', str(P)))
        lo, hi = (-H, H) if rel else (z3.IntVal(0), P)
        fits = z3.And(v >= lo, v < hi)
        misaligned = A % d.align.t != 0
        if out[0] == 'raise':
            e = out[1]
            cond = {UnknownLabel: z3.And(z3.Not(known), z3.Bool('linker.unknown')), AlignmentError: misaligned,
                    NotInBitRange: z3.Not(fits), OnlyForwardAddressesAllowed: z3.And(z3.BoolVal(not rel), v < 0)}
            for k, f in cond.items():
                if type(e) is k:
                    c.prove('%s/raises-only-when-%s' % (nm, k.__name__), z3.And(f, known == known if k is UnknownLabel else z3.Not(z3.And(z3.Not(known), z3.Bool('linker.unknown')))), info)
                    return
            if type(e) is InvalidBitRange and d.bits is not None:
                c.prove(nm + '/raises-only-when-InvalidBitRange', fits, info)       # spec_pack_bits decided
                return
            c.fail(nm + '/exception', '%s: %s' % (type(e).__name__, e))
            return
        if out[0] != 'normal':
            c.fail(nm + '/loop-leaves', info)
            return
        c.prove(nm + '/label-resolved', z3.Or(known, z3.Not(z3.Bool('linker.unknown'))), info)
        c.prove(nm + '/alignment-checked', z3.Not(misaligned), info)
        c.prove(nm + '/range-checked', fits, info)
        asked = [('linker', SInt(z3.Int('address')))]
        got = [e for e in events() if e[0] == 'linker']
        hooks = [e for e in events() if e[0] == 'hook']
        if c.branch(known):
            prove_events(c, nm + '/linker-not-asked', got, [], info)
        else:
            prove_events(c, nm + '/linker-asked-once', got, asked, info)
        if d.hook is not None:
            prove_events(c, nm + '/hook-called-once', hooks, [('hook', SInt(z3.Int('address')), SInt(v))], info)
            c.prove(nm + '/hook-frame', vals.bytes_eq_goal(post, pre), info)
            return
        prove_events(c, nm + '/no-hook', hooks, [], info)
        w = SInt(v)
        if d.filter is not None:
            w = filtered(w)
        if d.bits is not None:
            try:
                w = spec_pack_bits(c, (0, (d.bits, w)), {})
            except InvalidBitRange:
                c.fail(nm + '/bits-rejected', info)
                return
        a = z3.Int('address')
        big = c.branch(z3.Bool('big_endian'))
        k = z3.Int(c.fresh('position'))
        exp = pre.at(k)
        for i in range(d.size):
            b = (w >> (8 * i)) & 0xFF
            p = a + (d.size - 1 - i if big else i)
            exp = z3.If(k == p, lift_int(SInt(pre.at(k), 0xFF) | b), exp)
        n = lift_int(pre.length())
        c.prove(nm + '/length', lift_int(post.length()) == n, info)
        c.prove(nm + '/bytes', z3.Implies(z3.And(k >= 0, k < n), post.at(k) == exp), info)


def addr_of(label, start):
    if start is None:
        return z3.Int('address_of(%s)' % label.key)
    return z3.Function('distance_of(%s)' % label.key, z3.IntSort(), z3.IntSort())(lift_int(start))


def c_abs(c, args, kw):
    self, name = isa.bind(args, kw, ('self', 'name'))
    if not isinstance(name, STok) or name.key != 'label':
        raise Unsupported('address of another text')
    return SInt(addr_of(name, None)) if c.branch(z3.Bool('label.known')) else None


def c_rel(c, args, kw):
    self, name, start = isa.bind(args, kw, ('self', 'name', 'start'))
    if not isinstance(name, STok) or name.key != 'label':
        raise Unsupported('address of another text')
    return SInt(addr_of(name, start)) if c.branch(z3.Bool('label.known')) else None


class Linker(SymBase):
    def resolve_unknown_symbol(self, assembler, address, data):
        c = core.CTX
        event('linker', address)
        if c.branch(z3.Bool('linker.unknown')):
            raise UnknownLabel('label')
        return SInt(z3.Int('linker.symbol'))


def resolve_unit(size, part=None):
    def body(c):
        def make():
            if 'case' not in c.store:
                c.store['case'] = Case(size, part)
            return c.store['case'].obj
        asm = SObj(Assembler, dict(labels_addresses=Relocs(make), assembled_bytes=opaque_bytes('image', True), big_endian=SBool(z3.Bool('big_endian')),
                                   log=False), host=Assembler())
        linker = Linker()
        c.static['contracts'] = {ASM + 'get_label_absolute_address_by_name': c_abs, ASM + 'get_label_relative_address_by_name': c_rel,
                                 'necroassembler.utils.pack_bits': spec_pack_bits}
        c.static['opaque_or'] = True
        c.static['rules'] = [Patch(asm, linker)]
        interp.icall(Assembler._resolve_labels, (asm, linker), {})
        c.prove('link/all-operands-visited', True)
    return body


# ---- recording ---------------------------------------------------------------
FIELDS = ('label', 'size', 'bits_size', 'offset', 'alignment', 'bits', 'filter', 'relative', 'hook')


class Store(SymBase):
    pytype = dict

    def __setitem__(self, k, v):
        event('record', k, v)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('labels_addresses.%s' % n)


def record_body(c):
    img = opaque_bytes('image', True)
    asm = SObj(Assembler, dict(labels_addresses=Store(), assembled_bytes=img), host=Assembler())
    given = {}
    kw = {}
    defaults = dict(offset=0, alignment=1, bits=None, filter=None, relative=None, hook=None)
    some = c.choose(3)
    for k in ('label', 'size', 'bits_size'):
        given[k] = models.OpaqueStr('label') if k == 'label' else SInt(z3.Int(k))
    for k in defaults:
        given[k] = defaults[k]
        if some == 1 or (some == 2 and k in ('relative', 'bits')):
            kw[k] = given[k] = SInt(z3.Int(k)) if k in ('offset', 'alignment', 'relative') else (SInt(z3.Int('e')), SInt(z3.Int('s'))) if k == 'bits' \
                else Callable_(lambda *a: None)
    interp.icall(Assembler.add_label_translation, (asm, given['label'], given['size'], given['bits_size']), kw)
    ev = events()
    if len(ev) != 1 or ev[0][0] != 'record':
        c.fail('add_label_translation/recorded-once', repr(ev))
        return
    _, at, d = ev[0]
    c.prove('add_label_translation/address', lift_int(at) == lift_int(img.length()) + lift_int(given['offset']))
    for k in FIELDS:
        v = interp.getattr_(d, k)
        g = given[k]
        same = v is g or (isinstance(v, (int, SInt)) and isinstance(g, (int, SInt)) and not isinstance(v, bool))
        c.prove('add_label_translation/' + k, (lift_int(v) == lift_int(g)) if same and v is not g else same)
    c.prove('add_label_translation/frame', vals.bytes_eq_goal(asm.attrs['assembled_bytes'], img))


def operand_body(c):
    """parse_integer_or_label: the number, or 0 and one recorded operand with every field"""
    asm = SObj(Assembler, dict(assembled_bytes=opaque_bytes('image', True)), host=Assembler())
    lab = STok(tok_info('operand'))
    relative = None if c.choose(2) == 0 else SInt(z3.Int('relative_base'))
    signed = SBool(z3.Bool('signed'))
    size, width = SInt(z3.Int('size')), SInt(z3.Int('bits_size'))
    off, al, bits = SInt(z3.Int('offset')), SInt(z3.Int('alignment')), (SInt(z3.Int('e')), SInt(z3.Int('s')))
    filt, hook = Callable_(filtered), Callable_(lambda *a: None)
    given = dict(label=lab, size=size, bits_size=width, offset=off, alignment=al, bits=bits, filter=filt, relative=relative, hook=hook)
    isnum = z3.Bool('operand.number')

    def parse(c, args, kw):
        s, t, n, sg = isa.bind(args, kw, ('self', 'token', 'number_of_bits', 'signed'))
        event('parse', t, n, SBool(lift_bool(sg)))
        k = c.choose(2)
        if k:
            raise NotInBitRange(0, 0)
        if c.branch(isnum):
            return SInt(z3.Int('operand.value'))
        return None

    def add(c, args, kw):
        v = isa.bind(args, kw, ('self',) + FIELDS, dict(offset=0, alignment=1, bits=None, filter=None, relative=None, hook=None))
        event('record', v[1:])
    c.static['contracts'] = {ASM + 'parse_integer': parse, ASM + 'add_label_translation': add}
    nm = 'parse_integer_or_label'
    try:
        r = interp.icall(Assembler.parse_integer_or_label, (asm, lab, size, width),
                         dict(relative=relative, offset=off, alignment=al, bits=bits, filter=filt, hook=hook, signed=signed))
    except NotInBitRange:
        c.prove(nm + '/rejects-before-recording', len(events()) == 1)
        return
    ev = events()
    sg = z3.BoolVal(True) if relative is not None else signed.t
    prove_events(c, nm + '/number-tried', ev[:1], [('parse', lab, width, SBool(sg))])
    if c.branch(isnum):
        c.prove(nm + '/value', z3.And(z3.BoolVal(len(ev) == 1), lift_int(r) == z3.Int('operand.value')))
        return
    c.prove(nm + '/placeholder', z3.BoolVal(True) if isinstance(r, int) and r == 0 else lift_int(r) == 0)
    if len(ev) != 2 or ev[1][0] != 'record':
        c.fail(nm + '/recorded-once', repr(ev))
        return
    for k, v in zip(FIELDS, ev[1][1]):
        g = given[k]
        ok = v is g or (isinstance(v, tuple) and isinstance(g, tuple) and len(v) == len(g) and all(x is y for x, y in zip(v, g)))
        if not ok and isinstance(v, (int, SInt)) and isinstance(g, (int, SInt)):
            ok = lift_int(v) == lift_int(g)
        c.prove(nm + '/' + k, ok)


def link_unit(npre, npost, bound_):
    def body(c):
        host = Assembler()
        asm = SObj(Assembler, dict(assembled_bytes=opaque_bytes('image', True)), host=host)

        class Bound(SymBase):
            def __init__(self, n):
                self.n = n
                if bound_:
                    self.__self__ = asm

            def __call__(self, *a):
                event('pass', self.n, len(a), a[0] if a else asm)
                asm.attrs['assembled_bytes'] = opaque_bytes('after' + self.n, True)
        asm.attrs['pre_link_passes'] = [Bound('pre%d' % i) for i in range(npre)]
        asm.attrs['post_link_passes'] = [Bound('post%d' % i) for i in range(npost)]

        class L(SymBase):
            def link(self, a):
                event('link', a, SBytes(asm.attrs['assembled_bytes'].segs))
                return opaque_bytes('linked')
        lk = L()

        def resolve(c, args, kw):
            s, l = isa.bind(args, kw, ('self', 'linker'))
            event('resolve', s, l)
            asm.attrs['assembled_bytes'] = opaque_bytes('resolved', True)
        c.static['contracts'] = {ASM + '_resolve_labels': resolve}
        interp.icall(Assembler.link, (asm, lk), {})
        n = 0 if bound_ else 1
        last = 'afterpost%d' % (npost - 1) if npost else 'resolved'
        want = [('pass', 'pre%d' % i, n, asm) for i in range(npre)] + [('resolve', asm, lk)] + [('pass', 'post%d' % i, n, asm) for i in range(npost)] \
            + [('link', asm, opaque_bytes(last))]
        prove_events(c, 'link/order', events(), want)
        c.prove('link/result', vals.bytes_eq_goal(asm.attrs['assembled_bytes'], opaque_bytes('linked')))
    return body


class PassLoop(Rule):
    """every registered pass runs exactly once, in order, on this assembler; its failure is not hidden"""

    def __init__(self, which, asm, before, after_):
        self.which, self.asm, self.before, self.image = which, asm, before, after_
        self.name = 'link/%s-passes' % which

    def matches(self, it):
        return isinstance(it, SSeq) and it.name == self.which

    def entry(self, it, fr):
        c = core.CTX
        if any(e[0] == 'pass' for e in events()):
            raise Unsupported('passes are not run by a loop over the list of passes')
        prove_events(c, self.name + '-start', events(), self.before)

    def start(self, j, x, fr):
        core.CTX.store['events'] = []
        self.asm.attrs['assembled_bytes'] = opaque_bytes('some image', True)
        return x

    def after(self, x, y, out, fr):
        c = core.CTX
        ev = events()
        ok = len(ev) == 1 and ev[0][0] == 'pass' and ev[0][1] is y and ev[0][2] == (0 if y.method else 1) and ev[0][3] is self.asm
        c.prove(self.name + '-run-once', bool(ok), repr(ev))
        if ok:
            c.prove(self.name + '-failure', (out[0] == 'raise') == ev[0][4] and out[0] in ('normal', 'raise'), repr(out))
            if out[0] != 'raise':
                c.prove(self.name + '-image', vals.bytes_eq_goal(SBytes(self.asm.attrs['assembled_bytes'].segs), opaque_bytes('passed')))

    def leave(self, it, fr):
        if core.CTX.branch(z3.Bool(self.which + ' pass fails')):
            raise Refuse()
        event(self.which)
        self.asm.attrs['assembled_bytes'] = opaque_bytes(self.image, True)


class Refuse(Exception):
    pass


def link_all_body(c):
    """any number of passes before and after the labels are resolved"""
    host = Assembler()
    asm = SObj(Assembler, dict(assembled_bytes=opaque_bytes('image', True)), host=host)

    class Pass(SymBase):
        def __init__(self, j, method):
            self.j, self.method = j, method
            if method:
                self.__self__ = asm

        def __call__(self, *a):
            fails = c.branch(z3.Bool('this pass fails'))
            event('pass', self, len(a), a[0] if a else asm, fails)
            if fails:
                raise Refuse()
            asm.attrs['assembled_bytes'] = opaque_bytes('passed', True)

    def passes(which):
        n = fresh_int(which + '-passes', 0, None)
        return SSeq(n, lambda j: Pass(j, c.choose(2) == 0), which)
    asm.attrs['pre_link_passes'] = passes('pre')
    asm.attrs['post_link_passes'] = passes('post')

    class L(SymBase):
        def link(self, a):
            event('link', a, SBytes(asm.attrs['assembled_bytes'].segs))
            if c.branch(z3.Bool('linker fails')):
                raise Refuse()
            return opaque_bytes('linked')
    lk = L()

    def resolve(c, args, kw):
        s, l = isa.bind(args, kw, ('self', 'linker'))
        event('resolve', s, l, SBytes(asm.attrs['assembled_bytes'].segs))
        if c.branch(z3.Bool('resolve fails')):
            raise Refuse()
        asm.attrs['assembled_bytes'] = opaque_bytes('resolved', True)
    c.static['contracts'] = {ASM + '_resolve_labels': resolve}
    first = [('pre',), ('resolve', asm, lk, opaque_bytes('after pre'))]
    c.static['rules'] = [PassLoop('pre', asm, [], 'after pre'), PassLoop('post', asm, first, 'after post')]

    def known_loops():
        for e in events():
            if e[0] == 'pass':
                raise Unsupported('passes are not run by a loop over the list of passes')
    try:
        interp.icall(Assembler.link, (asm, lk), {})
    except Refuse:
        known_loops()
        ev = [e[0] for e in events()]
        b = lambda n: z3.Bool(n)
        c.prove('link/failure', z3.Or(z3.And(b('pre pass fails'), z3.BoolVal(ev == [])),
                                      z3.And(b('resolve fails'), z3.BoolVal(ev == ['pre', 'resolve'])),
                                      z3.And(b('post pass fails'), z3.BoolVal(ev == ['pre', 'resolve'])),
                                      z3.And(b('linker fails'), z3.BoolVal(ev == ['pre', 'resolve', 'post', 'link']))))
        return
    known_loops()
    prove_events(c, 'link/order', events(), first + [('post',), ('link', asm, opaque_bytes('after post'))])
    c.prove('link/no-failure-hidden', z3.Not(z3.Or([z3.Bool(n) for n in ('pre pass fails', 'resolve fails', 'post pass fails', 'linker fails')])))
    c.prove('link/result', vals.bytes_eq_goal(asm.attrs['assembled_bytes'], opaque_bytes('linked')))


def default_linker_body(c):
    """without a linker, an unknown label is an error and the image is the result"""
    asm = SObj(Assembler, dict(assembled_bytes=opaque_bytes('image', True), pre_link_passes=[], post_link_passes=[]), host=Assembler())

    def resolve(c, args, kw):
        s, l = isa.bind(args, kw, ('self', 'linker'))
        try:
            r = interp.icall(interp.getattr_(l, 'resolve_unknown_symbol'), (asm, SInt(z3.Int('address')), SObj(LabelData, dict(label=models.OpaqueStr('label')))), {})
            c.fail('link/default-linker', 'resolves an unknown symbol to %r' % (r,))
        except UnknownLabel:
            c.prove('link/default-linker', True)
    c.static['contracts'] = {ASM + '_resolve_labels': resolve}
    interp.icall(Assembler.link, (asm,), {})
    c.prove('link/default-result', vals.bytes_eq_goal(asm.attrs['assembled_bytes'], opaque_bytes('image')))


def units(tier, dep=False):
    fns = [ASM + '_resolve_labels', 'necroassembler.utils.in_bit_range_decimal']
    out = []
    for s in sorted(SIZES, reverse=True):
        if s < 4:
            out.append(Unit('C05.resolve.%d-bytes' % s, resolve_unit(s), fns, budget=200))
            continue
        for part in itertools.product((0, 1), repeat=3):            # the eight shapes of a record, side by side
            name = '.'.join(n for n, k in zip(('relative', 'bits', 'filter'), part) if k) or 'plain'
            out.append(Unit('C05.resolve.%d-bytes.%s' % (s, name), resolve_unit(s, part), fns, budget=400, timeout_ms=4000))
    out.append(Unit('C05.add_label_translation', record_body, [ASM + 'add_label_translation']))
    out.append(Unit('C05.parse_integer_or_label', operand_body, [ASM + 'parse_integer_or_label']))
    out.append(Unit('C05.default-linker', default_linker_body, [ASM + 'link', 'necroassembler.linker.Dummy.link', 'necroassembler.linker.Dummy.resolve_unknown_symbol']))
    if dep:
        return out
    out.append(Unit('C05.link', link_all_body, [ASM + 'link'], budget=60, max_paths=2000))
    for a, b in ((0, 0), (1, 0), (0, 1), (2, 2)):
        for k in (False, True):
            out.append(Unit('C05.link.%d-pre.%d-post.%s' % (a, b, 'methods' if k else 'functions'), link_unit(a, b, k), [ASM + 'link'],
                            bounded='%d pre-link and %d post-link passes' % (a, b)))
    return out


class Records(Assembler):
    """a user of the encoder interface: every REC instruction records operands with parameters of its own"""
    hex_prefixes = ('$',)
    table = ()

    def register_instructions(self):
        self.register_instruction('REC', self.rec)

    def rec(self, i):
        body, recs = self.table[int(i.tokens[1])]
        for label, size, width, offset, kw in recs:
            kw = dict(kw)
            if 'relative' in kw:
                kw['relative'] = self.pc + kw['relative']
            self.add_label_translation(label=label, size=size, bits_size=width, offset=offset, **kw)
        return bytes(body)


class RecordsBig(Records):
    big_endian = True


class Symbols:
    """a linker that knows one symbol"""

    def resolve_unknown_symbol(self, assembler, address, data):
        if data.label != 'ext':
            raise UnknownLabel(data.label)
        return 0x2A

    def link(self, assembler):
        return assembler.assembled_bytes


FILTERS = {'half': lambda x: x >> 1, 'plus': lambda x: x + 1, 'low': lambda x: x & 0xFFFF, 'not': lambda x: ~x & 0xFF, 'minus': lambda x: x - 3, 'same': lambda x: x}


def record_case(rng):
    """one program over Records: (big endian, source, table, expected outcome)"""
    tame = rng.random() < 0.6
    base = rng.choice((0, 4, 0x10, 0x100, 0x1000)) if tame else rng.choice((0, 0, 1, 0x10, 0x80, 0x7F00, 0xFF00, 0xFFF0, 0x12345678, 0x7FFFFFF0))
    src, table, pc, labels, pend = [], [], base, {}, []
    image = bytearray()
    if base:
        src.append('.org $%X' % base)
    for k in range(rng.choice((1, 1, 2, 3))):
        if rng.random() < 0.6:
            nm = 'l%d' % k
            labels[nm] = base + len(image)
            src.append(nm + ':')
        n = rng.choice((4, 5, 8, 9, 12))
        body = [rng.choice((0, 0, 0, 0x80, 0x0F, 0x55, rng.randrange(256))) for _ in range(n)]
        recs, used = [], set()
        for _ in range(rng.choice((1, 1, 1, 2))):
            size = rng.choice([z for z in (1, 2, 3, 4, 8) if z <= n])
            off = rng.randrange(n - size + 1)
            if off in used:
                continue
            used.add(off)
            width = rng.choice((8 * size, 8 * size, 4, 5, 7, 8, 12, 16, 24, 28, 32)) if not tame else rng.choice((16, 20, 32))
            kw = {}
            if rng.random() < 0.4:
                kw['relative'] = rng.choice((0, 1, 2, 4, -3, n))
            if rng.random() < (0.1 if tame else 0.25):
                kw['alignment'] = rng.choice((1, 2, 4))
            if rng.random() < 0.35:
                e = rng.randrange(8 * size) if not tame else rng.randrange(8 * size * 3 // 4, 8 * size)
                kw['bits'] = (e, rng.randrange(e + 1) if not tame else rng.choice((0, 0, e // 4))) if rng.random() < 0.95 else (e, e + 1)
            if rng.random() < 0.35:
                kw['filter'] = rng.choice(sorted(FILTERS))
            if rng.random() < 0.1:
                kw['hook'] = True
            recs.append([rng.choice(('l0', 'l1', 'l2', 'l0', 'end', 'end', 'ext', '<l0', '>l1', 'l0+1', 'end-2', '>ext')) if rng.random() < 0.98 else 'nolabel',
                         size, width, off, kw])
        pend.append((len(image), recs))
        table.append((body, recs))
        src.append('REC %d' % k)
        image += bytes(body)
    for nm in ['end'] + [x for x in ('l0', 'l1', 'l2') if x not in labels and (tame or rng.random() < 0.5)]:
        labels[nm] = base + len(image)
        src.append(nm + ':')
    return base, '\n'.join(src) + '\n', table, labels, pend, image


def expected_image(big, base, labels, pend, image):
    image = bytearray(image)
    calls = []
    for at, recs in pend:
        for label, size, width, off, kw in recs:
            name, pre = label, ''
            while name[:1] in ('<', '>'):
                pre, name = pre + name[0], name[1:]
            op = next((x for x in '+-' if x in name), None)
            add = 0
            if op:
                name, n = name.split(op)
                add = int(n) if op == '+' else -int(n)
            rel = base + at + kw['relative'] if 'relative' in kw else None
            if name in labels:
                def val(v):
                    if pre == '>':
                        v >>= 8
                    elif pre == '<':
                        v &= 0xFF
                    return v + add
                absolute = val(labels[name])
                v = absolute if rel is None else val(labels[name] - rel)
            elif label == 'ext':
                v = absolute = 0x2A
            else:
                return 'rejected'
            if absolute % kw.get('alignment', 1):
                return 'rejected'
            if not ((-(1 << (width - 1)) <= v < 1 << (width - 1)) if rel is not None else 0 <= v < 1 << width):
                return 'rejected'
            if kw.get('hook'):
                calls.append((at + off, v))
                continue
            if 'filter' in kw:
                v = FILTERS[kw['filter']](v)
            if 'bits' in kw:
                e, s = kw['bits']
                w = e - s + 1
                if e < s or not -(1 << (w - 1)) <= v < 1 << w:
                    return 'rejected'
                v = (v % (1 << w)) << s
            for k, b in enumerate((v % (1 << (8 * size))).to_bytes(size, 'big' if big else 'little')):
                image[at + off + k] |= b
    return [image.hex(), calls]


def observed_image(big, src, table):
    calls = []
    tab = []
    for body, recs in table:
        out = []
        for label, size, width, off, kw in recs:
            kw = dict(kw)
            if 'filter' in kw:
                kw['filter'] = FILTERS[kw['filter']]
            if 'hook' in kw:
                kw['hook'] = lambda a, v: calls.append((a, v))
            out.append((label, size, width, off, kw))
        tab.append((body, out))
    a = (RecordsBig if big else Records)()
    a.table = tab
    try:
        a.assemble(src)
        a.link(Symbols())
    except Exception:
        return 'rejected'
    return [bytes(a.assembled_bytes).hex(), calls]


def passes(conc, tier, rng, deadline):
    """linker passes: methods and functions, each exactly once, in order, around the resolution of labels"""
    class Host(Assembler):
        pass
    for k in range(300 if tier == 'quick' else 3000):
        log, asm = [], Host()
        npre, npost = rng.choice((0, 1, 2, 3, 5, 9, 17)), rng.choice((0, 1, 2, 3, 5, 9, 17))

        def make(tag):
            def run(a):
                log.append((tag, a is asm, bytes(a.assembled_bytes)))
                a.assembled_bytes += tag.encode()
            if rng.random() < 0.5:
                return run
            import types
            return types.MethodType(run, asm)
        asm.pre_link_passes += [make('p%d' % i) for i in range(npre)]
        asm.post_link_passes += [make('q%d' % i) for i in range(npost)]
        source = rng.choice(('.db 1', 'x: .dw x', '.db 1, 2, 3', 'x: .dw y'))
        want, image, resolved = [], {'.db 1': b'\1', 'x: .dw x': b'\0\0', '.db 1, 2, 3': b'\1\2\3'}.get(source, b'\0\0'), source != 'x: .dw y'
        for i in range(npre):
            want.append(('p%d' % i, True, image))
            image += b'p%d' % i
        for i in range(npost if resolved else 0):
            want.append(('q%d' % i, True, image))
            image += b'q%d' % i
        try:
            asm.assemble(source)
            asm.link()
            got = [log, bytes(asm.assembled_bytes)]
        except UnknownLabel:
            got = [log, 'UnknownLabel']
        except Exception as e:
            got = [log, type(e).__name__]
        conc.case(dict(passes=[npre, npost], source=source), [want, image if resolved else 'UnknownLabel'], got, key='passes %d' % k)
        if len(conc.failures) > 20 or time.time() > deadline:
            break


def records(conc, tier, rng, deadline):
    import time
    for k in range(6000 if tier == 'quick' else 60000):
        if time.time() > deadline - 20:
            return
        big = bool(rng.getrandbits(1))
        base, src, table, labels, pend, image = record_case(rng)
        conc.case(dict(big_endian=big, source=src, records=table), expected_image(big, base, labels, pend, image), observed_image(big, src, table))


def concrete(conc, tier, rng, wits, deadline):
    passes(conc, tier, rng, deadline)
    records(conc, tier, rng, deadline)
    from . import progs
    progs.run(conc, tier, rng, deadline, 'C05', 22000 if tier == 'quick' else 250000)
