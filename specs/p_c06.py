"""C06: the location counter, labels and layout directives agree with the emitted image."""
import ast
import z3
from pyvc import core, interp, vals, models, loops
from pyvc.core import Unsupported, PathKill
from pyvc.driver import Unit
from pyvc.loops import Rule
from pyvc.models import SSeq, SRange
from pyvc.vals import (SymBase, SInt, SBool, STok, SymTokens, SBytes, Seg, SObj, is_sym, mk_int, mk_bool, lift_int, and_, fresh_int, tok_info, opaque_bytes)
from necroassembler.assembler import Assembler, LabelData
from necroassembler import statements as st_mod
from .isa import ASM
from . import isa, p_c10
from .objs import event, events

LEVEL = 'proof'
ASSUMPTIONS = ['the number an operand denotes is given by the contract of parse_integer (C02, C03)',
               'origins, the counter and the region end are natural numbers (they start at 0; every write to them is one of the functions under contract)',
               'running out of memory is a rejection',
               'lemma (induction on n): appending a block n times appends n copies of it']


class Rejected(Exception):
    pass


def state(c, **kw):
    host = Assembler()
    a = dict(current_org=fresh_int('org', 0), org_counter=fresh_int('counter', 0), current_org_end=fresh_int('region_end', 0),
             assembled_bytes=opaque_bytes('image', True), fill_value=fresh_int('fill_value', 0, 255), log=False, repeat=None,
             sections={}, current_section=None)
    a.update(kw)
    core.CTX.add(invariant(a))
    return SObj(Assembler, a, host=host)


def invariant(a):
    org, end = lift_int(a['current_org']), lift_int(a['current_org_end'])
    return z3.And(org >= 0, lift_int(a['org_counter']) >= 0, z3.Or(end == 0, end >= org))


class S:
    """specification state"""

    def __init__(self, asm):
        a = asm.attrs
        self.org, self.ctr, self.end = (lift_int(a[k]) for k in ('current_org', 'org_counter', 'current_org_end'))
        self.img = SBytes(a['assembled_bytes'].segs)
        self.fill = a['fill_value']
        self.repeat = a['repeat']
        self.out = SBytes([])

    @property
    def pc(self):
        return self.org + self.ctr

    def pad(self, v, n, count=True):
        n = z3.If(n > 0, n, z3.IntVal(0))
        self.out = self.out + SBytes([Seg(n, lambda i, _v=lift_int(v): _v, ('spec-fill', n.get_id(), str(v)))])
        if count:
            self.ctr = self.ctr + n


def need(c, cond):
    if not c.branch(cond):
        raise Rejected()


class Ops:
    """operands of a directive"""

    def __init__(self, c, asm, toks, n):
        self.c, self.asm, self.toks, self.n = c, asm, toks, n
        self.E = isa.SymEnv(c, asm.host, 0)

    def count(self, *ns):
        if not bool(vals.or_(*[self.n == k + 1 for k in ns])):
            raise Rejected()

    def has(self, i):
        return bool(self.n > i)

    def num(self, i, bits):
        try:
            k, v, dec = self.E.value(self.toks.elem(i))
            if k != 'num':
                raise Rejected()
            return lift_int(isa.fitnum(v, dec, bits, False))
        except isa.Reject:
            raise Rejected()


def set_org(c, s, start, end):
    need(c, z3.Or(end <= 0, end >= start))
    if c.branch(s.end > 0):
        need(c, z3.And(start >= s.pc, start > s.org))
        s.pad(s.fill, z3.If(start > s.end, s.end + 1, start) - s.pc, count=False)
    s.org, s.end, s.ctr = start, end, z3.IntVal(0)


def sp_org(c, s, o):
    o.count(1, 2)
    a = o.num(1, 64)
    b = o.num(2, 64) if o.has(2) else z3.IntVal(0)
    set_org(c, s, a, b)


def value(c, s, o):
    return SInt(o.num(2, 8)) if o.has(2) else s.fill


def sp_fill(c, s, o):
    o.count(1, 2)
    n = o.num(1, 64)
    s.pad(value(c, s, o), n)


def sp_goto(c, s, o):
    o.count(1, 2)
    n = o.num(1, 64)
    need(c, n >= s.pc)
    s.pad(value(c, s, o), n - s.pc)


def sp_upto(c, s, o):
    o.count(1, 2)
    n = o.num(1, 64)
    need(c, n >= s.ctr)
    s.pad(value(c, s, o), n - s.ctr)


def sp_ram(c, s, o):
    o.count(1)
    n = o.num(1, 64)
    need(c, n >= 1)
    s.ctr = s.ctr + n


def sp_align(c, s, o):
    o.count(1)
    n = o.num(1, 64)
    need(c, n != 0)
    s.pad(s.fill, z3.If(s.pc % n == 0, z3.IntVal(0), n - s.pc % n))


def sp_repeat(c, s, o):
    need(c, z3.BoolVal(s.repeat is None))
    o.count(1)
    n = o.num(1, 64)
    need(c, n >= 1)
    s.repeat = (SInt(n), s.img.length())


DIRS = dict(org=sp_org, fill=sp_fill, goto=sp_goto, upto=sp_upto, ram=sp_ram, align=sp_align, repeat=sp_repeat)


def check(c, nm, asm, s, err, want_reject, info=None):
    a = asm.attrs
    if want_reject or err is not None:
        if want_reject and err is not None:
            c.prove(nm + '/rejects', True)
        elif want_reject:
            c.fail(nm + '/accepts-iff-specified', 'accepted, the definition rejects it')
        else:
            c.fail(nm + '/accepts-iff-specified', '%s: %s' % (type(err).__name__, str(err)[:150]))
        return
    c.prove(nm + '/image', vals.bytes_eq_goal(a['assembled_bytes'], s.img + s.out), info)
    c.prove(nm + '/counter', lift_int(a['org_counter']) == s.ctr, info)
    c.prove(nm + '/origin', z3.And(lift_int(a['current_org']) == s.org, lift_int(a['current_org_end']) == s.end), info)
    c.prove(nm + '/invariant', invariant(a))
    r = a['repeat']
    if s.repeat is None or r is None:
        c.prove(nm + '/repeat', r is None and s.repeat is None)
    elif isinstance(r, tuple) and len(r) == 2:
        c.prove(nm + '/repeat', z3.And([lift_int(x) == lift_int(y) for x, y in zip(r, s.repeat)]))
    else:
        raise Unsupported('repeat state of another shape')
    c.prove(nm + '/fill-value', lift_int(a['fill_value']) == lift_int(s.fill))


def c_append(c, args, kw):
    self, blob = isa.bind(args, kw, ('self', 'blob'))
    b = SBytes.of(blob)
    if b is None:
        raise TypeError('not bytes')
    a = self.attrs
    a['assembled_bytes'] = a['assembled_bytes'] + b
    a['org_counter'] = a['org_counter'] + b.length()


def c_change_org(c, args, kw):
    from necroassembler.exceptions import AddressOverlap
    self, start, end = isa.bind(args, kw, ('self', 'start', 'end'), dict(end=0))
    s = S(self)
    try:
        set_org(c, s, lift_int(start), lift_int(end))
    except Rejected:
        e = AddressOverlap.__new__(AddressOverlap)
        raise e
    a = self.attrs
    a['assembled_bytes'] = s.img + s.out
    a['assembled_bytes'].mutable = True
    a['current_org'], a['org_counter'], a['current_org_end'] = SInt(s.org), SInt(s.ctr), SInt(s.end)


CONTRACTS = {ASM + 'parse_integer': isa.c_parse_integer, ASM + 'append_assembled_bytes': c_append, ASM + 'change_org': c_change_org}


def statement(c, name):
    n = fresh_int('ntokens', 1, None)
    toks = SymTokens('t', n, first=STok(tok_info('t0')))
    return SObj(st_mod.Directive, dict(tokens=toks, line=1, context=None)), toks, n


def directive_unit(name):
    host = Assembler()
    f = host.directives.get(name.upper())
    spec = DIRS[name]

    def body(c):
        if f is None:
            c.fail('.%s/registered' % name, 'directive is not registered')
            return
        c.static['contracts'] = CONTRACTS
        asm = state(c, repeat=(fresh_int('repeat', 1), fresh_int('repeat_at', 0)) if name == 'repeat' and c.choose(2) else None)
        c.store['lift'] = {id(host): asm}
        c.static['cfg'] = host
        ins, toks, n = statement(c, name)
        s = S(asm)
        err = None
        try:
            interp.icall(f, (ins,), {})
        except Exception as e:
            err = e
        rej = False
        try:
            spec(c, s, Ops(c, asm, toks, n))
        except Rejected:
            rej = True
        check(c, '.' + name, asm, s, err, rej)
    q = getattr(f, '__func__', f)
    return Unit('C06.%s' % name, body, [getattr(q, '__module__', '?') + '.' + getattr(q, '__qualname__', '?')])


def change_org_body(c):
    asm = state(c)
    s = S(asm)
    start = fresh_int('start', 0)
    end = fresh_int('end', 0) if c.choose(2) else None
    err = None
    try:
        interp.icall(Assembler.change_org, (asm, start) + (() if end is None else (end,)), {})
    except Exception as e:
        err = e
    rej = False
    try:
        set_org(c, s, start.t, z3.IntVal(0) if end is None else end.t)
    except Rejected:
        rej = True
    check(c, 'change_org', asm, s, err, rej)


def append_body(c):
    asm = state(c)
    s = S(asm)
    b = opaque_bytes('blob')
    interp.icall(Assembler.append_assembled_bytes, (asm, b), {})
    s.out = b
    s.ctr = s.ctr + lift_int(b.length())
    check(c, 'append_assembled_bytes', asm, s, None, False)


def pc_body(c):
    asm = state(c)
    s = S(asm)
    c.prove('pc/value', lift_int(interp.getattr_(asm, 'pc')) == s.pc)
    check(c, 'pc', asm, s, None, False)


# ---- the end of a source file -------------------------------------------------
class Statements(Rule):
    """whatever the statements did (their own contracts say what)"""

    def __init__(self, asm):
        self.asm = asm

    def matches(self, it):
        return isinstance(it, SSeq) and it.name == 'statements'

    def start(self, j, x, fr):
        return None

    def after(self, tok, x, out, fr):
        pass

    def leave(self, it, fr):
        c = core.CTX
        a = self.asm.attrs
        a['assembled_bytes'] = opaque_bytes('image_after', True)
        for k in ('org_counter', 'current_org', 'current_org_end'):
            a[k] = fresh_int(k + '_after', 0, None)
        c.add(invariant(a))
        c.store['after'] = S(self.asm)
        if a['current_section'] is not None:
            off = fresh_int('section_offset', 0)
            a['sections'] = {'sec': {'offset': off, 'start': fresh_int('section_start', 0), 'permissions': 'R'}}


class Nothing(SymBase):
    def assemble(self, asm):
        pass

    def __str__(self):
        return '<statement>'
    __format__ = lambda self, s: '<statement>'


def end_body(c):
    c.static['contracts'] = dict(CONTRACTS)
    included = c.choose(2)
    asm = state(c, current_section='sec' if c.choose(2) else None)
    stmts = SSeq(fresh_int('nstatements', 0), lambda k: Nothing(), 'statements')

    class Tok(SymBase):
        statements = ()

        def parse(self, text):
            self.statements = stmts

    def mk(cc, args, kw):
        return Tok()
    c.static['contracts']['necroassembler.tokenizer.Tokenizer'] = mk
    c.static['rules'] = [Statements(asm)]
    nm = 'end of %s' % ('included file' if included else 'source')
    code = models.OpaqueStr('source')
    if included:
        # through the directive, so that the way it is told apart does not matter
        class F(SymBase):
            def read(self):
                return code

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return None
        c.static['open'] = lambda fn, mode='r': F()
        toks = SymTokens('t', SInt(z3.IntVal(2)), first=STok(tok_info('t0')))
        ins = SObj(st_mod.Directive, dict(tokens=toks, line=1, context=None))
        interp.icall(Assembler.directive_include, (asm, ins), {})
    else:
        interp.icall(Assembler.assemble, (asm, code), {})
    s = c.store.get('after')
    if s is None:
        c.fail(nm + '/statements', 'the statements were not assembled')
        return
    if not included and c.branch(s.end > 0):
        s.pad(s.fill, s.end + 1 - s.pc)
    check(c, nm, asm, s, None, False)
    if not included and asm.attrs['current_section'] is not None:
        d = asm.attrs['sections']['sec']
        c.prove(nm + '/section-end', lift_int(d['end']) == s.pc)
        c.prove(nm + '/section-size', lift_int(d['size']) == lift_int((s.img + s.out).length()) - lift_int(d['offset']))


# ---- .endrepeat -----------------------------------------------------------------
ADDR = z3.Int('operand_address')


class Table(SymBase):
    """labels_addresses: any number of recorded operands; stores are recorded"""
    pytype = dict

    def __init__(self, data, cond=None, key=None, value=None, live=True):
        self.data, self.cond, self.live = data, cond, live

    name = 'operands'

    def length(self):
        return SInt(z3.Int('noperands' if self.live else 'ninside'))

    def items(self):
        return Items(self, 'items')

    def keys(self):
        return Items(self, 'keys')

    def sym_elem(self, j):
        return SInt(ADDR)

    def __getitem__(self, k):
        if lift_int(k).eq(ADDR):
            return self.data()
        raise Unsupported('another recorded operand')

    def __setitem__(self, k, v):
        event('record', k, v)

    def copy(self):
        return Table(self.data, self.cond, live=False)

    def comprehend(self, node, fr):
        return Items(self, 'keys').comprehend(node, fr)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('labels_addresses.%s' % n)


class Items(SymBase):
    name = 'operands'

    def __init__(self, t, what, shape=None, cond=None):
        self.t, self.what, self.cond = t, what, cond if cond is not None else t.cond
        self.shape = shape

    def length(self):
        return self.t.length()

    def sym_elem(self, j):
        if self.what == 'items':
            return SInt(ADDR), self.t.data()
        if self.what == 'shape':
            return self.shape()
        return SInt(ADDR)

    def comprehend(self, node, fr):
        g = node.generators[0]
        child = interp.Frame(fr, fr.globals, set(), {}, fr.func)
        for x in ast.walk(g.target):
            if isinstance(x, ast.Name):
                child.names.add(x.id)
        c = core.CTX

        def el(f):
            interp.assign(g.target, self.sym_elem(None), child)
            return f()
        cond = self.cond if self.cond is not None else z3.BoolVal(True)
        for k in g.ifs:
            cond = z3.And(cond, vals.lift_bool(c.merge(lambda k=k: as_bool(el(lambda: interp.eval_(k, child))))))
        if isinstance(node, ast.DictComp):
            k = el(lambda: interp.eval_(node.key, child))
            v = el(lambda: interp.eval_(node.value, child))
            if not (lift_int(k).eq(ADDR) and v is self.t.data()):
                raise Unsupported('operand table of another shape')
            return Table(self.t.data, cond, live=False)
        return Items(Table(self.t.data, cond, live=False), 'shape', lambda: el(lambda: interp.eval_(node.elt, child)), cond)


def as_bool(v):
    if isinstance(v, SBool):
        return v
    if isinstance(v, bool):
        return v
    return bool(v)


class Inside(Rule):
    """for each operand of the repeated block: one copy, moved"""

    def __init__(self, asm, shift):
        self.asm, self.shift = asm, shift

    def matches(self, it):
        return getattr(it, 'name', None) == 'operands'

    def start(self, j, x, fr):
        c = core.CTX
        it = self._it
        if (it if isinstance(it, Table) else it.t).live:
            raise Unsupported('the operand table grows while it is walked')
        cond = getattr(self._it, 'cond', None)
        if cond is None and isinstance(self._it, Items):
            cond = self._it.t.cond
        c.store['inside_cond'] = cond
        if cond is not None:
            c.assume(cond)
        c.store['events'] = []
        return None

    def __call__(self, node, it, fr):
        self._it = it
        return super().__call__(node, it, fr)

    def after(self, tok, x, out, fr):
        c = core.CTX
        inside = c.store['inside']
        nm = '.endrepeat/operand'
        if out[0] == 'raise':
            c.fail(nm, repr(out[1]))
            return
        ev = events()
        if not c.branch(inside):
            c.prove(nm + '-of-other-code-untouched', not ev)
            return
        if len(ev) != 1:
            c.fail(nm + '-copied-once', 'records %d operands' % len(ev))
            return
        _, at, d = ev[0]
        old = c.store['operand']
        sh = c.store['shift']
        c.prove(nm + '/address', lift_int(at) == ADDR + sh)
        if d is old:
            c.fail(nm + '/copied', 'the original entry is stored again')
            return
        for k in ('label', 'size', 'bits_size', 'offset', 'alignment', 'bits', 'filter', 'hook'):
            v, w = interp.getattr_(d, k), c.store['operand_values'][k]
            c.prove(nm + '/' + k, v is w or (is_sym(v) and is_sym(w) and lift_int(v) == lift_int(w)))
            o = interp.getattr_(old, k)
            if o is not w:
                c.fail(nm + '/original-unchanged', k)
        r, w = interp.getattr_(d, 'relative'), c.store['operand_values']['relative']
        if w is None:
            c.prove(nm + '/relative', r is None)
        else:
            c.prove(nm + '/relative', (lift_int(r) == w.t + sh) if r is not None else False)
        c.prove(nm + '/original-unchanged', interp.getattr_(old, 'relative') is w)

    def leave(self, it, fr):
        c = core.CTX
        cond = getattr(it, 'cond', None)
        if cond is None and isinstance(it, Items):
            cond = it.t.cond
        if cond is not None:
            # no operand of the block may be left out
            c.prove('.endrepeat/every-operand-of-the-block', z3.Implies(c.store['inside'], cond))
        c.store['operands_moved'] = c.store['shift']
        c.store['events'] = []


class Copies(Rule):
    def __init__(self, asm, blob, size):
        self.asm, self.blob, self.size = asm, blob, size

    def matches(self, it):
        return isinstance(it, SRange)

    def entry(self, it, fr):
        c = core.CTX
        c.prove('.endrepeat/number-of-copies', lift_int(it.length()) == z3.If(self.size > 1, self.size - 1, z3.IntVal(0)))

    def start(self, j, x, fr):
        c = core.CTX
        a = self.asm.attrs
        a['assembled_bytes'] = opaque_bytes('image_j', True)
        a['org_counter'] = fresh_int('counter_j', 0)
        c.store['shift'] = lift_int(self.blob.length()) * (j + 1)
        s = S(self.asm)
        return s

    def after(self, s, x, out, fr):
        c = core.CTX
        if out[0] != 'normal':
            c.fail('.endrepeat/copy', '%s %r' % out)
            return
        s.out = self.blob
        s.ctr = s.ctr + lift_int(self.blob.length())
        check(c, '.endrepeat/copy', self.asm, s, None, False)
        c.prove('.endrepeat/copy-operands', 'operands_moved' in c.store)

    def blob_len(self):
        return lift_int(self.blob.length())

    def leave(self, it, fr):
        a = self.asm.attrs
        c = core.CTX
        n = z3.Int('repeated.len')
        f = z3.Function('repeated.at', z3.IntSort(), z3.IntSort())
        c.axiom(z3.And(n >= 0, n == self.blob_len() * z3.If(self.size > 1, self.size - 1, z3.IntVal(0))), ('rep',))
        rep = SBytes([Seg(n, lambda i: f(i), ('repeated',))])
        a['assembled_bytes'] = SBytes((self.img + rep).segs, True)
        a['org_counter'] = SInt(self.ctr + n)
        c.store['repeated'] = rep


def end_repeat_body(c):
    open_ = c.choose(2)
    size, at = fresh_int('repeat', 1), fresh_int('repeat_at', 0)
    c.static['contracts'] = CONTRACTS
    asm = state(c, repeat=(size, at) if open_ else None)
    c.add(at.t <= lift_int(asm.attrs['assembled_bytes'].length()))
    relative = None if c.choose(2) else fresh_int('relative')
    v = {k: SInt(z3.Int('op.' + k)) for k in ('label', 'size', 'bits_size', 'offset', 'alignment')}
    v.update(bits=models.OpaqueStr('bits'), filter=models.OpaqueStr('filter'), hook=models.OpaqueStr('hook'), relative=relative)
    d = SObj(LabelData, dict(v))
    c.store['operand'], c.store['operand_values'] = d, v
    asm.attrs['labels_addresses'] = Table(lambda: d)
    c.store['inside'] = ADDR >= at.t
    s = S(asm)
    ins, toks, n = statement(c, 'endrepeat')
    nm = '.endrepeat'
    blob = s.img[slice(at, None)]
    r = Copies(asm, blob, size.t)
    r.img, r.ctr = s.img, s.ctr
    c.static['rules'] = [r, Inside(asm, None)]
    err = None
    try:
        interp.icall(Assembler.directive_end_repeat, (asm, ins), {})
    except Exception as e:
        err = e
    if open_:
        if 'repeated' not in c.store and err is None:
            raise Unsupported('copies are not made by the loop under contract')
        s.out = c.store.get('repeated', s.out)
        s.ctr = s.ctr + lift_int(s.out.length())
        s.repeat = None
    check(c, nm, asm, s, err, not open_)


CLASSES = ['assembler.Assembler', 'cpu.mos6502.AssemblerMOS6502', 'cpu.lr35902.AssemblerLR35902', 'cpu.z80.AssemblerZ80', 'cpu.mips32.AssemblerMIPS32',
           'cpu.thumb.AssemblerThumb', 'cpu.mc68000.AssemblerMC68000', 'cpu.intel8086.AssemblerIntel8086', 'cpu.powerpc.AssemblerPowerPC',
           'platforms.gameboy.AssemblerGameboy', 'platforms.nes.AssemblerNES', 'platforms.sms.AssemblerSegaMasterSystem', 'platforms.psx.AssemberPSX']


def initial_body(c):
    """base case of the invariants: a new assembler (the constructors have no arguments, so these are all of them) starts empty at
    address 0, and shares nothing mutable with its class or another assembler"""
    import importlib
    for name in CLASSES:
        m, k = name.rsplit('.', 1)
        cls = getattr(importlib.import_module('necroassembler.' + m), k)
        a, b = cls(), cls()
        for n in ('current_org', 'current_org_end', 'org_counter', 'assembled_bytes', 'labels', 'labels_addresses', 'macros', 'macro_recording', 'repeat',
                  'sections', 'current_section', 'exports'):
            got = getattr(a, n)
            c.prove('initial/%s.%s' % (k, n), not got, repr(got))     # empty, zero or none
        c.prove('initial/%s.fill_value' % k, type(a.fill_value) is int and 0 <= a.fill_value <= 255)
        for n in ('assembled_bytes', 'labels', 'labels_addresses', 'macros', 'sections', 'exports', 'defines', 'instructions', 'directives', 'pre_link_passes', 'post_link_passes'):
            x, y = getattr(a, n), getattr(b, n)
            c.prove('initial/%s.%s is its own' % (k, n), x is not y and x is not getattr(cls, n, None))


def units(tier, dep=False):
    out = [Unit('C06.append_assembled_bytes', append_body, [ASM + 'append_assembled_bytes']), Unit('C06.change_org', change_org_body, [ASM + 'change_org'])]
    out.append(Unit('C06.pc', pc_body, [ASM + 'pc']))
    if dep:
        return out
    out += [directive_unit(d) for d in DIRS]
    out.append(Unit('C06.endrepeat', end_repeat_body, [ASM + 'directive_end_repeat']))
    out.append(Unit('C06.end-of-source', end_body, [ASM + 'assemble', ASM + 'directive_include']))
    out.append(Unit('C06.label', p_c10.label_body, [p_c10.ST + 'Label.assemble']))
    from . import p_c04
    out.append(Unit('C06.initial-state', initial_body, [ASM + '__init__']))
    out += p_c04.units(tier, dep=True)
    return out


def concrete(conc, tier, rng, wits, deadline):
    from . import progs
    progs.run(conc, tier, rng, deadline, 'C06', 22000 if tier == 'quick' else 250000)
