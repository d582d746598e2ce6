"""C07: data directives emit exactly the values written."""
import z3
from pyvc import core, interp, vals, models, loops
from pyvc.core import Unsupported, PathKill
from pyvc.driver import Unit
from pyvc.loops import Rule, Fold
from pyvc.models import SSeq
from pyvc.vals import (SymBase, SInt, SBool, STok, SymTokens, SBytes, Seg, SObj, is_sym, mk_int, mk_bool, lift_int, and_, or_, fresh_int, tok_info, opaque_bytes)
from necroassembler.assembler import Assembler
from necroassembler import statements as st_mod
from .isa import ASM
from . import isa, p_c06
from .p_c06 import S, Rejected, state
from .objs import event, events

LEVEL = 'proof'
ASSUMPTIONS = ['the number an operand denotes is given by the contract of parse_integer (C02, C03), a label operand by add_label_translation (C05)',
               'tokens are not empty (C08); a token that starts with a quote is a whole string (C08)',
               'str.encode, csv.reader and json.load are Python\'s: their results are arbitrary texts, rows and values',
               'files are arbitrary byte strings; an unreadable file is a rejection']
ENC = {1: 'ascii', 2: 'utf16', 4: 'utf32'}


def tokens(n, name='tok'):
    def elem(k):
        t = STok(tok_info('%s[%s]' % (name, z3.simplify(k))))
        core.CTX.axiom(lift_int(t.length()) > 0, ('tok>0', t.key))
        return t
    return SSeq(n, elem, 'tokens')


def c_record(c, args, kw):
    v = isa.bind(args, kw, ('self',) + FIELDS, dict(offset=0, alignment=1, bits=None, filter=None, relative=None, hook=None))
    a = v[0].attrs
    d = dict(zip(FIELDS, v[1:]))
    d['at'] = SInt(lift_int(a['assembled_bytes'].length()) + lift_int(d['offset']))
    event('record', d)


FIELDS = ('label', 'size', 'bits_size', 'offset', 'alignment', 'bits', 'filter', 'relative', 'hook')
CONTRACTS = dict(p_c06.CONTRACTS)
CONTRACTS[ASM + 'add_label_translation'] = c_record


# ---- specification of one operand ------------------------------------------------
def is_string(t):
    return or_(t[0] == '"', t[0] == "'")


def number(E, t, bits):
    """value | None for a label; rejects what does not fit"""
    try:
        k, v, dec = E.value(t)
        if k != 'num':
            return None
        return isa.fitnum(v, dec, bits, False)
    except isa.Reject:
        raise Rejected()


def encode(t, enc):
    try:
        return models.text_encode(t[1:-1], enc)
    except UnicodeError:
        raise Rejected()


def data(size):
    def spec(E, t, big):
        """(bytes, None | relocation)"""
        if bool(is_string(t)):
            return encode(t, ENC[size]), None
        v = number(E, t, 8 * size)
        if v is None:
            return SBytes([[0] * size]), dict(size=size, bits_size=8 * size, relative=None, alignment=1, bits=None, filter=None, hook=None)
        b = isa.be(v, size) if big else isa.le(v, size)
        return SBytes([b]), None
    return spec


def text(size, digits):
    def spec(E, t, big):
        if bool(is_string(t)):
            if size != 1:
                raise Rejected()
            b = encode(t, 'ascii')
            try:
                return models.dec_bytes(t[1:-1].to_int(10)), None
            except ValueError:
                raise Rejected()
        v = number(E, t, 8 * size)
        if v is None:
            return SBytes([[0] * digits]), dict(size=size, bits_size=8 * size, relative=None, alignment=1, bits=None, filter=None, hook=digits)
        return models.dec_bytes(v), None
    return spec


class Operands(Rule):
    slices = True           # the first token is the directive itself: every-operand

    def __init__(self, nm, asm, toks, spec):
        self.nm, self.asm, self.toks, self.spec = nm, asm, toks, spec

    def matches(self, it):
        s = it.seq if isinstance(it, models.SEnum) else it
        return isinstance(s, SSeq) and s.name == 'tokens'

    def entry(self, it, fr):
        s = it.seq if isinstance(it, models.SEnum) else it
        n = lift_int(self.toks.n)
        core.CTX.prove(self.nm + '/every-operand', lift_int(s.n) == z3.If(n > 1, n - 1, z3.IntVal(0)))

    def start(self, j, x, fr):
        c = core.CTX
        a = self.asm.attrs
        a['assembled_bytes'] = opaque_bytes('image_j', True)
        a['org_counter'] = fresh_int('counter_j', 0)
        c.store['events'] = []
        t = x[1] if isinstance(x, tuple) else x
        want = self.toks.elem(z3.simplify(j + 1))
        if t.key != want.key:
            c.fail(self.nm + '/operand-order', '%s instead of %s' % (t.key, want.key))
        return S(self.asm), want

    def after(self, tok, x, out, fr):
        c = core.CTX
        s, t = tok
        nm = self.nm + '/operand'
        err = out[1] if out[0] == 'raise' else None
        if out[0] not in ('normal', 'raise'):
            c.fail(nm + '/loop-leaves', out[0])
            return
        ev = [e[1] for e in events()]
        big = bool(self.asm.attrs['big_endian'])
        try:
            s.out, rel = self.spec(isa.SymEnv(c, self.asm.host, 0), t, big)
            s.ctr = s.ctr + lift_int(s.out.length())
        except Rejected:
            p_c06.check(c, nm, self.asm, s, err, True)
            return
        p_c06.check(c, nm, self.asm, s, err, False)
        if err is not None:
            return
        if rel is None:
            c.prove(nm + '/no-label', not ev)
            return
        if len(ev) != 1:
            c.fail(nm + '/label-recorded-once', 'recorded %d' % len(ev))
            return
        d = ev[0]
        c.prove(nm + '/label', isinstance(d['label'], STok) and d['label'].key == t.key)
        c.prove(nm + '/label-address', lift_int(d['at']) == lift_int(s.img.length()))
        for k in ('size', 'bits_size', 'alignment'):
            c.prove(nm + '/label-' + k, lift_int(d[k]) == rel[k])
        for k in ('relative', 'bits', 'filter'):
            c.prove(nm + '/label-' + k, d[k] is None)
        if rel['hook'] is None:
            c.prove(nm + '/label-hook', d['hook'] is None)
        else:
            self.hook(d['hook'], rel, nm)

    def hook(self, h, rel, nm):
        """the hook writes the zero padded decimal digits of the address, and nothing else"""
        c = core.CTX
        if h is None:
            c.fail(nm + '/label-hook', 'the digits are not written')
            return
        k = rel['hook']
        img = opaque_bytes('linked', True)
        self.asm.attrs['assembled_bytes'] = img
        a, v = fresh_int('operand_address', 0), fresh_int('label_value', 0, (1 << rel['bits_size']) - 1)
        c.assume(a.t + k <= lift_int(img.length()))
        pre = SBytes(img.segs)
        try:
            interp.icall(h, (a, v), {})
        except Exception as e:
            c.fail(nm + '/label-hook', '%s: %s' % (type(e).__name__, e))
            return
        post = self.asm.attrs['assembled_bytes']
        p = z3.Int(c.fresh('position'))
        exp = pre.at(p)
        for i in range(k):
            exp = z3.If(p == a.t + i, 48 + (v.t / 10 ** (k - 1 - i)) % 10, exp)
        c.prove(nm + '/label-digits', z3.Implies(z3.And(p >= 0, p < lift_int(pre.length())), post.at(p) == exp))
        c.prove(nm + '/label-digits-frame', lift_int(post.length()) == lift_int(pre.length()))

    def leave(self, it, fr):
        c = core.CTX
        a = self.asm.attrs
        a['assembled_bytes'] = opaque_bytes('image_after', True)
        a['org_counter'] = fresh_int('counter_after', 0)
        c.store['events'] = []
        c.store['left'] = c.store.get('left', 0) + 1
        c.store['after'] = S(self.asm)


def setup(c, **kw):
    host = Assembler()
    c.static['contracts'] = CONTRACTS
    c.static['cfg'] = host
    asm = state(c, big_endian=SBool(z3.Bool('big_endian')), **kw)
    c.store['lift'] = {id(host): asm}
    asm.host = host if asm.host is None else asm.host
    n = fresh_int('ntokens', 1, None)
    toks = tokens(n)
    ins = SObj(st_mod.Directive, dict(tokens=toks, line=1, context=None))
    return asm, ins, toks, n


def operand_unit(name, spec, tail=b''):
    host = Assembler()
    f = host.directives.get(name.upper())

    def body(c):
        if f is None:
            c.fail('.%s/registered' % name, 'directive is not registered')
            return
        asm, ins, toks, n = setup(c)
        c.store['lift'] = {id(host): asm}
        c.static['rules'] = [Operands('.' + name, asm, toks, spec)]
        try:
            interp.icall(f, (ins,), {})
        except Exception as e:
            c.fail('.%s/outside-the-operands' % name, '%s: %s' % (type(e).__name__, e))
            return
        s = c.store.get('after')
        if s is None or c.store['left'] != 1:
            raise Unsupported('the operands are not visited by one loop')
        s.out = SBytes([list(tail)])
        s.ctr = s.ctr + len(tail)
        p_c06.check(c, '.%s/after' % name, asm, s, None, False)
    g = getattr(f, '__func__', f)
    return Unit('C07.%s' % name, body, [isa_qual(g), ASM + 'parse_integer_or_label'])


def isa_qual(g):
    return '%s.%s' % (getattr(g, '__module__', '?'), getattr(g, '__qualname__', '?'))


# ---- files -------------------------------------------------------------------
class File(SymBase):
    def __init__(self, name, mode):
        self.fname, self.mode = name, mode

    def read(self, *a):
        if a:
            raise Unsupported('partial read')
        if 'b' not in self.mode:
            raise Unsupported('text content')
        return opaque_bytes('content')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        pass


def name_of(t):
    return t[1:-1] if bool(is_string(t)) else t


def opener(c):
    def op(fn, mode='r'):
        if not bool(SBool(z3.Bool('readable'))):
            raise OSError('cannot open')
        event('open', fn)
        return File(fn, mode)
    c.static['open'] = op


def opened(c, nm, toks):
    ev = [e for e in events() if e[0] == 'open']
    want = name_of(toks.elem(z3.IntVal(1)))
    c.prove(nm + '/file', len(ev) == 1 and isinstance(ev[0][1], STok) and ev[0][1].key == want.key, 'opens %r, specified %s' % (ev, want.key))


def incbin_body(c):
    host = Assembler()
    asm, ins, toks, n = setup(c)
    opener(c)
    s = S(asm)
    err = None
    try:
        interp.icall(Assembler.directive_incbin, (asm, ins), {})
    except Exception as e:
        err = e
    if not bool(n == 2) or not bool(SBool(z3.Bool('readable'))):
        p_c06.check(c, '.incbin', asm, s, err, True)
        return
    s.out = opaque_bytes('content')
    s.ctr = s.ctr + lift_int(s.out.length())
    p_c06.check(c, '.incbin', asm, s, err, False)
    if err is None:
        opened(c, '.incbin', toks)


class Acc(Rule):
    """a loop that appends the encoding of each element to one accumulator, over any number of elements"""

    def __init__(self, nm, pick, step, final, raised):
        self.nm, self.pick, self.step, self.final, self.raised = nm, pick, step, final, raised

    def matches(self, it):
        return self.pick(it)

    def __call__(self, node, it, fr):
        key = self.nm.split('/')[-1]
        c = core.CTX
        names = (loops.assigned_names(node.body) | loops.local_containers(node.body, fr)) - {x.id for x in __import__('ast').walk(node.target) if hasattr(x, 'id')}
        acc = [n for n in names if n in fr.vars and isinstance(SBytes.of(fr.vars[n]), SBytes)]
        if len(acc) != 1:
            raise Unsupported('the accumulator of %s cannot be identified' % self.nm)
        init = SBytes.of(fr.vars[acc[0]])
        final = init + self.final(it)
        f = Fold(self.nm, init, lambda: opaque_bytes(c.fresh('acc')), self.step, (Rejected,), (Exception,), final, self.raised(it), vals.bytes_eq_goal)
        f.exc_instance = lambda: ValueError('rejected element')
        return f(node, it, fr)


def csv_unit(name, size):
    host = Assembler()
    f = host.directives.get(name.upper())

    def body(c):
        asm, ins, toks, n = setup(c)
        c.store['lift'] = {id(host): asm}
        opener(c)
        E = isa.SymEnv(c, host, 0)

        def col(i, j):
            t = STok(tok_info('cell[%s][%s]' % (z3.simplify(i), z3.simplify(j))))
            return t

        def row(i):
            w = z3.Function('width', z3.IntSort(), z3.IntSort())(i)
            c.axiom(w >= 0, ('w', str(i)))
            return SSeq(SInt(w), lambda j: col(i, j), ('row', i))
        rows = SSeq(fresh_int('nrows', 0), row, 'rows')

        class M(SymBase):
            def reader(self, h):
                if not isinstance(h, File) or 'b' in h.mode:
                    raise Unsupported('csv source')
                return rows
        c.static['modules'] = {'csv': M()}

        def cell(st, t):
            if not bool(t.length() > 0):
                raise Rejected()
            v = number(E, t, 8 * size)
            if v is None:
                raise Rejected()
            return st + SBytes([isa.le(v, size)])

        def rowbytes(i):
            return opaque_bytes('rowbytes[%s]' % z3.simplify(i))

        def bad(i):
            return z3.Function('bad row', z3.IntSort(), z3.BoolSort())(i)

        def one_row(st, r):
            if bool(SBool(bad(r.name[1]))):
                raise Rejected()
            return st + rowbytes(r.name[1])
        allbad = z3.Bool('some row is rejected')
        c.static['rules'] = [
            Acc('.%s/cells' % name, lambda it: isinstance(it, SSeq) and isinstance(it.name, tuple), cell, lambda it: rowbytes(it.name[1]), lambda it: bad(it.name[1])),
            Acc('.%s/rows' % name, lambda it: isinstance(it, SSeq) and it.name == 'rows', one_row, lambda it: opaque_bytes('allrows'), lambda it: allbad)]
        s = S(asm)
        err = None
        try:
            interp.icall(f, (ins,), {})
        except Exception as e:
            err = e
        nm = '.' + name
        if not bool(n == 2) or not bool(SBool(z3.Bool('readable'))) or bool(SBool(allbad)):
            p_c06.check(c, nm, asm, s, err, True)
            return
        s.out = opaque_bytes('allrows')
        s.ctr = s.ctr + lift_int(s.out.length())
        p_c06.check(c, nm, asm, s, err, False)
        if err is None:
            opened(c, nm, toks)
    return Unit('C07.%s' % name, body, [isa_qual(getattr(f, '__func__', f))])


class Json(SymBase):
    """a value inside a parsed document"""

    def __init__(self, key):
        self.key = key

    def __getitem__(self, k):
        if not bool(SBool(z3.Bool('has(%s,%s)' % (self.key, k.key)))):
            raise KeyError('no such member')
        return Json('%s.%s' % (self.key, k.key))


class Parts(SymBase):
    pass


def json_body(c):
    host = Assembler()
    asm, ins, toks, n = setup(c)
    c.store['lift'] = {id(host): asm}
    opener(c)
    E = isa.SymEnv(c, host, 0)
    nparts = fresh_int('nparts', 1)
    key = name_of(toks.elem(z3.IntVal(2))) if bool(n == 3) else None

    class M(SymBase):
        def load(self, h):
            if not isinstance(h, File):
                raise Unsupported('json source')
            return Json('document')
    c.static['modules'] = {'json': M()}

    def split(self, sep=None, maxsplit=-1):
        if sep != '.' or maxsplit != -1 or key is None or self.key != key.key:
            raise Unsupported('split of another text')
        return SSeq(nparts, lambda k: STok(tok_info('part[%s]' % z3.simplify(k))), 'parts')
    missing = z3.Bool('a member is missing')
    badval = z3.Bool('an item is rejected')

    def item(k):
        if core.CTX.choose(2):
            return fresh_int('item[%s]' % z3.simplify(k))
        return STok(tok_info('itemtext[%s]' % z3.simplify(k)))
    items = SSeq(fresh_int('nitems', 0), item, 'items')

    class Found(SymBase):
        pytype = list
        loop_seq = items

    def lookup(st, p):
        try:
            return st[p]
        except KeyError:
            raise Rejected()

    def one(st, x):
        if isinstance(x, STok):
            if not bool(x.length() > 0):
                raise Rejected()
            v = number(E, x, 8)
            if v is None:
                raise Rejected()
        else:
            v = x
            if not bool(and_(v >= 0, v < 256)):
                raise Rejected()
        return st + SBytes([[v]])

    class Lookup(Rule):
        def matches(self, it):
            return isinstance(it, SSeq) and it.name == 'parts'

        def __call__(self, node, it, fr):
            f = Fold('.incjson/path', Json('document'), lambda: Json('some value'), lookup, (Rejected,), (Exception,), items, missing,
                     lambda a, b: isinstance(a, Json) and isinstance(b, Json) and a.key == b.key)
            f.exc_instance = lambda: KeyError('no such member')
            return f(node, it, fr)
    c.static['rules'] = [Lookup(), Acc('.incjson/items', lambda it: isinstance(it, SSeq) and it.name == 'items', one, lambda it: opaque_bytes('allitems'), lambda it: badval)]
    s = S(asm)
    err = None
    old = STok.split
    STok.split = split
    try:
        interp.icall(Assembler.directive_incjson, (asm, ins), {})
    except Exception as e:
        err = e
    finally:
        STok.split = old
    if not bool(n == 3) or not bool(SBool(z3.Bool('readable'))) or bool(SBool(missing)) or bool(SBool(badval)):
        p_c06.check(c, '.incjson', asm, s, err, True)
        return
    s.out = opaque_bytes('allitems')
    s.ctr = s.ctr + lift_int(s.out.length())
    p_c06.check(c, '.incjson', asm, s, err, False)
    if err is None:
        opened(c, '.incjson', toks)


def parse_bytes_body(c):
    """parse_bytes_or_ascii: the concatenated values of its tokens"""
    host = Assembler()
    asm, ins, toks, n = setup(c)
    c.store['lift'] = {id(host): asm}
    E = isa.SymEnv(c, host, 0)

    def one(st, t):
        if bool(is_string(t)):
            return st + encode(t, 'ascii')
        v = number(E, t, 8)
        if v is None:
            raise Rejected()
        return st + SBytes([[v]])
    bad = z3.Bool('an operand is rejected')
    c.static['rules'] = [Acc('parse_bytes_or_ascii/operands', lambda it: isinstance(it, SSeq) and it.name == 'tokens', one, lambda it: opaque_bytes('alltokens'), lambda it: bad)]
    s = S(asm)
    try:
        r = interp.icall(Assembler.parse_bytes_or_ascii, (asm, toks), {})
    except Exception as e:
        c.prove('parse_bytes_or_ascii/rejects', bad)
        return
    c.prove('parse_bytes_or_ascii/accepts', z3.Not(bad))
    c.prove('parse_bytes_or_ascii/result', vals.bytes_eq_goal(SBytes.of(r), opaque_bytes('alltokens')))
    p_c06.check(c, 'parse_bytes_or_ascii', asm, s, None, False)


def units(tier, dep=False):
    out = []
    for size, names in ((1, ('db', 'byte')), (2, ('dw', 'word')), (4, ('dd', 'dl', 'dword'))):
        out += [operand_unit(x, data(size)) for x in names]
    for size, digits, x in ((1, 3, 'db'), (2, 5, 'dw')):
        out.append(operand_unit(x + '_to_ascii', text(size, digits)))
        out.append(operand_unit(x + '_to_asciiz', text(size, digits), b'\0'))
    out.append(Unit('C07.incbin', incbin_body, [ASM + 'directive_incbin', ASM + 'stringify']))
    out.append(csv_unit('inccsv', 1))
    out.append(csv_unit('inccsv_le16', 2))
    out.append(Unit('C07.incjson', json_body, [ASM + 'directive_incjson']))
    out.append(Unit('C07.parse_bytes_or_ascii', parse_bytes_body, [ASM + 'parse_bytes_or_ascii']))
    from . import p_c05
    out += [u for u in p_c05.units(tier, dep=True) if 'record' in u.name or 'add_label' in u.name or 'or_label' in u.name]
    return out


def concrete(conc, tier, rng, wits, deadline):
    from . import progs
    progs.run(conc, tier, rng, deadline, 'C07', 22000 if tier == 'quick' else 250000)
