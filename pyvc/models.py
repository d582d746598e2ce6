"""Models of the Python builtins the code under test uses, on symbolic values.
A call with only concrete arguments runs the real builtin."""
import builtins
import copy
import struct
import math
import types
import z3
from . import core
from .core import Unsupported, Impure, PathKill
from .vals import (SInt, SBool, STok, SText, STokSplit, SymTokens, SBytes, Seg, SObj, SymBase,
                   is_sym, mk_int, mk_bool, lift_int, lift_bool, and_, or_, not_, ite,
                   fixed_int, opaque_bytes, tok_info, tok_derive, pow2, ones_of, register_lit, lit_id)
from . import interp
from .interp import has_sym, StarSym, IFunc, IBound, iterate, icall, eq_, note_born, check_mutation


def C():
    return core.CTX


# ---------------------------------------------------------------------------
class OpaqueStr(SymBase):
    """a text we know nothing about (log / exception messages)"""
    pytype = str

    def __init__(self, name):
        self.name = name

    def __str__(self):
        return '<str:%s>' % self.name

    def __format__(self, s):
        return '<str:%s>' % self.name

    def __add__(self, o):
        if isinstance(o, str) or getattr(o, 'pytype', None) is str:
            return OpaqueStr(self.name)
        return NotImplemented
    __radd__ = __add__

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('use of an opaque message (%s)' % n)

    def __eq__(self, o):
        raise Unsupported('comparison of opaque message')

    def __bool__(self):
        raise Unsupported('truth of opaque message')


class SDecStr(SymBase):
    """decimal representation of an integer, optional zero padding"""
    pytype = str

    def __init__(self, v, pad=0):
        self.v, self.pad = v, pad

    def encode(self, enc='utf-8', *a):
        if enc not in ('ascii', 'utf-8', 'utf8', 'latin1', 'latin-1'):
            raise Unsupported('encode of decimal text')
        return dec_bytes(self.v, self.pad)

    def __str__(self):
        return '<int>'

    def __format__(self, s):
        return '<int>'

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('str(int).%s' % n)

    def __add__(self, o):
        return OpaqueStr('cat')
    __radd__ = __add__


_declen = z3.Function('dec.len', z3.IntSort(), z3.IntSort(), z3.IntSort())
_decat = z3.Function('dec.at', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())


def dec_bytes(v, pad=0):
    """ASCII decimal text of v.  When the length is determined by the path (up to 6 digits) the exact
    digits are produced, otherwise an opaque rope tied to v"""
    if isinstance(v, int):
        return format(v, '0%dd' % pad if pad else 'd').encode('ascii')
    c = C()
    if c.branch(z3.And(v.t >= 0, v.t <= 999999)):
        for n in range(max(1, pad), 7):
            if n == 6 or c.branch(v.t < 10 ** n):
                return SBytes([[mk_int(48 + (v.t / 10 ** (n - 1 - k)) % 10) for k in range(n)]])
    p = z3.IntVal(pad)
    n = _declen(v.t, p)
    c.axiom(n >= max(1, pad), ('dl', v.t.get_id(), pad))

    def at(i):
        t = _decat(v.t, p, i)
        C().axiom(z3.And(t >= 45, t <= 57), ('da', t.get_id()))
        return t
    return SBytes([Seg(n, at, ('dec', v.t.get_id(), pad))])


class RepStr(SymBase):
    """text pattern repeated a symbolic number of times, with optional prefix"""
    pytype = str

    def __init__(self, prefix, s, n):
        self.prefix, self.s, self.n = prefix, s, n

    def __radd__(self, o):
        if isinstance(o, str):
            return RepStr(o + self.prefix, self.s, self.n)
        return NotImplemented

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('repeated text.%s' % n)


class SSeq(SymBase):
    """sequence of symbolic length; elem(k: z3 Int term) gives the element"""
    pytype = tuple
    sym_seq = True

    origin = None           # a slice: (first position, length of the whole sequence)

    def __init__(self, n, elem, name='seq'):
        self.n, self.elem, self.name = n, elem, name

    def length(self):
        return self.n

    def sym_unpack(self):
        return True

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported('slice of a symbolic sequence')
            L = lift_int(self.n)
            c = C()

            def bound(x, d):
                if x is None:
                    return d
                t = lift_int(x)
                if isinstance(x, int) and x < 0:
                    t = L + x
                elif not isinstance(x, int) and not c.entails(t >= 0):
                    t = z3.If(t < 0, L + t, t)
                return z3.If(t < 0, z3.IntVal(0), z3.If(t > L, L, t))
            k, e = bound(i.start, z3.IntVal(0)), bound(i.stop, L)
            n = mk_int(z3.If(e > k, e - k, z3.IntVal(0)))
            k = z3.IntVal(0) if i.start is None else lift_int(i.start) if c.entails(lift_int(i.start) >= 0) else k   # past the end: empty
            r = SSeq(n, lambda j: self.elem(z3.simplify(j + k)), self.name)
            off, full = self.origin or (z3.IntVal(0), L)
            r.origin = (z3.simplify(off + k), full)
            return r
        if isinstance(i, int) and i >= 0:
            if not mk_bool(lift_int(self.n) > i):
                raise IndexError('index out of range')
            return self.elem(z3.IntVal(i))
        if isinstance(i, SInt):
            if C().branch(z3.And(i.t >= 0, i.t < lift_int(self.n))):
                return self.elem(i.t)
            raise IndexError('index out of range')
        raise Unsupported('negative index into symbolic sequence')

    def __iter__(self):
        k = fixed_int(self.n)
        for j in range(k):
            yield self.elem(z3.IntVal(j))

    def __bool__(self):
        return bool(mk_bool(lift_int(self.n) > 0))


class SPairs(SymBase):
    """a dictionary built from a sequence of (key, value) pairs of unknown length (later pairs win): meaning is given by contracts"""
    pytype = dict

    def __init__(self, pairs):
        self.pairs = pairs

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('dict.%s' % n)


class OptInt(SymBase):
    """an int or None"""
    pytype = int

    def __init__(self, isnone, v):
        self.isnone, self.v = isnone, v

    def sym_is_none(self):
        return mk_bool(self.isnone)

    def force(self):
        if C().branch(self.isnone):
            raise TypeError('unsupported operand: NoneType')
        return self.v

    def __and__(self, o): return self.force() & o
    def __rand__(self, o): return o & self.force()
    def __or__(self, o): return self.force() | o
    def __add__(self, o): return self.force() + o
    def __sub__(self, o): return self.force() - o
    def __lshift__(self, o): return self.force() << o
    def __rshift__(self, o): return self.force() >> o
    def __mod__(self, o): return self.force() % o
    def __lt__(self, o): return self.force() < o
    def __le__(self, o): return self.force() <= o
    def __gt__(self, o): return self.force() > o
    def __ge__(self, o): return self.force() >= o

    def __eq__(self, o):
        if o is None:
            return mk_bool(self.isnone)
        if C().branch(self.isnone):
            return False
        return self.v == o

    def __ne__(self, o):
        return not_(self == o)

    def __bool__(self):
        if C().branch(self.isnone):
            return False
        return bool(self.v)


class SRange(SymBase):
    pytype = range

    def __init__(self, a, b, step=1):
        self.a, self.b, self.step = a, b, step

    def length(self):
        if self.step == 1:
            return mk_int(z3.If(lift_int(self.b) > lift_int(self.a), lift_int(self.b) - lift_int(self.a), z3.IntVal(0)))
        if isinstance(self.step, int) and self.step > 1:
            a, b, s = lift_int(self.a), lift_int(self.b), self.step
            return mk_int(z3.If(b > a, (b - a + (s - 1)) / s, z3.IntVal(0)))
        raise Unsupported('symbolic range with step')

    def __iter__(self):
        n = self.length()
        k = fixed_int(n)
        a = self.a
        if k and isinstance(a, SInt) and C().entails(z3.And(a.t >= 0, a.t <= 14)):
            a = fixed_int(a)
        for j in range(k):
            yield a + j * self.step


# ---------------------------------------------------------------------------
def repeat_seq(o, n):
    if isinstance(o, str):
        return RepStr('', o, n)
    if isinstance(o, (list, tuple)):
        return RepList(list(o), n)
    if isinstance(o, (bytes, bytearray)):
        return repeat_bytes(SBytes.of(o), n)
    raise Unsupported('repeat')


class RepList(SymBase):
    """[v]*n with symbolic n"""
    pytype = list

    def __init__(self, items, n):
        self.items, self.n = items, n

    def length(self):
        n = lift_int(self.n)
        return mk_int(z3.If(n > 0, n * len(self.items), z3.IntVal(0)))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('repeated list.%s' % n)


def seq_binop(op, a, b):
    import operator
    if op is operator.mul and isinstance(b, (SInt, SBool)):
        return repeat_seq(bytes(a) if isinstance(a, bytearray) else a, b)
    if op is operator.add and isinstance(a, list) and isinstance(b, SymBase) and b.pytype is list:
        if isinstance(b, SymTokens):
            return list(a) + [b.elem(b.start + j) for j in range(fixed_int(b.length()))]
    if isinstance(a, bytearray) and isinstance(b, SBytes):
        return SBytes([list(a)], True) + b
    raise Unsupported('sequence operator')


def rep_seg(v, n):
    """n copies of byte v (n may be negative -> empty)"""
    nt = lift_int(n)
    c = C()
    if isinstance(n, int):
        return SBytes([[v] * max(0, n)])
    if c.branch(nt <= 0):
        return SBytes([])
    vt = lift_int(v)
    return SBytes([Seg(z3.simplify(nt), lambda i, _v=vt: _v, ('rep', vt.get_id(), str(vt)))])


def repeat_bytes(b, n):
    if isinstance(n, int):
        return SBytes(list(b.segs) * max(0, n), b.mutable)
    if not isinstance(n, (SInt, SBool)):
        raise TypeError("can't multiply sequence by non-int")
    f = b.fixed()
    if f is not None and len(f) == 0:
        return SBytes([], b.mutable)
    if f is not None and len(f) == 1:
        r = rep_seg(f[0], n)
        r.mutable = b.mutable
        return r
    raise Unsupported('repeat of a multi-byte string a symbolic number of times')


def check_bytes(vals):
    c = C()
    for v in vals:
        if isinstance(v, OptInt):
            raise Unsupported('bytes of optional')
        if not isinstance(v, (int, SInt, SBool)):
            raise TypeError("'%s' object cannot be interpreted as an integer" % type(v).__name__)
        if isinstance(v, int):
            if not 0 <= v <= 255:
                raise ValueError('bytes must be in range(0, 256)')
        else:
            if 0 <= ones_of(v) <= 255:
                continue
            if c.branch(z3.Or(lift_int(v) < 0, lift_int(v) > 255)):
                raise ValueError('bytes must be in range(0, 256)')


def to_bytes(v, mutable=False):
    if isinstance(v, SBytes):
        return SBytes(v.segs, mutable)
    if isinstance(v, (bytes, bytearray)):
        return SBytes([list(v)], mutable)
    if isinstance(v, RepList):
        if len(v.items) != 1:
            raise Unsupported('bytes of repeated list')
        nt = lift_int(v.n)
        if not isinstance(v.n, int) and C().branch(nt <= 0):
            return SBytes([], mutable)
        check_bytes(v.items)
        r = rep_seg(v.items[0], v.n)
        r.mutable = mutable
        return r
    if isinstance(v, (list, tuple, range)):
        if any(isinstance(x, StarSym) for x in v):
            raise Unsupported('bytes of *symbolic')
        check_bytes(v)
        return SBytes([list(v)], mutable)
    if isinstance(v, SSeq):
        return pack_seq('B', '', v)
    if isinstance(v, int):
        return SBytes([[0] * v], mutable) if v >= 0 else bytes(v)
    if isinstance(v, SInt):
        if C().branch(v.t < 0):
            raise ValueError('negative count')
        r = rep_seg(0, v)
        r.mutable = mutable
        return r
    if isinstance(v, SymBase):
        if v.pytype is str:
            raise TypeError('string argument without an encoding')
        raise Unsupported('bytes(%s)' % type(v).__name__)
    if isinstance(v, str):
        raise TypeError('string argument without an encoding')
    if hasattr(v, '__iter__') or hasattr(v, '__next__'):
        l = list(v)
        check_bytes(l)
        return SBytes([l], mutable)
    raise TypeError('cannot convert to bytes')


def m_bytes(*args, **kw):
    if not args:
        return b''
    if not has_sym(args[0]) and not kw and not hasattr(args[0], '__next__'):
        return bytes(*args)
    if len(args) > 1 or kw:
        if isinstance(args[0], (STok, SText)):
            return text_encode(args[0], args[1] if len(args) > 1 else kw.get('encoding'))
        raise Unsupported('bytes(...)')
    return to_bytes(args[0])


def m_bytearray(*args, **kw):
    if not args:
        return note_born(SBytes([], True))
    if kw or len(args) > 1:
        return SBytes.of(m_bytes(*args, **kw), True)
    r = to_bytes(args[0], True)
    return note_born(SBytes(r.segs, True))


def text_encode(t, enc):
    """bytes of an unknown text; may raise UnicodeEncodeError"""
    c = C()
    if isinstance(t, SText):
        t = t.as_tok()
    enc = str(enc).lower().replace('_', '-')
    nm = 'enc(%s)' % enc
    if enc in ('ascii', 'latin1', 'latin-1', 'iso-8859-1'):
        ok = z3.Bool('tok:%s.%s.ok' % (t.info.key, nm))
        if not c.branch(ok):
            raise UnicodeEncodeError(enc, '', 0, 1, 'ordinal not in range')
    name = 'enc:%s:%s' % (enc, t.key)
    r = opaque_bytes(name)
    c.store.setdefault('encoded', {})[r.segs[0].tag] = (t, enc)
    if enc == 'ascii':
        c.axiom(r.segs[0].n == lift_int(t.length()), ('enclen', name))
    return r


def native_encode(s, enc):
    return s.encode(enc)


# ---------------------------------------------------------------------------
FMT = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False),
       'l': (4, True), 'L': (4, False), 'q': (8, True), 'Q': (8, False)}


def fmt_items(fmt):
    order = '@'
    if fmt and fmt[0] in '<>=!@':
        order, fmt = fmt[0], fmt[1:]
    out = []
    num = ''
    for ch in fmt:
        if ch.isdigit():
            num += ch
            continue
        if ch.isspace():
            continue
        n = int(num) if num else 1
        num = ''
        if ch == 'x':
            out += [None] * n
        elif ch in FMT:
            if order == '@' and FMT[ch][0] != 1:
                raise Unsupported('native-alignment struct format')
            out += [FMT[ch]] * n
        else:
            raise Unsupported('struct format %r' % ch)
    return order, out


def byte_of(v, k):
    """k-th little-endian byte of v modulo 2**(8k+8)"""
    if isinstance(v, int):
        return (v >> (8 * k)) & 255
    return (v >> (8 * k)) & 255


def m_pack(fmt, *args):
    if isinstance(fmt, RepStr):
        if len(args) != 1 or not isinstance(args[0], StarSym):
            raise Unsupported('struct.pack with repeated format')
        s = args[0].seq
        if len(fmt.s) != 1 or len(fmt.prefix) > 1:
            raise Unsupported('struct.pack repeated format')
        if not C().entails(z3.If(lift_int(fmt.n) > 0, lift_int(fmt.n), z3.IntVal(0)) == lift_int(s.length())):
            if C().branch(z3.If(lift_int(fmt.n) > 0, lift_int(fmt.n), z3.IntVal(0)) != lift_int(s.length())):
                raise struct.error('pack expected a different number of items')
        return pack_seq(fmt.s, fmt.prefix, s)
    if not isinstance(fmt, str):
        raise Unsupported('symbolic struct format')
    if any(isinstance(a, StarSym) for a in args):
        order, items = fmt_items(fmt)
        k = [i for i, a in enumerate(args) if isinstance(a, StarSym)][0]
        seq = args[k].seq
        need = len([i for i in items if i is not None]) - (len(args) - 1)
        if not mk_bool(lift_int(seq.length()) == need):
            raise struct.error('pack expected a different number of items')
        args = list(args[:k]) + [seq.elem(z3.IntVal(j)) for j in range(max(0, need))] + list(args[k + 1:])
    order, items = fmt_items(fmt)
    need = len([i for i in items if i is not None])
    if need != len(args):
        raise struct.error('pack expected %d items for packing (got %d)' % (need, len(args)))
    out = []
    it = iter(args)
    c = C()
    for f in items:
        if f is None:
            out.append(0)
            continue
        v = next(it)
        w, signed = f
        if isinstance(v, OptInt):
            if c.branch(v.isnone):
                raise struct.error('required argument is not an integer')
            v = v.v
        if isinstance(v, SBool):
            v = SInt(lift_int(v), 1)
        if not isinstance(v, (int, SInt)):
            raise struct.error('required argument is not an integer')
        lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if signed else (0, (1 << (8 * w)) - 1)
        if isinstance(v, int):
            if not lo <= v <= hi:
                raise struct.error('argument out of range')
        else:
            if not (0 <= ones_of(v) <= hi):
                if c.branch(z3.Or(v.t < lo, v.t > hi)):
                    raise struct.error('argument out of range')
                if not signed and ones_of(v) < 0:
                    v = SInt(v.t, (1 << (8 * w)) - 1)
        bs = [byte_of(v, k) for k in range(w)]
        if order in ('>', '!'):
            bs.reverse()
        out += bs
    if not any(is_sym(b) for b in out):
        return bytes(out)
    return SBytes([out])


def pack_seq(ch, order, s):
    """struct.pack(order + ch*n, *s) for a symbolic sequence"""
    w, signed = FMT[ch]
    if order == '' and w != 1:
        raise Unsupported('native order')
    lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if signed else (0, (1 << (8 * w)) - 1)
    c = C()
    n = lift_int(s.length())
    j = z3.Int(c.fresh('pk'))
    e = s.elem(j)
    if isinstance(e, OptInt):
        raise Unsupported('struct.pack of optional sequence')
    et = lift_int(e)
    c.solver.push()
    bad = z3.And(j >= 0, j < n, z3.Or(et < lo, et > hi))
    feas = c._check(bad) != z3.unsat
    c.solver.pop()
    if feas:
        raise_flag = c.choose(2)
        if raise_flag == 0:
            c.add(bad)
            raise struct.error('argument out of range')
    big = order in ('>', '!')
    tag = ('pack', ch, order, s.name)

    def at(i):
        if w == 1:
            x = s.elem(i)
            return lift_int(x & 255) if signed else lift_int(x)
        q, r = i / w, i % w
        x = s.elem(q)
        res = z3.IntVal(0)
        for k in range(w):
            b = (w - 1 - k) if big else k
            res = z3.If(r == k, lift_int((x >> (8 * b)) & 255), res)
        return res
    return SBytes([Seg(z3.simplify(n * w), at, tag)])


# ---------------------------------------------------------------------------
def m_len(o):
    if isinstance(o, SymBase):
        if isinstance(o, SObj):
            v, _ = interp.static_lookup(o.cls, '__len__')
            return icall(v, (o,), {})
        if hasattr(o, 'length'):
            return o.length()
        if o.pytype in (int, bool):
            raise TypeError('object has no len()')
        raise Unsupported('len of %s' % type(o).__name__)
    return len(o)


def m_isinstance(o, t):
    if isinstance(t, tuple):
        return any(m_isinstance(o, x) for x in t)
    if isinstance(o, OptInt):
        if t is int:
            return mk_bool(z3.Not(o.isnone))
        return False
    if is_sym(o) or isinstance(o, (IFunc, IBound)):
        pt = interp.pytype(o)
        if isinstance(o, SBytes):
            pt = bytearray if o.mutable else bytes
        try:
            return issubclass(pt, t)
        except TypeError:
            raise Unsupported('isinstance')
    return isinstance(o, t)


def m_int(*args, **kw):
    if not args:
        return 0
    x = args[0]
    base = args[1] if len(args) > 1 else kw.get('base')
    if not is_sym(x):
        return int(*args, **kw)
    if isinstance(x, SInt):
        if base is not None:
            raise TypeError("int() can't convert non-string with explicit base")
        return x
    if isinstance(x, SBool):
        return SInt(lift_int(x), 1)
    if isinstance(x, (STok, SText)):
        if isinstance(x, SText):
            x = x.as_tok()
        return x.to_int(10 if base is None else base)
    if not isinstance(x, SBytes) and hasattr(x, 'to_int'):
        return x.to_int(10 if base is None else base)
    if isinstance(x, SDecStr) and base in (None, 10):
        return x.v
    if isinstance(x, SBytes) and base in (None, 10) and len(x.segs) == 1 and not isinstance(x.segs[0], list):
        t, enc = C().store.get('encoded', {}).get(x.segs[0].tag, (None, None))
        if enc == 'ascii':
            return t.to_int(10)
        if enc in ('utf16', 'utf-16', 'utf32', 'utf-32'):
            raise ValueError('invalid literal for int()')       # starts with the byte order mark
    raise Unsupported('int(%s)' % type(x).__name__)


def m_str(*args):
    if not args:
        return ''
    x = args[0]
    if len(args) > 1:
        raise Unsupported('str(bytes, enc)')
    if isinstance(x, SInt):
        return SDecStr(x)
    if isinstance(x, SymBase):
        if x.pytype is str:
            return x
        if isinstance(x, SObj) and C().static.get('real_str'):
            return str(x)
        return OpaqueStr('str')
    if has_sym(x):
        return OpaqueStr('str')
    if type(x).__module__.startswith('necroassembler'):
        return OpaqueStr('str')
    return str(x)


def m_bool(*args):
    if not args:
        return False
    x = args[0]
    if isinstance(x, SBool):
        return x
    if isinstance(x, SInt):
        return mk_bool(x.t != 0)
    return bool(x)


def m_ord(x):
    if isinstance(x, (STok, SText)):
        if isinstance(x, SText):
            x = x.as_tok()
        if not (x.length() == 1):
            raise TypeError('ord() expected a character')
        return x._attr('ord', lambda L: ord(L), 'int')
    if hasattr(x, 'sym_ord'):
        return x.sym_ord()
    if is_sym(x):
        raise TypeError('ord()')
    return ord(x)


def m_range(*args):
    if any(is_sym(a) for a in args):
        if len(args) == 1:
            return SRange(0, args[0])
        if len(args) == 2:
            return SRange(args[0], args[1])
        a, b, st = args
        if isinstance(st, int) and st < 1:
            raise Unsupported('symbolic range step')
        return SRange(*args)
    h = C().static.get('range_rule') if C() is not None else None
    if h is not None and h(range(*args)):
        r = range(*args)
        return SRange(r.start, r.stop, r.step)
    return range(*args)


def m_list(*args):
    if not args:
        return note_born([])
    x = args[0]
    if isinstance(x, (SymTokens, STokSplit)):
        return x
    return note_born(list(iterate(x)))


def m_tuple(*args):
    if not args:
        return ()
    x = args[0]
    if isinstance(x, (SymTokens, SSeq)):
        return x
    return tuple(iterate(x))


def m_dict(*args, **kw):
    d = {}
    if args:
        a = args[0]
        if isinstance(a, dict):
            d.update(a)
        elif isinstance(a, SSeq) and not kw:
            return SPairs(a)
        elif is_sym(a):
            raise Unsupported('dict(sym)')
        else:
            for k, v in iterate(a):
                if has_sym(k):
                    raise Unsupported('symbolic dict key')
                d[k] = v
    d.update(kw)
    return note_born(d)


def m_set(*args):
    if not args:
        return note_born(set())
    l = list(iterate(args[0]))
    if has_sym(l):
        return tuple(l)
    return note_born(set(l))


def m_frozenset(*args):
    l = list(iterate(args[0])) if args else []
    if has_sym(l):
        return tuple(l)
    return frozenset(l)


def m_any(it):
    if isinstance(it, SSeq):
        # one opaque fact per element formula: the same formula gives the same fact
        x = z3.Int('anyidx')
        e = it.elem(x)
        t = z3.simplify(lift_int(e) != 0) if not isinstance(e, (bool, SBool)) else lift_bool(e)
        key = '%s|%s' % (z3.simplify(lift_int(it.n)), z3.simplify(t))
        seen = C().store.setdefault('anys', {})
        if key not in seen:
            if seen:
                raise Unsupported('second quantified membership on this path: %s / %s' % (key, list(seen)))
            seen[key] = SBool(z3.Bool('any!%d' % len(seen)))
            C().axiom(z3.Implies(seen[key].t, lift_int(it.n) > 0), ('any', key))
        return seen[key]
    vals = []
    if isinstance(it, SymBase) and not isinstance(it, (SymTokens, SSeq)):
        raise Unsupported('any')
    for v in iterate(it):
        if isinstance(v, SBool):
            vals.append(v)
        elif v:
            if not vals:
                return True
            vals.append(True)
            break
    return or_(*vals)


def m_all(it):
    if isinstance(it, SSeq) and not isinstance(it.n, int):
        i = z3.Int('alli')
        C().store['quantified'] = True
        return SBool(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < lift_int(it.n)), lift_bool(it.elem(i)))))
    vals = []
    for v in iterate(it):
        if isinstance(v, SBool):
            vals.append(v)
        elif not v:
            if not vals:
                return False
            vals.append(False)
            break
    return and_(*vals)


def m_sum(it, start=0):
    r = start
    for v in iterate(it):
        r = r + v
    return r


def m_minmax(name):
    def f(*args, **kw):
        if kw and ('key' in kw and has_sym(args)):
            raise Unsupported('min/max with key')
        vals = list(iterate(args[0])) if len(args) == 1 else list(args)
        if not has_sym(vals):
            return getattr(builtins, name)(*args, **kw)
        if kw:
            raise Unsupported('min/max keywords')
        r = vals[0]
        for v in vals[1:]:
            c = mk_bool(lift_int(v) < lift_int(r)) if name == 'min' else mk_bool(lift_int(v) > lift_int(r))
            r = ite(c, v, r)
        return r
    return f


def m_pow(a, b, m=None):
    if not (is_sym(a) or is_sym(b) or is_sym(m)):
        return pow(a, b) if m is None else pow(a, b, m)
    if m is not None:
        raise Unsupported('modular pow')
    if isinstance(a, int) and a == 2 and isinstance(b, SInt):
        return pow2(b)
    if isinstance(b, int) and b >= 0:
        r = 1
        for _ in range(b):
            r = a * r
        return r
    raise Unsupported('pow')


def m_enumerate(it, start=0):
    if isinstance(it, (SymTokens, SSeq)) :
        return SEnum(it, start)
    if isinstance(it, SBytes) and it.fixed() is None:
        b = SBytes(it.segs)
        return SEnum(SSeq(b.length(), lambda k: SInt(b.at(k), 0xFF), 'bytes'), start)
    if getattr(it, 'pytype', None) is str and hasattr(it, 'sym_elem') and it.fixed() is None:
        return SEnum(it, start)
    return ((i + start, x) for i, x in enumerate(iterate(it)))


class SEnum(SymBase):
    pytype = enumerate

    def __init__(self, seq, start):
        self.seq, self.start = seq, start

    def length(self):
        return self.seq.length()

    def __iter__(self):
        for i, x in enumerate(self.seq):
            yield (i + self.start, x)


def m_zip(*its):
    if its and any(isinstance(i, SSeq) and not isinstance(i.length(), int) for i in its) and all(isinstance(i, SSeq) for i in its):
        n = its[0].n
        for i in its[1:]:
            n = mk_int(z3.If(lift_int(n) < lift_int(i.n), lift_int(n), lift_int(i.n)))
        r = SSeq(n, lambda j: tuple(i.elem(j) for i in its), 'zip(%s)' % ', '.join(i.name for i in its))
        r.parts = its
        return r
    its = [iter(list(iterate(i))) if not isinstance(i, SymBase) else iter(i) for i in its]
    return iter(list(zip(*its)))


def m_reversed(x):
    if isinstance(x, SymBase):
        return iter(list(iter(x))[::-1])
    return reversed(x)


def m_map(f, *its):
    return iter([icall(f, a, {}) for a in zip(*[list(iterate(i)) for i in its])])


def m_filter(f, it):
    return iter([x for x in iterate(it) if (bool(icall(f, (x,), {})) if f is not None else bool(x))])


def m_sorted(it, **kw):
    l = list(iterate(it))
    if has_sym(l):
        raise Unsupported('sorted on symbolic values')
    return sorted(l, **kw)


def m_callable(x):
    if isinstance(x, (IFunc, IBound)):
        return True
    if isinstance(x, SObj):
        return hasattr(x.cls, '__call__')
    if isinstance(x, SymBase):
        return bool(getattr(type(x), 'sym_callable', False) and x.sym_callable)
    return callable(x)


def m_hasattr(o, n):
    try:
        interp.getattr_(o, n)
        return True
    except AttributeError:
        return False


_MISSING = object()


def m_dir(*a):
    h = C().static.get('dir') if C() else None
    if h is None:
        if any(is_sym(x) for x in a) or not a:
            raise Unsupported('dir')
        return dir(*a)
    return h(*a)


def m_getattr(o, n, d=_MISSING):
    if is_sym(n):
        h = C().static.get('getattr')
        if h is None:
            raise Unsupported('getattr symbolic')
        return h(o, n, d)
    try:
        return interp.getattr_(o, n)
    except AttributeError:
        if d is _MISSING:
            raise
        return d


def m_print(*a, **k):
    C().store.setdefault('printed', []).append(a)


def m_format(v, spec=''):
    if isinstance(v, SInt):
        s = spec
        if s in ('', 'd'):
            return SDecStr(v)
        if s.endswith('d') and s[:-1].isdigit() and s.startswith('0'):
            return SDecStr(v, int(s[:-1]))
        return OpaqueStr('fmt')
    if is_sym(v):
        return OpaqueStr('fmt')
    return format(v, spec)


def m_copy(o):
    if isinstance(o, SObj):
        r = SObj(o.cls, dict(o.attrs), o.host, o.name)
        return r
    if isinstance(o, SBytes):
        return SBytes(o.segs, o.mutable)
    if isinstance(o, SymTokens):
        return o.copy()
    if is_sym(o) and not isinstance(o, (SInt, SBool, STok, SText)):
        raise Unsupported('copy of %s' % type(o).__name__)
    return copy.copy(o)


def m_open(fn, mode='r', *a, **k):
    h = C().static.get('open')
    if h is None:
        raise Unsupported('open()')
    return h(fn, mode)


def m_next(it, *d):
    try:
        return next(it)
    except StopIteration:
        if d:
            return d[0]
        raise
    except TypeError:
        raise Unsupported('next')


def m_abs(x):
    return abs(x)


def m_divmod(a, b):
    return (a // b, a % b)


def m_chr(x):
    if is_sym(x):
        raise Unsupported('chr of symbolic')
    return chr(x)


def m_type(*a):
    if len(a) != 1:
        raise Unsupported('type()')
    return interp.pytype(a[0])


def m_iter(x, *a):
    if a:
        raise Unsupported('iter(callable)')
    return iter(list(iterate(x))) if not isinstance(x, SymBase) else iter(x)


def m_id(x):
    return id(x)


def m_repr(x):
    if has_sym(x):
        return OpaqueStr('repr')
    return repr(x)


def m_hex(x):
    if is_sym(x):
        return OpaqueStr('hex')
    return hex(x)


def m_setattr(o, n, v):
    interp.setattr_(o, n, v)


def from_bytes(b, byteorder='big', *, signed=False):
    if not is_sym(b):
        return int.from_bytes(b, byteorder, signed=signed)
    f = SBytes.of(b).fixed()
    if f is None:
        raise Unsupported('int.from_bytes of symbolic length')
    if byteorder == 'big':
        f = f[::-1]
    r = 0
    for k, x in enumerate(f):
        r = r | ((x & 255) << (8 * k))
    if signed and f:
        n = 8 * len(f)
        r = ite(mk_bool(lift_int(r) >= (1 << (n - 1))), r - (1 << n), r)
    return r


def int_to_bytes(v, length=1, byteorder='big', *, signed=False):
    if not isinstance(length, int):
        raise Unsupported('to_bytes length')
    lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if signed else (0, (1 << (8 * length)) - 1)
    if C().branch(z3.Or(v.t < lo, v.t > hi)):
        raise OverflowError('int too big to convert')
    bs = [(v >> (8 * k)) & 255 for k in range(length)]
    if byteorder == 'big':
        bs.reverse()
    return SBytes([bs])


BUILTINS = {
    len: m_len, isinstance: m_isinstance, ord: m_ord, chr: m_chr, any: m_any, all: m_all, sum: m_sum,
    min: m_minmax('min'), max: m_minmax('max'), abs: m_abs, pow: m_pow, sorted: m_sorted,
    callable: m_callable, hasattr: m_hasattr, getattr: m_getattr, dir: m_dir, setattr: m_setattr, print: m_print,
    format: m_format, open: m_open, next: m_next, divmod: m_divmod, iter: m_iter, id: m_id, repr: m_repr,
    hex: m_hex, copy.copy: m_copy, struct.pack: m_pack, int.from_bytes: from_bytes,
}

TYPE_MODELS = {
    int: m_int, str: m_str, bool: m_bool, bytes: m_bytes, bytearray: m_bytearray, list: m_list,
    tuple: m_tuple, dict: m_dict, set: m_set, frozenset: m_frozenset, range: m_range,
    enumerate: m_enumerate, zip: m_zip, map: m_map, filter: m_filter, reversed: m_reversed,
    type: m_type, object: lambda: SObj(object),
}


def m_str_join(sep, it):
    if isinstance(it, SSeq) and not isinstance(it.n, int):
        return OpaqueStr("join")
    parts = list(iterate(it))
    if not has_sym(parts):
        return sep.join(parts)
    out = []
    for i, p in enumerate(parts):
        if isinstance(p, (SDecStr, OpaqueStr)):
            return OpaqueStr('join')
        if i:
            out.append(sep)
        out.append(p)
    from .strs import SStr
    if any(isinstance(x, SStr) for x in out):
        r = ''
        for x in out:
            r = r + x
        return r
    return SText(out)


def bytes_join(sep, it):
    parts = list(iterate(it))
    if not has_sym(parts):
        return sep.join(parts)
    r = SBytes([])
    for i, p in enumerate(parts):
        if i:
            r = r + sep
        r = r + p
    return r


LIST_M = {'append', 'extend', 'pop', 'insert', 'copy', 'index', 'reverse', 'clear', 'remove', 'count', 'sort'}


def call_method(self_, name, args, kwargs):
    """method of a native container/str with possibly symbolic content"""
    sym = has_sym(args) or has_sym(kwargs)
    if isinstance(self_, list):
        if name in ('append', 'insert', 'extend', 'pop', 'reverse', 'clear', 'remove', 'sort'):
            check_mutation(self_)
        if name == 'append':
            return self_.append(*args)
        if name == 'insert':
            if is_sym(args[0]):
                raise Unsupported('insert position')
            return self_.insert(*args)
        if name == 'extend':
            return self_.extend(list(iterate(args[0])))
        if name == 'pop':
            if sym:
                raise Unsupported('pop')
            return self_.pop(*args)
        if name == 'copy':
            return note_born(list(self_))
        if name in ('index', 'remove', 'count') and (sym or has_sym(self_)):
            if name == 'index' and len(args) == 1:
                for i, x in enumerate(self_):
                    if bool(eq_(x, args[0])):
                        return i
                raise ValueError('not in list')
            raise Unsupported('list.%s on symbolic' % name)
    elif isinstance(self_, dict):
        if name == 'get' and sym:
            k = args[0]
            d = args[1] if len(args) > 1 else None
            from .interp import contains_
            if bool(contains_(self_, k)):
                return dict_lookup(self_, k, sure=True)
            return d
        if name in ('pop', 'setdefault', 'update', 'clear', 'popitem'):
            check_mutation(self_)
            if sym and has_sym(args[0]) and name != 'update':
                raise Unsupported('dict.%s with symbolic key' % name)
        if name in ('items', 'values', 'keys', 'copy'):
            if name == 'copy':
                return note_born(dict(self_))
            return getattr(self_, name)()
        if name in ('get', 'pop', 'setdefault', 'update', 'clear'):
            return getattr(self_, name)(*args, **kwargs)
    elif isinstance(self_, (tuple,)):
        if name == 'index' and (sym or has_sym(self_)):
            from .interp import contains_
            x = args[0]
            if not bool(contains_(self_, x)):
                raise ValueError('tuple.index(x): x not in tuple')
            return merge_values([(eq_(x, y), k) for k, y in enumerate(self_)])
        if sym:
            raise Unsupported('tuple.%s' % name)
    elif isinstance(self_, str):
        if name == 'join':
            return m_str_join(self_, args[0])
        if name == 'format' and sym:
            if C().static.get('real_str'):
                return self_.format(*args, **kwargs)
            return OpaqueStr('fmt')
        if name in ('startswith', 'endswith', 'replace', 'split', 'find', 'index', 'count', 'strip') and sym:
            raise Unsupported('str.%s with symbolic argument' % name)
    elif isinstance(self_, (bytes, bytearray)):
        if name == 'join' and isinstance(self_, bytes):
            return bytes_join(self_, args[0])
        if isinstance(self_, bytearray) and name in ('append', 'extend'):
            check_mutation(self_)
    elif isinstance(self_, set):
        if name in ('add', 'discard', 'remove', 'update', 'clear', 'pop'):
            check_mutation(self_)
    if sym:
        raise Unsupported('%s.%s on symbolic arguments' % (type(self_).__name__, name))
    m = getattr(self_, name)
    return m(*args, **kwargs)


def call_builtin(f, args, kwargs):
    try:
        m = BUILTINS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*args, **kwargs)
    self_ = getattr(f, '__self__', None)
    if self_ is not None and not isinstance(self_, (types.ModuleType, type)) and isinstance(self_, (list, dict, tuple, str, bytes, bytearray, set, frozenset)):
        return call_method(self_, f.__name__, args, kwargs)
    if isinstance(f, types.MethodDescriptorType) and args and isinstance(args[0], (str, list, dict)):
        return call_method(args[0], f.__name__, args[1:], kwargs)
    if isinstance(f, types.MethodDescriptorType) and args and isinstance(args[0], SymBase):
        return getattr(args[0], f.__name__)(*args[1:], **kwargs)
    if has_sym(args) or has_sym(kwargs):
        raise Unsupported('call of %r on symbolic values' % (f,))
    return f(*args, **kwargs)


NATIVE_MUT = ()


def selection(pairs):
    """name of a value chosen by the conditions; equal selections share their name"""
    memo = C().static.setdefault('selections', {})
    terms = [lift_bool(x) for x, _ in pairs]
    k = tuple((t.get_id(), v) for t, (_, v) in zip(terms, pairs))
    if k not in memo:
        memo[k] = len(memo), terms          # the terms stay alive, so their ids stay theirs
    return memo[k][0]


def simple_eq(t):
    """(variable, constant) of a term `x == n`"""
    if z3.is_eq(t):
        a, b = t.children()
        if z3.is_int_value(a):
            a, b = b, a
        if z3.is_int_value(b) and z3.is_const(a):
            return str(a), b.as_long()
    return None


def define(c, key, pairs, what):
    """what(value) holds exactly under the condition that selects the value"""
    terms = [(lift_bool(x), v) for x, v in pairs]
    eqs = [simple_eq(t) for t, _ in terms]
    distinct = all(eqs) and len({e[0] for e in eqs}) == 1 and len({e[1] for e in eqs}) == len(eqs)
    before = []
    for i, (t, v) in enumerate(terms):
        if i == len(terms) - 1:
            cond = z3.Not(z3.Or([x for x, _ in terms[:-1]]))
        elif distinct or not before:
            cond = t
        else:
            cond = z3.And(t, z3.Not(z3.Or(before)))
        before.append(t)
        c.axiom(z3.Implies(cond, what(v)), key + (i,))


def selected_int(pairs):
    c = C()
    n = selection(pairs)
    x = z3.Int('selected!%d' % n)
    vs = [v for _, v in pairs]
    c.axiom(z3.And(x >= min(vs), x <= max(vs)), ('selected', n))
    define(c, ('selected', n), pairs, lambda v: x == v)
    return SInt(x, (1 << max(vs).bit_length()) - 1 if min(vs) >= 0 else -1)


def selected_text(pairs):
    c = C()
    n = selection(pairs)
    info = tok_info('selected!%d' % n)
    t = STok(info)
    for _, v in pairs:
        t == v
    define(c, ('selectedtext', n), pairs, lambda v: lift_bool(t == v))
    return t


def merge_values(pairs, default=None):
    """value-level If chain over (cond, value); values ints/bools or identical objects, else fork"""
    vals = [v for _, v in pairs]
    if len(pairs) >= 5 and all(type(v) is int for v in vals):
        return selected_int(pairs)
    if len(pairs) >= 5 and all(type(v) is str for v in vals):
        return selected_text(pairs)
    if all(isinstance(v, (int, SInt, SBool)) for v in vals) and \
            (all(isinstance(v, (bool, SBool)) for v in vals) or not any(isinstance(v, (bool, SBool)) for v in vals)):
        r = vals[-1]
        for c, v in reversed(pairs[:-1]):
            r = ite(c, v, r) if isinstance(c, SBool) else (v if c else r)
        return r
    if all(isinstance(v, tuple) for v in vals) and len({len(v) for v in vals}) == 1:
        n = len(vals[0])
        if all(all(isinstance(x, (int, SInt)) and not isinstance(x, bool) for x in v) for v in vals):
            return tuple(merge_values([(c, v[i]) for c, v in pairs]) for i in range(n))
    for c, v in pairs[:-1]:
        if bool(c):
            return v
    return vals[-1]


def dict_lookup(d, k, sure=False):
    from .interp import contains_, lift
    if not sure and not bool(contains_(d, k)):
        raise KeyError(k if not is_sym(k) else str(k))
    if isinstance(k, tuple):
        pairs = [(eq_(k, kk), v) for kk, v in d.items() if isinstance(kk, tuple) and len(kk) == len(k)]
    else:
        pairs = [(eq_(k, kk), v) for kk, v in d.items()]
    pairs = [(c, lift(v)) for c, v in pairs if c is not False]
    for c, v in pairs:
        if c is True:
            return v
    if not pairs:
        raise PathKill()
    return merge_values(pairs)


def table_index(o, i):
    n = len(o)
    c = C()
    if not c.branch(z3.And(i.t >= -n, i.t < n)):
        raise IndexError('index out of range')
    if n == 0:
        raise IndexError('index out of range')
    pairs = []
    for k in range(n):
        pairs.append((mk_bool(z3.Or(i.t == k, i.t == k - n)), o[k]))
    pairs = [(cc, v) for cc, v in pairs if cc is not False]
    return merge_values(pairs)


def slice_native(o, sl):
    if isinstance(o, (bytes, bytearray)):
        return SBytes.of(o).slice(sl)
    if sl.step not in (None, 1):
        raise Unsupported('slice step')
    n = len(o)

    def norm(x, d):
        if x is None:
            return d
        if isinstance(x, int):
            return x
        for k in range(-n, n + 1):
            if C().branch(x.t == k):
                return k
        if C().branch(x.t > n):
            return n
        return -n if n else 0
    a, b = norm(sl.start, None), norm(sl.stop, None)
    return o[a:b]
