"""Symbolic values.  Every class here behaves like the Python type it stands for;
an operation that is not modelled raises Unsupported (never a silent guess)."""
import z3
from . import core
from .core import Unsupported, PathKill


def C():
    return core.CTX


def lift_bool(v):
    if isinstance(v, SBool):
        return v.t
    return z3.BoolVal(bool(v))


def lift_int(v):
    if isinstance(v, SInt):
        return v.t
    if isinstance(v, SBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, z3.ArithRef):
        return v
    return z3.IntVal(int(v))


def is_sym(v):
    return hasattr(v, '_sym')


def mk_bool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def mk_int(t, ones=-1):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t, ones)


class SymBase:
    _sym = True
    __slots__ = ()
    __hash__ = None


class SBool(SymBase):
    __slots__ = ('t',)
    pytype = bool

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return C().branch(self.t)

    def __and__(self, o):
        if isinstance(o, (bool, SBool)):
            return mk_bool(z3.And(self.t, lift_bool(o)))
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SBool)):
            return mk_bool(z3.Or(self.t, lift_bool(o)))
        return NotImplemented
    __ror__ = __or__

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return mk_bool(self.t == lift_bool(o))
        if isinstance(o, (int, SInt)):
            return mk_bool(lift_int(self) == lift_int(o))
        return False

    def __ne__(self, o):
        r = self == o
        return not_(r)

    def __index__(self):
        return 1 if self else 0

    def __int__(self):
        return 1 if self else 0

    def __add__(self, o):
        return SInt(lift_int(self)) + o
    __radd__ = __add__

    def __repr__(self):
        return 'SBool(%s)' % self.t

    def __getattr__(self, n):
        raise Unsupported('bool.%s' % n)


def not_(v):
    if isinstance(v, SBool):
        return mk_bool(z3.Not(v.t))
    return not v


def and_(*vs):
    ts = []
    for v in vs:
        if isinstance(v, SBool):
            ts.append(v.t)
        elif not v:
            return False
    if not ts:
        return True
    return mk_bool(z3.And(ts) if len(ts) > 1 else ts[0])


def or_(*vs):
    ts = []
    for v in vs:
        if isinstance(v, SBool):
            ts.append(v.t)
        elif v:
            return True
    if not ts:
        return False
    return mk_bool(z3.Or(ts) if len(ts) > 1 else ts[0])


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    """value-level if-then-else for ints/bools"""
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return mk_bool(z3.If(c.t, lift_bool(a), lift_bool(b)))
    oa, ob = ones_of(a), ones_of(b)
    return mk_int(z3.If(c.t, lift_int(a), lift_int(b)), oa | ob)


def ones_of(v):
    """superset of the bits that may be 1 (python int; negative = infinitely many)"""
    if isinstance(v, SInt):
        return v.ones
    if isinstance(v, SBool):
        return 1
    return int(v)


_pow2 = z3.Function('pow2', z3.IntSort(), z3.IntSort())
_bor = z3.Function('bor', z3.IntSort(), z3.IntSort(), z3.IntSort())
_band = z3.Function('band', z3.IntSort(), z3.IntSort(), z3.IntSort())
_bxor = z3.Function('bxor', z3.IntSort(), z3.IntSort(), z3.IntSort())


def pow2(n):
    """2**n for a symbolic n >= 0 (table of facts for 0..72, positivity)"""
    if not isinstance(n, SInt):
        return 2 ** int(n)
    c = C()
    if not c.entails(n.t >= 0):
        if not c.branch(n.t >= 0):
            raise Unsupported('2**n with negative n')
    if not c.store.get('pow2 table'):
        c.store['pow2 table'] = True
        for k in range(0, 73):
            c.axiom(_pow2(k) == 2 ** k, ('pow2', k))
    t = _pow2(n.t)
    c.axiom(t >= 1, ('pow2pos', n.t.get_id()))
    return SInt(t)


def and_const(t, ones, m):
    """term for (t & m), m >= 0"""
    m &= ones if ones >= 0 else m
    parts = []
    lo = 0
    if m == 0:
        return z3.IntVal(0), 0
    if ones >= 0 and (ones & ~m) == 0:
        return t, ones
    mm = m
    while mm:
        if mm & 1:
            w = 0
            while mm & 1:
                w += 1
                mm >>= 1
            q = t if lo == 0 else t / (1 << lo)
            # if nothing above this run may be set the mod is not needed
            if ones >= 0 and (ones >> lo) < (1 << w):
                p = q
            else:
                p = q % (1 << w)
            parts.append(p if lo == 0 else p * (1 << lo))
            lo += w
        else:
            mm >>= 1
            lo += 1
    r = parts[0] if len(parts) == 1 else z3.Sum(parts)
    return r, m


class SInt(SymBase):
    __slots__ = ('t', 'ones')
    pytype = int

    def __init__(self, t, ones=-1):
        self.t = t
        self.ones = ones

    def __repr__(self):
        return 'SInt(%s)' % self.t

    def __bool__(self):
        return C().branch(self.t != 0)

    def __index__(self):
        v = C().concretize_int(self) if hasattr(C(), 'concretize_int') else None
        raise Unsupported('symbolic int where a concrete one is needed')

    def __format__(self, spec):
        return '<int:%s>' % spec

    def __str__(self):
        return '<int>'

    def __getattr__(self, n):
        if n == 'to_bytes':
            return self.to_bytes_
        if n == 'bit_length':
            raise Unsupported('int.%s' % n)
        if hasattr(int, n):
            raise Unsupported('int.%s' % n)
        raise AttributeError(n)

    def to_bytes_(self, length=1, byteorder='big', *, signed=False):
        if not isinstance(length, int) or not isinstance(byteorder, str) or not isinstance(signed, bool):
            raise Unsupported('int.to_bytes')
        if byteorder not in ('big', 'little'):
            raise ValueError("byteorder must be either 'little' or 'big'")
        if length < 0:
            raise ValueError('length argument must be non-negative')
        lo, hi = (-(1 << (8 * length)) // 2 if length else 0, (1 << (8 * length)) // 2 if length else 1) if signed else (0, 1 << (8 * length))
        if C().branch(z3.Or(self.t < lo, self.t >= hi)):
            raise OverflowError('int too big to convert')
        out = [(self >> (8 * k)) & 255 for k in range(length)]
        return SBytes([out if byteorder == 'little' else out[::-1]])

    # arithmetic
    def _num(self, o):
        return isinstance(o, (int, SInt, SBool))

    def __add__(self, o):
        if not self._num(o):
            return NotImplemented
        if isinstance(o, int) and o == 0:
            return self
        oo = ones_of(o)
        ones = -1
        if self.ones >= 0 and oo >= 0:
            if self.ones & oo == 0:
                ones = self.ones | oo
            else:
                ones = (1 << (max(self.ones, oo).bit_length() + 1)) - 1
        return mk_int(self.t + lift_int(o), ones)
    __radd__ = __add__

    def __sub__(self, o):
        if not self._num(o):
            return NotImplemented
        if isinstance(o, int) and o == 0:
            return self
        return mk_int(self.t - lift_int(o))

    def __rsub__(self, o):
        if not self._num(o):
            return NotImplemented
        return mk_int(lift_int(o) - self.t)

    def __neg__(self):
        return mk_int(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk_int(z3.If(self.t >= 0, self.t, -self.t))

    def __invert__(self):
        return mk_int(-self.t - 1)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)):
            from .models import repeat_seq
            return repeat_seq(o, self)
        if not self._num(o):
            return NotImplemented
        if isinstance(o, int) and o > 0 and o & (o - 1) == 0:
            return self << (o.bit_length() - 1)
        return mk_int(self.t * lift_int(o))
    __rmul__ = __mul__

    def __floordiv__(self, o):
        if not self._num(o):
            return NotImplemented
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(o, self)

    def __mod__(self, o):
        if not self._num(o):
            return NotImplemented
        return mod(self, o)

    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            return NotImplemented
        return mod(o, self)

    def __divmod__(self, o):
        return floordiv(self, o), mod(self, o)

    def __truediv__(self, o):
        raise Unsupported('float division')
    __rtruediv__ = __truediv__

    def __pow__(self, o, m=None):
        raise Unsupported('symbolic ** ')

    def __rpow__(self, o):
        if o == 2:
            return pow2(self)
        raise Unsupported('symbolic exponent')

    def __lshift__(self, o):
        if isinstance(o, SInt):
            if C().branch(o.t < 0):
                raise ValueError('negative shift count')
            return self * pow2(o)
        if not isinstance(o, int):
            return NotImplemented
        if o < 0:
            raise ValueError('negative shift count')
        if o == 0:
            return self
        return mk_int(self.t * (1 << o), self.ones << o)

    def __rlshift__(self, o):
        if C().branch(self.t < 0):
            raise ValueError('negative shift count')
        return pow2(self) * o

    def __rshift__(self, o):
        if isinstance(o, SInt):
            if C().branch(o.t < 0):
                raise ValueError('negative shift count')
            return floordiv(self, pow2(o))
        if not isinstance(o, int):
            return NotImplemented
        if o < 0:
            raise ValueError('negative shift count')
        if o == 0:
            return self
        t, k = self.t, 1 << o
        if z3.is_app_of(t, z3.Z3_OP_IDIV) and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() > 0:
            t, k = t.arg(0), k * t.arg(1).as_long()         # floor(floor(x / a) / b) = floor(x / (a b))
        return mk_int(t / k, self.ones >> o)

    def __rrshift__(self, o):
        if C().branch(self.t < 0):
            raise ValueError('negative shift count')
        return floordiv(o, pow2(self))

    def __and__(self, o):
        if not self._num(o):
            return NotImplemented
        if isinstance(o, SBool):
            o = SInt(lift_int(o), 1)
        if isinstance(o, int):
            o = int(o)
            if o >= 0:
                if not 0 <= self.ones <= o and o & (o + 1) == 0 and o and not C().merging and C().entails(z3.And(self.t >= 0, self.t <= o)):
                    return SInt(self.t, self.ones & o)
                t, ones = and_const(self.t, self.ones, o)
                return mk_int(t, ones)
            m = ~o
            t, _ = and_const(self.t, self.ones, m)
            return mk_int(self.t - t, self.ones & o)
        ov = self.ones & o.ones
        if ov == 0:
            return 0
        if 0 <= ov and ov.bit_length() <= 64:
            parts = []
            b = 0
            while ov >> b:
                if (ov >> b) & 1:
                    parts.append(z3.If(z3.And((self.t / (1 << b)) % 2 == 1,
                                              (o.t / (1 << b)) % 2 == 1),
                                       z3.IntVal(1 << b), z3.IntVal(0)))
                b += 1
            return mk_int(z3.Sum(parts), ov)
        # x & (2**k - 1) with symbolic k is a modulus
        for a, b in ((self, o), (o, self)):
            p = _minus_one(b.t)
            if p is not None:
                return mod(a, SInt(p))
        if self.t.eq(o.t):
            return self
        C().axiom(_band(self.t, o.t) == _band(o.t, self.t), ('bandc', self.t.get_id(), o.t.get_id()))
        return SInt(_band(self.t, o.t), ov)
    __rand__ = __and__

    def __or__(self, o):
        if not self._num(o):
            return NotImplemented
        if isinstance(o, SBool):
            o = SInt(lift_int(o), 1)
        oo = ones_of(o)
        if oo == 0:
            return self
        if self.ones & oo == 0:
            return mk_int(self.t + lift_int(o), self.ones | oo)
        if isinstance(o, int) and o >= 0:
            t, _ = and_const(self.t, self.ones, o)
            return mk_int(self.t + o - t, self.ones | o)
        if isinstance(o, SInt) and not C().merging:
            low = (self.ones & oo) & -(self.ones & oo)      # what is known about the values may keep them apart
            for a, b in ((self, o), (o, self)):
                if low > 1 and C().entails(b.t < low if b.ones >= 0 else z3.And(b.t >= 0, b.t < low)):
                    return mk_int(a.t + b.t, a.ones | (b.ones & (low - 1)))
        if isinstance(o, SInt) and 0 <= self.ones | o.ones and C().static.get('opaque_or'):
            r, m = _bor(self.t, o.t), self.ones | o.ones
            C().axiom(z3.And(r >= 0, r <= m, r == _bor(o.t, self.t)), ('borr', self.t.get_id(), o.t.get_id()))
            return SInt(r, m)
        if isinstance(o, SInt) and (self.ones & o.ones) >= 0:
            a = self & o
            return mk_int(self.t + o.t - lift_int(a), self.ones | o.ones)
        if isinstance(o, int):
            m = ~o      # x | o = ~(~x & m) = o + (x & m)
            t, _ = and_const(self.t, self.ones, m)
            return mk_int(t + o)
        C().axiom(_bor(self.t, o.t) == _bor(o.t, self.t), ('borc', self.t.get_id(), o.t.get_id()))
        return SInt(_bor(self.t, o.t), self.ones | oo)
    __ror__ = __or__

    def __xor__(self, o):
        if not self._num(o):
            return NotImplemented
        oo = ones_of(o)
        if self.ones & oo == 0:
            return mk_int(self.t + lift_int(o), self.ones | oo)
        if (isinstance(o, int) and o >= 0) or (isinstance(o, SInt) and self.ones & o.ones >= 0):
            a = self & o
            return mk_int(self.t + lift_int(o) - 2 * lift_int(a))
        ot = lift_int(o)
        C().axiom(_bxor(self.t, ot) == _bxor(ot, self.t), ('bxorc', self.t.get_id(), ot.get_id()))
        return SInt(_bxor(self.t, ot))
    __rxor__ = __xor__

    # comparison
    def _cmp(self, o, f):
        if not self._num(o):
            return NotImplemented
        return mk_bool(f(self.t, lift_int(o)))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if not self._num(o):
            return False
        return mk_bool(self.t == lift_int(o))

    def __ne__(self, o):
        if not self._num(o):
            return True
        return mk_bool(self.t != lift_int(o))


def _ordered(a, b):
    return (a, b) if a.get_id() <= b.get_id() else (b, a)


def _minus_one(t):
    """p when t is p + (-1)"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ADD and t.num_args() == 2:
        a, b = t.arg(0), t.arg(1)
        if z3.is_int_value(a) and a.as_long() == -1 and _is_pow2(b):
            return b
        if z3.is_int_value(b) and b.as_long() == -1 and _is_pow2(a):
            return a
    return None


def _is_pow2(t):
    if z3.is_int_value(t):
        v = t.as_long()
        return v > 0 and v & (v - 1) == 0
    if z3.is_app(t):
        if t.decl().eq(_pow2):
            return True
        if t.decl().kind() == z3.Z3_OP_ITE:
            return _is_pow2(t.arg(1)) and _is_pow2(t.arg(2))
        if t.decl().kind() == z3.Z3_OP_MUL:
            return all(_is_pow2(a) for a in t.children())
    return False


def floordiv(a, b):
    if isinstance(b, int):
        if b == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if b > 0:
            if b & (b - 1) == 0:
                return a >> (b.bit_length() - 1)
            return mk_int(lift_int(a) / b)
        return mk_int((-lift_int(a)) / (-b))
    bt, at = lift_int(b), lift_int(a)
    if C().branch(bt == 0):
        raise ZeroDivisionError('integer division or modulo by zero')
    return mk_int(z3.If(bt > 0, at / bt, (-at) / (-bt)))


def mod(a, b):
    at = lift_int(a)
    if isinstance(b, int):
        if b == 0:
            raise ZeroDivisionError('integer modulo by zero')
        if b > 0:
            if b & (b - 1) == 0 and isinstance(a, SInt):
                return a & (b - 1)
            return mk_int(at % b)
        return mk_int(-((-at) % (-b)))
    bt = lift_int(b)
    if C().branch(bt == 0):
        raise ZeroDivisionError('integer modulo by zero')
    r = z3.If(bt > 0, at % bt, -((-at) % (-bt)))
    C().axiom(z3.Implies(z3.And(bt > 0, at >= 0, at < bt), at % bt == at),
              ('modid', at.get_id(), bt.get_id()))
    C().axiom(z3.Implies(bt > 0, z3.And(at % bt >= 0, at % bt < bt)),
              ('modrg', at.get_id(), bt.get_id()))
    st = z3.simplify(at)
    if all(z3.is_mul(x) and z3.is_int_value(x.arg(0)) and x.arg(0).as_long() < 0 or z3.is_app_of(x, z3.Z3_OP_UMINUS)
           for x in (st.children() if z3.is_add(st) else [st])):
        neg = z3.simplify(-at)              # the remainder of a negated number
        C().axiom(z3.Implies(bt > 0, z3.And(neg % bt >= 0, neg % bt < bt)), ('modrg', neg.get_id(), bt.get_id()))
        r = z3.If(bt > 0, z3.If(neg % bt == 0, z3.IntVal(0), bt - neg % bt), -(neg % (-bt)))
    return mk_int(r)


def fresh_int(name, lo=None, hi=None):
    t = z3.Int(name)
    ones = -1
    if lo is not None:
        C().add(t >= lo)
    if hi is not None:
        C().add(t <= hi)
        if lo is not None and lo >= 0:
            ones = (1 << hi.bit_length()) - 1
    return SInt(t, ones)


def fresh_bool(name):
    return SBool(z3.Bool(name))


# ---------------------------------------------------------------------------
# opaque text tokens
# ---------------------------------------------------------------------------
_LITS = {}
_LIT_BY_ID = {}


def lit_id(s):
    """integer identity of a literal (upper-cased)"""
    s = s.upper()
    if s not in _LITS:
        _LITS[s] = len(_LITS) + 1
        _LIT_BY_ID[_LITS[s]] = s
    return _LITS[s]


class TokInfo:
    """an unknown text; identified up to letter case by the integer `tid`.
    Everything else we know about it is a lazily created constant tied to the
    known literals by axioms."""

    def __init__(self, key):
        self.key = key
        self.tid = z3.Int('tok:%s' % key)
        self.lits = {}
        self.attrs = {}
        self.derived = {}
        self.sibs = {}
        self.origin = None          # (text it is part of, start, stop) or (text, index)
        self.prefixes = []          # (letter case, prefix, term) of startswith() questions


def tok_info(key):
    d = C().store.setdefault('toks', {})
    if key not in d:
        d[key] = TokInfo(key)
    return d[key]


def both_cases(f, L):
    """f on the literal, when letter case does not matter, else None"""
    try:
        a = f(L)
    except Exception as e:
        a = ('exc', type(e).__name__)
    try:
        b = f(L.lower())
    except Exception as e:
        b = ('exc', type(e).__name__)
    return a if a == b and not isinstance(a, tuple) else None


def register_lit(info, L):
    L = L.upper()
    if L in info.lits:
        return info.lits[L]
    i = lit_id(L)
    eq = info.tid == i
    info.lits[L] = eq
    for name, (term, fn, case) in list(info.attrs.items()):
        _attr_axiom(info, name, term, fn, case, L)
    for name, (d, fn) in list(info.derived.items()):
        _derived_axiom(info, d, fn, L)
    return eq


def _lit_val(fn, case, L):
    if case == 'U':
        try:
            return fn(L)
        except Exception:
            return None
    if case == 'L':
        try:
            return fn(L.lower())
        except Exception:
            return None
    return both_cases(fn, L)


def _attr_axiom(info, name, term, fn, case, L):
    v = _lit_val(fn, case, L)
    if v is None:
        return
    C().axiom(z3.Implies(info.tid == lit_id(L), term == v),
              ('attr', info.key, name, L))


def _derived_axiom(info, d, fn, L):
    v = None
    try:
        v = fn(L)
    except Exception:
        return
    register_lit(d, v)
    C().axiom(z3.Implies(info.tid == lit_id(L), d.tid == lit_id(v)),
              ('der', info.key, d.key, L))


def tok_attr(info, name, fn, sort='bool', case=None):
    if name not in info.attrs:
        mk = z3.Bool if sort == 'bool' else z3.Int
        term = mk('tok:%s.%s' % (info.key, name))
        info.attrs[name] = (term, fn, case)
        for L in list(info.lits):
            _attr_axiom(info, name, term, fn, case, L)
    return info.attrs[name][0]


def tok_derive(info, name, fn):
    if name not in info.derived:
        d = tok_info('%s%s' % (info.key, name))
        info.derived[name] = (d, fn)
        for L in list(info.lits):
            _derived_axiom(info, d, fn, L)
    return info.derived[name][0]


# characters that are the upper case of themselves and one ASCII letter only, so that a text ends with them in upper case
# exactly when it ends with the small letters in lower case
PLAIN = set('BCDEGLMOPQRUVWXZ0123456789.')      # (a ligature ends with L, but after an F)


def has_letters(s):
    return s.upper() != s.lower()


class STok(SymBase):
    """opaque str value; `case` None (as written), 'U' (.upper()), 'L' (.lower())"""
    __slots__ = ('info', 'case')
    pytype = str

    def __init__(self, info, case=None):
        self.info = info
        self.case = case

    @property
    def key(self):
        return self.info.key + ('' if self.case is None else '.' + self.case)

    def __repr__(self):
        return 'STok(%s)' % self.key

    def __str__(self):
        return '<text:%s>' % self.key

    def __format__(self, spec):
        return '<text:%s>' % self.key

    def upper(self):
        return STok(self.info, 'U')

    def lower(self):
        return STok(self.info, 'L')

    def eq_term(self, s):
        """z3 term for (self == literal s)"""
        if ' ' in s and C().static.get('noblank'):
            return z3.BoolVal(False)        # assumed of every text of this exploration
        t = self.eq_term_(s)
        if self.info.origin and not z3.is_false(t):
            self.link(s, t)
        return t

    def link(self, s, t):
        """equality of a part with s is a startswith() question about the whole text"""
        o = self.info.origin
        key = ('part', self.key, s)
        if key in C().seen_axioms:
            return
        whole = STok(o[0], self.case)
        if len(o) == 2:
            if len(s) == 1:
                at = whole[o[1]:] if o[1] else whole
                C().axiom(z3.Implies(lift_int(whole.length()) > o[1], t == lift_bool(at.startswith(s))), key)
        elif o[2] is not None and s:            # (start, stop)
            at = whole[o[1]:] if o[1] else whole
            n = o[2] - o[1]
            if len(s) == n:
                C().axiom(t == lift_bool(at.startswith(s)), key)
            elif n < 0:                     # all but a suffix: the whole text starts with it, in either case
                cases = (None,) if not has_letters(s) else ('U', 'L') if self.case else (None, 'U', 'L')
                for k in cases:
                    q = s.upper() if k == 'U' else s.lower() if k == 'L' else s
                    w = STok(o[0], k)
                    C().axiom(z3.Implies(t, lift_bool((w[o[1]:] if o[1] else w).startswith(q))), key + (k,))
                C().axiom(z3.BoolVal(True), key)

    def eq_term_(self, s):
        if self.case == 'U':
            return register_lit(self.info, s) if s == s.upper() else z3.BoolVal(False)
        if self.case == 'L':
            return register_lit(self.info, s) if s == s.lower() else z3.BoolVal(False)
        e = register_lit(self.info, s)
        if not has_letters(s):
            return e
        # case matters: one boolean per spelling, at most one holds
        name = 'is:' + s

        def fn(L, _s=s):
            return False if L.upper() != _s.upper() else None
        new = name not in self.info.attrs
        t = tok_attr(self.info, name, fn)
        if new:
            C().axiom(z3.Implies(t, e), ('cs', self.info.key, s))
            for n2 in list(self.info.attrs):
                if n2.startswith('is:') and n2 != name and n2[3:].upper() == s.upper():
                    C().axiom(z3.Not(z3.And(t, self.info.attrs[n2][0])),
                              ('csx', self.info.key, s, n2))
        return t

    def __eq__(self, o):
        if isinstance(o, str):
            return mk_bool(self.eq_term(o))
        if isinstance(o, STok):
            if o.info is self.info and o.case == self.case:
                return True
            if self.case is not None and o.case == self.case:
                return mk_bool(self.info.tid == o.info.tid)
            raise Unsupported('comparison of two unknown texts')
        if isinstance(o, SText):
            return o == self
        return False

    def __ne__(self, o):
        return not_(self == o)

    def __bool__(self):
        return bool(self.length() > 0)

    def _attr(self, name, fn, sort='bool'):
        nm = name if self.case is None else '%s:%s' % (self.case, name)
        t = tok_attr(self.info, nm, fn, sort, self.case)
        return SBool(t) if sort == 'bool' else SInt(t)

    def length(self):
        r = self._attr('len', len, 'int') if self.case is None else \
            STok(self.info)._attr('len', len, 'int')
        C().axiom(r.t >= 0, ('lenpos', self.info.key))
        return r

    def startswith(self, p, *rest):
        if rest:
            raise Unsupported('startswith with bounds')
        if isinstance(p, tuple):
            return or_(*[self.startswith(x) for x in p])
        if p == '':
            return True
        me = self
        if self.case and not has_letters(p):
            me = STok(self.info)
        r = me._attr('startswith(%s)' % p, lambda L, _p=p: L.startswith(_p))
        C().axiom(z3.Implies(r.t, lift_int(self.length()) >= len(p)),
                  ('sw', me.key, p))
        me.relate_prefix(p, r.t)
        return r

    def relate_prefix(self, p, t):
        """what this startswith() question has to do with the others about the same text and its parts"""
        me, case = self.info, self.case
        if any(c == case and q == p for c, q, _ in me.prefixes):
            return
        for c, q, u in list(me.prefixes):
            if c == case or not (has_letters(p) or has_letters(q)):
                a, b = p, q
            elif c is None and case and has_letters(p):       # the text as written tells about its upper/lower case
                a, b = p, (q.upper() if case == 'U' else q.lower())
                if len(b) == len(q) and b.startswith(a):
                    C().axiom(z3.Implies(u, t), ('swx', me.key, case, p, c, q))
                continue
            elif case is None and c and has_letters(q):
                a, b = (p.upper() if c == 'U' else p.lower()), q
                if len(a) == len(p) and a.startswith(b):
                    C().axiom(z3.Implies(t, u), ('swx', me.key, case, p, c, q))
                continue
            else:
                continue
            if a.startswith(b):
                f = z3.Implies(t, u)
            elif b.startswith(a):
                f = z3.Implies(u, t)
            else:
                f = z3.Not(z3.And(t, u))
            C().axiom(f, ('swx', me.key, case, p, c, q))
        me.prefixes.append((case, p, t))

        def between(whole, k, pw, tw, ps, ts, key):
            """whole.startswith(pw) is tw; whole[k:].startswith(ps) is ts"""
            if len(pw) <= k:
                return
            a = pw[k:]
            if a.startswith(ps):
                f = z3.Implies(tw, ts)
            elif ps.startswith(a):
                return
            else:
                f = z3.Not(z3.And(tw, ts))
            C().axiom(f, ('swp', key))
        o = me.origin
        if o and len(o) == 3 and o[2] is None:
            for c, q, u in list(o[0].prefixes):
                if c == case or not (has_letters(q[o[1]:]) or has_letters(p)):
                    between(o[0], o[1], q, u, p, t, (me.key, case, p, q))
        for d, _ in list(me.derived.values()):
            if d.origin and len(d.origin) == 3 and d.origin[2] is None and d.origin[0] is me:
                for c, q, u in list(d.prefixes):
                    if c == case or not (has_letters(p[d.origin[1]:]) or has_letters(q)):
                        between(me, d.origin[1], p, t, q, u, (d.key, case, q, p))

    def endswith(self, p, *rest):
        if rest:
            raise Unsupported('endswith with bounds')
        if isinstance(p, tuple):
            return or_(*[self.endswith(x) for x in p])
        me = self
        if self.case and not has_letters(p):
            me = STok(self.info)
        elif self.case and p != (p.upper() if self.case == 'U' else p.lower()):
            return False
        elif self.case == 'U' and p[:1] != 'L' and all(ch in PLAIN for ch in p):
            me, p = STok(self.info, 'L'), p.lower()
        r = me._attr('endswith(%s)' % p, lambda L, _p=p: L.endswith(_p))
        C().axiom(z3.Implies(r.t, lift_int(self.length()) >= len(p)),
                  ('ew', me.key, p))
        # two different equal-length suffixes exclude each other
        for n2 in list(me.info.attrs):
            pre = '' if me.case is None else me.case + ':'
            if n2.startswith(pre + 'endswith(') and n2 != pre + 'endswith(%s)' % p:
                q = n2[len(pre) + 9:-1]
                if len(q) == len(p) and q != p:
                    C().axiom(z3.Not(z3.And(r.t, me.info.attrs[n2][0])),
                              ('ewx', me.key, p, q))
        return r

    def isdigit(self):
        r = STok(self.info)._attr('isdigit', lambda L: L.isdigit())
        C().axiom(z3.Implies(r.t, lift_int(self.length()) > 0), ('isd', self.info.key))
        return r

    def isalpha(self):
        return STok(self.info)._attr('isalpha', lambda L: L.isalpha())

    def isalnum(self):
        return STok(self.info)._attr('isalnum', lambda L: L.isalnum())

    def __contains__(self, s):
        raise Unsupported('in on unknown text (native)')

    def contains(self, s):
        if isinstance(s, str):
            return self._attr('contains(%s)' % s, lambda L, _s=s: _s in L)
        raise Unsupported('symbolic substring test')

    def lstrip(self, chars=None):
        return STok(tok_derive(self.info, '.lstrip(%s)' % chars, lambda L: L.lstrip(chars)), self.case)

    def rstrip(self, chars=None):
        return STok(tok_derive(self.info, '.rstrip(%s)' % chars, lambda L: L.rstrip(chars)), self.case)

    def strip(self, chars=None):
        return STok(tok_derive(self.info, '.strip(%s)' % chars, lambda L: L.strip(chars)), self.case)

    def replace(self, a, b):
        return SText([self]).replace(a, b)

    def __add__(self, o):
        return SText([self]) + o

    def __radd__(self, o):
        return SText([o]) + self

    def __len__(self):
        raise Unsupported('native len of unknown text')

    def __iter__(self):
        raise Unsupported('iteration over unknown text')

    def __getitem__(self, i):
        L = self.length()
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported('stepped slice of text')
            if not all(x is None or isinstance(x, int) for x in (i.start, i.stop)):
                raise Unsupported('symbolic slice of text')
            if i.start in (None, 0) and i.stop is None:
                return self
            o = self.info.origin
            if o and len(o) == 3 and o[2] is None and (i.start or 0) >= 0 and (i.stop is None or i.stop >= 0):
                return STok(o[0], self.case)[o[1] + (i.start or 0):None if i.stop is None else o[1] + i.stop]
            d = tok_derive(self.info, '[%s:%s]' % ('' if i.start in (None, 0) else i.start,
                                                   '' if i.stop is None else i.stop),
                           lambda s, _i=i: s[_i])
            r = STok(d, self.case)
            if d.origin is None and (i.start or 0) >= 0 and (i.stop is None or i.stop < 0 or i.stop > (i.start or 0)):
                d.origin = (self.info, i.start or 0, i.stop)
            # length of the slice
            st = i.start or 0
            lt = lift_int(L)
            a = z3.If(lt < st, lt, z3.IntVal(st)) if st >= 0 else z3.If(lt + st < 0, z3.IntVal(0), lt + st)
            if i.stop is None:
                b = lt
            elif i.stop >= 0:
                b = z3.If(lt < i.stop, lt, z3.IntVal(i.stop))
            else:
                b = z3.If(lt + i.stop < 0, z3.IntVal(0), lt + i.stop)
            dl = lift_int(STok(d).length())
            C().axiom(dl == z3.If(b > a, b - a, z3.IntVal(0)), ('slen', d.key))
            return r
        if isinstance(i, int):
            n = i + 1 if i >= 0 else -i
            if not (L >= n):
                raise IndexError('string index out of range')
            o = self.info.origin
            if o and len(o) == 3 and o[2] is None and i >= 0:
                return STok(o[0], self.case)[o[1] + i]
            d = tok_derive(self.info, '[%d]' % i, lambda s, _i=i: s[_i])
            r = STok(d, self.case)
            if d.origin is None and i >= 0:
                d.origin = (self.info, i)
            C().axiom(lift_int(STok(d).length()) == 1, ('clen', d.key))
            return r
        raise Unsupported('symbolic text index')

    def to_int(self, base=10):
        """int(text)"""
        def ok(L):
            try:
                int(L, base)
                return True
            except ValueError:
                return False

        def val(L):
            return int(L, base)
        t = STok(self.info)
        o = t._attr('isint%d' % base, ok)
        if base == 10:
            # ASCII digits always parse
            C().axiom(z3.Implies(t.isdigit().t, o.t), ('idok', self.info.key))
        if not o:
            raise ValueError('invalid literal for int()')
        v = t._attr('int%d' % base, val, 'int')
        if base == 10:
            C().axiom(z3.Implies(t.isdigit().t, v.t >= 0), ('idv', self.info.key))
        return v

    def find(self, *a):
        raise Unsupported('find')

    def split(self, sep=None, maxsplit=-1):
        if not isinstance(sep, str) or maxsplit != -1:
            raise Unsupported('split')
        cnt = self._attr('count(%s)' % sep, lambda L: L.count(sep), 'int')
        C().axiom(cnt.t >= 0, ('cnt', self.key, sep))
        C().axiom((cnt.t > 0) == self.contains(sep).t, ('cntc', self.key, sep))
        return STokSplit(self, sep, cnt)

    def encode(self, enc='utf-8', *a):
        from .models import text_encode
        return text_encode(self, enc)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if hasattr(str, n):
            raise Unsupported('str.%s' % n)
        raise AttributeError(n)


class STokSplit(SymBase):
    """tok.split(sep): a list of unknown length cnt+1"""
    pytype = list

    def __init__(self, tok, sep, cnt):
        self.tok, self.sep, self.cnt = tok, sep, cnt

    def length(self):
        return self.cnt + 1

    def item(self, i):
        return STok(tok_derive(self.tok.info, '.split(%s)[%d]' % (self.sep, i),
                               lambda L, _s=self.sep, _i=i: L.split(_s)[_i]), self.tok.case)

    def __getitem__(self, i):
        if not isinstance(i, int) or i < 0:
            raise Unsupported('split index')
        if not (self.length() > i):
            raise IndexError('list index out of range')
        return self.item(i)

    def unpack(self, n):
        if not (self.length() == n):
            raise ValueError('unpack: wrong number of values')
        return [self.item(i) for i in range(n)]


def preimages(ops, s):
    """all strings w with ops applied to w giving s"""
    cur = {s}
    for a, b in reversed(ops):
        nxt = set()
        for w in cur:
            for cand in _unreplace(w, a, b):
                if cand.replace(a, b) == w:
                    nxt.add(cand)
        cur = nxt
    return cur


def _unreplace(w, a, b):
    out = {w}
    if b == '':
        raise Unsupported('replace with empty text')
    i = 0
    res = ['']
    while i < len(w):
        if w.startswith(b, i):
            res = [x + a for x in res] + [x + b[0] for x in res]
            # two ways: take the replaced occurrence or the plain first char
            # handled by splitting positions below
            break
        res = [x + w[i] for x in res]
        i += 1
    if i >= len(w):
        return out
    pre = w[:i]
    for tail in _unreplace(w[i + len(b):], a, b):
        out.add(pre + a + tail)
    for tail in _unreplace(w[i + 1:], a, b):
        out.add(pre + w[i] + tail)
    return out


class SText(SymBase):
    """concatenation of literal and unknown parts; each unknown part carries the
    list of replace() operations applied to it"""
    __slots__ = ('parts',)
    pytype = str

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SText):
                out.extend(p.parts)
            elif isinstance(p, STok):
                out.append((p, ()))
            elif isinstance(p, tuple):
                out.append(p)
            elif isinstance(p, str):
                if p == '':
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                else:
                    out.append(p)
            else:
                raise TypeError('can only concatenate str')
        self.parts = out

    def __add__(self, o):
        if isinstance(o, (str, STok, SText)):
            return SText(self.parts + [o])
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (str, STok, SText)):
            return SText([o] + self.parts)
        return NotImplemented

    def replace(self, a, b):
        out = []
        for p in self.parts:
            if isinstance(p, str):
                out.append(p.replace(a, b))
            else:
                out.append((p[0], p[1] + ((a, b),)))
        return SText(out)

    def upper(self):
        return SText([p.upper() if isinstance(p, str) else
                      (p[0].upper(), tuple((a.upper(), b.upper()) for a, b in p[1]))
                      for p in self.parts])

    def lower(self):
        return SText([p.lower() if isinstance(p, str) else
                      (p[0].lower(), tuple((a.lower(), b.lower()) for a, b in p[1]))
                      for p in self.parts])

    @property
    def key(self):
        return '+'.join(p if isinstance(p, str) else p[0].key + repr(p[1]) for p in self.parts)

    def __str__(self):
        return '<text:%s>' % self.key

    def __format__(self, s):
        return str(self)

    def eq_term(self, s):
        def go(parts, s):
            if not parts:
                return [] if s else [z3.BoolVal(True)]
            p = parts[0]
            if isinstance(p, str):
                return go(parts[1:], s[len(p):]) if s.startswith(p) else []
            out = []
            cuts = [len(s)] if len(parts) == 1 else range(0, len(s) + 1)
            for c in cuts:
                rest = go(parts[1:], s[c:])
                if not rest:
                    continue
                pre = preimages(p[1], s[:c]) if p[1] else {s[:c]}
                for w in sorted(pre):
                    e = p[0].eq_term(w)
                    if z3.is_false(e):
                        continue
                    for r in rest:
                        out.append(z3.And(e, r))
            return out
        alts = go(self.parts, s)
        return z3.Or(alts) if alts else z3.BoolVal(False)

    def __eq__(self, o):
        if isinstance(o, str):
            return mk_bool(self.eq_term(o))
        raise Unsupported('comparison of unknown texts')

    def __ne__(self, o):
        return not_(self == o)

    def as_tok(self):
        """treat the concatenation as one opaque token"""
        if len(self.parts) == 1 and not isinstance(self.parts[0], str) and not self.parts[0][1]:
            return self.parts[0][0]
        return STok(tok_info('(%s)' % self.key))

    def lstrip(self, chars=None):
        # [+|-] + token
        if chars is not None and self.parts and not isinstance(self.parts[0], str) and not self.parts[0][1]:
            first = self.parts[0][0]
            if len(self.parts) == 1:
                return SText([first.lstrip(chars)])
            inset = or_(*[first == c for c in chars])
            if inset is True or (inset is not False and bool(inset)):
                return SText([SText(self.parts[1:]).lstrip(chars)])
            nonempty = first.length() > 0
            single = first.length() == 1
            if bool(single):
                return self
            raise Unsupported('lstrip on unknown text')
        if not self.parts:
            return self
        raise Unsupported('lstrip')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if hasattr(str, n):
            return getattr(self.as_tok(), n)
        raise AttributeError(n)

    def __getitem__(self, i):
        return self.as_tok()[i]

    def length(self):
        r = 0
        for p in self.parts:
            if isinstance(p, str):
                r = r + len(p)
            elif not p[1]:
                r = r + p[0].length()
            else:
                raise Unsupported('len of replaced text')
        return r

    def __bool__(self):
        return bool(self.length() > 0)

    def __iter__(self):
        raise Unsupported('iteration over unknown text')


class SymTokens(SymBase):
    """a list of unknown texts of unknown length n; element i is a fixed token.
    Views share elements."""
    __slots__ = ('name', 'n', 'start', 'stop', 'first', 'keep')
    pytype = list

    def __init__(self, name, n, start=0, stop=None, first=None):
        self.name, self.n, self.start, self.stop, self.first = name, n, start, stop, first
        self.keep = (0, name)        # the first keep[0] elements are those of the list named keep[1]

    def length(self):
        n = lift_int(self.n)
        e = n if self.stop is None else z3.If(lift_int(self.stop) < n, lift_int(self.stop), n)
        s = self.start
        return mk_int(z3.If(e > s, e - s, z3.IntVal(0)))

    def elem(self, i):
        """token at absolute index i (concrete)"""
        if i == 0 and self.first is not None:
            return self.first
        key = ('far', self.name)
        lo, hi = C().store.get(key, (0, 0))
        if i > lo:
            C().store[key] = i, hi
            if hi and i >= FAR - hi:
                raise Unsupported('element counted from both ends')
        t = STok(tok_info('%s%d' % (self.keep[1] if i < self.keep[0] else self.name, i)))
        C().axiom(z3.Implies(lift_int(self.n) > i, lift_int(t.length()) > 0),
                  ('nonempty', self.name, i))
        return t

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported('stepped slice')
            st, sp = i.start, i.stop
            if st is None:
                st = 0
            if not isinstance(st, int) or st < 0:
                raise Unsupported('symbolic slice start')
            if sp is not None:
                if isinstance(sp, int) and sp < 0:
                    sp = self.length() + sp
                sp = sp + self.start
            if self.stop is not None:
                if sp is None:
                    sp = self.stop
                else:
                    sp = ite(mk_bool(lift_int(sp) < lift_int(self.stop)), sp, self.stop)
            r = SymTokens(self.name, self.n, self.start + st, sp, self.first)
            r.keep = self.keep
            return r
        if isinstance(i, SInt):
            raise Unsupported('symbolic token index')
        if i < 0:
            n = self.length()
            if isinstance(n, SInt) and self.stop is None and i >= -4 and self.keep[0] == 0:
                # counted from the end: short lists one by one, all longer ones at once
                for k in range(FAR):
                    if n == k:
                        break
                else:
                    key = ('far', self.name)
                    lo, hi = C().store.get(key, (0, 0))
                    C().store[key] = lo, max(hi, -i)
                    if lo >= self.start + FAR + i:
                        raise Unsupported('element counted from both ends')
                    t = STok(tok_info('%s:end%d' % (self.name, i)))
                    C().axiom(lift_int(t.length()) > 0, ('nonempty', self.name, i))
                    return t
            else:
                k = fixed_int(n)
            i = k + i
            if i < 0:
                raise IndexError('list index out of range')
            return self.elem(self.start + i)
        if not (self.length() > i):
            raise IndexError('list index out of range')
        return self.elem(self.start + i)

    def found_at(self, lit, start, d):
        """the first element equal to lit from start on is the one at start + d"""
        e = [lift_bool(self.elem(self.start + start + k) == lit) for k in range(d + 1)]
        return z3.And(lift_int(self.length()) > start + d, e[d], *[z3.Not(x) for x in e[:d]])

    def index(self, lit, start=0, *rest):
        """position of the first element equal to lit: explicit up to 10
        elements further, then one summary case `far`"""
        if rest or not isinstance(lit, str):
            raise Unsupported('list.index form')
        cared = C().static.get('index_at')
        if cared:                           # these distances one by one, any other position as one case
            for d in cared:
                if C().branch(self.found_at(lit, start, d)):
                    return start + d
            far = fresh_int(C().fresh('far'))
            C().add(far.t >= start, *[far.t != start + d for d in cared])
            if C().branch(far.t < lift_int(self.length())):
                return far
            raise ValueError('not in list')
        for j in range(start, start + 10):
            if not (self.length() > j):
                raise ValueError('not in list')
            if self.elem(self.start + j) == lit:
                return j
        far = fresh_int(C().fresh('far'))
        C().add(far.t >= start + 10)
        if C().branch(far.t < lift_int(self.length())):
            return far
        raise ValueError('not in list')

    def copy(self):
        return self

    def __iter__(self):
        k = fixed_int(self.length())
        for j in range(k):
            yield self.elem(self.start + j)

    def __len__(self):
        raise Unsupported('native len of token list')

    def __bool__(self):
        return bool(self.length() > 0)

    def __eq__(self, o):
        raise Unsupported('token list comparison')

    def __str__(self):
        return '<tokens>'

    def __format__(self, s):
        return '<tokens>'

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('list.%s' % n)


MAX_FIXED = 14
FAR = 6         # lists at least this long have distinct first and last elements


def fixed_int(v, limit=None):
    """case split on a small non-negative integer.  Values above the limit are
    NOT covered: the unit is then marked bounded."""
    if isinstance(v, int):
        return v
    c = C()
    lim = c.static.get('fixed_limit', MAX_FIXED) if limit is None else limit
    for k in range(0, lim + 1):
        if c.branch(v.t == k):
            return k
    c.assumptions.add('bounded: list length <= %d where the code iterates over all operands' % lim)
    raise PathKill()


# ---------------------------------------------------------------------------
# byte strings
# ---------------------------------------------------------------------------
class Seg:
    """opaque run of bytes: length n (z3 int), at(i) -> z3 int; `tag` identity"""
    __slots__ = ('n', 'at', 'tag')

    def __init__(self, n, at, tag):
        self.n, self.at, self.tag = n, at, tag


class SBytes(SymBase):
    """bytes / bytearray: list of element lists and opaque segments"""
    __slots__ = ('segs', 'mutable')
    pytype = bytes

    def __init__(self, segs=(), mutable=False):
        self.segs = []
        self.mutable = mutable
        for s in segs:
            self._push(s)

    def _push(self, s):
        if isinstance(s, Seg):
            self.segs.append(s)
        else:
            s = list(s)
            if not s:
                return
            if self.segs and isinstance(self.segs[-1], list):
                self.segs[-1] = self.segs[-1] + s
            else:
                self.segs.append(s)

    @staticmethod
    def of(v, mutable=False):
        if isinstance(v, SBytes):
            return v
        if isinstance(v, (bytes, bytearray)):
            return SBytes([list(v)], mutable)
        return None

    def fixed(self):
        """list of elements when the length is concrete, else None"""
        if not self.segs:
            return []
        if len(self.segs) == 1 and isinstance(self.segs[0], list):
            return self.segs[0]
        return None

    def length(self):
        n = 0
        for s in self.segs:
            n = n + (len(s) if isinstance(s, list) else mk_int(s.n))
        return n

    def at(self, i):
        """z3 term of element at z3 index i (unconstrained outside)"""
        off = z3.IntVal(0)
        cases = []
        for s in self.segs:
            if isinstance(s, list):
                for k, e in enumerate(s):
                    cases.append((i == off + k, lift_int(e)))
                off = off + len(s)
            else:
                cases.append((z3.And(i >= off, i < off + s.n), s.at(i - off)))
                off = off + s.n
        r = z3.IntVal(0)
        for c, v in reversed(cases):
            r = z3.If(c, v, r)
        return z3.simplify(r)

    def __add__(self, o):
        o = SBytes.of(o)
        if o is None:
            return NotImplemented
        return SBytes(self.segs + o.segs, self.mutable)

    def __radd__(self, o):
        m = isinstance(o, bytearray)
        o = SBytes.of(o)
        if o is None:
            return NotImplemented
        return SBytes(o.segs + self.segs, m or o.mutable)

    def __iadd__(self, o):
        o2 = SBytes.of(o)
        if o2 is None:
            if isinstance(o, (list, tuple)):
                from .models import to_bytes
                o2 = to_bytes(list(o))
            else:
                return NotImplemented
        if not self.mutable:
            return SBytes(self.segs + o2.segs)
        C_note_mutation(self)
        for s in list(o2.segs):
            self._push(s)
        return self

    def __mul__(self, n):
        from .models import repeat_bytes
        return repeat_bytes(self, n)
    __rmul__ = __mul__

    def __len__(self):
        f = self.fixed()
        if f is None:
            raise Unsupported('native len of symbolic bytes')
        return len(f)

    def __bool__(self):
        return bool(self.length() > 0)

    def __iter__(self):
        f = self.fixed()
        if f is None:
            L = lift_int(self.length())
            if not C().entails(L <= 64):
                raise Unsupported('iteration over symbolic-length bytes')
            return self._short(L)
        return iter(list(f))

    def _short(self, L):
        k = 0
        while k < 64 and C().branch(L > k):
            yield SInt(self.at(z3.IntVal(k)), 0xFF)
            k += 1

    def __getitem__(self, i):
        f = self.fixed()
        if isinstance(i, slice):
            if f is not None and all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)):
                return SBytes([f[i]], self.mutable)
            return self.slice(i)
        if f is not None and isinstance(i, int):
            return f[i]
        L = lift_int(self.length())
        it = lift_int(i)
        c = C()
        if c.branch(z3.And(it >= 0, it < L)):
            return SInt(self.at(it), 0xFF)
        if c.branch(z3.And(it < 0, it >= -L)):
            return SInt(self.at(it + L), 0xFF)
        raise IndexError('index out of range')

    def slice(self, sl):
        if sl.step not in (None, 1):
            raise Unsupported('stepped slice of bytes')
        L = lift_int(self.length())
        c = C()

        def norm(x, dflt):
            if x is None:
                return dflt
            t = lift_int(x)
            t = z3.If(t < 0, z3.If(t + L < 0, z3.IntVal(0), t + L), t)
            return z3.simplify(z3.If(t > L, L, t))
        a, b = norm(sl.start, z3.IntVal(0)), norm(sl.stop, L)
        # suffix of the exact segment structure
        if sl.stop is None:
            off = z3.IntVal(0)
            for k in range(len(self.segs) + 1):
                if c.entails(a == off):
                    return SBytes(self.segs[k:], self.mutable)
                if k < len(self.segs):
                    s = self.segs[k]
                    off = z3.simplify(off + (len(s) if isinstance(s, list) else s.n))
        if sl.start in (None, 0):
            off = z3.IntVal(0)
            for k in range(len(self.segs) + 1):
                if c.entails(b == off):
                    return SBytes(self.segs[:k], self.mutable)
                if k < len(self.segs):
                    s = self.segs[k]
                    off = z3.simplify(off + (len(s) if isinstance(s, list) else s.n))
        base = SBytes(self.segs)
        n = z3.simplify(z3.If(b > a, b - a, z3.IntVal(0)))
        return SBytes([Seg(n, lambda i, _b=base, _a=a: _b.at(i + _a),
                           ('slice', id(base), a.get_id(), b.get_id()))], self.mutable)

    def __setitem__(self, i, v):
        if not self.mutable:
            raise TypeError("'bytes' object does not support item assignment")
        c = C()
        if isinstance(i, slice):
            v = SBytes.of(v)
            f = v.fixed() if v is not None else None
            if f is None or not isinstance(i.start, int) or not isinstance(i.stop, int) or i.step is not None or not 0 <= i.start <= i.stop \
                    or len(f) != i.stop - i.start or not c.entails(lift_int(self.length()) >= i.stop):
                raise Unsupported('slice assignment to bytes')
            for k, x in enumerate(f):
                self[i.start + k] = x
            return
        C_note_mutation(self)
        vt = lift_int(v)
        if not 0 <= ones_of(v) <= 255 and c.branch(z3.Or(vt < 0, vt > 255)):
            raise ValueError('byte must be in range(0, 256)')
        f = self.fixed()
        if f is not None and isinstance(i, int):
            f2 = list(f)
            f2[i] = v
            self.segs = [f2]
            return
        L = lift_int(self.length())
        it = lift_int(i)
        if not c.branch(z3.And(it >= 0, it < L)):
            if c.branch(z3.And(it < 0, it >= -L)):
                it = it + L
            else:
                raise IndexError('bytearray index out of range')
        old = SBytes(self.segs)
        n = z3.simplify(L)
        self.segs = [Seg(n, lambda k, _o=old, _i=it, _v=vt: z3.If(k == _i, _v, _o.at(k)),
                         ('upd', c.fresh('u')))]

    def __eq__(self, o):
        o = SBytes.of(o)
        if o is None:
            return False
        a, b = self.fixed(), o.fixed()
        if a is not None and b is not None:
            if len(a) != len(b):
                return False
            return and_(*[x == y for x, y in zip(a, b)])
        return mk_bool(bytes_eq_goal(self, o))

    def __ne__(self, o):
        return not_(self == o)

    def hex(self):
        raise Unsupported('hex')

    def __repr__(self):
        return 'SBytes(%r)' % (self.segs,)

    def __str__(self):
        return '<bytes>'

    def __format__(self, s):
        return '<bytes>'

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n == 'append' and self.mutable:
            def append(v):
                vt = lift_int(v)
                if C().branch(z3.Or(vt < 0, vt > 255)):
                    raise ValueError('byte must be in range(0, 256)')
                C_note_mutation(self)
                self._push([v])
            return append
        if n == 'extend' and self.mutable:
            def extend(v):
                self.__iadd__(v)
            return extend
        raise Unsupported('bytes.%s' % n)


def C_note_mutation(obj):
    c = C()
    if c is not None and c.merging:
        born = c.store.get('born')
        if born is None or id(obj) not in born:
            raise core.Impure('mutation of outer state in merged code')


def bytes_eq_goal(a, b):
    """z3 formula equivalent to a == b for proving (universally skolemized)"""
    a, b = SBytes.of(a), SBytes.of(b)
    fa, fb = a.fixed(), b.fixed()
    if fa is not None and fb is not None:
        if len(fa) != len(fb):
            return z3.BoolVal(False)
        return z3.And([lift_int(x) == lift_int(y) for x, y in zip(fa, fb)] or [z3.BoolVal(True)])
    # same structure?
    if len(a.segs) == len(b.segs):
        parts = []
        ok = True
        for s, t in zip(a.segs, b.segs):
            if isinstance(s, list) and isinstance(t, list) and len(s) == len(t):
                parts += [lift_int(x) == lift_int(y) for x, y in zip(s, t)]
            elif isinstance(s, Seg) and isinstance(t, Seg) and s.tag == t.tag:
                parts.append(s.n == t.n)
            else:
                ok = False
                break
        if ok:
            return z3.And(parts or [z3.BoolVal(True)])
    i = z3.Int(C().fresh('ix'))
    la, lb = lift_int(a.length()), lift_int(b.length())
    return z3.And(la == lb, z3.Implies(z3.And(i >= 0, i < la), a.at(i) == b.at(i)))


def opaque_bytes(name, mutable=False, n=None):
    """unknown byte string of unknown length (every element 0..255)"""
    c = C()
    f = z3.Function(name + '.at', z3.IntSort(), z3.IntSort())
    if n is None:
        n = z3.Int(name + '.len')
    else:
        n = lift_int(n)
    c.axiom(n >= 0, ('blen', name))

    def at(i):
        t = f(i)
        c2 = C()
        c2.axiom(z3.And(t >= 0, t <= 255), ('brange', name, i.get_id() if hasattr(i, 'get_id') else i))
        return t
    return SBytes([Seg(n, at, ('base', name))], mutable)


# ---------------------------------------------------------------------------
# objects
# ---------------------------------------------------------------------------
class SObj(SymBase):
    """instance of a real class whose attributes are tracked here"""
    __slots__ = ('cls', 'attrs', 'host', 'name', 'birth')

    def __init__(self, cls, attrs=None, host=None, name=None):
        object.__setattr__(self, 'cls', cls)
        object.__setattr__(self, 'attrs', dict(attrs or {}))
        object.__setattr__(self, 'host', host)
        object.__setattr__(self, 'name', name or cls.__name__)
        c = C()
        object.__setattr__(self, 'birth', c.merging if c is not None else 0)

    __hash__ = object.__hash__

    @property
    def pytype(self):
        return self.cls

    def __getattr__(self, n):
        # native access (from spec code); interpreted code goes through interp.getattr_
        if n.startswith('__') and n not in ('__call__',):
            raise AttributeError(n)
        from .interp import getattr_
        return getattr_(self, n)

    def __setattr__(self, n, v):
        from .interp import setattr_
        setattr_(self, n, v)

    def __call__(self, *a, **k):
        from .interp import icall
        return icall(self, a, k)

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __bool__(self):
        for m in ('__bool__', '__len__'):
            if hasattr(self.cls, m):
                raise Unsupported('truth of object with %s' % m)
        return True

    def __str__(self):
        c = C()
        if c is not None and c.static.get('real_str'):
            from .interp import static_lookup, icall
            try:
                f, k = static_lookup(self.cls, '__str__')
            except AttributeError:
                k = object
            if k is not object:
                return str(icall(f, (self,), {}))
        return '<obj:%s>' % self.name

    def __format__(self, s):
        return str(self)

    def __repr__(self):
        return '<obj:%s>' % self.name
