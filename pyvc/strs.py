"""Texts made of symbolic characters and opaque runs (where the code looks at single characters)."""
import z3
from . import core
from .core import Unsupported, PathKill
from .vals import SymBase, SInt, SBool, SBytes, mk_int, mk_bool, lift_int, and_, or_, not_, STok, SText


def C():
    return core.CTX


class OSeg:
    """opaque run of characters: length n, code point at(i); optional exclusion set (no such char inside)"""
    __slots__ = ('name', 'n', 'f', 'without', 'off', 'base')

    def __init__(self, name, without='', nonempty=False):
        self.name = self.base = name
        self.off = None
        self.n = z3.Int('str:%s.len' % name)
        self.f = z3.Function('str:%s.at' % name, z3.IntSort(), z3.IntSort())
        self.without = without
        C().axiom(self.n >= (1 if nonempty else 0), ('oseg', name, nonempty))

    def at(self, i):
        if self.off is not None:
            i = z3.simplify(self.off + i)
        t = self.f(i)
        c = C()
        key = ('osegat', self.base, str(i))
        c.axiom(z3.And(t >= 0, t <= 0x10FFFF), key)
        if self.without:
            c.axiom(z3.And([t != ord(x) for x in self.without]), key + ('w',))
        return t


def window(seg, a, b):
    """the characters a..b-1 of an opaque run (precondition: 0 <= a <= b <= its length)"""
    a, b = z3.simplify(lift_int(a)), z3.simplify(lift_int(b))
    off = a if seg.off is None else z3.simplify(seg.off + a)
    r = OSeg.__new__(OSeg)
    r.base, r.f, r.without, r.off = seg.base, seg.f, seg.without, off
    r.n = z3.simplify(b - a)
    r.name = '%s[%s:+%s]' % (seg.base, off, r.n)
    return r


def char(name):
    """an arbitrary character"""
    t = z3.Int('char:%s' % name)
    C().axiom(z3.And(t >= 0, t <= 0x10FFFF), ('char', name))
    return SStr([t])


def text(name, n):
    """an arbitrary text of exactly n characters"""
    r = SStr([])
    for i in range(n):
        r = SStr(SStr.items_of(r) + char('%s[%d]' % (name, i)).items)
    return mk(r.items)


def opaque(name, without='', nonempty=False):
    return SStr([OSeg(name, without, nonempty)])


def mk(items):
    if all(isinstance(x, int) for x in items):
        return ''.join(map(chr, items))
    return SStr(items)


def items_of(v):
    if isinstance(v, SStr):
        return v.items
    if isinstance(v, str):
        return [ord(x) for x in v]
    return None


def code(x):
    return z3.IntVal(x) if isinstance(x, int) else x


_up = z3.Function('upper.nonascii', z3.IntSort(), z3.IntSort())
_lo = z3.Function('lower.nonascii', z3.IntSort(), z3.IntSort())
_dg = z3.Function('isdigit.nonascii', z3.IntSort(), z3.BoolSort())


class SStr(SymBase):
    pytype = str
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = list(items)

    items_of = staticmethod(items_of)

    def fixed(self):
        return None if any(isinstance(x, OSeg) for x in self.items) else self.items

    def length(self):
        n = sum(1 for x in self.items if not isinstance(x, OSeg))
        r = n
        for x in self.items:
            if isinstance(x, OSeg):
                r = mk_int(lift_int(r) + x.n)
        return r

    def __len__(self):
        if self.fixed() is None:
            raise Unsupported('native len of an opaque text')
        return len(self.items)

    def __bool__(self):
        if any(not isinstance(x, OSeg) for x in self.items):
            return True
        return bool(mk_bool(lift_int(self.length()) > 0))

    def __iter__(self):
        for x in list(self.items):
            if isinstance(x, OSeg):
                raise Unsupported('iteration over an opaque text')
            yield mk([x])

    def __add__(self, o):
        i = items_of(o)
        if i is None:
            if isinstance(o, (STok, SText)):
                raise Unsupported('text concatenation')
            return NotImplemented
        return mk(self.items + i)

    def __radd__(self, o):
        i = items_of(o)
        if i is None:
            return NotImplemented
        return mk(i + self.items)

    def __mul__(self, n):
        if isinstance(n, int) and not isinstance(n, bool):
            return mk(self.items * max(0, n))
        raise Unsupported('text repetition')
    __rmul__ = __mul__

    def at(self, i):
        """code point at concrete index i >= 0 (precondition: it exists)"""
        for k, x in enumerate(self.items):
            if isinstance(x, OSeg):
                break
            if k == i:
                return code(x)
        return self.at_term(z3.IntVal(i))

    def at_term(self, i):
        off = z3.IntVal(0)
        cases = []
        for x in self.items:
            if isinstance(x, OSeg):
                cases.append((z3.And(i >= off, i < off + x.n), x.at(z3.simplify(i - off))))
                off = off + x.n
            else:
                cases.append((i == off, code(x)))
                off = off + 1
        r = z3.IntVal(0)
        for c, v in reversed(cases):
            r = z3.If(c, v, r)
        return z3.simplify(r)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported('text slice step')
            f = self.fixed()
            if not all(x is None or isinstance(x, int) for x in (i.start, i.stop)):
                return self.symslice(i.start, i.stop)
            if f is not None:
                return mk(f[i])
            if len(self.items) == 1:
                return self.symslice(i.start, i.stop)
            return self.cut(i.start or 0, i.stop)
        f = self.fixed()
        if isinstance(i, int):
            if f is not None:
                if not -len(f) <= i < len(f):
                    raise IndexError('string index out of range')
                return mk([f[i]])
            n = i + 1 if i >= 0 else -i
            if not (self.length() >= n):
                raise IndexError('string index out of range')
            if i < 0:
                tail = self.items[i:]
                if len(tail) == -i and not any(isinstance(x, OSeg) for x in tail):
                    return mk([tail[0]])
                return SStr([self.at_term(lift_int(self.length()) + i)])
            return SStr([self.at(i)])
        if isinstance(i, SInt) and C().branch(z3.And(i.t >= 0, i.t < lift_int(self.length()))):
            return SStr([self.at_term(i.t)])
        raise Unsupported('symbolic text index')

    def symslice(self, a, b):
        """slice of a single opaque run, bounds as Python clamps them"""
        if len(self.items) != 1 or not isinstance(self.items[0], OSeg):
            raise Unsupported('symbolic slice of a composed text')
        seg = self.items[0]
        c = C()

        def bound(x, d):
            if x is None:
                return d
            t = lift_int(x)
            if isinstance(x, int):
                if x < 0:
                    t = seg.n + x
            elif not c.entails(t >= 0):
                t = z3.If(t < 0, seg.n + t, t)
            if not c.entails(t >= 0):
                t = z3.If(t < 0, 0, t)
            return t if c.entails(t <= seg.n) else z3.If(t > seg.n, seg.n, t)
        lo, hi = bound(a, z3.IntVal(0)), bound(b, seg.n)
        if not c.entails(lo <= hi):
            hi = z3.If(lo > hi, lo, hi)
        if c.entails(lo == hi):
            return ''
        r = window(seg, lo, hi)
        for k in (1, 2):
            if c.entails(r.n == k):
                return SStr([r.at(z3.IntVal(q)) for q in range(k)])
        return SStr([r])

    def sym_elem(self, j):
        return SStr([self.at_term(j)])

    def cut(self, a, b):
        """structural slice: the ends removed must be single characters"""
        items = list(self.items)
        if a < 0:
            raise Unsupported('negative slice start of an opaque text')
        while a > 0:
            if not items or isinstance(items[0], OSeg):
                raise Unsupported('slice inside an opaque text')
            items.pop(0)
            a -= 1
        if b is not None:
            if b >= 0:
                if b == 0:
                    return ''
                out = []
                for x in self.items[:b]:
                    if isinstance(x, OSeg):
                        raise Unsupported('slice inside an opaque text')
                    out.append(x)
                return mk(out[len(self.items) - len(items):])
            while b < 0:
                if not items:
                    break
                if isinstance(items[-1], OSeg):
                    raise Unsupported('slice inside an opaque text')
                items.pop()
                b += 1
        return mk(items)

    # comparison
    def eq_term(self, o):
        oi = items_of(o)
        a, b = list(self.items), list(oi)
        conds = []

        def same(x, y):
            return isinstance(x, OSeg) and isinstance(y, OSeg) and x.name == y.name
        while a and b:
            x, y = a[0], b[0]
            if same(x, y):
                pass
            elif not isinstance(x, OSeg) and not isinstance(y, OSeg):
                conds.append(code(x) == code(y))
            else:
                break
            a.pop(0)
            b.pop(0)
        while a and b:
            x, y = a[-1], b[-1]
            if same(x, y):
                pass
            elif not isinstance(x, OSeg) and not isinstance(y, OSeg):
                conds.append(code(x) == code(y))
            else:
                break
            a.pop()
            b.pop()
        if not a and not b:
            return z3.And(conds) if conds else z3.BoolVal(True)
        fa = not any(isinstance(x, OSeg) for x in a)
        fb = not any(isinstance(x, OSeg) for x in b)
        if fa and fb:
            return z3.BoolVal(False)
        if fa or fb:
            fx, ox = (a, SStr(b)) if fa else (b, SStr(a))
            conds.append(lift_int(ox.length()) == len(fx))
            for k, x in enumerate(fx):
                conds.append(ox.at_term(z3.IntVal(k)) == code(x))
            return z3.And(conds)
        return None

    def __eq__(self, o):
        if items_of(o) is None:
            if isinstance(o, (STok, SText)):
                raise Unsupported('comparison of two unknown texts')
            return False
        t = self.eq_term(o)
        if t is None:
            raise Unsupported('comparison of two opaque texts')
        return mk_bool(z3.simplify(t))

    def __ne__(self, o):
        return not_(self == o)
    __hash__ = None

    def startswith(self, p, *rest):
        if rest:
            raise Unsupported('startswith bounds')
        if isinstance(p, tuple):
            return or_(*[self.startswith(x) for x in p])
        pi = items_of(p)
        if any(isinstance(x, OSeg) for x in pi):
            raise Unsupported('opaque prefix')
        conds = [lift_int(self.length()) >= len(pi)]
        for k, x in enumerate(pi):
            conds.append(self.at_term(z3.IntVal(k)) == code(x))
        return mk_bool(z3.simplify(z3.And(conds)))

    def endswith(self, p, *rest):
        if rest:
            raise Unsupported('endswith bounds')
        if isinstance(p, tuple):
            return or_(*[self.endswith(x) for x in p])
        pi = items_of(p)
        n = lift_int(self.length())
        conds = [n >= len(pi)]
        for k, x in enumerate(pi):
            conds.append(self.at_term(n - len(pi) + k) == code(x))
        return mk_bool(z3.simplify(z3.And(conds)))

    def _map(self, f):
        if self.fixed() is None:
            raise Unsupported('case mapping of an opaque text')
        return mk([f(x) for x in self.items])

    def upper(self):
        def f(x):
            if isinstance(x, int):
                u = chr(x).upper()
                if len(u) != 1:
                    raise Unsupported('upper')
                return ord(u)
            return z3.If(z3.And(x >= 97, x <= 122), x - 32, z3.If(x < 128, x, _up(x)))
        return self._map(f)

    def lower(self):
        def f(x):
            if isinstance(x, int):
                return ord(chr(x).lower())
            return z3.If(z3.And(x >= 65, x <= 90), x + 32, z3.If(x < 128, x, _lo(x)))
        return self._map(f)

    def isdigit(self):
        f = self.fixed()
        if f is None:
            raise Unsupported('isdigit of an opaque text')
        if not f:
            return False
        return mk_bool(z3.And([z3.Or(z3.And(code(x) >= 48, code(x) <= 57), z3.And(code(x) >= 128, _dg(code(x)))) for x in f]))

    def in_str(self, cont):
        f = self.fixed()
        if f is None:
            raise Unsupported('opaque text in constant')
        k = len(f)
        subs = sorted({cont[i:i + k] for i in range(len(cont) - k + 1)})
        return or_(*[self == s for s in subs])

    def sym_contains(self, x):
        xi = items_of(x)
        f = self.fixed()
        if f is None or any(isinstance(y, OSeg) for y in xi):
            if len(xi) == 1 and isinstance(xi[0], int):
                c = chr(xi[0])
                if all(not isinstance(s, OSeg) or c in s.without for s in self.items):
                    return or_(*[mk_bool(code(s) == xi[0]) for s in self.items if not isinstance(s, OSeg)])
            raise Unsupported('substring test of an opaque text')
        k = len(xi)
        return or_(*[mk_bool(z3.And([code(a) == code(b) for a, b in zip(f[i:i + k], xi)] or [z3.BoolVal(True)])) for i in range(len(f) - k + 1)])

    def sym_ord(self):
        f = self.fixed()
        if f is None or len(f) != 1:
            raise TypeError('ord() expected a character')
        return mk_int(f[0]) if not isinstance(f[0], int) else f[0]

    def encode(self, enc='utf-8', *a):
        f = self.fixed()
        enc = enc.lower().replace('_', '-')
        c = C()
        if enc != 'ascii':
            raise Unsupported('encode %s' % enc)
        if f is None:
            raise Unsupported('encode of an opaque text')
        for x in f:
            if isinstance(x, int):
                if x > 127:
                    raise UnicodeEncodeError('ascii', '', 0, 1, 'ordinal not in range')
            elif c.branch(x > 127):
                raise UnicodeEncodeError('ascii', '', 0, 1, 'ordinal not in range')
        return SBytes([[x if isinstance(x, int) else SInt(x, 127) for x in f]])

    def to_int(self, base=10):
        f = self.fixed()
        if f is None:
            raise Unsupported('int() of an opaque text')
        if not f:
            raise ValueError('invalid literal for int()')
        sorts = [z3.IntSort()] * len(f)
        ok = z3.Function('int%d.ok.%d' % (base, len(f)), *(sorts + [z3.BoolSort()]))
        val = z3.Function('int%d.val.%d' % (base, len(f)), *(sorts + [z3.IntSort()]))
        a = [code(x) for x in f]
        c = C()
        key = tuple(str(x) for x in a)
        if base == 10:
            c.axiom(z3.Implies(z3.And([z3.And(x >= 48, x <= 57) for x in a]), ok(*a)), ('iok', key))
        # operators and quotes never occur in an integer literal
        c.axiom(z3.Implies(z3.Or([z3.Or([x == ord(y) for y in '*/&|<>\'",;:()[]{}']) for x in a]), z3.Not(ok(*a))), ('inok', base, key))
        if not c.branch(ok(*a)):
            raise ValueError('invalid literal for int()')
        return mk_int(val(*a))

    def __str__(self):
        return '<text>'

    def __format__(self, s):
        return '<text>'

    def __repr__(self):
        return 'SStr(%s)' % ','.join(repr(chr(x)) if isinstance(x, int) else '?' + x.name if isinstance(x, OSeg) else str(x) for x in self.items)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if hasattr(str, n):
            raise Unsupported('str.%s' % n)
        raise AttributeError(n)

    def show(self, model):
        out = ''
        for x in self.items:
            if isinstance(x, OSeg):
                out += '<%s>' % x.name
            else:
                v = x if isinstance(x, int) else model.eval(x, model_completion=True).as_long()
                out += chr(v)
        return out


def eq_goal(a, b):
    """formula equivalent to a == b, for proving (universally skolemized)"""
    if isinstance(a, str) and isinstance(b, str):
        return z3.BoolVal(a == b)
    if items_of(a) is None or items_of(b) is None:
        return z3.BoolVal(False)
    A, B = SStr(items_of(a)), SStr(items_of(b))
    t = A.eq_term(B)
    if t is not None:
        return t
    i = z3.Int(C().fresh('sx'))
    return z3.And(lift_int(A.length()) == lift_int(B.length()),
                  z3.Implies(z3.And(i >= 0, i < lift_int(A.length())), A.at_term(i) == B.at_term(i)))


def concretize(s, m):
    """native str of a fixed SStr under a model"""
    if isinstance(s, str):
        return s
    out = ''
    for x in s.items:
        if isinstance(x, OSeg):
            n = m.eval(x.n, model_completion=True).as_long()
            for i in range(min(n, 40)):
                v = m.eval(x.f(z3.IntVal(i) if x.off is None else x.off + i), model_completion=True).as_long()
                out += chr(v) if 0 <= v <= 0x10FFFF else '?'
        else:
            v = x if isinstance(x, int) else m.eval(x, model_completion=True).as_long()
            out += chr(v)
    return out
