"""Third back end: goals of linear arithmetic with divisions and moduli by powers of two over bounded integers, decided
as 64-bit vectors.  Sound for 'proved' only: interval arithmetic shows that no intermediate value leaves 64 bits, and
hypotheses that do not translate are dropped."""
import z3

W, LIM = 64, 1 << 62


class Cannot(Exception):
    pass


def flatten(t, out):
    if z3.is_and(t):
        for x in t.children():
            flatten(x, out)
    else:
        out.append(t)


def bounds_from(hyps):
    lo, hi, keep = {}, {}, []

    def note(t, d, n, least):
        k = t.get_id()
        keep.append(t)
        if least:
            d[k] = max(d.get(k, n), n)
        else:
            d[k] = min(d.get(k, n), n)

    def atom(t, neg=False):
        if z3.is_not(t):
            return atom(t.arg(0), not neg)
        if not z3.is_app(t) or t.num_args() != 2 or not z3.is_int(t.arg(0)):
            return
        a, b = t.children()
        k = t.decl().kind()
        if z3.is_int_value(a) and not z3.is_int_value(b):
            a, b = b, a
            k = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LT}.get(k, k)
        if not z3.is_int_value(b):
            return
        n = b.as_long()
        if neg:
            k = {z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_GE: z3.Z3_OP_LT, z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_GT: z3.Z3_OP_LE}.get(k)
        if k == z3.Z3_OP_LE:
            note(a, hi, n, False)
        elif k == z3.Z3_OP_LT:
            note(a, hi, n - 1, False)
        elif k == z3.Z3_OP_GE:
            note(a, lo, n, True)
        elif k == z3.Z3_OP_GT:
            note(a, lo, n + 1, True)
        elif k == z3.Z3_OP_EQ:
            note(a, lo, n, True)
            note(a, hi, n, False)
    for t in hyps:
        atom(t)
    return lo, hi, keep


class Translate:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi
        self.memo, self.bmemo, self.side, self.keep = {}, {}, [], []

    def leaf(self, t):
        k = t.get_id()
        if k not in self.lo or k not in self.hi:
            raise Cannot('unbounded %s' % t)
        l, h = self.lo[k], self.hi[k]
        if l > h:
            h = l
        if abs(l) > LIM or abs(h) > LIM:
            raise Cannot('wide')
        v = z3.BitVec('bv!%d' % k, W)
        self.side += [v >= l, v <= h]
        return v, l, h

    def int(self, t):
        k = t.get_id()
        if k not in self.memo:
            self.keep.append(t)
            r = self.int_(t)
            if abs(r[1]) > LIM or abs(r[2]) > LIM:
                raise Cannot('wide')
            self.memo[k] = r
        return self.memo[k]

    def int_(self, t):
        if z3.is_int_value(t):
            n = t.as_long()
            if abs(n) > LIM:
                raise Cannot('wide')
            return z3.BitVecVal(n, W), n, n
        if not z3.is_app(t):
            raise Cannot('term')
        kind = t.decl().kind()
        ch = t.children()
        if kind == z3.Z3_OP_ADD:
            v, l, h = self.int(ch[0])
            for c in ch[1:]:
                v2, l2, h2 = self.int(c)
                v, l, h = v + v2, l + l2, h + h2
                if abs(l) > LIM or abs(h) > LIM:
                    raise Cannot('wide')
            return v, l, h
        if kind == z3.Z3_OP_SUB:
            v, l, h = self.int(ch[0])
            for c in ch[1:]:
                v2, l2, h2 = self.int(c)
                v, l, h = v - v2, l - h2, h - l2
            return v, l, h
        if kind == z3.Z3_OP_UMINUS:
            v, l, h = self.int(ch[0])
            return -v, -h, -l
        if kind == z3.Z3_OP_MUL:
            n = 1
            rest = []
            for c in ch:
                if z3.is_int_value(c):
                    n *= c.as_long()
                else:
                    rest.append(c)
            if len(rest) != 1:
                raise Cannot('product')
            v, l, h = self.int(rest[0])
            l, h = sorted((l * n, h * n))
            if abs(n) > LIM:
                raise Cannot('wide')
            return v * n, l, h
        if kind in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and z3.is_int_value(ch[1]):
            n = ch[1].as_long()
            if n <= 0 or n & (n - 1):
                raise Cannot('divisor')
            s = n.bit_length() - 1
            v, l, h = self.int(ch[0])
            if kind == z3.Z3_OP_IDIV:
                return v >> s, l >> s, h >> s
            if l >= 0 and h < n:
                return v, l, h
            return v & (n - 1), 0, n - 1
        if kind == z3.Z3_OP_UNINTERPRETED and t.decl().name() in ('bor', 'band', 'bxor'):
            (v, l, h), (v2, l2, h2) = self.int(ch[0]), self.int(ch[1])
            name = t.decl().name()
            top = (1 << max(h, h2, -l - 1, -l2 - 1, 0).bit_length()) - 1
            low = -top - 1 if min(l, l2) < 0 else 0
            if name == 'band':
                return v & v2, low, max(h, h2) if min(l, l2) < 0 else min(h, h2)
            return (v | v2 if name == 'bor' else v ^ v2), low, top
        if kind == z3.Z3_OP_ITE:
            c = self.bool(ch[0])
            v, l, h = self.int(ch[1])
            v2, l2, h2 = self.int(ch[2])
            return z3.If(c, v, v2), min(l, l2), max(h, h2)
        return self.leaf(t)

    def bool(self, t):
        if z3.is_true(t) or z3.is_false(t):
            return t
        if not z3.is_app(t):
            raise Cannot('quantifier')
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_AND:
            return z3.And([self.bool(c) for c in ch])
        if k == z3.Z3_OP_OR:
            return z3.Or([self.bool(c) for c in ch])
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.bool(ch[0]))
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.bool(ch[0]), self.bool(ch[1]))
        if k == z3.Z3_OP_ITE and z3.is_bool(ch[1]):
            return z3.If(*[self.bool(c) for c in ch])
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and z3.is_int(ch[0]):
            a, b = self.int(ch[0])[0], self.int(ch[1])[0]
            return {z3.Z3_OP_LE: a <= b, z3.Z3_OP_LT: a < b, z3.Z3_OP_GE: a >= b, z3.Z3_OP_GT: a > b, z3.Z3_OP_EQ: a == b}[k]
        if k == z3.Z3_OP_DISTINCT and z3.is_int(ch[0]) and len(ch) == 2:
            return self.int(ch[0])[0] != self.int(ch[1])[0]
        if k == z3.Z3_OP_EQ and z3.is_bool(ch[0]):
            return self.bool(ch[0]) == self.bool(ch[1])
        if z3.is_bool(t):            # an opaque atom; the name keeps equal atoms equal
            self.keep.append(t)
            return z3.Bool('b!%d' % t.get_id())
        raise Cannot('atom')


def proves(assertions, goal, timeout_ms):
    """True when the assertions entail goal"""
    hyps = []
    for a in assertions:
        flatten(a, hyps)
    lo, hi, keep = bounds_from(hyps)
    tr = Translate(lo, hi)
    try:
        g = tr.bool(goal)
    except Cannot:
        return False
    hs = []
    for h in hyps:
        n = len(tr.side)
        try:
            hs.append(tr.bool(h))
        except Cannot:
            pass
    s = z3.SolverFor('QF_BV')
    s.set('timeout', timeout_ms)
    s.add(tr.side)
    s.add(z3.Not(g))
    if s.check() == z3.unsat:
        return True
    s.add(hs)
    return s.check() == z3.unsat
