"""C04 without bound: the operand split and the evaluation of formulas of any length, by loop contracts"""
import z3
from pyvc import core, interp, loops, models, strs
from pyvc.core import Unsupported
from pyvc.driver import Unit
from pyvc.loops import Rule, Poison
from pyvc.models import SSeq, SEnum
from pyvc.vals import SInt, SBool, SObj, SymBase, lift_int, lift_bool, is_sym, mk_bool
from necroassembler.assembler import Assembler
from necroassembler.exceptions import UnknownLabel
from . import numlit
from .isa import ASM

OPS = numlit.OPS


def oneof(t, chars):
    return z3.Or([t == ord(x) for x in chars])


class Text:
    """an unknown text of unknown length"""

    def __init__(self, name):
        self.seg = strs.OSeg(name)
        self.n = self.seg.n
        self.s = strs.SStr([self.seg])

    def at(self, i):
        return self.seg.at(z3.simplify(lift_int(i)))

    def win(self, a, b):
        return strs.SStr([strs.window(self.seg, a, b)])


def carried(fr, names):
    """variables of the enclosing code that the loop changes, by the value they have before it"""
    out = {}
    for n in sorted(names):
        if n in fr.vars and not isinstance(fr.vars[n], Poison):
            out[n] = fr.vars[n]
    return out


class Scan(Rule):
    """a loop over the characters of `text` whose variables have a closed form `state(j)` before character j.
    shape: name-independent; a variable is recognised by its value before the loop.

    closed(kind, j) -> value; same(kind, value, j) -> goal; live(j): known about j when iteration j runs;
    stop(j): the loop is left at j by break (None: never)"""

    def __init__(self, name, length, base, closed, live, stop, after=None, last=None):
        self.name, self.n, self.base, self.closed, self.live, self.stop = name, length, base, closed, live, stop
        self.extra = after
        self.last = last                # the closed form is taken at this position when the loop is over

    def matches(self, it):
        if self.name in core.CTX.store.get('attached', ()) or not all(x in core.CTX.store.get('attached', ()) for x in self.base):
            return False
        seq = it.seq if isinstance(it, SEnum) else it
        return isinstance(seq, strs.SStr) and seq.fixed() is None

    def length(self, it):
        return self.n

    def entry(self, it, fr):
        seq = it.seq if isinstance(it, SEnum) else it
        c = core.CTX
        c.prove(self.name + '/loop-over', z3.And(lift_int(seq.length()) == self.n, lift_int(it.start) == 0 if isinstance(it, SEnum) else True))
        c.prove(self.name + '/loop-over-text', strs.eq_goal(seq, self.closed('text', None)))

    def __call__(self, node, it, fr):
        names = loops.assigned_names(node.body) - {x.id for x in loops.ast.walk(node.target) if isinstance(x, loops.ast.Name)}
        self.vars = {}
        for k, v in carried(fr, names).items():
            kind = self.kind(k, v)
            if kind is None or kind in self.vars.values():
                raise Unsupported('loop %s: variable %s not recognised' % (self.name, k))
            self.vars[k] = kind
        self.before = {k: fr.vars[k] for k in self.vars}
        c = core.CTX
        for k, kind in self.vars.items():
            c.prove('%s/loop-init-%s' % (self.name, kind), self.same(kind, self.before[k], z3.IntVal(0)))
        return Rule.__call__(self, node, it, fr)

    def kind(self, name, v):
        if isinstance(v, str) and v == '':
            return 'text accumulator'
        if v is False:
            return 'flag'
        if isinstance(v, int) and v == 0:
            return 'count'
        return None

    def same(self, kind, v, j):
        want = self.closed(kind, j)
        if kind == 'flag':
            return lift_bool(v if isinstance(v, (bool, SBool)) else bool(v)) == want.t if isinstance(want, SBool) else lift_bool(v) == want
        if kind in ('count',):
            return lift_int(v) == lift_int(want) if isinstance(v, (int, SInt)) else False
        return strs.eq_goal(v, want)

    def start(self, j, x, fr):
        c = core.CTX
        c.assume(self.live(j))
        for k, kind in self.vars.items():
            fr.vars[k] = self.closed(kind, j)
        return j

    def after(self, j, x, out, fr):
        c = core.CTX
        if out[0] == 'raise':
            c.fail(self.name + '/exception', repr(out[1]))
            return
        if out[0] == 'normal':
            c.prove(self.name + '/goes-on', z3.Not(self.stop(j)))
            for k, kind in self.vars.items():
                c.prove('%s/step-%s' % (self.name, kind), self.same(kind, fr.vars[k], j + 1))
            return
        if out[0] != 'break':
            raise Unsupported('loop %s leaves by %s' % (self.name, out[0]))
        c.prove(self.name + '/stops', self.stop(j))
        for k, kind in self.vars.items():
            c.prove('%s/stop-%s' % (self.name, kind), self.same(kind, fr.vars[k], j))

    def leave(self, it, fr):
        for k, kind in self.vars.items():
            fr.vars[k] = self.closed(kind, self.last)
        return None


def split_unit(c):
    t = Text('token')
    n = t.n
    # k: number of leading selectors; e: first operator of the term outside a character literal (or its length)
    k, e = z3.Int('nselectors'), z3.Int('end')
    m = z3.simplify(n - k)
    c.add(z3.And(k >= 0, k <= n))
    sel = lambda i: oneof(t.at(i), '<>')
    op = lambda i: oneof(t.at(i), OPS)
    c.add(z3.Implies(k < n, z3.Not(sel(k))))
    lit = z3.If(z3.And(m >= 3, t.at(k) == ord("'"), t.at(k + 2) == ord("'")), 3, 0)
    c.add(z3.And(e >= lit, e <= m, z3.Implies(e < m, op(k + e))))
    facts = lambda j: z3.And(z3.Implies(j < k, sel(j)))
    facts2 = lambda j: z3.And(z3.Implies(z3.And(j >= lit, j < e), z3.Not(op(k + j))), z3.Implies(e == 0, j == 0))

    def closed1(kind, j):
        if kind == 'text':
            return t.s
        if kind == 'text accumulator':
            return t.win(0, j)
        raise Unsupported('selectors: %s' % kind)

    def closed2(kind, j):
        if kind == 'text':
            return t.win(k, n)
        if kind == 'flag':
            return SBool(z3.simplify(j > e))
        if kind == 'count':
            return SInt(z3.If(j < e, j, e))
        if kind == 'text accumulator':
            return t.win(k + e, z3.If(j > e, k + j, k + e))
        raise Unsupported('term: %s' % kind)
    first = Scan('split.selectors', n, (), closed1, lambda j: z3.And(j <= k, facts(j)), lambda j: j == k, last=k)
    second = Scan('split.term', m, ('split.selectors',), closed2, facts2, lambda j: z3.And(j == e, e == 0), last=z3.If(e == 0, 0, m))
    c.static['rules'] = [first, second]
    c.static['abstract'] = {'nselectors': 'split.selectors', 'end': 'split.term'}
    asm = SObj(Assembler, {}, host=Assembler())
    try:
        got = interp.icall(Assembler._get_math_formula, (asm, t.s), {})
    except Exception as x:
        c.fail('formula-split/exception', '%s: %s' % (type(x).__name__, x))
        return
    if not (isinstance(got, tuple) and len(got) == 3):
        c.fail('formula-split/result', repr(got))
        return
    for nm, a, lo, hi in zip(('term', 'selectors', 'operations'), got, (k, z3.IntVal(0), z3.If(e == 0, n, k + e)), (z3.If(e == 0, n, k + e), k, n)):
        if strs.items_of(a) is None:
            c.fail('formula-split/%s' % nm, repr(a))
        else:
            c.prove('formula-split/' + nm, strs.eq_goal(a, t.win(lo, hi)))


# ---- evaluation -------------------------------------------------------------
class Grow(SymBase):
    """a list that a loop extends: known elements 0..n-1, then what the current iteration appended"""
    pytype = list

    def __init__(self, n, elem):
        self.n, self.elem, self.new = n, elem, []

    def append(self, x):
        self.new.append(x)

    def length(self):
        return SInt(z3.simplify(lift_int(self.n) + len(self.new)))

    def __bool__(self):
        return bool(mk_bool(lift_int(self.length()) > 0))


def counts(node, name):
    """no bits are put together in this variable (a guess that names it; the obligations decide)"""
    ast = loops.ast
    for x in ast.walk(node):
        if isinstance(x, (ast.AugAssign, ast.Assign)):
            targets = [x.target] if isinstance(x, ast.AugAssign) else x.targets
            if any(isinstance(y, ast.Name) and y.id == name for y in targets):
                if any(isinstance(y, (ast.BitOr, ast.LShift, ast.BitAnd)) for y in ast.walk(x)):
                    return False
    return True


class Selectors(Rule):
    """fold of the selectors over (value, count of '<', bytes kept so far, any '<')"""
    name = 'formula.selectors'

    def __init__(self, pre, base, F):
        self.pre, self.base, self.F = pre, base, F

    def matches(self, it):
        return isinstance(it, strs.SStr) and it.fixed() is None and len(it.items) == 1 and it.items[0].base == self.pre.seg.base

    def length(self, it):
        return self.pre.n

    def entry(self, it, fr):
        core.CTX.prove(self.name + '/loop-over', strs.eq_goal(it, self.pre.s))

    def state(self, j):
        V, L, A, B = self.F
        return SInt(V(j)), SInt(L(j)), SInt(A(j)), SBool(B(j))

    def __call__(self, node, it, fr):
        names = loops.assigned_names(node.body) - {x.id for x in loops.ast.walk(node.target) if isinstance(x, loops.ast.Name)}
        got = carried(fr, names)
        self.vars = {}
        for k, v in got.items():
            if v is self.base or isinstance(v, SInt) and core.CTX.entails(v.t == self.base.t):
                i = 0
            elif v is False:
                i = 3
            elif isinstance(v, int) and v == 0:
                i = 1 if counts(node, k) else 2
            else:
                i = None
            if i is None or i in self.vars.values():
                raise Unsupported('formula selectors: the loop variables are not those of the contract')
            self.vars[k] = i
        if 0 not in self.vars.values():
            raise Unsupported('formula selectors: the value is not changed')
        for k, i in self.vars.items():
            core.CTX.prove('%s/loop-init-%s' % (self.name, k), self.same(i, fr.vars[k], (self.base, 0, 0, False)[i]))
        return Rule.__call__(self, node, it, fr)

    @staticmethod
    def same(i, a, b):
        if i == 3:
            return lift_bool(a if isinstance(a, (bool, SBool)) else bool(a)) == lift_bool(b)
        return lift_int(a) == lift_int(b) if isinstance(a, (int, SInt)) else False

    def start(self, j, x, fr):
        st = self.state(j)
        core.CTX.assume(z3.And(st[1].t >= 0, oneof(self.pre.at(j), '<>')))
        for k, i in self.vars.items():
            fr.vars[k] = st[i]
        return j, st

    def after(self, tok, x, out, fr):
        c = core.CTX
        j, (v, low, acc, any_) = tok
        if out[0] != 'normal':
            c.fail(self.name + '/leaves', repr(out))
            return
        if bool(SBool(self.pre.at(j) == ord('>'))):
            want = (v >> 8, low, acc, any_)
        else:
            want = (v, low + 1, acc | (((v >> (8 * low)) & 0xFF) << (8 * low)), True)
        for k, i in self.vars.items():
            c.prove('%s/step-%s' % (self.name, k), self.same(i, fr.vars[k], want[i]))

    def leave(self, it, fr):
        st = self.state(self.pre.n)
        for k, i in self.vars.items():
            fr.vars[k] = st[i]
        if 3 not in self.vars.values():
            raise Unsupported('formula selectors: result')


class Operations(Rule):
    """the text of the operations cut at its operators.  Cnt(j): operators before character j; Last(j): position of the last of
    them; Pos(i): position of operator number i"""
    name = 'formula.operations'

    def __init__(self, post, Cnt, Last, Pos):
        self.post, self.Cnt, self.Last, self.Pos = post, Cnt, Last, Pos

    def matches(self, it):
        return isinstance(it, strs.SStr) and it.fixed() is None and len(it.items) == 1 and it.items[0].base == self.post.seg.base

    def length(self, it):
        return self.post.n

    def entry(self, it, fr):
        core.CTX.prove(self.name + '/loop-over', strs.eq_goal(it, self.post.s))

    def op(self, i):
        return oneof(self.post.at(i), OPS)

    def elem(self, it, j):
        return it.sym_elem(j)

    def item(self, i):
        p, q = self.Pos(i), self.Pos(i + 1)
        return (strs.SStr([self.post.at(p)]), self.post.win(p + 1, q))

    def known(self, j):
        """what the definitions say at position j (0 <= j <= length)"""
        n, Cnt, Last = self.post.n, self.Cnt, self.Last
        return z3.And(Cnt(j) >= 0, Cnt(0) == 0, z3.Implies(j > 0, Cnt(j) > 0),     # the text starts with an operator
                      z3.Implies(Cnt(j) > 0, z3.And(Last(j) >= 0, Last(j) < j, self.op(Last(j)))),
                      z3.Implies(n > 0, self.op(z3.IntVal(0))))

    def __call__(self, node, it, fr):
        names = loops.assigned_names(node.body) - {x.id for x in loops.ast.walk(node.target) if isinstance(x, loops.ast.Name)}
        got = carried(fr, names)
        lists = [k for k, v in fr.vars.items() if type(v) is list and v == []]
        if len(lists) != 1:
            raise Unsupported('formula operations: the list cannot be identified')
        self.list = lists[0]
        self.cmd = [k for k, v in got.items() if v is None]
        self.arg = [k for k, v in got.items() if isinstance(v, str) and v == '']
        if len(self.cmd) != 1 or len(self.arg) != 1 or len(got) != 2:
            raise Unsupported('formula operations: the loop variables are not those of the contract')
        self.cmd, self.arg = self.cmd[0], self.arg[0]
        return Rule.__call__(self, node, it, fr)

    def put(self, fr, j):
        c = core.CTX
        c.add(self.known(j))
        some = c.branch(self.Cnt(j) > 0)
        L = Grow(SInt(z3.simplify(self.Cnt(j) - 1)) if some else 0, lambda i: self.item(i))
        fr.vars[self.list] = L
        fr.vars[self.cmd] = strs.SStr([self.post.at(self.Last(j))]) if some else None
        fr.vars[self.arg] = self.post.win(self.Last(j) + 1, j) if some else ''
        return some, L

    def start(self, j, x, fr):
        some, L = self.put(fr, j)
        return j, some, L

    def after(self, tok, x, out, fr):
        c = core.CTX
        j, some, L = tok
        if out[0] != 'normal':
            c.fail(self.name + '/leaves', repr(out))
            return
        if fr.vars[self.list] is not L:
            c.fail(self.name + '/list', 'replaced')
            return
        cmd, arg = fr.vars[self.cmd], fr.vars[self.arg]
        if bool(SBool(self.op(j))):
            # operator number Cnt(j) stands at j; the element before it is complete
            if some:
                ok = len(L.new) == 1 and isinstance(L.new[0], tuple) and len(L.new[0]) == 2
                c.prove(self.name + '/appends-one', z3.BoolVal(ok))
                if ok:
                    a, b = L.new[0]
                    c.prove(self.name + '/element', z3.And(strs.eq_goal(a, strs.SStr([self.post.at(self.Last(j))])),
                                                          strs.eq_goal(b, self.post.win(self.Last(j) + 1, j))))
            else:
                c.prove(self.name + '/appends-none', z3.BoolVal(not L.new))
            c.prove(self.name + '/command', strs.eq_goal(cmd, strs.SStr([self.post.at(j)])))
            c.prove(self.name + '/argument', strs.eq_goal(arg, ''))
        else:
            c.prove(self.name + '/appends-none', z3.BoolVal(not L.new))
            if some:
                c.prove(self.name + '/command', strs.eq_goal(cmd, strs.SStr([self.post.at(self.Last(j))])))
                c.prove(self.name + '/argument', strs.eq_goal(arg, self.post.win(self.Last(j) + 1, j + 1)))
            else:
                c.fail(self.name + '/starts-with-an-operator', 'unreachable')

    def leave(self, it, fr):
        c = core.CTX
        n = self.post.n
        some, L = self.put(fr, n)
        # the last operator is operator number Cnt(n)-1 and its argument runs to the end
        c.add(z3.Implies(self.Cnt(n) > 0, z3.And(self.Pos(self.Cnt(n) - 1) == self.Last(n), self.Pos(self.Cnt(n)) == n)))


class Fold(loops.Fold):
    """evaluation of the operations, left to right"""

    def matches(self, it):
        return isinstance(it, Grow)

    def __call__(self, node, it, fr):
        c = core.CTX
        ops = self.ops
        N = ops.Cnt(ops.post.n)
        c.store.setdefault('attached', set()).add(self.name)
        c.prove('formula.list/length', lift_int(it.length()) == N)
        # what the code appended itself stands where the specification wants it
        for i, x in enumerate(it.new):
            at = z3.simplify(lift_int(it.n) + i)
            w = ops.item(at)
            ok = isinstance(x, tuple) and len(x) == 2
            c.prove('formula.list/element', z3.And(strs.eq_goal(x[0], w[0]), strs.eq_goal(x[1], w[1])) if ok else False)

        def elem(j):
            p, q = ops.Pos(j), ops.Pos(j + 1)
            c.add(z3.And(p >= 0, p < q, q <= ops.post.n, ops.op(p)))
            return ops.item(j)
        return loops.Fold.__call__(self, node, SSeq(SInt(N), elem, 'operations'), fr)


def eval_unit(c):
    from .p_c04 import c_parse_integer, c_label, arg_value, apply_op, Reject
    I = z3.IntSort()
    pre, post = Text('selectors'), Text('operations')
    base = SInt(z3.Int('base'))
    F = [z3.Function('sel.' + x, I, I if i < 3 else z3.BoolSort()) for i, x in enumerate(('value', 'count', 'kept', 'any'))]
    Cnt, Last, Pos = (z3.Function('op.' + x, I, I) for x in ('count', 'last', 'position'))
    W, final, raised = z3.Function('formula.after', I, I), z3.Int('formula.value'), z3.Bool('formula.rejected')
    n = pre.n
    # no selector at all: the value itself
    c.define(z3.And(F[0](0) == base.t, F[1](0) == 0, F[2](0) == 0, z3.Not(F[3](0))))
    sel = Selectors(pre, base, F)
    ops = Operations(post, Cnt, Last, Pos)
    c.define(z3.Implies(post.n == 0, Cnt(post.n) == 0))
    selected = z3.If(F[3](n), F[2](n), F[0](n))

    def step(s, x):
        op, arg = x
        b = 1 if not bool(SBool(lift_int(arg.length()) > 0)) else arg_value(arg)
        return apply_op(op, s, b)
    got_exc = []

    def equal(a, b):
        return lift_int(a) == lift_int(b) if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)) else False
    fold = Fold('formula.evaluate', SInt(selected), lambda: SInt(z3.Int('formula.before')), step, Reject, Exception, SInt(final), raised, equal)
    fold.exc_instance = lambda: UnknownLabel.__new__(UnknownLabel)
    fold.ops = ops
    # definition for the empty list of operations
    c.define(z3.Implies(Cnt(post.n) == 0, z3.And(final == selected, z3.Not(raised))))
    c.static['rules'] = [sel, ops, fold]
    c.static['abstract'] = {'sel.value': sel.name, 'op.count': ops.name, 'formula.value': fold.name, 'formula.rejected': fold.name}
    c.static['contracts'] = {ASM + 'parse_integer': c_parse_integer, ASM + 'get_label_absolute_address_by_name': c_label}
    asm = SObj(Assembler, {}, host=Assembler())
    try:
        got = interp.icall(Assembler.apply_math_formula, (asm, pre.s, post.s, base), {})
    except core.Unsupported:
        raise
    except Exception as e:
        c.prove('formula-value/rejects-iff-an-operation-is-rejected', raised, type(e).__name__)
        return
    c.prove('formula-value/accepts', z3.Not(raised))
    if not isinstance(got, (int, SInt)):
        c.fail('formula-value/kind', repr(got))
        return
    c.prove('formula-value', lift_int(got) == final)


def units(tier):
    return [Unit('C04.split', split_unit, [ASM + '_get_math_formula']),
            Unit('C04.evaluate', eval_unit, [ASM + 'apply_math_formula'])]
