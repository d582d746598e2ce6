"""Comprehensions and loops over sequences of symbolic length."""
import ast
import z3
from . import core
from .core import Unsupported, Impure
from .vals import SymBase, SInt, SBytes, lift_int, mk_int
from . import interp


def C():
    return core.CTX


def find(it):
    """loop contract registered for this iterable (fold contracts)"""
    c = C()
    if c is None:
        return None
    from .models import SSeq
    if isinstance(it, SymBase):
        for r in c.static.get('rules', ()):
            if r.matches(it):
                return r
    if isinstance(it, SSeq):
        f = c.static.get('fold')
        if f is not None:
            return f
    h = getattr(it, 'loop_contract', None) if isinstance(it, SymBase) and hasattr(type(it), 'loop_contract') else None
    return h


def visits_all(h, it):
    """a loop contract speaks about a whole sequence: a loop over a slice must cover it all"""
    seq = getattr(it, 'seq', it)
    origin = getattr(seq, 'origin', None)
    if origin is None or getattr(h, 'slices', False):
        return
    off, full = origin
    C().prove('%s/visits-every-element' % getattr(h, 'name', getattr(h, 'nm', type(h).__name__)), z3.And(off == 0, lift_int(seq.n) == full))


def comp_map(node, frame, src):
    """[elt for x in SYMSEQ] as an element-wise map: the element expression is evaluated once on an
    arbitrary element (all paths merged), so the result holds for every index"""
    from .models import SSeq, SEnum, SRange
    if len(node.generators) != 1:
        return None
    elt = ast.Tuple([node.key, node.value], ast.Load()) if isinstance(node, ast.DictComp) else node.elt
    g = node.generators[0]
    if g.ifs or g.is_async:
        return None
    if isinstance(src, SBytes) and not isinstance(src.length(), int):
        b = SBytes(src.segs)
        src = SSeq(b.length(), lambda k: SInt(b.at(k), 0xFF), 'bytes')
    counted = isinstance(src, (SEnum, SRange))
    if counted:
        it = src
        if isinstance(it, SEnum) and not isinstance(it.seq, SSeq) or isinstance(it, SRange) and it.step != 1 or isinstance(it.length(), int):
            return None
        src = SSeq(it.length(), lambda k: element(it, k), 'enumerate(%s)' % it.seq.name if isinstance(it, SEnum) else 'range')
    if not isinstance(src, SSeq):
        return None
    c = C()

    def elem(k):
        child = interp.Frame(frame, frame.globals, set(), {}, frame.func)
        for x in ast.walk(g.target):
            if isinstance(x, ast.Name):
                child.names.add(x.id)
        e = src.elem(k)

        def run():
            interp.assign(g.target, e, child)
            return interp.eval_(elt, child)
        try:
            return C().merge(run)
        except Impure as ex:
            raise Unsupported('comprehension element not mergeable: %s' % ex)
    # evaluate once so that exceptions / unsupported constructs surface here
    k = z3.Int(c.fresh('cm'))
    if not counted:
        elem(k)
    elif c.branch(lift_int(src.n) > 0):         # the position is in range, so that it can be used as an index
        c.assume(z3.And(k >= 0, k < lift_int(src.n)))
        elem(k)
    return SSeq(src.n, elem, 'map(%s)' % src.name)


class Poison(SymBase):
    """a loop-local name after (or at the start of an arbitrary iteration of) a loop verified by contract"""

    def __init__(self, name):
        object.__setattr__(self, 'name', name)

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__') and n not in ('__bool__', '__len__', '__iter__'):
            raise AttributeError(n)
        raise Unsupported('value of %s flows between loop iterations outside the loop contract' % self.name)

    def _bad(self, *a):
        raise Unsupported('value of %s flows between loop iterations outside the loop contract' % self.name)
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __and__ = __or__ = __rand__ = __ror__ = _bad
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __bool__ = __getitem__ = __iter__ = __call__ = _bad
    __hash__ = None


class Attach(Exception):
    pass


def assigned_names(nodes):
    out = set()
    for s in nodes:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                out.add(x.name)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                out.add(x.name)
    return out


MUTATORS = {'append', 'extend', 'insert', 'add', 'update', 'pop', 'remove', 'clear', 'setdefault', 'discard', 'popitem',
            'reverse', 'sort', '__setitem__', '__iadd__'}


def mutated_names(nodes):
    """names whose object the statements change in place"""
    out = set()
    for s in nodes:
        for x in ast.walk(s):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS and isinstance(x.func.value, ast.Name):
                out.add(x.func.value.id)
            elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name):
                out.add(x.value.id)
    return out


def local_containers(nodes, fr):
    return {n for n in mutated_names(nodes) if n in fr.vars and (
        isinstance(fr.vars[n], (list, dict, set, bytearray)) or isinstance(fr.vars[n], SBytes) and fr.vars[n].mutable)}


class Fold:
    """contract of a loop `for x in xs` that folds `step` over the elements (any number of iterations).

    init      the state before the first element (obligation: the real code starts there)
    fresh()   an arbitrary state
    step      specification: step(state, x) -> new state, or raises one of `rejects`
    equal     equality of states, as a goal
    final     the state after all elements (opaque, shared with the specification); `raised` a Bool
              that says whether the specification rejects some element"""

    def __init__(self, name, init, fresh, step, rejects, exc, final, raised, equal):
        self.name, self.init, self.fresh, self.step = name, init, fresh, step
        self.rejects, self.exc, self.final, self.raised, self.equal = rejects, exc, final, raised, equal

    def __call__(self, node, it, fr):
        c = C()
        targets = assigned_names([ast.Expr(node.target)]) | {x.id for x in ast.walk(node.target) if isinstance(x, ast.Name)}
        names = assigned_names(node.body) - targets
        inplace = local_containers(node.body, fr)
        names |= inplace
        carried = sorted(n for n in names if n in fr.vars and not isinstance(fr.vars[n], Poison))
        local = (names | targets) - set(carried)
        if len(carried) != 1 or node.orelse or any(not isinstance(fr.vars[n], SBytes) for n in inplace):
            raise Unsupported('loop %s: the accumulator cannot be identified (%s)' % (self.name, carried))
        acc = carried[0]
        c.store.setdefault('attached', set()).add(self.name)
        c.prove(self.name + '/loop-init', self.equal(fr.vars[acc], self.init))
        k = c.choose(3)
        for n in local:
            fr.vars[n] = Poison(n)
        if k == 0:                              # an arbitrary iteration
            j = z3.Int(c.fresh('iter'))
            c.assume(z3.And(j >= 0, j < lift_int(it.n)))
            s0 = self.fresh()
            self.put(fr, acc, s0)
            x = it.elem(j)
            got = None
            try:
                interp.assign(node.target, x, fr)
                kind, v = interp.exec_block(node.body, fr)
                if kind in ('break', 'return'):
                    raise Unsupported('loop %s leaves early' % self.name)
                got = fr.vars[acc]
            except self.exc as e:
                got = None
            except Exception as e:
                c.fail(self.name + '/loop-step-exception', '%s: %s' % (type(e).__name__, e))
                raise core.PathKill()
            try:
                want = self.step(s0, x)
            except self.rejects:
                want = None
            if (got is None) != (want is None):
                c.fail(self.name + '/loop-step-accepts-iff-spec', 'implementation %s, specification %s'
                       % ('rejects' if got is None else 'accepts', 'rejects' if want is None else 'accepts'))
            elif got is None:
                c.prove(self.name + '/loop-step-reject', True)
            else:
                c.prove(self.name + '/loop-step', self.equal(got, want))
            raise core.PathKill()
        if k == 1:                              # some element is rejected
            c.assume(self.raised)
            raise self.exc_instance()
        c.assume(z3.Not(self.raised))
        self.put(fr, acc, self.final)
        return interp.NORMAL

    def put(self, fr, acc, v):
        """an accumulator that is changed in place stays the same object"""
        o = fr.vars[acc]
        if isinstance(o, SBytes) and o.mutable:
            interp.check_mutation(o)
            o.segs = list(SBytes.of(v).segs)
        else:
            fr.vars[acc] = v

    def exc_instance(self):
        e = self.exc[0] if isinstance(self.exc, tuple) else self.exc
        return e.__new__(e)


class Rule:
    """loop contract over heap state: subclasses say what holds on entry, what an arbitrary iteration
    starts from, what it must have done, and what is known afterwards.

    entry(it, fr)            obligations before the first iteration
    start(j, x, fr)          havoc the state of an arbitrary iteration j on element x; returns a token
    after(tok, x, out, fr)   obligations at the end of that iteration; out = ('normal'|'break'|'return'|'raise', value)
    leave(it, fr)            state after the loop; may raise, or return ('return', v) / None for normal
    exits(it)                True when an iteration may leave the loop (`leave` then describes it)"""
    keep = ()

    def matches(self, it):
        return True

    def entry(self, it, fr):
        pass

    def start(self, j, x, fr):
        return None

    def leave(self, it, fr):
        return None

    def length(self, it):
        return lift_int(it.length() if hasattr(it, 'length') else it.n)

    def elem(self, it, j):
        return element(it, j)

    def __call__(self, node, it, fr):
        c = C()
        targets = {x.id for x in ast.walk(node.target) if isinstance(x, ast.Name)}
        names = (assigned_names(node.body) | targets) - set(self.keep)
        inplace = {n: fr.vars[n] for n in local_containers(node.body, fr)}

        def replaced():
            """the contract says what becomes of the local containers that the body changes in place"""
            for n, o in inplace.items():
                if fr.vars.get(n) is o:
                    raise Unsupported('loop %s changes %s in place' % (getattr(self, 'name', type(self).__name__), n))
        c.store.setdefault('attached', set()).add(getattr(self, 'name', type(self).__name__))
        self.entry(it, fr)
        k = c.choose(2)
        for n in names:
            fr.vars[n] = Poison(n)
        if k == 0:
            j = z3.Int(c.fresh('iter'))
            c.assume(z3.And(j >= 0, j < self.length(it)))
            x = self.elem(it, j)
            tok = self.start(j, x, fr)
            replaced()
            try:
                interp.assign(node.target, x, fr)
                kind, v = interp.exec_block(node.body, fr)
                out = ('normal' if kind in ('normal', 'continue', None) or (kind, v) == interp.NORMAL else kind, v)
            except Exception as e:
                out = ('raise', e)
            self.after(tok, x, out, fr)
            raise core.PathKill()
        r = self.leave(it, fr)
        replaced()
        if r is not None:
            return r
        return interp.exec_block(node.orelse, fr)


def element(it, j):
    """element number j (z3 Int) of a symbolic iterable"""
    from .models import SSeq, SEnum, SRange
    if isinstance(it, SSeq):
        return it.elem(j)
    if isinstance(it, SEnum):
        return (SInt(j) + it.start, element(it.seq, j))
    if isinstance(it, SRange):
        if it.step != 1:
            raise Unsupported('range step')
        return it.a + SInt(j)
    if hasattr(it, 'sym_elem'):
        return it.sym_elem(j)
    raise Unsupported('element of %s' % type(it).__name__)
