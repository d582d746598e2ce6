"""Encoder contracts (C11..C18): common part.

For one mnemonic of one CPU class the unit runs the REAL handler registered in /repo on a symbolic
statement (unknown operand texts, unknown operand count), using the contracts of
  Assembler.parse_integer                       (C02)
  Assembler.add_label_translation               (C05)
  Assembler.get_label_absolute_address_by_name  (C04/C05)
  Instruction.match / unbound_match             (C10)
then links the result with the contract of Assembler._resolve_labels (C05) and proves it equal to the
architecture specification for the same operands: same bytes, or both reject."""
import z3
from pyvc import core, interp, vals, models
from pyvc.core import Unsupported, Impure, PathKill
from pyvc.vals import (SInt, SBool, STok, SText, SymTokens, SBytes, SObj, is_sym, mk_int, mk_bool, lift_int,
                       and_, or_, not_, ite, fresh_int, opaque_bytes, tok_info, tok_attr)
from . import numlit


class Reject(Exception):
    """the specification says this statement must not assemble"""


# ---------------------------------------------------------------------------
# token semantics shared by the contracts and the specification
# ---------------------------------------------------------------------------
NUM, LABEL, BAD = 0, 1, 2


def classify(text, cfg):
    try:
        pre, base, tail = numlit.split(text)
        lit = numlit.literal(base, cfg)
        if lit is None:
            return LABEL, 0, False
        if tail and any(a and not a.isdigit() for _, a in numlit.chain(tail)):
            return None
        r = numlit.number(text, cfg, {})
        return NUM, r[0], r[1]
    except (numlit.Bad, numlit.Unknown):
        return BAD, 0, False


def tok_sem(t, cfg):
    """(kind, raw value, decimal?) of an unknown text as z3 terms"""
    if isinstance(t, SText):
        t = t.as_tok()

    def part(i):
        def fn(L):
            r = classify(L, cfg)
            if r is None:
                raise ValueError
            if i == 1 and r[0] != NUM:
                raise ValueError
            return r[i]
        return fn
    kind = t._attr('kind', part(0), 'int')
    raw = t._attr('raw', part(1), 'int')
    dec = t._attr('dec', part(2))
    c = core.CTX
    c.axiom(z3.And(kind.t >= 0, kind.t <= 2), ('kind', t.key))
    c.axiom(z3.Implies(lift_int(t.length()) == 0, kind.t == BAD), ('kindempty', t.key))
    return kind, raw, dec


def label_sem(t):
    """(defined at link time, address, defined already, has formula)"""
    if isinstance(t, SText):
        t = t.as_tok()
    d = z3.Bool('lab:%s.defined' % t.key)
    k = z3.Bool('lab:%s.known' % t.key)
    a = z3.Int('lab:%s.addr' % t.key)
    f = z3.Bool('lab:%s.formula' % t.key)
    c = core.CTX
    c.axiom(z3.Implies(k, d), ('lab', t.key))
    c.store.setdefault('labels', {})[t.key] = t
    return d, a, k, f


def rel_value(t, start):
    d, a, k, f = label_sem(t)
    key = t.as_tok().key if isinstance(t, SText) else t.key
    uf = z3.Function('lab:%s.rel' % key, z3.IntSort(), z3.IntSort())
    st = z3.simplify(lift_int(start))
    r = z3.Int('lab:%s.distance[%s]' % (key, st.sexpr().replace('\n', ' ')))     # a name of its own: bounds on it are found easily
    core.CTX.axiom(r == z3.If(f, uf(st), a - st), ('distance', key, st.sexpr()))
    return mk_int(r)


class SymEnv:
    """specification-side view of a symbolic statement"""
    sym = True

    def __init__(self, ctx, cfg, pc):
        self.ctx, self.cfg, self.pc = ctx, cfg, pc

    def value(self, t):
        """('num', raw, dec) | ('label', addr) ; rejects malformed texts and undefined labels"""
        if isinstance(t, str):
            k, raw, dec = classify(t, self.cfg)
            need(k == NUM, 'literal text')
            return 'num', raw, dec
        kind, raw, dec = tok_sem(t, self.cfg)
        if bool(kind == NUM):
            return 'num', raw, dec
        if bool(kind == BAD):
            raise Reject('malformed operand')
        return 'label', t, None

    def kind(self, t):
        return self.value(t)[0]

    def known(self, t):
        """address of an already known label, else None"""
        d, a, k, f = label_sem(t)
        return SInt(a) if bool(SBool(k)) else None

    def addr(self, t):
        d, a, k, f = label_sem(t)
        if not bool(SBool(d)):
            raise Reject('undefined label')
        return SInt(a)

    def rel(self, t, start):
        self.addr(t)
        return rel_value(t, start)


class ConcEnv:
    sym = False

    def __init__(self, cfg, pc, labels, known):
        self.cfg, self.pc, self.labels, self.known_labels = cfg, pc, labels, known

    def value(self, t):
        try:
            r = numlit.number(t, self.cfg, self.known_labels)
        except (numlit.Bad, numlit.Unknown) as e:
            raise Reject(str(e))
        if r is None:
            return 'label', t, None
        return 'num', r[0], r[1]

    def kind(self, t):
        return self.value(t)[0]

    def _lab(self, t, labels, start=0):
        try:
            return numlit.label_value(t, self.cfg, labels, start)
        except (numlit.Bad, numlit.Unknown) as e:
            raise Reject(str(e))

    def known(self, t):
        return self._lab(t, self.known_labels)

    def addr(self, t):
        v = self._lab(t, self.labels)
        if v is None:
            raise Reject('undefined label')
        return v

    def rel(self, t, start):
        v = self._lab(t, self.labels, start)
        if v is None:
            raise Reject('undefined label')
        return v


# helpers usable by the specifications in both worlds -------------------------
def fitnum(v, dec, bits, signed=False):
    """C02's accepted value (pattern) of a written number"""
    if isinstance(v, int) and isinstance(dec, bool):
        try:
            return numlit.fit(v, dec, bits, signed)
        except numlit.Bad as e:
            raise Reject(str(e))
    dec = bool(dec)
    if not dec:
        if not bool(and_(v >= 0, v < (1 << bits))):
            raise Reject('range')
        return SInt(lift_int(v), (1 << bits) - 1)
    if signed:
        if not bool(and_(v >= -(1 << (bits - 1)), v < (1 << (bits - 1)))):
            raise Reject('range')
        return v
    if not bool(and_(v >= -(1 << (bits - 1)), v < (1 << bits))):
        raise Reject('range')
    return ite(mk_bool(lift_int(v) < 0), v + (1 << bits), v) if is_sym(v) else (v + (1 << bits) if v < 0 else v)


def need(cond, why='out of range'):
    if not bool(cond):
        raise Reject(why)


def imm(E, t, bits, signed=False):
    """absolute immediate/address operand: field value 0..2^bits-1"""
    k, v, dec = E.value(t)
    if k == 'num':
        r = fitnum(v, dec, bits, signed)
        return low(r, bits)
    a = E.addr(t)
    need(and_(a >= 0, a < (1 << bits)))
    return SInt(lift_int(a), (1 << bits) - 1) if E.sym else a


def low(v, bits):
    return v & ((1 << bits) - 1)


def branch(E, t, bits, start, align=1, shift=0):
    """pc-relative operand.  A number is the displacement itself; for a label it is the distance."""
    k, v, dec = E.value(t)
    if k == 'num':
        r = fitnum(v, dec, bits, True)
        need(r < (1 << (bits - 1)))
        return low(r, bits)
    a = E.addr(t)
    r = E.rel(t, start)
    if align > 1:
        need(mk_bool(lift_int(a) % align == 0) if E.sym else a % align == 0, 'misaligned')
    need(and_(r >= -(1 << (bits - 1)), r < (1 << (bits - 1))))
    return low(r >> shift, bits - shift)


def le(v, n):
    return [(v >> (8 * i)) & 255 for i in range(n)]


def be(v, n):
    return le(v, n)[::-1]


def up(t):
    return t.upper()


def oneof(t, names):
    u = t.upper()
    return or_(*[u == n for n in names])


def lookup(t, table):
    """value of a name in a table, or None"""
    u = t.upper()
    if isinstance(u, str):
        return table.get(u)
    if not bool(or_(*[u == n for n in table])):
        return None
    return models.merge_values([(u == n, v) for n, v in table.items()])


# ---------------------------------------------------------------------------
# contracts used at call sites
# ---------------------------------------------------------------------------
from necroassembler.exceptions import (NotInBitRange, UnknownLabel, NegativeSignNotAllowed)
from necroassembler import assembler as asm_mod
from necroassembler import statements as st_mod


def c_parse_integer(c, args, kwargs):
    self, token, bits, signed = bind(args, kwargs, ('self', 'token', 'number_of_bits', 'signed'))
    if isinstance(token, (list, tuple)) or not (isinstance(token, str) or (is_sym(token) and token.pytype is str)):
        raise AttributeError('not a text')
    cfg = self.host if isinstance(self, SObj) and self.host is not None else self
    if isinstance(token, str):
        r = classify(token, cfg)
        if r is None:
            raise Unsupported('formula literal')
        if r[0] == BAD:
            raise ValueError('malformed')
        if r[0] == LABEL:
            return None
        try:
            return numlit.fit(r[1], r[2], bits, signed)
        except numlit.Bad:
            raise NotInBitRange(r[1], bits)
    kind, raw, dec = tok_sem(token, cfg)
    if bool(kind == NUM):
        if not isinstance(bits, int):
            raise Unsupported('symbolic field width')
        if isinstance(signed, SBool):
            signed = bool(signed)
        try:
            return fitnum(raw, dec, bits, signed)
        except Reject:
            raise NotInBitRange(0, bits)
    if bool(kind == BAD):
        raise ValueError('malformed operand')
    return None


def bind(args, kwargs, names, defaults={}):
    vals_ = dict(zip(names, args))
    if len(args) > len(names):
        raise TypeError('too many arguments')
    for k, v in kwargs.items():
        if k not in names or k in vals_:
            raise TypeError('unexpected argument %s' % k)
        vals_[k] = v
    out = []
    for n in names:
        if n in vals_:
            out.append(vals_[n])
        elif n in defaults:
            out.append(defaults[n])
        else:
            raise TypeError('missing argument %s' % n)
    return out


class RelocMap:
    """labels_addresses as the handler sees it: the labels of this instruction, by distance from its first byte"""

    def __init__(self, asm):
        self.asm = asm

    def offset(self, index):
        d = index - models.m_len(interp.getattr_(self.asm, 'assembled_bytes'))
        if is_sym(d):
            t = z3.simplify(d.t)
            if not z3.is_int_value(t):
                raise Unsupported('labels_addresses index')
            d = t.as_long()
        return d

    def relocs(self):
        return core.CTX.store.setdefault('relocs', {})

    def get(self, index, default=None):
        return self.relocs().get(self.offset(index), default)

    def __contains__(self, index):
        return self.offset(index) in self.relocs()

    def __getitem__(self, index):
        return self.relocs()[self.offset(index)]


class Reloc:
    def __init__(self, label, size, bits_size, offset, alignment, bits, filter, relative, hook):
        self.label, self.size, self.bits_size, self.offset = label, size, bits_size, offset
        self.alignment, self.bits, self.filter, self.relative, self.hook = alignment, bits, filter, relative, hook


def c_add_label_translation(c, args, kwargs):
    names = ('self', 'label', 'size', 'bits_size', 'offset', 'alignment', 'bits', 'filter', 'relative', 'hook')
    v = bind(args, kwargs, names, dict(offset=0, alignment=1, bits=None, filter=None, relative=None, hook=None))
    r = Reloc(*v[1:])
    if c.merging:
        raise Impure('relocation in merged code')
    if not isinstance(r.offset, int):
        raise Unsupported('symbolic relocation offset')
    rl = c.store.setdefault('relocs', {})
    rl[r.offset] = r        # same byte: the later one replaces the earlier


def c_label_abs(c, args, kwargs):
    self, name = bind(args, kwargs, ('self', 'name'))
    if isinstance(name, str):
        raise Unsupported('literal label name')
    d, a, k, f = label_sem(name)
    # an operand text that is malformed raises
    if bool(SBool(k)):
        return SInt(a)
    return None


def pattern_holds(c, p, t):
    """one operand pattern on one text: None any; text: equal ignoring case; callable: it says so;
    otherwise any of the texts"""
    if p is None:
        return True
    if models.m_callable(p):
        try:
            r = c.merge(lambda: interp.icall(p, (t,), {}))
        except Impure:
            r = interp.icall(p, (t,), {})
        if isinstance(r, (bool, SBool)):
            return r
        return bool(r)
    if isinstance(p, str):
        return t.upper() == p.upper()
    return or_(*[t.upper() == x.upper() for x in interp.iterate(p)])


def c_match(c, args, kwargs):
    self, *pats = args
    start = kwargs.get('start', 1)
    if set(kwargs) - {'start'}:
        raise TypeError('unexpected keyword')
    toks = interp.getattr_(self, 'tokens')
    n = models.m_len(toks)
    ok = n - start == len(pats)
    if ok is False:
        return False
    if ok is not True and not c.branch(ok.t):
        return False
    if isinstance(start, SInt):
        raise Unsupported('symbolic start')
    conds = []
    for i, p in enumerate(pats):
        conds.append(pattern_holds(c, p, toks[i + start]))
    return and_(*conds)


def c_unbound_match(c, args, kwargs):
    self, *pats = args
    start = kwargs.get('start', 1)
    if set(kwargs) - {'start'}:
        raise TypeError('unexpected keyword')
    toks = interp.getattr_(self, 'tokens')
    n = models.m_len(toks)
    if not bool(n - start >= len(pats)):
        return False, None
    conds = [pattern_holds(c, p, toks[i + start]) for i, p in enumerate(pats)]
    if bool(and_(*conds)):
        return True, start + len(pats)
    return False, None


ASM = 'necroassembler.assembler.Assembler.'
INS = 'necroassembler.statements.Instruction.'
CONTRACTS = {
    ASM + 'parse_integer': c_parse_integer,
    ASM + 'add_label_translation': c_add_label_translation,
    ASM + 'get_label_absolute_address_by_name': c_label_abs,
    INS + 'match': c_match,
    INS + 'unbound_match': c_unbound_match,
}


# ---------------------------------------------------------------------------
# linking one instruction (contract of Assembler._resolve_labels, proved in C05)
# ---------------------------------------------------------------------------
class LinkError(Exception):
    pass


def link_blob(c, asm, blob, big_endian):
    b = SBytes.of(blob)
    if b is None:
        raise TypeError('handler returned %s' % type(blob).__name__)
    f = b.fixed()
    if f is None:
        raise Unsupported('instruction of symbolic length')
    out = list(f)
    for off, r in c.store.get('relocs', {}).items():
        if r.hook is not None:
            raise Unsupported('hook relocation')
        d, a, k, fm = label_sem(r.label)
        if not c.branch(d):
            raise LinkError('undefined')
        rel = r.relative is not None
        v = rel_value(r.label, r.relative) if rel else SInt(a)
        if r.alignment != 1:
            if not c.branch(a % r.alignment == 0):
                raise LinkError('alignment')
        n = r.bits_size
        if rel:
            if not bool(and_(v >= -(1 << (n - 1)), v < (1 << (n - 1)))):
                raise LinkError('range')
        else:
            if not bool(and_(v >= 0, v < (1 << n))):
                raise LinkError('range')
            v = SInt(v.t, (1 << n) - 1) if is_sym(v) else v
        if r.filter:
            v = interp.icall(r.filter, (v,), {})
        if r.bits:
            v = interp.icall(interp.lift(__import__('necroassembler.utils', fromlist=['x']).pack_bits), (0, (r.bits, v)), {})
        for i in range(r.size):
            byte = (v >> (8 * i)) & 255
            p = off + (r.size - 1 - i if big_endian else i)
            if p >= len(out) or p < 0:
                raise OutOfBlob()
            out[p] = out[p] | byte
    return out


class OutOfBlob(Exception):
    """a label operand would be patched outside its own instruction"""


# ---------------------------------------------------------------------------
def encoder_unit(cpu, cls, mnem, spec, extra_contracts=None, cfg_attrs=None, fixed_limit=None, align=1, noblank=False, case=None, deviation=None, index_at=None):
    """body(ctx) for one mnemonic"""
    host = cls()

    def body(c):
        c.static['cfg'] = host
        c.static['noblank'] = noblank
        c.static['index_at'] = index_at
        c.static['contracts'] = dict(CONTRACTS, **(extra_contracts or {}))
        if fixed_limit:
            c.static['fixed_limit'] = fixed_limit
        n = fresh_int('ntokens', 1, None)
        first = STok(tok_info('t0'))
        c.add(first.info.tid == vals.lit_id(mnem))
        first.upper() == mnem
        toks = SymTokens('t', n, first=first)
        org = fresh_int('current_org', 0, None)
        ctr = fresh_int('org_counter', 0, None)
        asm = SObj(cls, dict(current_org=org, org_counter=ctr, assembled_bytes=opaque_bytes('asm', True)), host=host)
        asm.attrs['labels_addresses'] = RelocMap(asm)
        c.store['lift'] = {id(host): asm}
        ins = SObj(st_mod.Instruction, dict(tokens=toks, line=1, context=None))
        handler = host.instructions[mnem]
        if align > 1:
            c.add((org.t + ctr.t) % align == 0)
        if case:                            # one of several units that together cover all statements
            k, preds = case
            for p in preds[:k]:
                c.assume(vals.not_(p(toks, n)))
            if k < len(preds):
                c.assume(preds[k](toks, n))
        pc = org + ctr
        # --- implementation
        try:
            if callable(handler):
                blob = interp.icall(handler, (ins,), {})
                if blob is None:
                    raise LinkError('None')
            else:
                if bool(n != 1):
                    raise LinkError('operands')
                blob = handler
            got = link_blob(c, asm, blob, host.big_endian)
        except OutOfBlob:
            got = 'patched outside the instruction'
        except Exception as e:
            if isinstance(e, z3.Z3Exception):
                raise Unsupported('z3: %s' % e)
            got = None
            why = '%s: %s' % (type(e).__name__, str(e)[:100])
        # --- specification
        E = SymEnv(c, host, pc)
        try:
            want = spec(E, mnem, toks, n)
        except Reject as e:
            want = None
            whys = str(e)

        wrong = []                          # a recorded finding: also the known wrong outcome is let pass here
        if deviation is not None:
            try:
                d = deviation(E, mnem, toks, n)
            except Reject:
                d = None
            if d is not None:
                try:
                    wrong = [d[1]()]
                except Reject:
                    wrong = [None]

        def info(model):
            return dict(mnemonic=mnem, implementation=show(got, model) if got is not None else 'rejects (%s)' % why,
                        specification=show(want, model) if want is not None else 'rejects (%s)' % whys,
                        operands=describe(c, model))
        name = '%s.%s' % (cpu, mnem) + ('/case%d' % case[0] if case else '')
        keep = dict(store=dict(c.store), cfg=host)
        if got is None and want is None:
            c.prove(name + '/reject', True)
            ok = True
        elif wrong and not isinstance(got, str) and (got is None) == (wrong[0] is None):
            goals = [True] if got is None else [z3.And([lift_int(a) == lift_int(b) for a, b in zip(got, w)])
                                                for w in wrong + [want] if w is not None and len(w) == len(got)]
            ok = c.prove(name + '/encoding-or-known-finding', z3.Or(goals), info)
        elif (got is None) != (want is None) or isinstance(got, str):
            ok = c.fail(name + '/accepts-iff-spec', info)
        elif len(got) != len(want):
            ok = c.fail(name + '/length', info)
        else:
            got, want = unify(c, got, want)
            ok = c.prove(name + '/encoding', z3.And([lift_int(a) == lift_int(b) for a, b in zip(got, want)]), info)
        witness(c, ok, mnem, host, got, want)
    return body


def constants(terms):
    out, seen, work = {}, set(), list(terms)
    while work:
        t = work.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_int(t):
            out[str(t)] = t
        work.extend(t.children())
    return out


def unify(c, got, want):
    """replace the implementation's terms that are entailed to equal a term of the specification (register numbers
    read from different tables) so that the byte comparison is arithmetic on the same variables"""
    g, w = constants(x.t for x in got if is_sym(x)), constants(x.t for x in want if is_sym(x))
    only = [v for k, v in g.items() if k not in w]
    target = [v for k, v in w.items() if k not in g] + [v for k, v in w.items() if k in g]
    if not only:
        return got, want
    if c.model is None and c._check() == z3.sat:
        c.model = c.solver.model()
    sub = []
    for u in only:
        for r in target:
            if c.model is not None and not z3.eq(c.model.eval(u, model_completion=True), c.model.eval(r, model_completion=True)):
                continue
            if c.entails(u == r):
                sub.append((u, r))
                break
    if not sub:
        return got, want
    return [SInt(z3.simplify(z3.substitute(x.t, *sub))) if is_sym(x) else x for x in got], want


def show(v, model):
    if isinstance(v, str):
        return v
    out = []
    for x in v:
        if isinstance(x, int):
            out.append('%02x' % x)
        elif model is not None:
            out.append('%02x' % model.eval(lift_int(x), model_completion=True).as_long())
        else:
            out.append('??')
    return ' '.join(out)


def describe(c, model):
    if model is None:
        return None
    w = concretize(c, model, c.static.get('cfg'))
    return w


# ---------------------------------------------------------------------------
# witnesses: turn a model of a path into a concrete source statement
# ---------------------------------------------------------------------------
def witness(c, ok, mnem, host, got, want):
    """record one concrete statement for this path (used by the CPython cross-check and as replay)"""
    ws = c.static.setdefault('witnesses', [])
    lim = c.static.get('witness_limit', 4000)
    if len(ws) >= lim and ok:
        return
    s = c.solver
    models_ = []
    if not ok and c.failure_info and c.failure_info[-1][1] is not None:
        models_.append(c.failure_info[-1][1])
    else:
        if c.model is None:
            r = c._check()
            if r == z3.sat:
                c.model = s.model()
        if c.model is not None:
            models_.append(c.model)
    # prefer labels without formulas and small operand counts
    for m in models_:
        w = concretize(c, m, host)
        if w is not None:
            w['mnemonic'] = mnem
            w['ok'] = bool(ok)
            ws.append(w)


def mval(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    return z3.is_true(v)


def concretize(c, m, cfg):
    toks = c.store.get('toks', {})
    n = mval(m, z3.Int('ntokens'))
    if n > 14:
        # unused tail: any larger count takes the same path; use the largest referenced index + 2
        used = [int(k[1:]) for k in toks if k[:1] == 't' and k[1:].isdigit()]
        n = max(used + [0]) + 3
    out = []
    labels = {}
    known = []
    fresh = [0]
    for i in range(1, n):
        info = toks.get('t%d' % i)
        if info is None:
            out.append('zz%d' % i)
            continue
        txt = solve_text(info, m, cfg, fresh, c)
        if txt is None:
            return None
        out.append(txt)
    # label values
    for key, t in c.store.get('labels', {}).items():
        txt = text_of(t, m, cfg, fresh, c)
        if txt is None:
            continue
        if mval(m, z3.Bool('lab:%s.defined' % key)):
            labels[txt] = mval(m, z3.Int('lab:%s.addr' % key))
            if mval(m, z3.Bool('lab:%s.known' % key)):
                known.append(txt)
    return dict(operands=out, labels=labels, known=known, org=mval(m, z3.Int('current_org')),
                counter=mval(m, z3.Int('org_counter')))


def text_of(t, m, cfg, fresh, c):
    info = t.info
    memo = c.store.setdefault('texts', {})
    if info.key in memo:
        return memo[info.key]
    # a derived token: find its root
    for k, i in c.store.get('toks', {}).items():
        for name, (d, fn) in i.derived.items():
            if d is info:
                r = text_of(STok(i), m, cfg, fresh, c)
                if r is None:
                    return None
                try:
                    return fn(r)
                except Exception:
                    return None
    return solve_text(info, m, cfg, fresh, c)


def check_text(info, m, txt, depth=0, mv=None):
    """does txt satisfy every attribute the model fixes for this token?"""
    mv = {} if mv is None else mv

    def mval_(m, t):
        if id(t) not in mv:
            mv[id(t)] = mval(m, t), t
        return mv[id(t)][0]
    tid = mval_(m, info.tid)
    lit = vals._LIT_BY_ID.get(tid)
    if lit is not None and lit in info.lits:
        if txt.upper() != lit:
            return False
    elif txt.upper() in info.lits:
        return False
    for name, (term, fn, case) in info.attrs.items():
        x = txt.upper() if case == 'U' else txt.lower() if case == 'L' else txt
        if name.startswith('is:'):
            want = mval_(m, term)
            if (x == name[3:]) != want:
                return False
            continue
        try:
            v = fn(x)
        except Exception:
            continue
        want = mval_(m, term)
        if isinstance(want, bool) or isinstance(v, bool):
            if bool(v) != bool(want):
                return False
        elif name.endswith('len'):
            # only matters relative to thresholds
            if (v == 0) != (want == 0) or (v == 1) != (want == 1):
                return False
        elif v != want:
            return False
    for name, (d, fn) in info.derived.items():
        try:
            v = fn(txt)
        except Exception:
            continue
        if depth < 5 and not check_text(d, m, v, depth + 1, mv):
            return False
    return True


def num_texts(v, cfg):
    out = []
    mag = abs(v)
    sg = '-' if v < 0 else ''
    out.append('%d' % v)
    for p in cfg.hex_prefixes:
        out.append('%s%s%x' % (p, sg, mag))
    for p in cfg.bin_prefixes:
        out.append('%s%s%s' % (p, sg, bin(mag)[2:]))
    for p in cfg.oct_prefixes:
        out.append('%s%s%o' % (p, sg, mag))
    for s in cfg.hex_suffixes:
        h = '%x' % mag
        if h.isdigit():
            out.append(h + s)
    for s in cfg.bin_suffixes:
        out.append(bin(mag)[2:] + s)
    for s in cfg.oct_suffixes:
        out.append('%o%s' % (mag, s))
    # a dozen values cannot be written decimal with a hexadecimal-only notation: use a char or expression
    if 0x20 < v < 0x7f:
        out.append("'%s'" % chr(v))
    if cfg.hex_suffixes and not cfg.hex_prefixes:
        # non-decimal expression with that value
        q = v // 2
        for s in cfg.hex_suffixes:
            out.append('0%s%s%d' % (s, '+' if v >= 0 else '-', abs(v)))
    return out


def solve_text(info, m, cfg, fresh, c, depth=0):
    memo = c.store.setdefault('texts', {})
    key = (info.key, 'm%d' % id(m))
    if key in memo:
        return memo[key]
    mv, seen = {}, set()
    for t in _take(candidates(info, m, cfg, fresh, depth), 20000):
        if t in seen:
            continue
        seen.add(t)
        if check_text(info, m, t, 0, mv):
            memo[key] = t
            memo[info.key] = t
            return t
    return None


def candidates(info, m, cfg, fresh, depth=0):
    tid = mval(m, info.tid)
    lit = vals._LIT_BY_ID.get(tid)
    if lit is not None and lit in info.lits:
        yield lit
        yield lit.lower()
        for name in info.attrs:
            if name.startswith('is:') and name[3:].upper() == lit:
                yield name[3:]
        # mixed case
        yield lit[:1].lower() + lit[1:]
        return
    a = info.attrs
    for pre in ('', 'U:', 'L:'):
        if pre + 'raw' in a:
            k = mval(m, a[pre + 'kind'][0])
            if k == NUM:
                for t in num_texts(mval(m, a[pre + 'raw'][0]), cfg):
                    yield t
            elif k == BAD:
                for p in cfg.hex_prefixes:
                    yield p + 'zz'
                for p in cfg.bin_prefixes:
                    yield p + '9'
                yield ''
                yield '5/0'
                yield '1+zzq'
    # wrap derived tokens
    if depth < 3:
        for name, (d, fn) in info.derived.items():
            subs = list(_take(candidates(d, m, cfg, fresh, depth + 1), 40))
            for s in subs:
                for pre in prefixes_of(info):
                    for suf in ('', ')', ',', ']', '"', '+1', '.B', '.W', '.L'):
                        yield pre + s + suf
    fresh[0] += 1
    base = 'lab%s' % ''.join(chr(97 + int(ch)) for ch in str(fresh[0]))
    for pre in prefixes_of(info):
        yield pre + base
        yield pre + base + '.W'
        yield pre + base + '.L'
        yield pre + base + '.B'
        yield pre + '5'
        yield pre + '-5'
        yield pre + '300'
    yield 'q'
    yield '5'
    yield '-'
    yield '+'
    yield '#'
    yield ''
    yield '_'


def prefixes_of(info):
    out = ['']
    for name in info.attrs:
        i = name.find('startswith(')
        if i >= 0:
            out.append(name[i + 11:-1])
            out.append(name[i + 11:-1].lower())
    for name, (d, fn) in info.derived.items():
        if name == '[0]':
            for L in d.lits:
                out.append(L)
    return list(dict.fromkeys(out + ['#', '$', '-', '+', 'x', 'xx', 'xxx']))


def _take(it, n):
    for i, x in enumerate(it):
        if i >= n:
            return
        yield x


# ---------------------------------------------------------------------------
# the real code on a concrete statement
# ---------------------------------------------------------------------------
def run_real(cls, mnem, operands, labels, known, org, counter, raw=True):
    """assemble one statement with the real assembler; labels as the source would have defined them"""
    a = cls()
    a.current_org = org
    a.org_counter = counter
    for k in known:
        a.labels[k] = {'base': 0, 'org': labels[k], 'section': None}
    try:
        ins = st_mod.Instruction([mnem] + list(operands), 1, None)
        ins.assemble(a)
        n = len(a.assembled_bytes)
        # a following byte shows patches outside the instruction
        a.append_assembled_bytes(b'\x00' * 8)
        for k, v in labels.items():
            a.labels[k] = {'base': 0, 'org': v, 'section': None}
        a.link()
        out = bytes(a.assembled_bytes)
        if any(out[n:]):
            return 'patched outside the instruction'
        return out[:n]
    except Exception as e:
        return None


def run_spec(cls_or_host, spec, mnem, operands, labels, known, org, counter):
    host = cls_or_host
    E = ConcEnv(host, org + counter, labels, {k: labels[k] for k in known})
    try:
        toks = [mnem] + list(operands)
        return bytes(spec(E, mnem, toks, len(toks)))
    except (Reject, IndexError):
        return None


def run_deviation(host, deviation, mnem, operands, labels, known, org, counter):
    """(key of the recorded finding, known wrong outcome) for a statement inside one, else None"""
    E = ConcEnv(host, org + counter, labels, {k: labels[k] for k in known})
    toks = [mnem] + list(operands)
    try:
        d = deviation(E, mnem, toks, len(toks))
    except (Reject, IndexError):
        return None
    if d is None:
        return None
    try:
        return d[0], bytes(d[1]())
    except (Reject, IndexError):
        return d[0], None
