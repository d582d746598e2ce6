"""C10: dispatch of statements, operand patterns, error reporting."""
import itertools
import z3
from pyvc import core, interp, vals, models, loops
from pyvc.core import Unsupported, PathKill
from pyvc.driver import Unit
from pyvc.interp import StarSym
from pyvc.loops import Rule
from pyvc.models import SSeq, SEnum
from pyvc.vals import (SInt, SBool, STok, SymTokens, SBytes, SObj, is_sym, mk_int, mk_bool, lift_int, lift_bool, and_, or_, not_,
                       fresh_int, tok_info, opaque_bytes)
from necroassembler.assembler import Assembler
from necroassembler import statements as st_mod, utils, macros
from necroassembler.statements import Instruction, Directive, Label
from necroassembler.exceptions import AssemblerException, UnknownInstruction
from .objs import OMap, event, events, prove_events
from .isa import ASM, INS
from . import isa

LEVEL = 'proof'
ASSUMPTIONS = ['handlers are arbitrary callables; an AssemblerException they raise has a text message (every class of exceptions.py has one)',
               'str.upper is Python\'s']
ST = 'necroassembler.statements.'


# ---- operand patterns ------------------------------------------------------
def token_seq(n):
    def elem(k):
        t = STok(tok_info('tok[%s]' % z3.simplify(k)))
        return t
    return SSeq(n, elem, 'tokens')


class OpaqueCallable:
    """an operand predicate: any function of the text"""

    def __init__(self, k):
        self.k = k

    def __call__(self, t):
        if not isinstance(t, STok):
            raise Unsupported('predicate applied to something that is not an operand')
        return SBool(z3.Bool('pred(%s,%s)' % (self.k, t.key)))
    __call__.__module__ = 'specs.p_c10'


def pattern_seq(m):
    def elem(k):
        key = str(z3.simplify(k))
        memo = core.CTX.store.setdefault('patterns', {})
        if key not in memo:
            kind = core.CTX.choose(4)
            if kind == 0:
                v = None
            elif kind == 1:
                v = STok(tok_info('pat[%s]' % key))
            elif kind == 2:
                v = OpaqueCallable(key)
            else:
                n = z3.Int('patlen[%s]' % key)
                core.CTX.add(n >= 0)
                v = SSeq(SInt(n), lambda j, _k=key: STok(tok_info('pat[%s][%s]' % (_k, z3.simplify(j)))), 'alternatives')
            memo[key] = v
        return memo[key]
    return SSeq(m, elem, 'patterns')


def holds(p, t):
    if p is None:
        return True
    if isinstance(p, OpaqueCallable):
        return p(t)
    if isinstance(p, STok):
        return t.upper() == p.upper()
    return models.m_any(SSeq(p.n, lambda j: t.upper() == p.elem(j).upper(), 'alternatives'))


class Scan(Rule):
    """for every element: go on exactly when it satisfies `holds`, otherwise leave with `exit`"""

    def __init__(self, name, pick, exit_ok, all_):
        self.name, self.pick, self.exit_ok, self.all = name, pick, exit_ok, all_

    def matches(self, it):
        seq = it.seq if isinstance(it, SEnum) else it
        return isinstance(seq, SSeq) and any(s.name == 'patterns' for s in getattr(seq, 'parts', (seq,)))

    def entry(self, it, fr):
        core.CTX.prove(self.name + '/visits-every-pattern', self.length(it) == lift_int(self.patterns))

    def start(self, j, x, fr):
        return j

    def after(self, j, x, out, fr):
        c = core.CTX
        p, t = self.pick(j)
        ok = holds(p, t)
        if out[0] == 'normal':
            c.prove(self.name + '/operand-accepted', ok if isinstance(ok, bool) else ok.t)
        elif out[0] == 'return':
            c.prove(self.name + '/operand-rejected', (not ok) if isinstance(ok, bool) else z3.Not(ok.t))
            self.exit_ok(out[1])
        elif out[0] == 'raise':
            c.fail(self.name + '/exception', repr(out[1]))
        else:
            raise Unsupported('loop leaves by %s' % out[0])

    def leave(self, it, fr):
        c = core.CTX
        n = self.length(it)
        if c.branch(self.all):
            if isinstance(it, SEnum) and c.branch(n > 0):
                # the loop variables keep the last values
                fr.vars.update(self.last(fr, it, n))
            return None
        return ('return', self.exit_value())

    def last(self, fr, it, n):
        # `for index, pattern in enumerate(...)`
        for_names = [k for k, v in fr.vars.items() if isinstance(v, loops.Poison)]
        return {'index': SInt(n - 1) + it.start} if 'index' in for_names else {}


def match_unit(fname):
    fn = getattr(Instruction, fname)
    bound = fname == 'unbound_match'

    def body(c):
        n = fresh_int('ntokens', 0, None)
        m = fresh_int('npatterns', 0, None)
        start = SInt(z3.Int('start')) if c.choose(2) else 1
        if is_sym(start):
            c.add(start.t >= 0)
        toks, pats = token_seq(n), pattern_seq(m)
        ins = SObj(Instruction, dict(tokens=toks, line=1, context=None))
        all_ = z3.Bool('every operand matches its pattern')
        c.axiom(z3.Implies(m.t == 0, all_))

        def pick(j):
            return pats.elem(j), toks.elem(z3.simplify(j + lift_int(start)))

        def exit_ok(v):
            want = (False, None) if bound else False
            c.prove(fname + '/no-match-result', v == want if not is_sym(v) else False, repr(v))
        rule = Scan(fname, pick, exit_ok, all_)
        rule.patterns = m
        rule.exit_value = lambda: (False, None) if bound else False
        c.static['rules'] = [rule]
        c.static['abstract'] = {all_.decl().name(): fname}
        try:
            r = interp.icall(fn, (ins, StarSym(pats)), {} if not is_sym(start) else dict(start=start))
        except Exception as e:
            c.fail(fname + '/exception', '%s: %s' % (type(e).__name__, e))
            return
        count_ok = (n.t - lift_int(start) >= m.t) if bound else (n.t - lift_int(start) == m.t)
        want = z3.And(count_ok, all_)
        if bound:
            if not (isinstance(r, tuple) and len(r) == 2):
                c.fail(fname + '/result', repr(r))
                return
            ok, at = r
            if at is None:
                c.prove(fname + '/result', z3.And(lift_bool(ok) == want, z3.Not(want)))
            else:
                c.prove(fname + '/result', z3.And(lift_bool(ok) == want, want, lift_int(at) == lift_int(start) + m.t))
        else:
            c.prove(fname + '/result', lift_bool(r if isinstance(r, (bool, SBool)) else bool(r)) == want)
    return body


def match_units():
    return [Unit('C10.%s' % f, match_unit(f), [INS + f]) for f in ('match', 'unbound_match')]


def bounded_match_units(tier):
    """the same contract on explicit pattern lists, for rewrites the loop contract does not recognise"""
    out = []
    kinds = ('any', 'text', 'callable', 'tuple')
    for fname in ('match', 'unbound_match'):
        for k in range(0, 3 if tier == 'quick' else 4):
            out.append(Unit('C10.%s.%d-patterns' % (fname, k), small_match(fname, k), [INS + fname],
                            bounded='%d patterns, alternatives of two texts' % k))
    return out


def small_match(fname, k):
    fn = getattr(Instruction, fname)
    bound = fname == 'unbound_match'

    def body(c):
        n = fresh_int('ntokens', 1, None)
        toks = SymTokens('t', n)
        start = 1 if c.choose(2) else 2
        pats = []
        for i in range(k):
            kind = c.choose(4)
            pats.append(None if kind == 0 else 'Foo' if kind == 1 else OpaqueCallable(i) if kind == 2 else ('a', 'Bc'))
        ins = SObj(Instruction, dict(tokens=toks, line=1, context=None))
        try:
            r = interp.icall(fn, (ins,) + tuple(pats), {} if start == 1 else dict(start=start))
        except Exception as e:
            c.fail(fname + '/exception', '%s: %s' % (type(e).__name__, e))
            return
        conds = []
        for i, p in enumerate(pats):
            t = toks.elem(i + start)
            if p is None:
                continue
            h = p(t) if isinstance(p, OpaqueCallable) else t.upper() == p.upper() if isinstance(p, str) else or_(*[t.upper() == x.upper() for x in p])
            conds.append(lift_bool(h))
        count = (n.t - start >= k) if bound else (n.t - start == k)
        want = z3.And([count] + conds)
        ok = r[0] if bound else r
        goal = lift_bool(ok if isinstance(ok, (bool, SBool)) else bool(ok)) == want
        if bound:
            goal = z3.And(goal, z3.Not(want) if r[1] is None else z3.And(want, lift_int(r[1]) == start + k))
        c.prove(fname + '/result', goal)
    return body


# ---- dispatch ---------------------------------------------------------------
class Boom(AssemblerException):
    message = 'handler message'


class Ctxt(str):
    pass


LINE = 4711


def reported(e):
    return isinstance(e, AssemblerException) and str(LINE) in str(e)


def c_subst(c, args, kw):
    tokens, d, start = isa.bind(args, kw, ('tokens', '_dict', 'start'))
    if not isinstance(tokens, SymTokens):
        raise Unsupported('substitution on something else')
    event('subst', getattr(d, 'name', '?'), start)
    if not isinstance(start, int):
        raise Unsupported('symbolic start of substitution')
    tokens.keep = (start, tokens.name)
    tokens.name = tokens.name + "'"
    if start == 0:
        tokens.first = None


def c_macro_add(c, args, kw):
    event('record', args[0], args[1])


def c_macro_assemble(c, args, kw):
    event('expand', args[0], args[1], args[2])
    k = c.choose(2)
    if k:
        raise Boom()


def handler(name, outcomes):
    def h(stmt):
        event('handler', name, stmt)
        return outcomes()
    h.__module__ = 'specs.p_c10'
    return h


def outcomes():
    c = core.CTX
    k = c.choose(4)
    c.store['outcome'] = k
    if k == 0:
        b = opaque_bytes('blob')
        c.store['blob'] = b
        return b
    if k == 1:
        return None
    if k == 2:
        raise Boom()
    raise ValueError('handler')


def setup(c, kind):
    c.static['real_str'] = True
    c.static['contracts'] = {'necroassembler.utils.substitute_with_dict': c_subst,
                             'necroassembler.macros.Macro.add_instruction': c_macro_add,
                             'necroassembler.macros.Macro.assemble': c_macro_assemble,
                             'necroassembler.utils.is_valid_name': c_valid, ASM + 'parse_integer': c_number}
    n = fresh_int('ntokens', 1, None)
    toks = SymTokens('t', n)
    recording = SObj(macros.Macro, {}, name='recording') if c.choose(2) else None
    case = z3.Bool('case_sensitive')

    def instr_value(k):
        if core.CTX.choose(2):
            return handler('instruction', outcomes)
        b = opaque_bytes('fixed')
        core.CTX.store['blob'] = b
        return b
    asm = SObj(Assembler, dict(macro_recording=recording, case_sensitive=SBool(case), defines=OMap('defines'),
                               macros=OMap('macros', lambda k: SObj(macros.Macro, dict(args=SSeq(fresh_int('nparameters', 0), lambda j: STok(tok_info('parameter')), 'parameters')), name='macro')),
                               instructions=OMap('instructions', instr_value),
                               directives=OMap('directives', lambda k: handler('directive', lambda: directive_outcome())),
                               labels=OMap('labels', lambda k: {}, log=lambda e: event(*e)),
                               assembled_bytes=opaque_bytes('image', True), org_counter=SInt(z3.Int('org_counter')),
                               current_org=SInt(z3.Int('current_org')), current_section=models.OpaqueStr('section')), host=Assembler())
    ins = SObj(kind, dict(tokens=toks, line=LINE, context=None))
    return asm, ins, toks, n, recording, case


def directive_outcome():
    if core.CTX.choose(2):
        raise Boom()
    return None


def c_valid(c, args, kw):
    t = args[0]
    return SBool(z3.Bool('valid name(%s)' % t.key))


def c_number(c, args, kw):
    t = args[1]
    k = c.choose(4)
    c.store['number'] = k
    if k == 0:
        return SInt(z3.Int('number'))
    if k == 1:
        return None
    if k == 2:
        from necroassembler.exceptions import NotInBitRange
        raise NotInBitRange(0, 64)
    raise ValueError('malformed')


def key(tok, case):
    return tok if core.CTX.branch(case) else tok.upper()


def run(c, fn, ins, asm, nm):
    pre = SBytes(asm.attrs['assembled_bytes'].segs)
    c0 = asm.attrs['org_counter']
    err = None
    try:
        interp.icall(fn, (ins, asm), {})
    except Exception as e:
        err = e
    got = list(events())
    post = asm.attrs['assembled_bytes']
    return got, err, pre, post, c0


def instruction_body(c):
    asm, ins, toks, n, rec, case = setup(c, Instruction)
    got, err, pre, post, c0 = run(c, Instruction.assemble, ins, asm, 'instruction')
    nm = 'Instruction.assemble'
    want, bytes_, reject = [], None, False
    if rec is not None:
        want = [('record', rec, ins)]
    else:
        want = [('subst', 'defines', 0)]
        k = key(STok(tok_info("t'0")), case)
        if c.branch(asm.attrs['macros'].present(k)):
            few = n.t - 1 < z3.Int('nparameters')
            if c.branch(few):
                reject = True
            else:
                want.append(('expand', asm.attrs['macros'][k], asm, toks))
                reject = None
        elif not c.branch(asm.attrs['instructions'].present(k)):
            reject = True
        else:
            v = asm.attrs['instructions'][k]
            if callable(v):
                want.append(('handler', 'instruction', ins))
                reject = c.store.get('outcome') != 0
                if not reject:
                    bytes_ = c.store['blob']
            elif c.branch(n.t != 1):
                reject = True
            else:
                bytes_ = v
    finish(c, nm, got, err, pre, post, c0, asm, want, bytes_, reject)


def finish(c, nm, got, err, pre, post, c0, asm, want, bytes_, reject):
    prove_events(c, nm + '/effects', got, want)
    if reject is None:
        c.prove(nm + '/no-own-bytes', vals.bytes_eq_goal(pre, post))
        return
    if reject:
        if err is None:
            c.fail(nm + '/rejects', 'accepted a statement the property rejects')
        else:
            c.prove(nm + '/reported', reported(err), '%s: %s' % (type(err).__name__, str(err)[:200]))
        c.prove(nm + '/no-bytes', vals.bytes_eq_goal(pre, post))
        return
    if err is not None:
        c.fail(nm + '/accepts', '%s: %s' % (type(err).__name__, str(err)[:200]))
        return
    exp = pre + bytes_ if bytes_ is not None else pre
    c.prove(nm + '/bytes-once', vals.bytes_eq_goal(post, exp))
    ln = lift_int(bytes_.length()) if bytes_ is not None else 0
    c.prove(nm + '/counter', lift_int(asm.attrs['org_counter']) == lift_int(c0) + ln)


def directive_body(c):
    asm, ins, toks, n, rec, case = setup(c, Directive)
    got, err, pre, post, c0 = run(c, Directive.assemble, ins, asm, 'directive')
    nm = 'Directive.assemble'
    name = STok(vals.tok_derive(toks.elem(0).info, '[1:]', lambda L: L[1:]))
    k = key(name, case)
    want = [('subst', 'defines', 2 if bool(name.upper() == 'DEFINE') else 1)]
    reject = False
    if not c.branch(asm.attrs['directives'].present(k)):
        reject = True
    else:
        want.append(('handler', 'directive', ins))
        if err is not None:
            prove_events(c, nm + '/effects', got, want)
            c.prove(nm + '/propagates', isinstance(err, Boom))
            return
    finish(c, nm, got, err, pre, post, c0, asm, want, None, reject)


def label_body(c):
    asm, ins, toks, n, rec, case = setup(c, Label)
    c.add(n.t == 1)
    got, err, pre, post, c0 = run(c, Label.assemble, ins, asm, 'label')
    nm = 'Label.assemble'
    t = STok(tok_info('t0'))
    want = []
    if rec is not None:
        reject = True
    elif c.branch(asm.attrs['labels'].present(t)):
        reject = True
    elif not c.branch(z3.Bool('valid name(%s)' % t.key)):
        reject = True
    else:
        if 'number' not in c.store:
            c_try_number(c)
        reject = c.store['number'] != 1
    if reject:
        finish(c, nm, got, err, pre, post, c0, asm, [], None, True)
        return
    if err is not None:
        c.fail(nm + '/accepts', repr(err))
        return
    ok = len(got) == 1 and got[0][:3] == ('store', 'labels', 'tok:t0') and isinstance(got[0][3], dict)
    if not ok:
        c.fail(nm + '/defined-once', repr(got))
        return
    d = got[0][3]
    c.prove(nm + '/address', z3.And(lift_int(d['base']) + lift_int(d['org']) == z3.Int('current_org') + z3.Int('org_counter')))
    c.prove(nm + '/address-parts', z3.And(lift_int(d['base']) == z3.Int('org_counter'), lift_int(d['org']) == z3.Int('current_org')))
    c.prove(nm + '/section', d.get('section') is asm.attrs['current_section'])
    c.prove(nm + '/frame', z3.And(vals.bytes_eq_goal(pre, post), lift_int(asm.attrs['org_counter']) == lift_int(c0)))


def c_try_number(c):
    c.store['number'] = 1 if c.choose(2) else 0


# ---- assemble(): every statement once, in source order -----------------------
class EachStatement(Rule):
    def __init__(self, asm):
        self.asm = asm

    def matches(self, it):
        return isinstance(it, SSeq) and it.name == 'statements'

    def havoc(self):
        c = core.CTX
        a = self.asm.attrs
        a['assembled_bytes'] = opaque_bytes(c.fresh('image'), True)
        for k in ('org_counter', 'current_org', 'current_org_end'):
            a[k] = fresh_int(c.fresh(k), 0, None)

    def start(self, j, x, fr):
        self.havoc()
        core.CTX.store['events'] = []
        return x

    def after(self, x, st, out=None, fr=None):
        c = core.CTX
        if out[0] == 'raise':
            c.prove('assemble/stops-on-error', isinstance(out[1], Boom) and len(events()) == 1, repr(out[1]))
            return
        if out[0] != 'normal':
            c.fail('assemble/statement-loop-leaves', out[0])
            return
        prove_events(c, 'assemble/each-statement-once', events(), [('assemble', x, self.asm)])

    def leave(self, it, fr):
        self.havoc()
        core.CTX.store['events'] = []
        return None


class Statement_(vals.SymBase):
    def __init__(self, k):
        self.k = k

    def assemble(self, asm):
        event('assemble', self, asm)
        a = asm.attrs
        a['assembled_bytes'] = a['assembled_bytes'] + opaque_bytes('stmtbytes')
        if core.CTX.choose(2):
            raise Boom()

    def __str__(self):
        return '<statement>'

    def __format__(self, s):
        return '<statement>'


def assemble_body(c):
    code, context = models.OpaqueStr('source'), models.OpaqueStr('context')
    memo = {}

    def elem(k):
        kk = str(z3.simplify(k))
        return memo.setdefault(kk, Statement_(kk))
    n = fresh_int('nstatements', 0, None)
    stmts = SSeq(n, elem, 'statements')
    made = []

    class Tok(vals.SymBase):
        statements = ()

        def parse(self, text):
            event('parse', text)
            self.statements = stmts

    def mk(cc, args, kw):
        t = Tok()
        ctxt = isa.bind(args, kw, ('case_sensitive', 'context'), dict(case_sensitive=False, context=None))[1]
        event('tokenizer', ctxt)
        made.append(t)
        return t
    c.static['contracts'] = {'necroassembler.tokenizer.Tokenizer': mk}
    asm = SObj(Assembler, dict(assembled_bytes=opaque_bytes('image', True), org_counter=fresh_int('ctr', 0), current_org=fresh_int('org', 0),
                               current_org_end=fresh_int('orgend', 0), fill_value=fresh_int('fillv', 0, 255), log=SBool(z3.Bool('log')),
                               current_section=None), host=Assembler())
    c.static['rules'] = [EachStatement(asm)]
    interp.icall(Assembler.assemble, (asm, code, context), {})
    c.prove('assemble/source-tokenized-once', len(made) == 1)


def units(tier, dep=False):
    out = match_units()
    if dep:
        return out
    out += bounded_match_units(tier)
    out.append(Unit('C10.instruction', instruction_body, [ST + 'Instruction.assemble', ASM + 'append_assembled_bytes']))
    out.append(Unit('C10.directive', directive_body, [ST + 'Directive.assemble']))
    out.append(Unit('C10.label', label_body, [ST + 'Label.assemble']))
    out.append(Unit('C10.assemble-loop', assemble_body, [ASM + 'assemble']))
    from . import p_c10r
    return out + p_c10r.units()


def ref_match(tokens, pats, start, bound):
    rest = tokens[start:]
    if len(rest) < len(pats) or (not bound and len(rest) != len(pats)):
        return (False, None) if bound else False
    for t, p in zip(rest, pats):
        if p is None:
            good = True
        elif isinstance(p, str):
            good = t.upper() == p.upper()
        elif callable(p):
            good = bool(p(t))
        else:
            good = t.upper() in [x.upper() for x in p]
        if not good:
            return (False, None) if bound else False
    return (True, start + len(pats)) if bound else True


WORDS = ['a', 'A', 'b', 'ab', 'AB', 'HL', 'hl', 'h', '(', ')', '[', '#', '#3', '1', 'x']


def digit(t):
    return t.isdigit()


def hashed(t):
    return t.startswith('#')


def concrete(conc, tier, rng, wits, deadline):
    from . import progs, p_c10r
    p_c10r.concrete(conc, tier, rng, deadline)
    for _ in range(4000 if tier == 'quick' else 60000):
        toks = ['op'] + [rng.choice(WORDS) for _ in range(rng.randrange(0, 6))]
        start = min(rng.choice((1, 1, 1, 2, 3, 0)), len(toks))
        n = max(0, len(toks) - start + rng.choice((0, 0, 0, 0, -1, 1, -2)))
        pats = []
        for k in range(n):
            x = toks[start + k] if start + k < len(toks) and rng.random() < 0.85 else rng.choice(WORDS)
            if rng.random() < 0.3:
                x = x.swapcase()
            pats.append(rng.choice((None, x, x, (x,), (rng.choice(WORDS), x), [x, rng.choice(WORDS)], digit if x.isdigit() else x,
                                    hashed if x.startswith('#') else (), digit if rng.random() < 0.1 else x)))
        ins = Instruction(list(toks), 1, None)
        for name in ('match', 'unbound_match'):
            try:
                got = getattr(ins, name)(*pats, start=start)
                got = bool(got) if name == 'match' else (bool(got[0]), got[1])
            except Exception as e:
                got = repr(e)
            pp = [p.__name__ if callable(p) else p for p in pats]
            conc.case(dict(function=name, tokens=toks, patterns=pp, start=start), ref_match(toks, pats, start, name != 'match'), got,
                      key='%s %r %r %d' % (name, toks, pp, start))
    progs.run(conc, tier, rng, min(deadline, deadline), 'C10', 16000 if tier == 'quick' else 200000)
