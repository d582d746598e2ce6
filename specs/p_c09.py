"""C09: macro expansion and defines substitute exactly the named identifiers."""
import z3
from pyvc import core, interp, vals, models, strs, loops
from pyvc.core import Unsupported, PathKill
from pyvc.driver import Unit
from pyvc.loops import Rule, Poison
from pyvc.models import SSeq, SRange, SEnum, SPairs
from pyvc.vals import (SymBase, SInt, SBool, STok, SymTokens, SObj, is_sym, lift_int, mk_bool, mk_int, fresh_int, tok_info)
from necroassembler import utils
from necroassembler.assembler import Assembler
from necroassembler.macros import Macro
from necroassembler.statements import Instruction, Directive
from necroassembler.exceptions import AssemblerException
from .objs import OMap, event, events, prove_events
from .isa import ASM
from . import isa, refasm, p_c10
from .p_c10 import Boom, reported

LEVEL = 'proof'
ASSUMPTIONS = ['names and parameter names are not empty (tokens never are)',
               'the tokens a statement gets from the tokenizer are those of C08; dispatch of a macro call is C10']
UT = 'necroassembler.utils.'
MA = 'necroassembler.macros.Macro.'


def ident(x):
    """goal: code point x belongs to an identifier"""
    x = strs.code(x)
    return z3.Or(z3.And(x >= 48, x <= 57), z3.And(x >= 65, x <= 90), z3.And(x >= 97, x <= 122), x == ord('_'), x == ord('.'))


class Subst(SymBase):
    """the dictionary given to the substitution: any texts"""
    pytype = dict

    def sym_contains(self, k):
        return SBool(self.has(k))

    def key(self, k):
        i = strs.items_of(k)
        if i is None:
            raise Unsupported('dictionary key')
        return repr([x.name if isinstance(x, strs.OSeg) else str(z3.simplify(strs.code(x))) for x in i])

    def has(self, k):
        if not strs.items_of(k):
            return z3.BoolVal(False)
        return z3.Bool('dict.has%s' % self.key(k))

    def __getitem__(self, k):
        if not core.CTX.branch(self.has(k)):
            raise KeyError('substitution')
        return strs.opaque('dict%s' % self.key(k))

    def get(self, k, d=None):
        if not core.CTX.branch(self.has(k)):
            return d
        return strs.opaque('dict%s' % self.key(k))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('dict.%s' % n)


def nonempty(t):
    return core.CTX.branch(lift_int(strs.SStr(strs.items_of(t)).length()) > 0)


def subst_run(d, run):
    """the replacement of a maximal identifier run"""
    if strs.items_of(run) == [] or not nonempty(run):
        return ''
    return d.get(run, run)


def spec_step(d, run, out, ch):
    if core.CTX.branch(ident(strs.items_of(ch)[0])):
        return run + ch, out
    return '', out + subst_run(d, run) + ch


def spec_token(d, name):
    """for a text of explicit characters"""
    if core.CTX.branch(d.has(name)):
        return d[name]
    run, out = '', ''
    for k, x in enumerate(strs.items_of(name)):
        run, out = spec_step(d, run, out, strs.mk([x]))
    return out + subst_run(d, run)


# -- unbounded: any token list, any token ------------------------------------
class Toks(SymBase):
    """the token list: unknown length, unknown texts; stores are recorded"""
    pytype = list

    def __init__(self, n):
        self.n, self.stores, self.cur = n, [], None

    def length(self):
        return self.n

    def __getitem__(self, i):
        if isinstance(i, SInt) and self.cur is not None and core.CTX.entails(i.t == self.cur[0]):
            return self.cur[1]
        raise Unsupported('token outside the loop position')

    def __setitem__(self, i, v):
        if core.CTX.merging:
            raise core.Impure('store')
        self.stores.append((i, v))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('list.%s' % n)


class Positions(Rule):
    def __init__(self, toks, start, d):
        self.toks, self.lo, self.d, self.seen = toks, start, d, 0

    def matches(self, it):
        return isinstance(it, SRange)

    def length(self, it):
        a, b = lift_int(it.a), lift_int(it.b)
        return z3.If(b > a, b - a, z3.IntVal(0))

    def entry(self, it, fr):
        c = core.CTX
        self.seen += 1
        if it.step != 1:
            raise Unsupported('step')
        c.prove('substitute/positions', z3.And(lift_int(it.a) == lift_int(self.lo), lift_int(it.b) == lift_int(self.toks.n)))
        c.prove('substitute/nothing-before', not self.toks.stores)

    def start(self, j, x, fr):
        name = strs.opaque('name', nonempty=True)
        self.toks.cur = (x.t if isinstance(x, SInt) else z3.IntVal(x), name)
        self.toks.stores = []
        return x, name

    def after(self, tok, x, out, fr):
        c = core.CTX
        i, name = tok
        if out[0] != 'normal':
            c.fail('substitute/leaves', repr(out))
            return
        st = self.toks.stores
        if c.branch(self.d.has(name)):
            want = self.d[name]
        else:
            want = strs.SStr([strs.OSeg('rebuilt'), ]) + subst_run(self.d, strs.opaque('run'))
        if not st:
            c.prove('substitute/token', strs.eq_goal(name, want), 'not stored')
            return
        ok = z3.And([lift_int(a) == lift_int(i) for a, _ in st])
        v = st[-1][1]
        c.prove('substitute/frame', ok)
        c.prove('substitute/token', strs.eq_goal(v, want) if strs.items_of(v) is not None else False, 'stored %r, specified %r' % (v, want))

    def leave(self, it, fr):
        self.toks.stores = []
        self.toks.cur = None


class Runs(Rule):
    """the loop over the characters of a token: state (current identifier run, rebuilt text)"""

    def __init__(self, d):
        self.d = d

    def matches(self, it):
        return isinstance(it, strs.SStr) and it.fixed() is None

    def elem(self, it, j):
        return strs.char('next')

    def __call__(self, node, it, fr):
        c = core.CTX
        self.node = node
        names = loops.assigned_names(node.body) - loops.assigned_names([])
        carried = sorted(n for n in names if n in fr.vars and not isinstance(fr.vars[n], Poison) and n not in
                         {x.id for x in __import__('ast').walk(node.target) if hasattr(x, 'id')})
        if len(carried) != 2:
            raise Unsupported('state of the character loop (%s)' % carried)
        before = {n: fr.vars[n] for n in carried}
        c.prove('substitute/initial-state', all(v == '' and isinstance(v, str) for v in before.values()))
        # which one is the current run?
        for n in carried:
            fr.vars[n] = ''
        interp.assign(node.target, 'a', fr)
        interp.exec_block(node.body, fr)
        grown = [n for n in carried if fr.vars[n] == 'a']
        if len(grown) != 1:
            raise Unsupported('state of the character loop')
        self.run = grown[0]
        self.out = [n for n in carried if n != self.run][0]
        fr.vars.update(before)
        self.keep = (self.run, self.out)
        return Rule.__call__(self, node, it, fr)

    def entry(self, it, fr):
        core.CTX.prove('substitute/text', strs.eq_goal(it, strs.opaque('name', nonempty=True)))

    def start(self, j, x, fr):
        run, out = strs.opaque('run'), strs.opaque('rebuilt')
        fr.vars[self.run], fr.vars[self.out] = run, out
        return run, out, x

    def after(self, tok, x, out, fr):
        c = core.CTX
        run, reb, ch = tok
        if out[0] != 'normal':
            c.fail('substitute/step-leaves', repr(out))
            return
        r, o = spec_step(self.d, run, reb, ch)
        for nm, got, want in (('run', fr.vars[self.run], r), ('rebuilt', fr.vars[self.out], o)):
            c.prove('substitute/step-' + nm, strs.eq_goal(got, want) if strs.items_of(got) is not None else False, '%r, specified %r' % (got, want))

    def leave(self, it, fr):
        fr.vars[self.run], fr.vars[self.out] = strs.opaque('run'), strs.opaque('rebuilt')


def substitute_body(c):
    toks, d = Toks(fresh_int('ntokens', 0)), Subst()
    start = fresh_int('start', 0)
    rule = Positions(toks, start, d)
    c.static['rules'] = [rule, Runs(d)]
    try:
        interp.icall(utils.substitute_with_dict, (toks, d, start), {})
    except Exception as e:
        c.fail('substitute/exception', '%s: %s' % (type(e).__name__, e))
        return
    c.prove('substitute/loops-over-the-tokens', rule.seen == 1 and not toks.stores)


def small_substitute(shape, start):
    def body(c):
        toks = [strs.text('tok%d' % i, k) for i, k in enumerate(shape)]
        before = list(toks)
        d = Subst()
        try:
            interp.icall(utils.substitute_with_dict, (toks, d, start), {})
        except Exception as e:
            c.fail('substitute/exception', '%s: %s' % (type(e).__name__, e))
            return
        c.prove('substitute/length', len(toks) == len(shape))
        for i, b in enumerate(before):
            want = b if i < start else spec_token(d, b)
            c.prove('substitute/token', strs.eq_goal(toks[i], want), '%r, specified %r' % (toks[i], want))
    return body


def valid_body(c):
    ch = strs.char('x')
    r = interp.icall(utils.is_valid_name, (ch,), {})
    c.prove('is_valid_name/character', vals.lift_bool(r) == ident(strs.items_of(ch)[0]))


class Name(Rule):
    def matches(self, it):
        return isinstance(it, strs.SStr) and it.fixed() is None

    def elem(self, it, j):
        return strs.char('next')

    def start(self, j, x, fr):
        return x

    def after(self, ch, x, out, fr):
        c = core.CTX
        ok = ident(strs.items_of(ch)[0])
        if out[0] == 'normal':
            c.prove('is_valid_name/goes-on', ok)
        elif out[0] == 'return':
            c.prove('is_valid_name/stops', z3.And(z3.Not(ok), z3.BoolVal(out[1] is False)))
        else:
            c.fail('is_valid_name/leaves', repr(out))

    def leave(self, it, fr):
        if core.CTX.branch(z3.Bool('all characters valid')):
            return None
        return ('return', False)


def valid_name_body(c):
    c.static['rules'] = [Name()]
    r = interp.icall(utils.is_valid_name, (strs.opaque('name'),), {})
    c.prove('is_valid_name/result', vals.lift_bool(r) == z3.Bool('all characters valid'))


# -- macros --------------------------------------------------------------------
class TList(SymBase):
    """tokens of a recorded instruction: what they are is the term `content`"""
    pytype = list

    def __init__(self, content):
        self.content = content

    def copy(self):
        return TList(self.content)

    def __getitem__(self, i):
        if i == slice(None, None, None):
            return self.copy()
        raise Unsupported('tokens of a recorded instruction')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('list.%s' % n)


class ArgMap(SymBase):
    """{parameter k: argument k for every k}"""
    pytype = dict

    def __init__(self):
        self.stores = []
        self.full = False

    def __setitem__(self, k, v):
        if core.CTX.merging:
            raise core.Impure('store')
        self.stores.append((k, v))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('dict.%s' % n)


def argname(content):
    return repr(content)


class Parameters(Rule):
    """for k, p in enumerate(params): d[p] = args[k]"""

    def __init__(self, params, call):
        self.params, self.call = params, call

    def matches(self, it):
        if isinstance(it, SRange):          # for k in range(len(params)): d[params[k]] = args[k]
            return it.step == 1 and core.CTX.entails(lift_int(it.a) == 0) and core.CTX.entails(lift_int(it.b) == lift_int(self.params.n))
        s = it.seq if isinstance(it, SEnum) else it
        return isinstance(s, SSeq) and (s.name == 'parameters' or getattr(s, 'parts', None) and s.parts[0].name == 'parameters')

    def dicts(self, fr):
        return [n for n, v in fr.vars.items() if isinstance(v, dict) and not v]

    def entry(self, it, fr):
        ds = self.dicts(fr)
        if len(ds) != 1:
            raise Unsupported('the argument dictionary cannot be identified')
        self.name = ds[0]
        if isinstance(it, SRange):
            return
        s = it.seq if isinstance(it, SEnum) else it
        core.CTX.prove('Macro.assemble/every-parameter', lift_int(s.n) == lift_int(self.params.n))

    def start(self, j, x, fr):
        m = ArgMap()
        fr.vars[self.name] = m
        return m, j

    def after(self, tok, x, out, fr):
        c = core.CTX
        m, j = tok
        if out[0] != 'normal':
            c.fail('Macro.assemble/argument-missing', repr(out))
            return
        if len(m.stores) != 1:
            c.fail('Macro.assemble/one-argument-per-parameter', repr(m.stores))
            return
        k, v = m.stores[0]
        self.position(k, v, j)

    def position(self, k, v, j):
        wk = self.params.elem(j)
        core.CTX.prove('Macro.assemble/argument-position', isinstance(k, STok) and isinstance(v, STok) and k.key == wk.key and self.same(v, j),
                       '%s := %s' % (getattr(k, 'key', k), getattr(v, 'key', v)))

    def is_map(self, d):
        """d maps parameter k to argument k, for every k"""
        c = core.CTX
        if isinstance(d, ArgMap):
            return d.full
        if isinstance(d, SPairs):           # dict(zip(params, args)), {p: a for ...}
            if not c.entails(lift_int(d.pairs.n) == lift_int(self.params.n)):
                return False
            if c.branch(lift_int(self.params.n) > 0):
                j = z3.Int(c.fresh('parameter'))
                c.assume(z3.And(j >= 0, j < lift_int(self.params.n)))
                e = d.pairs.elem(j)
                if not (isinstance(e, tuple) and len(e) == 2):
                    return False
                self.position(e[0], e[1], j)
            return True
        if isinstance(d, dict) and not d and c.entails(lift_int(self.params.n) == 0):
            return True
        raise Unsupported('the argument dictionary')

    def same(self, v, j):
        i = core.CTX.store['calls'].get(v.key)
        return i is not None and core.CTX.entails(i == j + 1)

    def leave(self, it, fr):
        m = ArgMap()
        m.full = True
        fr.vars[self.name] = m


class Body(Rule):
    def __init__(self, mk, check):
        self.mk, self.check = mk, check

    def matches(self, it):
        return isinstance(it, SSeq) and it.name == 'instructions'

    def entry(self, it, fr):
        core.CTX.prove('Macro.assemble/nothing-before', not events())

    def elem(self, it, j):
        return self.mk(j)

    def start(self, j, x, fr):
        core.CTX.store['events'] = []
        return x

    def after(self, ins, x, out, fr):
        self.check(ins, out)

    def leave(self, it, fr):
        core.CTX.store['events'] = []
        if core.CTX.choose(2):
            raise Boom()


def c_subst(c, args, kw):
    tokens, d, start = isa.bind(args, kw, ('tokens', '_dict', 'start'))
    if not isinstance(tokens, TList):
        raise Unsupported('substitution on something else')
    tokens.content = ('substituted', tokens.content, d, start)


def c_assemble(c, args, kw):
    ins = args[0]
    event('assemble', ins, args[1], ins.attrs['tokens'].content)
    ins.attrs['tokens'].content = ('changed by defines', ins.attrs['tokens'].content)
    if c.choose(2):
        raise Boom()


def expand_setup(c):
    c.static['contracts'] = {UT + 'substitute_with_dict': c_subst, 'necroassembler.statements.Instruction.assemble': c_assemble}
    c.static['real_str'] = True


def check_expansion(is_map, asm):
    def check(ins, out):
        c = core.CTX
        nm = 'Macro.assemble'
        if out[0] == 'raise' and not isinstance(out[1], Boom):
            c.fail(nm + '/exception', repr(out[1]))
            return
        if out[0] not in ('raise', 'normal'):
            c.fail(nm + '/leaves', out[0])
            return
        ev = events()
        ok = len(ev) == 1 and ev[0][0] == 'assemble' and ev[0][1] is ins and ev[0][2] is asm
        c.prove(nm + '/each-instruction-once', ok, repr(ev))
        if ok:
            t = ev[0][3]
            c.prove(nm + '/tokens-substituted', isinstance(t, tuple) and t[0] == 'substituted' and t[1] == 'recorded' and t[3] == 0 and is_map(t[2]), repr(t))
        c.prove(nm + '/macro-unchanged', isinstance(ins.attrs['tokens'], TList) and ins.attrs['tokens'].content == 'recorded',
                'tokens after the expansion: %r' % (getattr(ins.attrs['tokens'], 'content', None),))
    return check


def indexed(name, calls=None):
    def elem(k):
        k = z3.simplify(k if not isinstance(k, int) else z3.IntVal(k))
        t = STok(tok_info('%s[%s]' % (name, k)))
        if calls is not None:
            core.CTX.store.setdefault(calls, {})[t.key] = k
        return t
    return elem


def expand_body(c):
    expand_setup(c)
    np = fresh_int('nparameters', 0)
    nc = fresh_int('ncall', 1)
    c.add(nc.t - 1 >= np.t)
    params = SSeq(np, indexed('parameter'), 'parameters')
    call = SSeq(nc, indexed('call', 'calls'), 'call')
    instrs = SSeq(fresh_int('ninstructions', 0), None, 'instructions')
    macro = SObj(Macro, dict(name=models.OpaqueStr('macro'), args=params, instructions=instrs))
    asm = SObj(Assembler, {}, name='assembler')

    def mk(j):
        return SObj(Instruction, dict(tokens=TList('recorded'), line=1, context=None))
    par = Parameters(params, call)
    c.static['rules'] = [Body(mk, check_expansion(par.is_map, asm)), par]
    run_expand(c, macro, asm, call)
    c.prove('Macro.assemble/frame', macro.attrs['args'] is params and macro.attrs['instructions'] is instrs)


def run_expand(c, macro, asm, call):
    try:
        interp.icall(Macro.assemble, (macro, asm, call), {})
        return None
    except Boom as e:
        return e
    except Exception as e:
        c.fail('Macro.assemble/exception', '%s: %s' % (type(e).__name__, e))


def small_expand(params, nins):
    def body(c):
        expand_setup(c)
        n = fresh_int('ncall', 1)
        c.add(n.t - 1 >= len(params))
        call = SymTokens('call', n)
        recorded = [SObj(Instruction, dict(tokens=TList('recorded'), line=k, context=None), name='instruction%d' % k) for k in range(nins)]
        before = list(recorded)
        macro = SObj(Macro, dict(name='m', args=list(params), instructions=recorded))
        asm = SObj(Assembler, {}, name='assembler')
        err = run_expand(c, macro, asm, call)
        want = {}
        for k, p in enumerate(params):
            want[p] = 'call%d' % (k + 1)

        def is_map(d):
            return isinstance(d, dict) and set(d) == set(want) and all(isinstance(v, STok) and v.key == want[p] for p, v in d.items())
        ev = events()
        done = before if err is None else before[:len(ev)]
        c.prove('Macro.assemble/order', [e[1] for e in ev] == done and (err is None or bool(ev)), repr(ev))
        c.prove('Macro.assemble/frame', macro.attrs['args'] == list(params) and macro.attrs['instructions'] == before)
        for e in ev:
            t = e[3]
            c.prove('Macro.assemble/tokens-substituted', isinstance(t, tuple) and t[0] == 'substituted' and t[1] == 'recorded' and t[3] == 0 and is_map(t[2]), repr(t))
        for i in before:
            c.prove('Macro.assemble/macro-unchanged', isinstance(i.attrs['tokens'], TList) and i.attrs['tokens'].content == 'recorded')
    return body


# -- .macro, .endmacro, .define -------------------------------------------------
def asm_obj(c, **kw):
    a = dict(macro_recording=None, case_sensitive=SBool(z3.Bool('case_sensitive')), defines=OMap('defines', log=lambda e: event(*e)),
             macros=OMap('macros', log=lambda e: event(*e)))
    a.update(kw)
    return SObj(Assembler, a, host=Assembler())


def directive(c, name, asm, shape=None):
    c.static['real_str'] = True
    n = fresh_int('ntokens', 1)
    toks = SymTokens('t', n)
    ins = SObj(Directive, dict(tokens=toks, line=p_c10.LINE, context=None))
    err = None
    try:
        interp.icall(interp.getattr_(asm, name), (ins,), {})
    except Exception as e:
        err = e
    return toks, n, err


def handler_of(name):
    return Assembler().directives[name.upper()].__name__


def macro_start_body(c):
    rec = SObj(Macro, {}, name='recording') if c.choose(2) else None
    asm = asm_obj(c, macro_recording=rec)
    toks, n, err = directive(c, handler_of('macro'), asm)
    nm = 'macro'
    if rec is not None or not c.branch(n.t >= 2):
        c.prove(nm + '/rejects', err is not None and not events())
        if rec is not None:
            c.prove(nm + '/reported', reported(err))
        return
    if err is not None:
        c.fail(nm + '/accepts', repr(err))
        return
    t = STok(tok_info('t1'))
    k = p_c10.key(t, z3.Bool('case_sensitive'))
    ev = events()
    ok = len(ev) == 1 and ev[0][0] == 'store' and ev[0][1] == 'macros' and ev[0][2] == 'tok:' + k.key and isinstance(ev[0][3], SObj) and ev[0][3].cls is Macro
    c.prove(nm + '/registered', ok, repr(ev))
    if not ok:
        return
    m = ev[0][3]
    c.prove(nm + '/recording', asm.attrs['macro_recording'] is m)
    c.prove(nm + '/no-instructions-yet', m.attrs['instructions'] == [])
    a = m.attrs['args']
    if isinstance(a, SymTokens):
        c.prove(nm + '/parameters', z3.And(z3.BoolVal(a.name == 't' and a.start == 2), lift_int(a.length()) == n.t - 2))
    elif isinstance(a, list):
        c.prove(nm + '/parameters', z3.And(n.t == len(a) + 2, z3.BoolVal([x.key for x in a] == ['t%d' % (k + 2) for k in range(len(a))])))
    else:
        raise Unsupported('representation of the parameters')


def macro_end_body(c):
    rec = SObj(Macro, {}, name='recording') if c.choose(2) else None
    asm = asm_obj(c, macro_recording=rec)
    toks, n, err = directive(c, handler_of('endmacro'), asm)
    if rec is None:
        c.prove('endmacro/rejects', err is not None and reported(err))
    else:
        c.prove('endmacro/accepts', err is None, repr(err))
        c.prove('endmacro/recording-stops', asm.attrs['macro_recording'] is None)
    c.prove('endmacro/no-other-effect', not events())


def record_body(c):
    m = interp.construct(Macro, (['m', 'p', 'q'],), {})
    a, b = (SObj(Instruction, {}, name=x) for x in 'ab')
    for i in (a, b, a):
        interp.icall(interp.getattr_(m, 'add_instruction'), (i,), {})
    c.prove('add_instruction/in-order', len(m.attrs['instructions']) == 3 and all(x is y for x, y in zip(m.attrs['instructions'], (a, b, a))))
    m2 = interp.construct(Macro, (['n'],), {})
    c.prove('Macro.__init__/own-list', m2.attrs['instructions'] == [] and m2.attrs['instructions'] is not m.attrs['instructions'])
    c.prove('Macro.__init__/parameters', list(m.attrs['args']) == ['p', 'q'] and list(m2.attrs['args']) == [])


def define_body(c):
    asm = asm_obj(c)
    toks, n, err = directive(c, handler_of('define'), asm)
    if not c.branch(n.t == 3):
        c.prove('define/rejects', err is not None and reported(err) and not events(), repr(err))
        return
    if err is not None:
        c.fail('define/accepts', repr(err))
        return
    ev = events()
    ok = len(ev) == 1 and ev[0][:3] == ('store', 'defines', 'tok:t1') and isinstance(ev[0][3], STok) and ev[0][3].key == 't2'
    c.prove('define/replaces', ok, repr(ev))


def register_define_body(c):
    class Names:
        pass
    c.static['contracts'] = {UT + 'is_valid_name': p_c10.c_valid}
    asm = asm_obj(c)
    name, value = STok(tok_info('name')), STok(tok_info('value'))
    err = None
    try:
        interp.icall(Assembler.register_define, (asm, name, value), {})
    except Exception as e:
        err = e
    if not c.branch(z3.Bool('valid name(name)')):
        c.prove('register_define/rejects', isinstance(err, AssemblerException) and not events(), repr(err))
        return
    ev = events()
    c.prove('register_define/stores', err is None and len(ev) == 1 and ev[0][:3] == ('store', 'defines', 'tok:name') and getattr(ev[0][3], 'key', None) == 'value', repr((err, ev)))


def separate_body(c):
    """defines and macros belong to one assembler"""
    a, b = Assembler(), Assembler()
    c.prove('Assembler.__init__/own-defines', a.defines is not b.defines and a.defines is not type(a).defines)
    c.prove('Assembler.__init__/own-macros', a.macros is not b.macros)


def units(tier, dep=False):
    if dep:
        return []
    out = [Unit('C09.substitute', substitute_body, [UT + 'substitute_with_dict']),
           Unit('C09.is_valid_name.character', valid_body, [UT + 'is_valid_name']),
           Unit('C09.is_valid_name', valid_name_body, [UT + 'is_valid_name']),
           Unit('C09.expand', expand_body, [MA + 'assemble']),
           Unit('C09.macro', macro_start_body, [ASM + 'macro_start', MA + '__init__']),
           Unit('C09.endmacro', macro_end_body, [ASM + 'macro_end']),
           Unit('C09.record', record_body, [MA + 'add_instruction', MA + '__init__']),
           Unit('C09.define', define_body, [ASM + 'directive_define']),
           Unit('C09.register_define', register_define_body, [ASM + 'register_define']),
           Unit('C09.separate', separate_body, [ASM + '__init__'])]
    # the dispatch of C10 decides where defines apply; its units are repeated here for the substitution calls
    out.append(Unit('C09.instruction', p_c10.instruction_body, [p_c10.ST + 'Instruction.assemble']))
    out.append(Unit('C09.directive', p_c10.directive_body, [p_c10.ST + 'Directive.assemble']))
    for shape in ((), (1,), (2,), (3,), (1, 1, 2)) if tier == 'quick' else ((), (1,), (2,), (3,), (4,), (1, 1, 2), (2, 2, 2)):
        for start in (0, 1, 2) if len(shape) != 1 else (0,):
            out.append(Unit('C09.substitute.%s.%d' % ('-'.join(map(str, shape)) or 'none', start), small_substitute(shape, start), [UT + 'substitute_with_dict'],
                            bounded='tokens of %s characters' % (list(shape),)))
    for params in ((), ('p',), ('p', 'q'), ('p', 'q', 'p')):
        for nins in (0, 1, 2):
            out.append(Unit('C09.expand.%d.%d' % (len(params), nins), small_expand(params, nins), [MA + 'assemble'],
                            bounded='%d parameters, %d instructions' % (len(params), nins)))
    return out


WORDS = ['a', 'b', 'ab', 'a.b', '_x', 'FOO', 'foo', '10', 'x1', '.', 'é']
OPS = list('+-*/&|<>#$"\'; @') + ['\u00b2', '\u0661']


def concrete(conc, tier, rng, wits, deadline):
    from . import progs
    for _ in range(20000 if tier == 'quick' else 300000):
        d = {rng.choice(WORDS) if rng.random() < 0.9 else rng.choice(WORDS) + rng.choice(OPS) + rng.choice(WORDS): rng.choice(WORDS + ['1+2', '(a)', ''])
             for _ in range(rng.randrange(0, 4))}
        toks = [''.join(rng.choice(WORDS + OPS) for _ in range(rng.randrange(1, 6))) for _ in range(rng.randrange(0, 4))]
        start = rng.randrange(0, 3)
        got = list(toks)
        try:
            utils.substitute_with_dict(got, dict(d), start)
        except Exception as e:
            got = repr(e)
        conc.case(dict(function='substitute_with_dict', tokens=toks, dictionary=d, start=start),
                  toks[:start] + [refasm.replace(t, d) for t in toks[start:]], got, key='%r %r %d' % (toks, d, start))
    progs.run(conc, tier, rng, deadline, 'C09', 16000 if tier == 'quick' else 200000)
