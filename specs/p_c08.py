"""C08: the tokenizer splits any source text into the right statements and lines.

The property is an induction over the characters of the text: a state is (mode, word, tokens of the open
statement, finished statements, line).  Every unit starts from an arbitrary state (unknown word, unknown
token list, unknown finished statements, unknown line) and executes the real code on an arbitrary character."""
import z3
from pyvc import core, interp, vals, models, strs
from pyvc.core import Unsupported, PathKill
from pyvc.driver import Unit
from pyvc.loops import Rule
from pyvc.vals import SymBase, SInt, SBool, SObj, is_sym, lift_int, mk_bool, mk_int, fresh_int
from necroassembler import tokenizer as tk_mod
from necroassembler.tokenizer import Tokenizer
from necroassembler.statements import Instruction, Directive, Label
from . import refasm

LEVEL = 'proof'
ASSUMPTIONS = ['a text that ends inside an open quote has no specified statements',
               'the induction over the characters of the text (base: the constructor; step: the obligations) is the loop rule of pyvc']
TK = 'necroassembler.tokenizer.Tokenizer.'
MODES = {'token': '', 'string': '"', 'string-escape': '"\\', 'char': "'", 'char-escape': "'\\", 'comment': ';'}
DATA = ('current_token', 'statements', 'tokens', 'line', 'case_sensitive', 'context')


class SList(SymBase):
    """a list: an unknown run of old elements (its first element known when `first` is given) and what was appended"""
    pytype = list

    def __init__(self, name, n, first=None, new=()):
        self.name, self.n, self.first, self.new = name, n, first, list(new)

    def append(self, x):
        if core.CTX.merging:
            raise core.Impure('append')
        self.new.append(x)

    def length(self):
        return mk_int(lift_int(self.n) + len(self.new))

    def __bool__(self):
        if self.new:
            return True
        return bool(mk_bool(lift_int(self.n) > 0))

    def __getitem__(self, i):
        if isinstance(i, int) and i == 0:
            if bool(mk_bool(lift_int(self.n) > 0)):
                if self.first is None:
                    raise Unsupported('first element of an unknown list')
                return self.first
            return self.new[0]
        if isinstance(i, int) and i < 0 and -i <= len(self.new):
            return self.new[i]
        if isinstance(i, slice) and i == slice(None, None, None):
            return self.copy()
        raise Unsupported('element of an unknown list')

    def copy(self):
        return SList(self.name, self.n, self.first, self.new)

    def clear(self):
        self.name, self.n, self.first, self.new = 'empty', 0, None, []

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('list.%s' % n)

    def __str__(self):
        return '<list>'


def parts(l):
    """(name of the unknown run or None, appended elements)"""
    if isinstance(l, list):
        return None, l
    if isinstance(l, SList):
        if isinstance(l.n, int) and l.n == 0:
            return None, l.new
        return l.name, l.new
    return '?', None


def same_text(a, b):
    if a is b:
        return True
    return strs.eq_goal(a, b)


def same_list(l, want):
    """goal: list l is (unknown run `want[0]`) + want[1]"""
    nm, new = parts(l)
    if new is None or nm != want[0] or len(new) != len(want[1]):
        return False
    gs = []
    for a, b in zip(new, want[1]):
        if strs.items_of(a) is None or strs.items_of(b) is None:
            return False
        gs.append(same_text(a, b))
    if any(g is False for g in gs):
        return False
    return z3.And([g for g in gs if g is not True]) if gs else True


def hidden(tk):
    """everything that is not data: the mode"""
    out, skip = {}, bookkeeping()
    for k, v in tk.attrs.items():
        if k not in DATA and k not in skip:
            out[k] = ('method', v.func.__qualname__) if isinstance(v, interp.IBound) and v.self_ is tk else v
    return out


def bookkeeping():
    """attributes that do not depend on the mode alone (two routes to one mode give them different values)"""
    c = core.CTX
    if 'bookkeeping' not in c.static:
        out = set()
        for m in MODES:
            a, b = drive(m).attrs, drive(m, 'ab "cd" (\n\nx: ').attrs
            for k in set(a) | set(b):
                va, vb = a.get(k), b.get(k)
                if isinstance(va, interp.IBound) and isinstance(vb, interp.IBound):
                    va, vb = va.func, vb.func
                if is_sym(va) or is_sym(vb) or va != vb:
                    out.add(k)
        c.static['bookkeeping'] = out
    return c.static['bookkeeping']


def drive(mode, first=''):
    """a tokenizer brought into the mode by the real code"""
    tk = interp.construct(Tokenizer, (), dict(context='ctx'))
    for ch in first + MODES[mode]:
        interp.icall(interp.getattr_(tk, 'step'), (ch,), {})
    return tk


class State:
    def __init__(self, c, mode, tk, k):
        """an arbitrary state of this mode; k chooses the shape of the open statement (0 empty, 1 not)"""
        self.mode = mode
        self.line = SInt(z3.Int('line'))
        c.add(self.line.t >= 1)
        self.word = '' if mode == 'comment' else strs.opaque('word')
        if k == 0 or mode == 'comment':
            self.toks, self.first, lst = (None, []), None, []
        else:
            self.first = strs.opaque('first token', nonempty=True)
            n = fresh_int('ntokens', 1)
            self.toks, lst = ('tokens', []), SList('tokens', n, self.first)
        self.stmts = ('statements', [])
        tk.attrs['line'] = self.line
        tk.attrs['current_token'] = self.word
        tk.attrs['tokens'] = lst
        tk.attrs['statements'] = SList('statements', fresh_int('nstatements', 0))
        tk.attrs['context'] = 'ctx'
        self.err = False

    def first_token(self):
        return self.first if self.toks[0] else self.toks[1][0] if self.toks[1] else None

    def flush(self, c):
        if c.branch(lift_int(strs.SStr(strs.items_of(self.word)).length()) > 0):
            self.toks = (self.toks[0], self.toks[1] + [self.word])
        self.word = ''

    def step(self, c, ch):
        """the specification: one character"""
        x = strs.items_of(ch)[0]

        def is_(s):
            return c.branch(z3.Or([strs.code(x) == ord(y) for y in s]))
        m = self.mode
        if m in ('string', 'char'):
            q = '"' if m == 'string' else "'"
            if is_('\\'):
                self.mode = m + '-escape'
            elif is_(q):
                if c.branch(lift_int(strs.SStr(strs.items_of(self.word)).length()) > 0):
                    self.toks = (self.toks[0], self.toks[1] + [q + self.word + q])
                self.word = ''
                self.mode = 'token'
            else:
                self.word = self.word + ch
        elif m in ('string-escape', 'char-escape'):
            self.word = self.word + ch
            self.mode = m.split('-')[0]
        elif m == 'comment':
            if is_('\n\r'):
                self.mode = 'token'
        elif is_(' \t,\n\r;'):
            self.flush(c)
            if is_('\n\r;'):
                if self.toks[0] or self.toks[1]:
                    f = self.first_token()
                    d = f.startswith('.')
                    kind = Directive if (d if isinstance(d, bool) else c.branch(d.t)) else Instruction
                    self.stmts[1].append((kind, self.toks))
                self.toks = (None, [])
                if is_(';'):
                    self.mode = 'comment'
        elif is_('()[]{}'):
            self.flush(c)
            self.toks = (self.toks[0], self.toks[1] + [ch])
        elif is_('"'):
            self.flush(c)
            self.mode = 'string'
        elif is_("'"):
            self.flush(c)
            self.mode = 'char'
        elif is_(':'):
            if self.toks[0] or self.toks[1] or not c.branch(lift_int(strs.SStr(strs.items_of(self.word)).length()) > 0):
                self.err = True
                return
            self.stmts[1].append((Label, (None, [self.word])))
            self.word = ''
        else:
            self.word = self.word + ch

    def check(self, c, nm, tk, err, line):
        if self.err:
            ok = type(err).__name__ == 'InvalidLabel' and isinstance(err, tk_mod.AssemblerException)
            c.prove(nm + '/label-rejected', ok, repr(err))
            return
        if err is not None:
            c.fail(nm + '/no-exception', '%s: %s' % (type(err).__name__, err))
            return
        ref = drive(self.mode)
        a, b = hidden(tk), hidden(ref)
        same = set(a) == set(b)
        for k in b:
            if not same:
                break
            if is_sym(a[k]) or is_sym(b[k]):
                raise Unsupported('representation of the tokenizer mode (%s)' % k)
            same = a[k] == b[k]
        c.prove(nm + '/mode', same, 'mode %r, specified %s' % (a, self.mode))
        c.prove(nm + '/word', same_text(tk.attrs['current_token'], self.word) if strs.items_of(tk.attrs['current_token']) is not None else False)
        c.prove(nm + '/tokens', same_list(tk.attrs['tokens'], self.toks), repr(parts(tk.attrs['tokens'])))
        c.prove(nm + '/line', lift_int(tk.attrs['line']) == lift_int(line))
        st = tk.attrs['statements']
        n0, new = parts(st)
        if n0 != 'statements' or len(new) != len(self.stmts[1]):
            c.fail(nm + '/statements', '%r' % (new,))
            return
        for got, (kind, toks) in zip(new, self.stmts[1]):
            if not (isinstance(got, SObj) and got.cls is kind):
                c.fail(nm + '/statement-kind', repr(got))
                continue
            t = got.attrs.get('tokens')
            c.prove(nm + '/statement-tokens', same_list(t, toks), repr(t))
            c.prove(nm + '/statement-not-shared', t is not tk.attrs['tokens'])
            c.prove(nm + '/statement-line', lift_int(got.attrs.get('line')) == self.line.t if isinstance(got.attrs.get('line'), (int, SInt)) else False)
            c.prove(nm + '/statement-context', got.attrs.get('context') == 'ctx')


def step_unit(mode):
    def body(c):
        tk = drive(mode)
        s = State(c, mode, tk, c.choose(2))
        ch = strs.char('next')
        err = None
        try:
            interp.icall(Tokenizer.step, (tk, ch), {})
        except Exception as e:
            err = e
        s.step(c, ch)
        s.check(c, 'Tokenizer.step/' + mode, tk, err, s.line)
    return body


class Characters(Rule):
    """the loop over the text: an arbitrary character in an arbitrary state"""

    def __init__(self, tk, src, mode):
        self.tk, self.src, self.mode, self.seen = tk, src, mode, 0

    def matches(self, it):
        return isinstance(it, strs.SStr) and it.fixed() is None

    def entry(self, it, fr):
        c = core.CTX
        self.seen += 1
        c.prove('parse/text', strs.eq_goal(it, self.src + '\n'), repr(it))
        c.prove('parse/once', self.seen == 1)
        self.before(c)

    def before(self, c):
        c.prove('parse/initial-state', z3.And(z3.BoolVal(hidden(self.tk) == hidden(drive('token'))), lift_int(self.tk.attrs['line']) == 1,
                                              z3.BoolVal(self.tk.attrs['current_token'] == '' and self.tk.attrs['tokens'] == [] and self.tk.attrs['statements'] == [])))

    def elem(self, it, j):
        return strs.char('next')

    def start(self, j, x, fr):
        c = core.CTX
        tk2 = drive(self.mode)
        for k, v in tk2.attrs.items():
            if k not in DATA:
                if isinstance(v, interp.IBound) and v.self_ is tk2:
                    v = interp.IBound(self.tk, v.func)
                self.tk.attrs[k] = v
        s = State(c, self.mode, self.tk, c.choose(2))
        return s, x

    def after(self, tok, x, out, fr):
        c = core.CTX
        s, ch = tok
        if out[0] not in ('normal', 'raise'):
            c.fail('parse/leaves', out[0])
            return
        err = out[1] if out[0] == 'raise' else None
        s.step(c, ch)
        line = SInt(z3.If(strs.code(strs.items_of(ch)[0]) == 10, s.line.t + 1, s.line.t))
        s.check(c, 'Tokenizer.parse/' + self.mode, self.tk, err, line)

    def leave(self, it, fr):
        c = core.CTX
        State(c, 'token', self.tk, 0)
        self.snapshot = (dict(self.tk.attrs), list(self.tk.attrs['statements'].new))
        return None


def parse_unit(mode):
    def body(c):
        tk = interp.construct(Tokenizer, (), dict(context='ctx'))
        src = strs.opaque('source')
        rule = Characters(tk, src, mode)
        c.static['rules'] = [rule]
        try:
            interp.icall(Tokenizer.parse, (tk, src), {})
        except Exception as e:
            c.fail('parse/exception', '%s: %s' % (type(e).__name__, e))
            return
        c.prove('parse/loops-over-the-text', rule.seen == 1)
        if rule.seen == 1:
            st = tk.attrs['statements']
            c.prove('parse/nothing-after', isinstance(st, SList) and not st.new and tk.attrs['statements'] is rule.snapshot[0]['statements'])
    return body


def init_unit(c):
    ctxt = models.OpaqueStr('context')
    tk = interp.construct(Tokenizer, (), dict(context=ctxt))
    a = tk.attrs
    c.prove('Tokenizer.__init__/empty', a.get('current_token') == '' and a.get('tokens') == [] and a.get('statements') == [] and a.get('line') == 1)
    c.prove('Tokenizer.__init__/separate', a.get('tokens') is not a.get('statements'))
    c.prove('Tokenizer.__init__/context', a.get('context') is ctxt)
    t2 = interp.construct(Tokenizer, (), {})
    c.prove('Tokenizer.__init__/not-shared', t2.attrs.get('tokens') is not a['tokens'] and t2.attrs.get('statements') is not a['statements'])


def units(tier, dep=False):
    if dep:
        return []
    out = [Unit('C08.init', init_unit, [TK + '__init__'])]
    for m in MODES:
        out.append(Unit('C08.step.' + m, step_unit(m), [TK + 'step']))
    for m in MODES:
        out.append(Unit('C08.parse.' + m, parse_unit(m), [TK + 'parse']))
    return out


ALPHA = 'ab0x.$#_ \t,\n\r;:()[]{}"\'\\+-'


def real(src):
    tk = Tokenizer(context=None)
    try:
        tk.parse(src)
    except Exception as e:
        return ('error', type(e).__name__, getattr(tk, 'line', None))
    return [(type(s).__name__.lower(), list(s.tokens), s.line) for s in tk.statements]


def want(src):
    try:
        st, open_ = refasm.statements(src)
    except refasm.Reject as e:
        return ('error', 'InvalidLabel', e.line)
    return None if open_ else st


def gen(rng):
    k = rng.random()
    n = rng.choice((1, 2, 3, 5, 8, 13, 30))
    if k < 0.4:
        return ''.join(rng.choice(ALPHA) for _ in range(n))
    if k < 0.7:
        w = ['.db', 'LDA', 'x:', 'lab', '"a;b"', "'c'", '"q\\"r"', "':'", '"\n"', '; c "\n', '\n', '\r\n', ' ', ',', '(', ')', '[', ']', '{', '}', ':', '\\', '"\\\n"',
             '\t', '.', '#$10', '<lab+1', "'\\''", '""', "''", 'é', '\x0b', '\u2028', '\x00', '\xa0']
        return ''.join(rng.choice(w) for _ in range(n))
    lines = []
    for _ in range(rng.randrange(1, 6)):
        s = rng.choice(('LDA #1', '.db 1, "a;b", 2', 'lab: NOP', 'lab:', 'x: y: .dw (a+1)', '', '; only', 'MOV [bx+si],ax', ".db 'a', ';'", 'r {r0, r1}', '.fill 3 ; c: "'))
        lines.append(rng.choice(('', '  ', '\t')) + s + rng.choice(('', ' ', ' ; c', ';', ';"')))
    return rng.choice(('\n', '\r\n', '\n\n')).join(lines) + rng.choice(('', '\n', '\r'))


def concrete(conc, tier, rng, wits, deadline):
    from . import progs
    import itertools
    small = [''.join(t) for k in (1, 2, 3) for t in itertools.product('a.; \n\r:("\'\\,', repeat=k)]
    for src in itertools.chain(small, (gen(rng) for _ in range(30000 if tier == 'quick' else 400000))):
        w = want(src)
        if w is None:
            continue
        g = real(src)
        conc.case(dict(source=src), w, g, key=repr(src))
    progs.run(conc, tier, rng, deadline, 'C08', 3000 if tier == 'quick' else 50000)
