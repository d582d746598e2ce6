"""C10: registration of handlers, and the entry points that put several source files together."""
import z3
from pyvc import core, interp, vals, models
from pyvc.core import Unsupported
from pyvc.driver import Unit
from pyvc.loops import Rule
from pyvc.models import SSeq
from pyvc.vals import SymBase, SInt, SBool, STok, SBytes, SObj, is_sym, lift_int, fresh_int, tok_info, opaque_bytes
from necroassembler import assembler as asm_mod
from necroassembler.assembler import Assembler
from .objs import OMap, event, events, prove_events, key_of
from .isa import ASM
from . import isa

MOD = 'necroassembler.assembler.'


class Logic:
    """a handler: any object"""

    def __init__(self, name='logic'):
        self.name = name


def register_unit(table, fname):
    """one entry is added, under the upper-case name unless the CPU is case sensitive"""
    def body(c):
        case = z3.Bool('case_sensitive')
        maps = {n: OMap(n, log=lambda e: event(*e)) for n in ('instructions', 'directives', 'macros', 'labels', 'defines')}
        asm = SObj(Assembler, dict(case_sensitive=SBool(case), **maps), host=Assembler())
        name, logic = STok(tok_info('name')), Logic()
        try:
            interp.icall(getattr(Assembler, fname), (asm, name, logic), {})
        except Exception as e:
            c.fail(fname + '/accepts', repr(e))
            return
        want = key_of(name) if c.branch(case) else key_of(name.upper())
        ev = events()
        c.prove(fname + '/exactly-one-entry', len(ev) == 1 and ev[0][:3] == ('store', table, want) and ev[0][3] is logic, repr(ev))
    return body


def define_body(c):
    def c_valid(cc, args, kw):
        return SBool(z3.Bool('valid name'))
    c.static['contracts'] = {'necroassembler.utils.is_valid_name': c_valid}
    maps = {n: OMap(n, log=lambda e: event(*e)) for n in ('instructions', 'directives', 'macros', 'labels', 'defines')}
    asm = SObj(Assembler, dict(case_sensitive=SBool(z3.Bool('case_sensitive')), **maps), host=Assembler())
    name, value = STok(tok_info('name')), STok(tok_info('value'))
    err = None
    try:
        interp.icall(Assembler.register_define, (asm, name, value), {})
    except Exception as e:
        err = e
    ev = events()
    if c.branch(z3.Bool('valid name')):
        ok = err is None and len(ev) == 1 and ev[0][:3] == ('store', 'defines', key_of(name)) and ev[0][3] is value
    else:
        ok = isinstance(err, asm_mod.InvalidDefine) and not ev
    c.prove('register_define/entry', bool(ok), '%r %r' % (err, ev))


# ---- decorators ---------------------------------------------------------------
def decorators_body(c):
    for n in (1, 2, 5):
        names = tuple(STok(tok_info('name%d' % i)) for i in range(n))
        for deco, attr in ((asm_mod.opcode, 'opcode'), (asm_mod.directive, 'directive')):
            f = SObj(Logic, {}, name='f')
            r = interp.icall(interp.icall(deco, names, {}), (f,), {})
            got = f.attrs.get(attr)
            c.prove('%s/marks' % attr, r is f and set(f.attrs) == {attr} and len(got) == n and all(a is b for a, b in zip(got, names)))
    for deco, attr in ((asm_mod.pre_link, 'pre_link'), (asm_mod.post_link, 'post_link')):
        f = SObj(Logic, {}, name='f')
        r = interp.icall(deco, (f,), {})
        c.prove('%s/marks' % attr, r is f and set(f.attrs) == {attr} and f.attrs[attr] is True)


# ---- _discover ------------------------------------------------------------------
MARKS = ('opcode', 'directive', 'pre_link', 'post_link')


class Attr(SymBase):
    """an attribute of the assembler: anything, possibly marked by the decorators"""
    sym_callable = True          # (per instance: see __init__)

    def __init__(self, key):
        c = core.CTX
        self.key = key
        self.sym_callable = c.branch(z3.Bool('callable'))
        for m in ('opcode', 'directive'):
            if c.branch(z3.Bool('has ' + m)):
                n = fresh_int('n-' + m, 0, None)
                setattr(self, m, SSeq(n, lambda k, m=m: STok(tok_info('%s[%s]' % (m, z3.simplify(k)))), m))
        for m in ('pre_link', 'post_link'):
            if c.branch(z3.Bool('has ' + m)):
                setattr(self, m, c.branch(z3.Bool('value of ' + m)))


class EachSymbol(Rule):
    def __init__(self, which):
        self.which = which
        self.name = 'discover/' + which

    def matches(self, it):
        return isinstance(it, SSeq) and it.name == self.which

    def start(self, j, x, fr):
        core.CTX.store['outer'] = list(events())
        core.CTX.store['events'] = []
        return x

    def after(self, x, t, out, fr):
        ev = events()
        a = core.CTX.store['attr']
        want = 'instruction' if self.which == 'opcode' else 'directive'
        c = core.CTX
        c.prove('discover/each-%s-registered' % self.which, out[0] == 'normal' and len(ev) == 1 and ev[0][0] == want and ev[0][1] is t and ev[0][2] is a, repr(ev))

    def entry(self, it, fr):
        pass

    def leave(self, it, fr):
        event('all', self.which)


class EachAttr(Rule):
    name = 'discover/attributes'

    def matches(self, it):
        return isinstance(it, SSeq) and it.name == 'attributes'

    def entry(self, it, fr):
        core.CTX.prove('discover/starts-empty', not events())

    def start(self, j, x, fr):
        core.CTX.store['events'] = []
        return x

    def after(self, x, t, out, fr):
        c = core.CTX
        a = c.store.get('attr')
        if out[0] != 'normal':
            c.fail('discover/visits-all', repr(out))
            return
        if a is None:
            c.fail('discover/looks-at-each-attribute', 'not read')
            return
        got = events()
        if not a.sym_callable:
            c.prove('discover/unmarked-ignored', not got or any(hasattr(a, m) for m in MARKS), repr(got))
            return
        want = [('all', m) for m in ('opcode', 'directive') if hasattr(a, m)]
        want += [('append', m, a) for m in ('pre_link', 'post_link') if getattr(a, m, False)]
        ok = len(got) == len(want) and all(sum(len(g) == len(w) and all(x is y or x == y for x, y in zip(g, w)) for g in got) == 1 for w in want)
        c.prove('discover/exactly-the-marked', bool(ok), '%r %r' % (got, want))

    def leave(self, it, fr):
        core.CTX.store['left'] = True


def discover_body(c):
    class PassList(SymBase):
        def __init__(self, n):
            self.n = n

        def append(self, x):
            event('append', self.n, x)
    asm = SObj(Assembler, dict(pre_link_passes=PassList('pre_link'), post_link_passes=PassList('post_link')), host=Assembler())
    names = SSeq(fresh_int('nattributes', 1, None), lambda k: STok(tok_info('attribute[%s]' % z3.simplify(k))), 'attributes')

    def c_dir(o):
        if o is not asm:
            raise Unsupported('dir')
        return names

    def c_getattr(o, n, d):
        if o is not asm or not isinstance(n, STok):
            raise Unsupported('getattr')
        if 'attr' not in c.store:
            c.store['attr'] = Attr(n.key)
        if c.store['attr'].key != n.key:
            raise Unsupported('another attribute')
        return c.store['attr']

    def reg(kind):
        def f(cc, args, kw):
            _, n, logic = isa.bind(args, kw, ('self', 'name' if kind == 'directive' else 'code', 'logic'))
            event(kind, n, logic)
        return f
    c.static['dir'], c.static['getattr'] = c_dir, c_getattr
    c.static['contracts'] = {ASM + 'register_instruction': reg('instruction'), ASM + 'register_directive': reg('directive')}
    c.static['rules'] = [EachAttr(), EachSymbol('opcode'), EachSymbol('directive')]
    interp.icall(interp.getattr_(asm, '_discover'), (), {})
    c.prove('discover/visited', bool(c.store.get('left')))


# ---- files ------------------------------------------------------------------------
class Boom(Exception):
    pass


def files_body(c):
    """assemble_file assembles the text of that file once; save writes the image and nothing else"""
    from .p_c21 import File
    asm = SObj(Assembler, dict(assembled_bytes=opaque_bytes('image', True)), host=Assembler())
    fn = models.OpaqueStr('filename')
    text = models.OpaqueStr('text')
    which = c.choose(2)

    class In(SymBase):
        def read(self, *a):
            if a:
                raise Unsupported('partial read')
            return text

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return None

        def close(self):
            pass

    def op(name, mode='r', *a, **k):
        if name is not fn or mode not in (('r', 'rt') if which else ('wb',)):
            raise Unsupported('open')
        return In() if which else File(fn)
    c.static['open'] = op

    def c_assemble(cc, args, kw):
        s, code, context, included = isa.bind(args, kw, ('self', 'code', 'context', 'included'), dict(context=None, included=False))
        event('assemble', s, code, context, included)
        if c.branch(z3.Bool('assembling fails')):
            raise Boom()
    c.static['contracts'] = {ASM + 'assemble': c_assemble}
    if which:
        err = None
        try:
            interp.icall(interp.getattr_(asm, 'assemble_file'), (fn,), {})
        except Boom as e:
            err = e
        ev = events()
        ok = len(ev) == 1 and ev[0][0] == 'assemble' and ev[0][1] is asm and ev[0][2] is text and ev[0][3] is fn and ev[0][4] is False
        c.prove('assemble_file/once', bool(ok), repr(ev))
        c.prove('assemble_file/errors', z3.Bool('assembling fails') == z3.BoolVal(err is not None))
    else:
        interp.icall(interp.getattr_(asm, 'save'), (fn,), {})
        ev = events()
        if len(ev) != 1 or ev[0][0] != 'save':
            c.fail('save/one-file', repr(ev))
            return
        c.prove('save/name', ev[0][1] is fn)
        c.prove('save/content', vals.bytes_eq_goal(ev[0][2], opaque_bytes('image')))


class EachSource(Rule):
    name = 'main/sources'

    def matches(self, it):
        return isinstance(it, SSeq) and it.name == 'argv'

    slices = True

    def __init__(self, box):
        self.box = box

    def entry(self, it, fr):
        c = core.CTX
        off, full = it.origin or (z3.IntVal(0), lift_int(it.n))
        c.prove('main/all-sources', z3.And(off == 1, lift_int(it.n) == self.box['n'].t - 2), str((off, it.n)))
        c.prove('main/before-sources', [e[0] for e in events()] == ['made'], repr(events()))

    def start(self, j, x, fr):
        core.CTX.store['events'] = []
        return x

    def after(self, x, t, out, fr):
        c, ev = core.CTX, events()
        c.prove('main/each-source-once', len(ev) == 1 and ev[0][0] == 'file' and ev[0][1] is self.box['asm'] and key_of(ev[0][2]) == key_of(t), repr(ev))
        c.prove('main/errors-stop', z3.Bool('file fails') == z3.BoolVal(out[0] == 'raise') if out[0] in ('normal', 'raise') else False, repr(out))

    def leave(self, it, fr):
        event('files')


def main_body(c):
    """the command line: every source in order into one image, linked once, saved under the last name"""
    box = {}
    n = fresh_int('nargv', 1, None)
    box['n'] = n
    index = {}

    def arg(k):
        t = STok(tok_info('argv[%s]' % z3.simplify(k)))
        index[t.key] = k
        return t
    argv = SSeq(n, arg, 'argv')
    pre0, post0 = [Logic('own pre')], [Logic('own post')]
    asm = SObj(Assembler, dict(pre_link_passes=list(pre0), post_link_passes=list(post0)), host=Assembler())
    box['asm'] = asm
    pre, post = [Logic('pre')], [Logic('post1'), Logic('post2')]
    linker = Logic('linker')

    class Path:
        @staticmethod
        def basename(x):
            return models.OpaqueStr('basename')

    class Os:
        path = Path

    class Sys:
        pass
    Sys.argv = argv
    c.static['modules'] = {'sys': Sys, 'os': Os}

    def mk(cc, args, kw):
        event('made')
        return asm

    def c_file(cc, args, kw):
        s, f = isa.bind(args, kw, ('self', 'filename'))
        event('file', s, f)
        if c.branch(z3.Bool('file fails')):
            raise Boom()

    def c_link(cc, args, kw):
        s, l = isa.bind(args, kw, ('self', 'linker'), dict(linker=None))
        event('link', s, l, list(s.attrs['pre_link_passes']), list(s.attrs['post_link_passes']))
        if c.branch(z3.Bool('link fails')):
            raise Boom()

    def c_save(cc, args, kw):
        s, f = isa.bind(args, kw, ('self', 'filename'))
        event('save', s, f)
    c.static['contracts'] = {MOD + 'Assembler': mk, ASM + 'assemble_file': c_file, ASM + 'link': c_link, ASM + 'save': c_save}
    c.static['rules'] = [EachSource(box)]
    c.static['verifying'] = {ASM + 'main'}
    err = None
    try:
        interp.icall(Assembler.main, (pre, post, linker), {})
    except Boom as e:
        err = e
    ev = events()
    if any(e[0] == 'file' for e in ev):
        raise Unsupported('sources are not handled by a loop over the arguments')
    if c.branch(n.t < 2):
        c.prove('main/usage', err is None and not ev, repr(ev))
        return
    ok = [e[0] for e in ev][:3] == ['made', 'files', 'link'] and ev[2][1] is asm and ev[2][2] is linker
    c.prove('main/assembles-then-links', bool(ok), repr(ev))
    if not ok:
        return
    c.prove('main/passes', ev[2][3] == pre0 + pre and ev[2][4] == post0 + post)
    if c.branch(z3.Bool('link fails')):
        c.prove('main/nothing-saved', err is not None and len(ev) == 3)
        return
    c.prove('main/saves', err is None and len(ev) == 4 and ev[3][0] == 'save' and ev[3][1] is asm)
    if len(ev) == 4:
        c.prove('main/destination', index[ev[3][2].key] == n.t - 1 if isinstance(ev[3][2], STok) and ev[3][2].key in index else False, repr(ev))


def units():
    return [Unit('C10.register_instruction', register_unit('instructions', 'register_instruction'), [ASM + 'register_instruction']),
            Unit('C10.register_directive', register_unit('directives', 'register_directive'), [ASM + 'register_directive']),
            Unit('C10.register_define', define_body, [ASM + 'register_define']),
            Unit('C10.decorators', decorators_body, [MOD + x for x in ('opcode', 'directive', 'pre_link', 'post_link')],
                 bounded='1, 2 and 5 names in one decorator'),
            Unit('C10.discover', discover_body, [ASM + '_discover']),
            Unit('C10.files', files_body, [ASM + 'assemble_file', ASM + 'save']),
            Unit('C10.main', main_body, [ASM + 'main'])]


# ---- cross-check -------------------------------------------------------------------
class Marked:
    """a linker that marks the image it got"""

    def resolve_unknown_symbol(self, assembler, address, data):
        return 0x55

    def link(self, assembler):
        return assembler.assembled_bytes + b'L'


def tool(rng):
    """a CPU with random handlers, and the byte each name stands for (None: not registered)"""
    import random as _r
    case = rng.random() < 0.4
    table, members, dtable = {}, {}, {}
    letters = 'abcdefghijklmnopqrstuvwxyzABCXYZ_.'
    used = set()

    def name():
        while True:
            n = rng.choice('abcXYZ') + ''.join(rng.choice(letters) for _ in range(rng.randrange(0, 14)))
            if n.upper() not in used:
                used.add(n.upper())
                return n

    def handler(code, where):
        if where == 'op':
            return lambda self, instr: bytes([code])

        def d(self, instr):
            self.append_assembled_bytes(bytes([code, 0xEE]))
        return d
    for k in range(rng.randrange(1, 5)):
        ns = [name() for _ in range(rng.choice((1, 1, 2, 3, 6)))]
        code = rng.randrange(256)
        if rng.random() < 0.6:
            members['m%d' % k] = asm_mod.opcode(*ns)(handler(code, 'op'))
            for n in ns:
                table[n] = bytes([code])
            if rng.random() < 0.25:         # the same method also serves a directive (whose result is not used)
                n = name()
                members['m%d' % k] = asm_mod.directive(n)(members['m%d' % k])
                dtable[n] = b''
        else:
            members['m%d' % k] = asm_mod.directive(*ns)(handler(code, 'dir'))
            for n in ns:
                dtable[n] = bytes([code, 0xEE])
    if rng.random() < 0.5:
        n, code = name(), rng.randrange(256)
        table[n] = bytes([code, 1])
        members['register_instructions'] = lambda self: self.register_instruction(n, bytes([code, 1]))
    log = {}
    for k in range(rng.randrange(0, 3)):
        kind = rng.choice(('pre_link', 'post_link'))
        mark = rng.randrange(256)

        def p(self, mark=mark):
            self.assembled_bytes.append(mark)
        extra = members.get('p%d' % k) is None
        members['p%d' % k] = getattr(asm_mod, kind)(p)
        log.setdefault(kind, []).append(mark)
        if rng.random() < 0.5:              # also a directive
            nm = name()
            members['p%d' % k] = asm_mod.directive(nm)(members['p%d' % k])
    members['case_sensitive'] = case
    members['hex_prefixes'] = ('0x',)
    members['big_endian'] = rng.random() < 0.5
    return type('Tool', (Assembler,), members), table, dtable, case, log


def respell(rng, n):
    r = rng.random()
    return n if r < 0.5 else n.upper() if r < 0.7 else n.lower() if r < 0.85 else n.swapcase()


def concrete(conc, tier, rng, deadline):
    import os
    import shutil
    import sys
    import tempfile
    import time
    base = tempfile.mkdtemp(prefix='necro-')
    try:
        for k in range(250 if tier == 'quick' else 4000):
            cls, table, dtable, case, log = tool(rng)
            nsrc = rng.choice((0, 1, 1, 2, 3, 5, 9, 12))
            srcs, image, ok = [], b'', True
            for f in range(nsrc):
                lines, room = [], None
                if f == nsrc - 1 and rng.random() < 0.4:        # a region is completed at the end of its file
                    room = len(image) + 400
                    lines.append('.org 0x1000 %d' % (0x1000 + 399))
                for _ in range(rng.randrange(0, 5)):
                    kind = rng.random()
                    if kind < 0.15:
                        v = [rng.choice((0, 0, rng.randrange(256))) for _ in range(rng.choice((1, 2, 40)))]
                        lines.append('.db ' + ', '.join(str(x) for x in v))
                        if ok:
                            image += bytes(v)
                        continue
                    d = kind < 0.45 and dtable or not table
                    t = dtable if d else table
                    if not t:
                        continue
                    n = rng.choice(sorted(t))
                    s = respell(rng, n)
                    lines.append('.' + s if d else s)
                    if case and s != n:
                        ok = False
                    if ok:
                        image += t[n]
                srcs.append('\n'.join(lines))
                if room is not None and ok:
                    image += bytes(room - len(image))
            names = []
            for f, text in enumerate(srcs):
                p = os.path.join(base, 's%d_%d.s' % (k, f))
                with open(p, 'w') as h:
                    h.write(text)
                names.append(p)
            dst = os.path.join(base, 'o%d' % k)
            linker = rng.choice((None, Marked()))
            pre = [lambda a: a.assembled_bytes.append(0xA1)] * rng.randrange(0, 3)
            post = [lambda a: a.assembled_bytes.append(0xA2)] * rng.randrange(0, 3)
            want = None
            if ok:
                # passes of the class in the order dir() lists them, then those of the caller
                want = image + bytes(log.get('pre_link', [])) + b'\xA1' * len(pre) + bytes(log.get('post_link', [])) + b'\xA2' * len(post) + (b'L' if linker else b'')
            old = sys.argv
            sys.argv = ['tool'] + names + [dst]
            try:
                cls.main(pre, post, linker)
                with open(dst, 'rb') as h:
                    got = h.read()
            except Exception:
                got = None
            finally:
                sys.argv = old
            conc.case(dict(sources=srcs, case_sensitive=case, instructions=sorted(table), directives=sorted(dtable), pre=len(pre), post=len(post),
                           linker=bool(linker), own_passes=log), want, got, key='tool %d' % k)
            for p in names + [dst]:
                if os.path.exists(p):
                    os.remove(p)
            if time.time() > deadline or len(conc.failures) > 20:
                break
    finally:
        shutil.rmtree(base, ignore_errors=True)
