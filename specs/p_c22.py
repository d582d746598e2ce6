"""C22: tile conversion puts every pixel into its documented bit plane."""
import ast
import random
import sys
import types
import time
import z3
from pyvc import core, interp, vals, models
from pyvc.core import Unsupported, PathKill
from pyvc.driver import Unit
from pyvc.loops import Rule, Poison, assigned_names
from pyvc.models import SRange
from pyvc.vals import SymBase, SInt, SBool, SBytes, STok, SymTokens, SObj, is_sym, lift_int, fresh_int, bytes_eq_goal, tok_info
from necroassembler.exceptions import AssemblerException
from necroassembler.statements import Directive
from necroassembler.platforms import gameboy, nes, sms
from .isa import ASM
from .objs import event, events
from . import isa, p_c06, p_c07, p_c21

LEVEL = 'proof'
ASSUMPTIONS = ['the imaging library: Image.open gives mode, size >= 1x1 and getpixel, a number 0..255 for every pixel of a palette image and IndexError outside; '
               'it is not installed here, the cross-check uses a stand-in with that interface']

# per pixel row: the planes written side by side (interleaved) or one plane after the other
INTERLEAVED, PLANAR = 'interleaved', 'planar'
TARGETS = {'gameboy': (gameboy.AssemblerGameboy, 'tiles', 2, INTERLEAVED, None),
           'nes': (nes.AssemblerNES, 'chr_pattern_table', 2, PLANAR, (128, 128)),
           'sms': (sms.AssemblerSegaMasterSystem, 'tiles', 4, INTERLEAVED, None)}


class Image(SymBase):
    def __init__(self):
        c = core.CTX
        self.mode = STok(tok_info('mode'))
        self.w, self.h = fresh_int('width', 1), fresh_int('height', 1)
        self.px = z3.Function('pixel', z3.IntSort(), z3.IntSort(), z3.IntSort())
        self.size = (self.w, self.h)
        self.width, self.height = self.size

    def value(self, x, y):
        x, y = z3.simplify(x), z3.simplify(y)
        t = self.px(x, y)
        core.CTX.axiom(z3.And(t >= 0, t <= 255), ('pixel', str(x), str(y)))
        return t

    def getpixel(self, xy):
        x, y = (lift_int(v) for v in xy)
        if not core.CTX.branch(z3.And(x >= 0, x < self.w.t, y >= 0, y < self.h.t)):
            raise IndexError('image index out of range')
        return SInt(self.value(x, y), 255)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('image.%s' % n)


class Cells(Rule):
    """the loops over the tiles: rows of tiles from top to bottom, in each the tiles from left to right"""

    def __init__(self, nm, counts, check):
        self.nm, self.counts, self.check = nm, counts, check
        self.stack = []

    def matches(self, it):
        return isinstance(it, SRange)

    def __call__(self, node, it, fr):
        c = core.CTX
        d = len(self.stack)
        if d >= 2 or it.step != 1:
            raise Unsupported('loop over the tiles')
        n = lift_int(it.length())
        if not c.entails(n == self.counts[d]):
            raise Unsupported('the tiles are visited differently')
        c.prove(self.nm + '/nothing-before', not events())
        targets = {x.id for x in ast.walk(node.target) if isinstance(x, ast.Name)}
        names = assigned_names(node.body) | targets
        for v in names:
            fr.vars[v] = Poison(v)
        if c.choose(2) == 0:
            j = z3.Int(c.fresh('tile'))
            c.assume(z3.And(j >= 0, j < n))
            self.stack.append(j)
            err = None
            try:
                interp.assign(node.target, it.a + SInt(j), fr)
                kind, v = interp.exec_block(node.body, fr)
                if kind not in ('normal', 'continue', None) and (kind, v) != interp.NORMAL:
                    raise Unsupported('the loop is left early')
            except AssemblerException as e:
                err = e
            if d == 1:
                self.check(self.stack[0], self.stack[1], err)
            elif err is not None:
                if not isinstance(err, Rejected):
                    c.fail(self.nm + '/rejects-iff-specified', repr(err))
            else:
                if not c.store.get('inner'):
                    raise Unsupported('one loop over the tiles')
                c.prove(self.nm + '/nothing-between', not events())
            raise PathKill()
        if c.branch(z3.Bool('some tile of %s is rejected' % ('the row' if d else 'the image'))):
            raise Rejected.__new__(Rejected)
        if d == 1:
            c.store['inner'] = True
        else:
            c.store['outer'] = True
        return interp.exec_block(node.orelse, fr)


class Rejected(AssemblerException):
    pass


def cell(img, planes, layout, j, k):
    """bytes of tile k of row j"""
    rows = [[img.value(8 * k + x, 8 * j + y) for x in range(8)] for y in range(8)]

    def plane(y, p):
        t = z3.IntVal(0)
        for x in range(8):
            t = t + (rows[y][x] / (1 << p)) % 2 * (1 << (7 - x))
        return SInt(t, 255)
    if layout == INTERLEAVED:
        out = [plane(y, p) for y in range(8) for p in range(planes)]
    else:
        out = [plane(y, p) for p in range(planes) for y in range(8)]
    return [v for r in rows for v in r], out


def tiles_unit(name):
    cls, directive, planes, layout, fixed = TARGETS[name]

    def body(c):
        img = Image()
        box = {}

        def c_append(c, args, kw):
            self, b = isa.bind(args, kw, ('self', 'blob'))
            event('append', b)
        c.static['contracts'] = dict(p_c06.CONTRACTS)
        c.static['contracts'][ASM + 'append_assembled_bytes'] = c_append
        c.static['range_rule'] = lambda r: len(r) >= 16
        asm, host = p_c21.state(c, cls)

        class Lib:
            @staticmethod
            def open(fn, *a, **k):
                event('open', fn)
                if not c.branch(z3.Bool('readable')):
                    raise OSError('cannot open')
                box['opened'] = events().pop()
                return img

        class PIL:
            Image = Lib
        c.static['modules'] = {'PIL': PIL}
        ins, toks, n = p_c21.instruction(c)
        nm = '.' + directive
        before = SBytes(asm.attrs['assembled_bytes'].segs)

        def check(j, k, err):
            c2 = core.CTX
            px, want = cell(img, planes, layout, j, k)
            bad = c2.branch(z3.Or([v >= (1 << planes) for v in px]))
            if bad or err is not None:
                c2.prove(nm + '/tile-rejected-iff-a-pixel-is-too-large', bool(bad) and err is not None, repr(err))
                return
            ev = events()
            if len(ev) != 1 or ev[0][0] != 'append':
                c2.fail(nm + '/one-tile-is-appended', repr(ev))
                return
            got = SBytes.of(ev[0][1])
            if got is None:
                raise Unsupported('appended value')
            f = got.fixed()
            if f is None or len(f) != len(want):
                c2.fail(nm + '/tile-size', repr(f and len(f)))
                return
            for i, (a, b) in enumerate(zip(f, want)):
                c2.prove(nm + '/tile-bytes', lift_int(a) == b.t, 'byte %d' % i)
        counts = (img.h.t / 8, img.w.t / 8)
        c.static['rules'] = [Cells(nm, counts, check)]
        err = p_c21.call(asm, host, directive, ins)
        rej = not bool(n == 2)
        if not rej:
            rej = not c.branch(z3.Bool('readable')) or not bool(img.mode == 'P')
        if not rej:
            if fixed:
                rej = not c.branch(z3.And(img.w.t == fixed[0], img.h.t == fixed[1]))
            else:
                rej = not c.branch(z3.And(img.w.t % 8 == 0, img.h.t % 8 == 0))
        if isinstance(err, Rejected):
            c.prove(nm + '/tiles-only-of-valid-images', not rej)
            return
        if rej or err is not None:
            c.prove(nm + '/rejects-iff-specified', bool(rej) and err is not None and not [e for e in events() if e[0] == 'append'], repr(err))
            return
        if not c.store.get('outer'):
            raise Unsupported('no loop over the tiles')
        c.prove(nm + '/nothing-after', not events())
        c.prove(nm + '/nothing-else', asm.attrs['assembled_bytes'].segs == before.segs)
        want = p_c07.name_of(toks.elem(1))
        fn = box['opened'][1]
        c.prove(nm + '/file', isinstance(fn, STok) and fn.key == want.key)
    return Unit('C22.%s' % name, body, ['%s.%s._build_%s' % (cls.__module__, cls.__qualname__, directive), ASM + 'stringify'], budget=300)


def units(tier):
    return [tiles_unit(n) for n in TARGETS]


# ---- cross-check ---------------------------------------------------------------
class Pic:
    """stand-in for an image of the library"""

    def __init__(self, mode, w, h, data):
        self.mode, self.size, self.data = mode, (w, h), data
        self.width, self.height = w, h

    def getpixel(self, xy):
        x, y = xy
        if not (0 <= x < self.width and 0 <= y < self.height):
            raise IndexError('image index out of range')
        return self.data[y * self.width + x]

    def load(self):
        return self

    __getitem__ = getpixel

    def getdata(self):
        return list(self.data)

    get_flattened_data = getdata

    def tobytes(self):
        return bytes(self.data)

    def crop(self, box):
        a, b, c, d = box
        return Pic(self.mode, c - a, d - b, [self.getpixel((x, y)) for y in range(b, d) for x in range(a, c)])

    def getextrema(self):
        return min(self.data), max(self.data)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


def ref(pic, planes, layout, fixed):
    w, h = pic.size
    if pic.mode != 'P' or (w % 8 or h % 8) or fixed and (w, h) != fixed or max(pic.data) >= 1 << planes:
        return 'rejected'
    out = bytearray()
    for ty in range(0, h, 8):
        for tx in range(0, w, 8):
            rows = []
            for y in range(8):
                row = [pic.data[(ty + y) * w + tx + x] for x in range(8)]
                rows.append([int(''.join(str(v >> p & 1) for v in row), 2) for p in range(planes)])
            if layout == INTERLEAVED:
                out += bytes(b for r in rows for b in r)
            else:
                out += bytes(r[p] for p in range(planes) for r in rows)
    return bytes(out)


# wide and high images; every number a pixel can have, at the first, last and inner positions
GRID = [(w, h) for w, h in ((264, 8), (8, 264), (520, 16), (16, 520), (1032, 8), (8, 2056))] + \
    [('value', v) for v in (0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 130, 131, 143, 144, 191, 192, 240, 252, 254, 255)]


def picture(g, fixed, top, k):
    w, h = fixed or (16, 24)
    if g[0] != 'value':
        if not fixed:
            w, h = g
        return w, h, [(x * 5 + y * 3 + x // 8 + y // 8) % top for y in range(h) for x in range(w)], 'P'
    data = [(x + y) % top for y in range(h) for x in range(w)]
    data[(0, w * h - 1, w + 1, w - 1, w * 8 + 8)[k % 5]] = g[1]
    return w, h, data, 'P'


def concrete(conc, tier, rng, wits, deadline):
    files = {}
    pil = types.ModuleType('PIL')
    lib = types.ModuleType('PIL.Image')

    def op(fn, *a, **k):
        if fn not in files:
            raise FileNotFoundError(fn)
        return files[fn]
    lib.open = op
    pil.Image = lib
    old = {k: sys.modules.get(k) for k in ('PIL', 'PIL.Image')}
    sys.modules.update({'PIL': pil, 'PIL.Image': lib})
    try:
        for k in range(140 if tier == 'quick' else 1500):
            if time.time() > deadline:
                break
            for name, (cls, directive, planes, layout, fixed) in TARGETS.items():
                if fixed:
                    if k >= len(GRID) and k % 3 and rng.random() < 0.5:
                        continue
                    w, h = fixed if rng.random() < 0.6 else rng.choice(((128, 64), (64, 128), (8, 8), (256, 64), (136, 128), (128, 120), (127, 128)))
                else:
                    w, h = (8 * rng.randrange(1, 7) + (rng.choice((0,) * 12 + (1, 4, 7))) for _ in '12')
                    if rng.random() < 0.05:
                        w = rng.choice((1, 4, 7))
                mode = 'P' if rng.random() < 0.95 else rng.choice(('RGB', 'L', '1', 'PA'))
                top = 1 << planes
                style = rng.random()
                if style < 0.5:
                    data = [rng.randrange(top) for _ in range(w * h)]
                elif style < 0.7:
                    data = [(x + 3 * y) % top for y in range(h) for x in range(w)]
                else:
                    data = [0] * (w * h)
                    for _ in range(rng.randrange(1, 6)):
                        data[rng.randrange(w * h)] = rng.randrange(top)
                if rng.random() < 0.2:
                    data[rng.choice((0, w * h - 1, rng.randrange(w * h)))] = rng.choice((top, top + 1, 255, 2 * top))
                if k < len(GRID):
                    w, h, data, mode = picture(GRID[k], fixed, top, k)
                pic = Pic(mode, w, h, data)
                fn = rng.choice(('tiles.png', 'dir/a b.png'))
                files.clear()
                files[fn] = pic
                given = fn if rng.random() < 0.97 else 'missing.png'
                pre = bytes(rng.randrange(256) for _ in range(rng.randrange(0, 4)))
                src = ''.join('.db %d\n' % b for b in pre) + '.%s "%s"' % (directive, given)
                bad = False
                if rng.random() < 0.04:
                    src += rng.choice((' 1', ', 2'))
                    bad = True
                src += '\nlab:\n'
                want = ref(pic, planes, layout, fixed) if given in files and not bad else 'rejected'
                if want != 'rejected':
                    want = (pre + want, len(pre) + len(want))
                try:
                    a = cls()
                    a.assemble(src)
                    got = (bytes(a.assembled_bytes), a.get_label_absolute_address_by_name('lab'))
                except Exception:
                    got = 'rejected'
                conc.case(dict(target=name, source=src, mode=mode, width=w, height=h, pixels=data), want, got, key='%s|%s|%s|%d|%d|%s' % (name, src, mode, w, h, data))
    finally:
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
