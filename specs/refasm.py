"""Reference assembler core (C05-C10), written from the property texts: what a source program means.
Used by the CPython cross-checks; the obligations are over the contracts in the p_cXX modules."""
import csv
import io
import json
from . import numlit

IDENT = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.')
BLANK = ' \t,\n\r;'
BRACKET = '()[]{}'


class Reject(Exception):
    def __init__(self, kinds=None, line=None):
        super().__init__(kinds, line)
        self.kinds, self.line = kinds, line


class TooBig(Exception):
    """the program is not run: too large for a cross-check"""


# ---- C08 -------------------------------------------------------------------
def statements(code):
    """[(kind, tokens, line)], kind in 'directive', 'instruction', 'label'"""
    out, toks, word = [], [], ''
    i, n, line = 0, len(code) + 1, 1
    code = code + '\n'

    def flush():
        nonlocal word
        if word:
            toks.append(word)
        word = ''

    def finish():
        nonlocal toks
        if toks:
            out.append(('directive' if toks[0].startswith('.') else 'instruction', toks, line))
        toks = []
    while i < n:
        ch = code[i]
        if ch in '"\'':
            flush()
            text, i = '', i + 1
            while i < n and code[i] != ch:
                if code[i] == '\\' and i + 1 < n:
                    if code[i] == '\n':
                        line += 1
                    i += 1
                if code[i] == '\n':
                    line += 1
                text += code[i]
                i += 1
            if i >= n:
                return out, True            # unterminated
            if text:
                toks.append(ch + text + ch)
            i += 1
            continue
        if ch in BLANK:
            flush()
            if ch in '\n\r;':
                finish()
            if ch == ';':
                while code[i] not in '\n\r':
                    i += 1
            if code[i] == '\n':
                line += 1
            i += 1
            continue
        if ch in BRACKET:
            flush()
            toks.append(ch)
        elif ch == ':':
            if toks or not word:
                raise Reject(('InvalidLabel',), line)
            out.append(('label', [word], line))
            word = ''
        else:
            word += ch
        i += 1
    return out, False


# ---- C09 -------------------------------------------------------------------
def replace(token, d):
    if token in d:
        return d[token]
    out, run = '', ''
    for ch in token:
        if ch in IDENT:
            run += ch
        else:
            out += d.get(run, run) + ch
            run = ''
    return out + d.get(run, run)


# ---- the machine -----------------------------------------------------------
class Rel:
    def __init__(self, at, label, size, width, relative=None, bits=None, align=1, filt=None, ascii_=None):
        self.at, self.label, self.size, self.width, self.relative = at, label, size, width, relative
        self.bits, self.align, self.filt, self.ascii = bits, align, filt, ascii_


class Asm:
    """cfg: object with the notation attributes, big_endian, fill_value, case_sensitive.
    ops: mnemonic -> bytes | callable(asm, operand tokens) -> bytes (may add relocations, may raise Reject)"""

    def __init__(self, cfg, ops, files=None, defines=None):
        self.cfg, self.ops, self.files = cfg, ops, files or {}
        self.out = bytearray()
        self.org, self.end, self.ctr = 0, 0, 0
        self.labels, self.defines, self.macros = {}, dict(defines or {}), {}
        self.rec, self.rep, self.section = None, None, None
        self.rels = []
        self.sections, self.exports = set(), set()
        self.steps = 0

    @property
    def pc(self):
        return self.org + self.ctr

    def emit(self, b):
        self.steps += 1
        if len(b) + len(self.out) > 1 << 16 or self.steps > 3000:
            raise TooBig()
        self.out += b
        self.ctr += len(b)

    def addr(self):
        return {k: a for k, a in self.labels.items()}

    def number(self, t, bits, signed=False):
        try:
            r = numlit.number(t, self.cfg, self.addr())
            if r is None:
                return None
            return numlit.fit(r[0], r[1], bits, signed)
        except (numlit.Bad, numlit.Unknown):
            raise Reject()

    def need(self, t, bits):
        v = self.number(t, bits)
        if v is None:
            raise Reject()
        return v

    def value_or_label(self, t, size, width, offset=0, relative=None, **kw):
        v = self.number(t, width, relative is not None or kw.pop('signed', False))
        if v is None:
            self.rels.append(Rel(len(self.out) + offset, t, size, width, relative, **kw))
            return 0
        return v

    def order(self, v, n):
        return (v % (1 << (8 * n))).to_bytes(n, 'big' if self.cfg.big_endian else 'little')

    # -- statements
    def assemble(self, code, nested=False):
        st, unterminated = statements(code)
        for kind, toks, line in st:
            self.statement(kind, list(toks), line)
        if nested:
            return
        if self.end > 0 and self.pc <= self.end:
            self.emit(self.many(self.cfg.fill_value, self.end + 1 - self.pc))

    def statement(self, kind, toks, line):
        self.steps += 1
        if kind == 'label':
            name = toks[0]
            if self.rec is not None or name in self.labels or any(c not in IDENT for c in name):
                raise Reject(AE, line)
            try:
                if self.number(name, 64) is not None:
                    raise Reject(AE, line)
            except Reject:
                raise Reject(AE, line)
            self.labels[name] = self.pc
        elif kind == 'instruction':
            self.instruction(toks, line)
        else:
            name = self.key(toks[0][1:])
            k = 2 if name == self.key('define') else 1
            toks = toks[:k] + [replace(t, self.defines) for t in toks[k:]]
            f = getattr(self, 'd_' + name.lower(), None)
            if f is None or name.lower() not in DIRECTIVES or (self.cfg.case_sensitive and name not in DIRECTIVES):
                raise Reject(AE, line)
            f(toks[1:])

    def key(self, t):
        return t if self.cfg.case_sensitive else t.upper()

    def instruction(self, toks, line, depth=0):
        self.steps += 1
        if self.steps > 3000 or depth > 20:
            raise TooBig()
        if self.rec is not None:
            self.rec[1].append((toks, line))
            return
        toks = [replace(t, self.defines) for t in toks]
        k = self.key(toks[0])
        if k in self.macros:
            params, body = self.macros[k]
            if len(toks) - 1 < len(params):
                raise Reject(AE, line)
            d = {}
            for p, v in zip(params, toks[1:]):
                d[p] = v
            for t, ln in list(body):
                self.instruction([replace(x, d) for x in t], ln, depth + 1)
            return
        ops = {self.key(m): f for m, f in self.ops.items()}
        if k not in ops:
            raise Reject(AE, line)
        f = ops[k]
        if isinstance(f, (bytes, bytearray)):
            if len(toks) != 1:
                raise Reject(AE, line)
            b = f
        else:
            try:
                b = f(self, toks[1:])
            except Reject:
                raise Reject(AE, line)
            if b is None:
                raise Reject(AE, line)
        self.emit(b)

    # -- directives
    def d_macro(self, a):
        if self.rec is not None or not a:
            raise Reject()
        self.rec = (a[1:], [])
        self.macros[self.key(a[0])] = self.rec

    def d_endmacro(self, a):
        if self.rec is None:
            raise Reject()
        self.rec = None

    def d_define(self, a):
        if len(a) != 2:
            raise Reject()
        self.defines[a[0]] = a[1]

    def set_org(self, s, e):
        if e > 0 and e < s:
            raise Reject(('AddressOverlap',))
        if self.end > 0:
            if s < self.pc or s <= self.org:
                raise Reject(('AddressOverlap',))
            upto = self.end + 1 if s > self.end else s
            self.out += self.many(self.cfg.fill_value, max(0, upto - self.pc))
        self.org, self.end, self.ctr = s, e, 0

    def d_org(self, a):
        if len(a) not in (1, 2):
            raise Reject()
        s = self.need(a[0], 64)
        e = self.need(a[1], 64) if len(a) == 2 else 0
        self.set_org(s, e)

    def filler(self, a):
        if len(a) not in (1, 2):
            raise Reject()
        n = self.need(a[0], 64)
        return n, (lambda: self.need(a[1], 8) if len(a) == 2 else self.cfg.fill_value)

    def many(self, v, n):
        if n > 1 << 16:
            raise TooBig()
        return bytes([v]) * n

    def d_fill(self, a):
        n, v = self.filler(a)
        v = v()
        self.emit(self.many(v, n))

    def d_goto(self, a):
        n, v = self.filler(a)
        if n < self.pc:
            raise Reject(('AddressOverlap',))
        self.emit(self.many(v(), n - self.pc))

    def d_upto(self, a):
        n, v = self.filler(a)
        if n < self.ctr:
            raise Reject(('AddressOverlap',))
        self.emit(self.many(v(), n - self.ctr))

    def d_ram(self, a):
        if len(a) != 1:
            raise Reject()
        n = self.need(a[0], 64)
        if n < 1:
            raise Reject()
        self.ctr += n

    def d_section(self, a):
        if len(a) not in (2, 3):
            raise Reject()
        name = a[0][1:-1] if a[0][:1] in ('"', "'") else a[0]
        if name in self.sections or any(x not in 'RWXE' for x in a[1]):
            raise Reject()
        if len(a) == 3:
            self.set_org(self.need(a[2], 64), 0)
        self.sections.add(name)

    def d_export(self, a):
        if len(a) != 1:
            raise Reject()
        name = a[0][1:-1] if a[0][:1] in ('"', "'") else a[0]
        if name in self.exports:
            raise Reject()
        self.exports.add(name)

    def d_align(self, a):
        if len(a) != 1:
            raise Reject()
        n = self.need(a[0], 64)
        if n == 0:
            raise Reject()
        self.emit(self.many(self.cfg.fill_value, -self.pc % n))

    def d_repeat(self, a):
        if self.rep is not None or len(a) != 1:
            raise Reject()
        n = self.need(a[0], 64)
        if n < 1:
            raise Reject()
        self.rep = (n, len(self.out))

    def d_endrepeat(self, a):
        if self.rep is None:
            raise Reject()
        n, i = self.rep
        self.rep = None
        blob = bytes(self.out[i:])
        inside = [r for r in self.rels if r.at >= i]
        if n * max(1, len(blob)) > 1 << 16:
            raise TooBig()
        for k in range(1, n):
            for r in inside:
                self.rels.append(Rel(r.at + k * len(blob), r.label, r.size, r.width,
                                     None if r.relative is None else r.relative + k * len(blob), r.bits, r.align, r.filt, r.ascii))
            self.emit(blob)

    def data(self, a, size, enc):
        for t in a:
            if t[0] in '"\'':
                try:
                    self.emit(t[1:-1].encode(enc))
                except UnicodeError:
                    raise Reject()
            else:
                self.emit(self.order(self.value_or_label(t, size, size * 8), size))

    def d_db(self, a):
        self.data(a, 1, 'ascii')
    d_byte = d_db

    def d_dw(self, a):
        self.data(a, 2, 'utf16')
    d_word = d_dw

    def d_dd(self, a):
        self.data(a, 4, 'utf32')
    d_dl = d_dword = d_dd

    def to_ascii(self, a, size, digits):
        for t in a:
            if t[0] in '"\'':
                if size != 1:
                    raise Reject()
                try:
                    self.emit(str(int(t[1:-1].encode('ascii'))).encode())
                except ValueError:
                    raise Reject()
                continue
            v = self.number(t, size * 8)
            if v is None:
                self.rels.append(Rel(len(self.out), t, size, size * 8, ascii_=digits))
                self.emit(bytes(digits))
            else:
                self.emit(str(v).encode())

    def d_db_to_ascii(self, a):
        self.to_ascii(a, 1, 3)

    def d_dw_to_ascii(self, a):
        self.to_ascii(a, 2, 5)

    def d_db_to_asciiz(self, a):
        self.to_ascii(a, 1, 3)
        self.emit(b'\0')

    def d_dw_to_asciiz(self, a):
        self.to_ascii(a, 2, 5)
        self.emit(b'\0')

    def name(self, t):
        return t[1:-1] if t[0] in '"\'' else t

    def file(self, a, n=1):
        if len(a) != n:
            raise Reject()
        try:
            return self.files[self.name(a[0])]
        except KeyError:
            raise Reject()

    def d_include(self, a):
        self.assemble(self.file(a).decode(), nested=True)

    def d_incbin(self, a):
        self.emit(self.file(a))

    def csv(self, a, size):
        blob = b''
        for row in csv.reader(io.StringIO(self.file(a).decode(), newline=None)):
            for col in row:
                if col == '':
                    raise Reject()
                blob += self.need(col, size * 8).to_bytes(size, 'little')
        self.emit(blob)

    def d_inccsv(self, a):
        self.csv(a, 1)

    def d_inccsv_le16(self, a):
        self.csv(a, 2)

    def d_incjson(self, a):
        data = self.file(a, 2)
        try:
            x = json.loads(data)
            for part in self.name(a[1]).split('.'):
                x = x[part]
            blob = b''
            for item in x:
                blob += bytes([item if isinstance(item, int) else self.need(item, 8)])
        except (ValueError, KeyError, TypeError, AttributeError, IndexError):
            raise Reject()
        self.emit(blob)

    # -- C05
    def link(self):
        img = bytearray(self.out)
        bad = set()
        for r in self.rels:
            try:
                for at, v in self.patch(r):
                    img[at] |= v
            except Reject as e:
                bad |= set(e.kinds or ('*',))
        if bad:
            raise Reject(tuple(bad))
        return bytes(img)

    def patch(self, r):
        try:
            a = numlit.label_value(r.label, self.cfg, self.addr())
            v = a if r.relative is None else numlit.label_value(r.label, self.cfg, self.addr(), r.relative)
        except numlit.Unknown:
            raise Reject(('UnknownLabel',))
        except numlit.Bad:
            raise Reject()
        if a is None:
            raise Reject(('UnknownLabel',))
        kinds = set()
        if a % r.align:
            kinds.add('AlignmentError')
        if r.relative is None and v < 0:
            kinds.add('OnlyForwardAddressesAllowed')
        lo, hi = (0, 1 << r.width) if r.relative is None else (-(1 << (r.width - 1)), 1 << (r.width - 1))
        if not lo <= v < hi:
            kinds.add('NotInBitRange')
        if kinds:
            raise Reject(tuple(kinds))
        if r.ascii:
            return [(r.at + i, ord(ch)) for i, ch in enumerate(str(v).rjust(r.ascii, '0'))]
        if r.filt:
            v = r.filt(v)
        if r.bits:
            end, start = r.bits
            w = end - start + 1
            if not -(1 << (w - 1)) <= v < 1 << w:
                raise Reject(('InvalidBitRange',))
            v = (v % (1 << w)) << start
        v %= 1 << (8 * r.size)
        b = v.to_bytes(r.size, 'big' if self.cfg.big_endian else 'little')
        return [(r.at + i, x) for i, x in enumerate(b)]


AE = ('AssemblerException',)
DIRECTIVES = {n[2:] for n in dir(Asm) if n.startswith('d_')}


# ---- running the real thing -------------------------------------------------
def run_ref(cfg, ops, sources, files=None, defines=None):
    """-> ('ok', image, labels) | ('reject', stage, kinds, line)"""
    m = Asm(cfg, ops, files, defines)
    try:
        for s in sources:
            m.assemble(s)
    except Reject as e:
        return m, ('reject', 'assemble', e.kinds, e.line)
    state = ('ok', bytes(m.out), m.addr(), m.pc)
    try:
        img = m.link()
    except Reject as e:
        return m, ('reject', 'link', e.kinds, None, state)
    return m, ('ok', img, m.addr(), m.pc)


def run_real(make, sources):
    """make() -> fresh assembler"""
    asm = make()
    try:
        for s in sources:
            asm.assemble(s)
    except Exception as e:
        return asm, ('reject', 'assemble', e)
    state = ('ok', bytes(asm.assembled_bytes), {k: v['org'] + v['base'] for k, v in asm.labels.items()}, asm.pc)
    try:
        asm.link()
    except Exception as e:
        return asm, ('reject', 'link', e, state)
    return asm, ('ok', bytes(asm.assembled_bytes), {k: v['org'] + v['base'] for k, v in asm.labels.items()}, asm.pc)


def names_line(e, line):
    import re
    return bool(re.search(r'\bline %d\b' % line, str(e)))


def compare(want, got):
    """(expected, observed, ok)"""
    from necroassembler.exceptions import AssemblerException
    if want[0] == 'ok':
        w = dict(image=want[1].hex(), labels=want[2], pc=want[3])
        if got[0] == 'ok':
            g = dict(image=got[1].hex(), labels=got[2], pc=got[3])
            return w, g, w == g
        return w, 'rejected (%s: %s)' % (type(got[2]).__name__, got[2]), False
    w = 'rejected while %s%s%s' % ('assembling' if want[1] == 'assemble' else 'linking', ' with ' + '/'.join(want[2]) if want[2] else '',
                                   ' naming line %d' % want[3] if want[3] else '')
    if got[0] == 'ok':
        return w, dict(image=got[1].hex(), labels=got[2], pc=got[3]), False
    e = got[2]
    ok = got[1] == want[1]
    if ok and want[1] == 'link':
        s, g = want[4], got[3]
        if s != g:
            return dict(image=s[1].hex(), labels=s[2], pc=s[3]), dict(image=g[1].hex(), labels=g[2], pc=g[3]), False
    if ok and want[2] and '*' not in want[2]:
        ok = isinstance(e, AssemblerException) if want[2] == AE else type(e).__name__ in want[2]
    if ok and want[3]:
        ok = names_line(e, want[3])
    return w, 'rejected while %s (%s: %s)' % ('assembling' if got[1] == 'assemble' else 'linking', type(e).__name__, e), ok
