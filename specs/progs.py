"""Random source programs over a synthetic CPU, run on the real core and on the reference (specs/refasm.py)."""
import json
import os
import shutil
import tempfile
import time
from necroassembler.assembler import Assembler, opcode
from necroassembler.exceptions import AssemblerException
from necroassembler.utils import pack_byte, pack_bits
from . import refasm

REGS = ('r0', 'R1', 'Acc')


class Oops(AssemblerException):
    message = 'handler refused'


class Cpu(Assembler):
    hex_prefixes = ('$', '0x')
    bin_prefixes = ('%',)
    oct_suffixes = ('o',)

    def register_instructions(self):
        r = self.register_instruction
        r('NOP', b'\xea')
        r('Two', b'\x01\x02')
        r('None', lambda i: None)
        r('BOOM', self.boom)
        r('crash', lambda i: 1 // 0)

    def boom(self, i):
        raise Oops()

    def n(self, v, size):
        return (v % (1 << (8 * size))).to_bytes(size, 'big' if self.big_endian else 'little')

    @opcode('LDI')
    def ldi(self, i):
        if not i.match(None):
            return None
        return b'\xa9' + self.n(self.parse_integer_or_label(i.tokens[1], 1, 8, offset=1), 1)

    @opcode('LDW', 'lw2')
    def ldw(self, i):
        if i.match(None):
            return b'\xaa' + self.n(self.parse_integer_or_label(i.tokens[1], 2, 16, offset=1), 2)

    @opcode('BR')
    def br(self, i):
        if i.match(None):
            return b'\xbb' + self.n(self.parse_integer_or_label(i.tokens[1], 1, 8, offset=1, relative=self.pc + 2), 1)

    @opcode('BRZ')
    def brz(self, i):
        if i.match(None):
            return b'\xbc' + self.n(self.parse_integer_or_label(i.tokens[1], 2, 16, offset=1, relative=self.pc), 2)

    @opcode('JW')
    def jw(self, i):
        if i.match(None):
            v = self.parse_integer_or_label(i.tokens[1], 4, 28, bits=(25, 0), alignment=4, filter=lambda x: x >> 2)
            return self.n(0x08000000 | ((v >> 2) & 0x3FFFFFF), 4)

    @opcode('BW')
    def bw(self, i):
        if i.match(None):
            v = self.parse_integer_or_label(i.tokens[1], 4, 18, bits=(15, 0), alignment=4, filter=lambda x: x >> 2, relative=self.pc + 4)
            return self.n(0x10000000 | ((v >> 2) & 0xFFFF), 4)

    @opcode('NIB')
    def nib(self, i):
        if i.match(None):
            v = self.parse_integer_or_label(i.tokens[1], 1, 4, bits=(7, 4))
            return bytes([0x0B | (v << 4) & 0xF0])

    @opcode('L64')
    def l64(self, i):
        if i.match(None):
            return self.n(self.parse_integer_or_label(i.tokens[1], 8, 64), 8)

    @opcode('MV')
    def mv(self, i):
        if i.match(REGS, None, '(', ('x', 'Y'), ')'):
            return bytes([0xC0, [x.upper() for x in REGS].index(i.tokens[1].upper())]) + \
                self.n(self.parse_integer_or_label(i.tokens[2], 1, 8, offset=2), 1) + i.tokens[4].upper().encode()
        if i.match(lambda t: t.startswith('#'), 'TO', REGS):
            return bytes([0xC1, [x.upper() for x in REGS].index(i.tokens[3].upper())])
        ok, at = i.unbound_match(REGS, ',')
        if ok:
            return b'\xc2'
        ok, at = i.unbound_match('LIST')
        if ok:
            return bytes([0xC3, at, len(i.tokens) - at])


def R():
    raise refasm.Reject()


def one(a):
    if len(a) != 1:
        R()


def o_ldi(m, a):
    one(a)
    return b'\xa9' + m.order(m.value_or_label(a[0], 1, 8, 1), 1)


def o_ldw(m, a):
    one(a)
    return b'\xaa' + m.order(m.value_or_label(a[0], 2, 16, 1), 2)


def o_br(m, a):
    one(a)
    return b'\xbb' + m.order(m.value_or_label(a[0], 1, 8, 1, m.pc + 2), 1)


def o_brz(m, a):
    one(a)
    return b'\xbc' + m.order(m.value_or_label(a[0], 2, 16, 1, m.pc), 2)


def o_jw(m, a):
    one(a)
    v = m.value_or_label(a[0], 4, 28, bits=(25, 0), align=4, filt=lambda x: x >> 2)
    return m.order(0x08000000 | (v >> 2) % (1 << 26), 4)


def o_bw(m, a):
    one(a)
    v = m.value_or_label(a[0], 4, 18, 0, m.pc + 4, bits=(15, 0), align=4, filt=lambda x: x >> 2)
    return m.order(0x10000000 | (v >> 2) % (1 << 16), 4)


def o_nib(m, a):
    one(a)
    v = m.value_or_label(a[0], 1, 4, bits=(7, 4))
    return bytes([0x0B | (v % 16) << 4])


def o_l64(m, a):
    one(a)
    return m.order(m.value_or_label(a[0], 8, 64), 8)


def o_mv(m, a):
    up = [x.upper() for x in a]
    regs = ['R0', 'R1', 'ACC']
    if len(a) == 5 and up[0] in regs and up[2] == '(' and up[3] in ('X', 'Y') and up[4] == ')':
        return bytes([0xC0, regs.index(up[0])]) + m.order(m.value_or_label(a[1], 1, 8, 2), 1) + up[3].encode()
    if len(a) == 3 and a[0].startswith('#') and up[1] == 'TO' and up[2] in regs:
        return bytes([0xC1, regs.index(up[2])])
    if len(a) >= 1 and up[0] == 'LIST':
        return bytes([0xC3, 2, len(a) - 1])
    R()


def o_none(m, a):
    R()


OPS = {'NOP': b'\xea', 'Two': b'\x01\x02', 'None': o_none, 'BOOM': o_none, 'crash': o_none, 'LDI': o_ldi, 'LDW': o_ldw, 'lw2': o_ldw,
       'BR': o_br, 'BRZ': o_brz, 'JW': o_jw, 'BW': o_bw, 'NIB': o_nib, 'L64': o_l64, 'MV': o_mv}


def variant(big, case, fill, defs):
    cls = type('Cpu_%d%d%02x' % (big, case, fill), (Cpu,), dict(big_endian=big, case_sensitive=case, fill_value=fill, defines=dict(defs)))
    return cls


VARIANTS = [variant(b, c, f, d) for b, c, f, d in
            ((False, False, 0, {}), (True, False, 0xFF, {}), (False, True, 0x5A, {'K': '3'}), (True, True, 0, {}))]

LAB = ['a', 'b1', 'loop', 'x.y', 'Data', '_z', 'end']
NUMS = ['0', '1', '2', '3', '5', '7', '8', '16', '100', '127', '128', '255', '256', '-1', '-128', '-129', '$10', '$ff', '$1F', '%101', '0x20', '17o',
        "'A'", '65535', '65536', '$12345678', '4294967295', '4294967296', '-32768', '$100', '1000', '$-5']
OK = ['0', '1', '2', '4', '7', '8', '12', '%101', '$c', '14o', '$0F', '15', '$8']
SMALL = ['0', '1', '2', '3', '4', '5', '8', '$10', '16', '%11', '7', '12', '32', "'!'"]


class Gen:
    def __init__(self, rng, focus, valid=False, case=False):
        self.r, self.focus, self.valid, self.case, self.far = rng, focus, valid, case, 0
        self.labels, self.macros, self.defs, self.files = [], [], [], {}
        self.pc, self.nsec = 0, 0
        self.region = None
        self.depth = 0

    def num(self):
        if self.valid:
            return self.r.choice(OK)
        return self.r.choice(NUMS)

    def small(self):
        r = self.r
        return r.choice(SMALL) if self.valid or r.random() < 0.95 else r.choice(('-1', '$-5', '300', 'a', '1+2', '$10-$4', '2*3'))

    def lab(self):
        r = self.r
        return r.choice(LAB) if self.valid or r.random() < 0.95 else r.choice(['nolab', 'A', 'B1'])

    def operand(self):
        r = self.r
        k = r.random()
        if k < 0.35:
            t = self.lab()
        elif k < 0.7:
            t = self.num()
        elif k < 0.8 and self.defs:
            t = r.choice(self.defs)
        elif k < 0.8 and not self.valid:
            t = self.defname()
        else:
            t = r.choice(('<', '>', '', '')) + r.choice((self.lab(), self.num())) + r.choice('+-*&|' if not self.valid else '++&|-') + r.choice((self.lab() if not self.valid else '1', self.small(), '')) \
                + (r.choice('+-') + self.small() if r.random() < 0.2 else '')
        return t

    def defname(self):
        return self.r.choice(('K', 'FOO', 'bar', 'w1', 'p', 'q.r'))

    def string(self):
        r = self.r
        q = r.choice('"\'')
        return q + ''.join(r.choice(('a', 'B', '7', ' ', ',', ';', ':', '(', '\\\\', '\\' + q, 'FOO', '.', '\\n')) for _ in range(r.randrange(0, 5))) + q

    def instr(self):
        r = self.r
        k = r.random()
        if k < 0.2:
            return r.choice(('NOP', 'nop', 'Two', 'TWO', 'Nop') if not (self.valid and self.case) else ('NOP', 'Two'))
        if k < 0.75:
            m = r.choice(('LDI', 'LDW', 'BR', 'BRZ', 'JW', 'BW', 'NIB', 'L64', 'lw2') if not self.valid else ('LDI', 'LDW', 'BR', 'BRZ', 'L64', 'LDW', 'LDW', 'NIB', 'JW', 'BW'))
            if r.random() < 0.15 and not (self.valid and self.case):
                m = r.choice((m.lower(), m.upper(), m.title()))
            return '%s %s' % (m, self.operand())
        if k < 0.85:
            if self.valid:
                return r.choice(('MV r0, %s (x)', 'MV R1 %s ( Y )', 'MV acc,%s,(y)')) % self.operand()
            return r.choice(('MV r0, %s (x)', 'MV R1 %s ( Y )', 'mv ACC, %s, [x]', 'MV acc,%s,(y)', 'MV r9, %s (x)', 'MV r0 %s (x) 1')) % self.operand()
        if k < 0.92:
            if self.valid:
                return r.choice(('MV #3 TO r0', 'MV #x to Acc', 'MV LIST', 'MV LIST a b c', 'MV list,r0'))
            return r.choice(('MV #3 TO r0', 'MV #x to Acc', 'MV 3 TO r0', 'MV LIST', 'MV LIST a b c', 'MV list,r0', 'MV', 'MV #1 TO'))
        if k < 0.93 and not self.valid:
            return r.choice(('None', 'BOOM', 'crash', 'CRASH', 'bogus', 'NOP 1', 'LDI', 'LDI 1 2', 'LDW 1,2', '.bogus', '.', 'Two 2', 'boom 1'))
        return self.call()

    def call(self):
        r = self.r
        if not self.macros:
            return 'NOP'
        name, n = r.choice(self.macros)
        if r.random() < 0.1 and not self.valid:
            n += r.choice((-1, 1))
        if r.random() < 0.1 and not self.case:
            name = r.choice((name.lower(), name.upper()))
        return ' '.join([name] + [self.operand() for _ in range(max(0, n))])

    def label(self):
        r = self.r
        k = r.random()
        if self.labels and r.random() < 0.02:           # defined twice, perhaps in another section
            self.nsec += 1
            return r.choice(('', '.section .d%d RX\n' % self.nsec, '.org %d\n' % (self.far + 999))) + r.choice(self.labels) + ':'
        if k < 0.93 or self.valid:
            left = [x for x in LAB if x not in self.labels]
            if not left:
                return 'NOP'
            n = r.choice(left)
        else:
            n = r.choice(LAB + LAB + ['1', '$10', 'a-b', 'a b', '', '0xzz', '12o', 'x+1', "'a'", '99999999999999999999', 'FOO', '%9'])
        self.labels.append(n)
        return n + ':' + r.choice(('', '', ' ' + self.instr(), ' .db 1'))

    def layout(self):
        r = self.r
        k = r.randrange(10)
        if self.valid and k in (0, 8):
            k = 9
        if k == 0:
            b = r.choice((0, 0, 16, 64, 256, 1, 5))
            return '.org %d' % b if r.random() < 0.5 else '.org %d %d' % (b, b + r.choice((0, 3, 10, 40, 15, -1)))
        if k == 1:
            return '.fill %s%s' % (self.small(), r.choice(('', '', ' ' + self.num())))
        if k == 2:
            return '.align %s' % self.small()
        if self.valid and k == 3:
            self.far += 64
            return '.goto %d%s' % (self.far, r.choice(('', ' 7')))
        if k == 3:
            return '.goto %s%s' % (r.choice(('16', '20', '64', '70', '100', '256', '260', '270', '5', '$40')), r.choice(('', ' 7')))
        if k == 4 and self.valid:
            k = 2
            return '.align 4'
        if k == 4:
            return '.upto %s%s' % (r.choice(('16', '20', '4', '8', '30', '0', '1')), r.choice(('', ' 7', ' $ff')))
        if k == 5 and r.random() < 0.5:
            self.nsec += 1
            if r.random() < 0.3:
                return '.export %s' % (r.choice(LAB) if not self.valid else 'exported%d' % self.nsec)
            return '.section %s %s' % (r.choice(('.text', '"data"', 's1')) if not self.valid else '.s%d' % self.nsec, r.choice(('RX', 'RW', 'R', 'X', 'RWXE')))
        if k == 5:
            return '.ram %s' % self.small()
        if k in (6, 7):
            body = [self.simple() for _ in range(r.randrange(0, 4))]
            return '\n'.join(['.repeat %s' % r.choice(('1', '2', '3', '0', '5', '-1', 'a') if not self.valid else '12345')] + body + ['.endrepeat'])
        if k == 8:
            return r.choice(('.org', '.org 1 2 3', '.fill', '.align', '.align 1 2', '.goto', '.upto', '.ram', '.ram 0', '.repeat', '.endrepeat', '.org a',
                             '.align 0', '.fill a', '.goto a', '.ram a', '.repeat 2\n.repeat 2'))
        if self.region and r.random() < 0.25:          # near the borders of the previous region
            lo, hi = self.region
            b = r.choice((hi, hi, hi + 1, hi - 1, hi + 2, lo + 1, (lo + hi) // 2))
            self.far = max(self.far, hi)
            self.region = (b, b + r.choice((0, 1, 20))) if r.random() < 0.5 else None
            return '.org %d' % b + (' %d' % self.region[1] if self.region else '')
        self.far += r.choice((64, 100, 300))
        if r.random() < 0.6:
            self.region = (self.far, self.far + r.choice((5, 30, 50, 60, 63)))
            return '.org %d %d' % self.region
        self.region = None
        return '.org %d' % self.far

    def data(self):
        r = self.r
        d = r.choice(('.db', '.byte', '.dw', '.word', '.dd', '.dl', '.dword', '.DB', '.Dw')[:9 - 2 * (self.valid and self.case)])
        if r.random() < 0.2:
            d = r.choice(('.db_to_ascii', '.dw_to_ascii', '.db_to_asciiz', '.dw_to_asciiz'))
        if r.random() < 0.15:
            return self.incfile()
        n = r.choice((1, 1, 2, 3, 4)) if r.random() < 0.97 else r.choice((9, 17, 40))
        out = []
        for _ in range(n):
            k = r.random()
            if self.valid and 'ascii' in d:
                k = max(k, 0.2)
            out.append(self.string() if k < 0.15 else self.small() if k < 0.5 else self.operand())
        return d + ' ' + r.choice((', ', ' ', ',')).join(out)

    def incfile(self):
        r = self.r
        k = r.randrange(5 - self.valid)
        n = len(self.files)
        if k == 0:
            f = 'f%d.bin' % n
            self.files[f] = bytes(r.randrange(256) for _ in range(r.choice((0, 1, 2, 5, 9, 70, 300, 1100))))
            return '.incbin "%s"' % f
        if k in (1, 2):
            f = 'f%d.csv' % n
            self.files[f] = ''.join(','.join(r.choice(SMALL + ['200', '$ff', '-1']) if self.valid or r.random() < 0.97 else r.choice(['300', 'a', '65536'])
                                             for _ in range(r.choice((1, 1, 2, 3, 3, 20, 270)))) + '\n' for _ in range(r.choice((0, 1, 2, 3, 3, 12)))).encode()
            return r.choice(('.inccsv "%s"', '.inccsv_le16 %s')) % f
        if k == 3:
            f = 'f%d.json' % n
            self.files[f] = json.dumps({'a': {'d': {'e': {'g': [5, '$6']}}}, 'b' * 9: [1] * 300, 'c': [9, 8]} if r.random() < 0.3 else {'a': {'b': [r.choice((1, 2, 255, '3', '$10', 0)) if self.valid or r.random() < 0.97 else r.choice((256, -1, 'x', 1.5))
                                                    for _ in range(r.randrange(0, 5))]}, 'c': [9, 8]}).encode()
            if b'"d"' in self.files[f]:
                return '.incjson "%s" %s' % (f, r.choice(('a.d.e.g', 'bbbbbbbbb', 'c')))
            return '.incjson "%s" %s' % (f, r.choice(('a.b', 'c', '"a.b"', 'a', 'zz')[:5 - 2 * self.valid]))
        return r.choice(('.incbin', '.incbin nofile.bin', '.inccsv', '.incjson x', '.include', '.incbin a b', '.include nofile'))

    def simple(self):
        r = self.r
        k = r.random()
        if k < 0.5:
            return self.instr()
        return self.data()

    def macro(self):
        r = self.r
        name = r.choice(('MAC', 'mac2', 'M3', 'NOP', 'wrap'))
        params = r.sample(('p', 'q.r', 'FOO', 'x', 'w1'), r.randrange(0, 4))
        body = []
        old = self.macros
        self.macros = [m for m in old if m[0].upper() != name.upper() and (m[0].upper() != 'NOP') and name != 'NOP'][:0 if name == 'NOP' else 9]
        for _ in range(r.randrange(0, 4)):
            if params and r.random() < 0.7:
                body.append('%s %s%s' % (r.choice(('LDI', 'LDW', 'L64')), r.choice(('', '<', '>')), r.choice(params) + r.choice(('', '+1', '+' + r.choice(params), 'x'))))
            elif r.random() < 0.02 and not self.valid:
                body.append(r.choice(('lbl:', '.macro Z')))
            else:
                body.append(self.instr())
        self.macros = [m for m in old if m[0].upper() != name.upper()] + ([(name, len(params))] if name != 'NOP' or True else [])
        return '\n'.join(['.macro %s %s' % (name, ', '.join(params))] + body + ['.endmacro'])

    def define(self):
        r = self.r
        n = self.defname()
        self.defs.append(n)
        return '.define %s %s' % (n, r.choice((self.small(), self.lab()) if self.valid else (self.small(), self.lab(), 'NOP', 'LDI', 'K', 'bar', 'r0', '"s"')))

    def include(self):
        self.depth += 1
        f = 'inc%d.s' % len(self.files)
        self.files[f] = b''
        self.files[f] = self.program(self.r.randrange(1, 5)).encode()
        self.depth -= 1
        return '.include "%s"' % f

    def line(self):
        r = self.r
        w = dict(C05=(5, 3, 2, 2, 0.3, 0.3, 0.2), C06=(2, 3, 6, 1.5, 0.3, 0.3, 0.4), C07=(1, 2, 0.5, 8, 0.1, 0.5, 0.2),
                 C08=(3, 3, 1, 4, 0.5, 0.5, 0.1), C09=(4, 1, 0.3, 2, 3, 3, 0.2), C10=(8, 4, 1.2, 1, 1.5, 1, 0.2))[self.focus]
        k = r.choices(range(7), w)[0]
        if k == 6 and self.depth > 1:
            k = 0
        s = (self.instr, self.label, self.layout, self.data, self.macro, self.define, self.include)[k]()
        if r.random() < 0.15:
            s = '  ' + s + r.choice((' ; comment: "x', '\t', ' ;', '  ', '\r'))
        return s

    def program(self, n):
        return '\n'.join(self.line() for _ in range(n)) + self.r.choice(('', '\n'))


def run(conc, tier, rng, deadline, focus, count, sizes=(1, 1, 2, 3, 4, 6, 9)):
    top = tempfile.mkdtemp(prefix='necro-')
    here = os.getcwd()
    os.chdir(top)
    try:
        for k in range(count):
            if time.time() > deadline - 5:
                return
            cls = rng.choice(VARIANTS)
            valid = rng.random() < 0.75
            g = Gen(rng, focus, valid, cls.case_sensitive)
            srcs = [g.program(rng.choice(sizes)) for _ in range(rng.choice((1, 1, 1, 1, 2)))]
            if valid:       # mostly well-formed programs: every label exists
                rest = ' '.join('%s: %s' % (x, rng.choice(('', 'NOP\n', '.db 1\n', '.align 4\n')) or '') if False else '%s:' % x for x in LAB if x not in g.labels)
                srcs[-1] += '\n' + '\n'.join(rest.split()) if rng.random() < 0.5 else ''
                if rng.random() < 0.7:
                    srcs[0] = rest + '\n' + srcs[0] if not srcs[-1].endswith(rest.split()[-1] if rest else '\n\n') else srcs[0]
                if rng.random() < 0.25:     # one mutation
                    i = rng.randrange(len(srcs))
                    ls = srcs[i].split('\n')
                    ls.insert(rng.randrange(len(ls) + 1), Gen(rng, focus).line())
                    srcs[i] = '\n'.join(ls)
            case(conc, cls, srcs, g.files)
    finally:
        os.chdir(here)
        shutil.rmtree(top, ignore_errors=True)


def case(conc, cls, srcs, files):
    for f, d in files.items():
        with open(f, 'wb') as h:
            h.write(d)
    try:
        m, want = refasm.run_ref(cls, OPS, srcs, files, cls.defines)
    except refasm.TooBig:
        for f in files:
            os.unlink(f)
        return ('skipped', '')
    asm, got = refasm.run_real(cls, srcs)
    for f in files:
        os.unlink(f)
    w, o, ok = refasm.compare(want, got)
    conc.case(dict(cpu=cls.__name__, sources=srcs, files={k: v.decode('latin1') for k, v in files.items()}), w, o, ok=ok,
              key='%s %s %s' % (cls.__name__, json.dumps(srcs), json.dumps({k: v.hex() for k, v in files.items()}) if files else ''))
    return want
