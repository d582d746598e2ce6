"""A CPU encoder property: units for every mnemonic plus the CPython cross-check."""
import time
from pyvc.driver import Unit
from . import isa


class EncoderProperty:
    ASSUMPTIONS = [
        'operand texts are non-empty strings without further structure than the code inspects; the value a text denotes '
        'is given by the contract of parse_integer / get_label_*_by_name (proved in C02, C03, C04)',
        'labels keep the address they had when an operand saw them (Label.assemble rejects redefinition, C10)',
        'only attributes read by the handlers are modelled; log output is ignored',
    ]

    def __init__(self, cpu, cls, S, contracts=None, budget=150, deps=True, fixed_limit=None):
        self.cpu, self.cls, self.S = cpu, cls, S
        self.contracts = contracts
        self.budget = budget
        self.fixed_limit = fixed_limit
        self.deps = deps

    def mnemonics(self):
        host = self.cls()
        return sorted(set(host.instructions) | set(self.S.MNEMONICS)), host

    def units(self, tier):
        ms, host = self.mnemonics()
        out = []
        for m in ms:
            if m not in host.instructions:
                out.append(Unit('%s.%s' % (self.cpu, m), missing(self.cpu, m)))
                continue
            spec = self.S.spec if m in self.S.MNEMONICS else unknown_spec
            preds = getattr(self.S, 'SPLIT', {}).get(m)
            for case in [None] if not preds else [(k, preds) for k in range(len(preds) + 1)]:
                out.append(Unit('%s.%s' % (self.cpu, m) + ('/case%d' % case[0] if case else ''),
                                isa.encoder_unit(self.cpu, self.cls, m, spec, self.contracts, fixed_limit=self.fixed_limit,
                                                 align=getattr(self.S, 'ALIGN', 1), noblank=getattr(self.S, 'NOBLANK', False), case=case,
                                                 deviation=getattr(self.S, 'deviation', None), index_at=getattr(self.S, 'INDEX_AT', None)),
                                functions=[qual(host.instructions[m])], budget=self.budget, timeout_ms=8000))
        if hasattr(self.S, 'units'):
            out += self.S.units(self.cls)
        if self.deps:
            from . import core_contracts
            out += core_contracts.units_for(self.cls, tier)
        return out

    def concrete(self, conc, tier, rng, wits, deadline):
        ms, host = self.mnemonics()
        S = self.S

        def run(m, ops, labels, known, org, counter):
            spec = S.spec if m in S.MNEMONICS else unknown_spec
            want = isa.run_spec(host, spec, m, ops, labels, known, org, counter)
            got = isa.run_real(self.cls, m, ops, labels, known, org, counter)
            key = '%s %s' % (m, ' '.join(ops))
            if got != want and hasattr(S, 'deviation'):
                d = isa.run_deviation(host, S.deviation, m, ops, labels, known, org, counter)
                if d is not None and d[1] == got:       # exactly the recorded wrong outcome
                    conc.case(dict(statement=[m] + list(ops)), want, got, key=d[0])
                    return
            if labels:
                key += ' | ' + ' '.join('%s=%d%s' % (k, v, '*' if k in known else '') for k, v in sorted(labels.items()))
            if org + counter:
                key += ' @%d' % (org + counter)
            conc.case(dict(statement=[m] + list(ops), labels=labels, known_before=list(known), pc=org + counter),
                      want.hex() if isinstance(want, bytes) else want, got.hex() if isinstance(got, bytes) else got,
                      key=key, trivial=want is None and got is None)
        for u, w in wits:
            if 'mnemonic' in w:
                run(w['mnemonic'], w['operands'], w['labels'], w['known'], w['org'], w['counter'])
        for m, ops in getattr(S, 'FINDINGS', ()):
            run(m, ops, {}, [], 0, 0)
        # every operand text of every class at every place of every shape (others random), as many as fit
        grid = []
        shapes = getattr(S, 'SHAPES', None)
        for m in ms if shapes else ():
            if m in host.instructions:
                for sh in {tuple(x) for x in (shapes(m) if callable(shapes) else shapes)}:
                    grid += [(m, sh, j, v) for j, x in enumerate(sh) if x in S.CLASSES for v in S.CLASSES[x]]
        grid.sort()
        rng.shuffle(grid)
        for m, sh, j, v in grid[:getattr(S, 'GRID', 4000) if tier == 'quick' else 100000]:
            if time.time() > deadline:
                return
            labels = {'lab': 0x1000 + rng.choice((0, 4, 0x40, 0x8000)), 'fwd': rng.choice((0x120, 0x180)), 'zp': rng.choice((0, 5, 255))}
            run(m, [v if i == j else rng.choice(S.CLASSES[x]) if x in S.CLASSES else x for i, x in enumerate(sh)], labels,
                [x for x in ('lab', 'zp') if rng.random() < 0.7], rng.choice((0, 0x100, 0x8000)), 0)
        # regression of every mnemonic on generated operand lists
        per = getattr(S, 'PER', 60) if tier == 'quick' else getattr(S, 'PER', 60) * 12
        shapes = getattr(S, 'SHAPES', None)
        for m in ms:
            if m not in host.instructions:
                conc.case(dict(statement=[m]), 'supported', 'unknown mnemonic', key=m)
                continue
            for k in range(per):
                if time.time() > deadline:
                    return
                if shapes and rng.random() < 0.8:
                    sh = rng.choice(shapes(m) if callable(shapes) else shapes)
                    ops = [rng.choice(S.CLASSES[x]) if x in S.CLASSES else x for x in sh]
                    if rng.random() < 0.1:
                        ops.append(rng.choice(S.VOCAB))
                    if ops and rng.random() < 0.1:
                        ops[rng.randrange(len(ops))] = rng.choice(S.VOCAB)
                else:
                    ops = [rng.choice(S.VOCAB) for _ in range(rng.choice((0, 1, 1, 1, 2, 2, 3, 4, 5)))]
                org = rng.choice((0, 0x100, 0x8000, 0xFF00))
                ctr = rng.choice((0, 2, 4, 100)) * getattr(S, 'ALIGN', 1)
                pc = org + ctr
                far = rng.choice((0, 1, 2, 4, 8, 100, 126, 127, 128, 129, 130, 254, 255, 256, 1000, 2046, 2048, 32768, 65535, 65536, 1 << 20, (1 << 27) + 4, 1 << 32))
                labels = {'lab': max(0, pc + rng.choice((1, -1)) * far), 'fwd': max(0, pc + rng.choice((0, 1, 2, 4, 6, 8, 120, 127, 128, 129, 1000, 2050))), 'zp': rng.choice((0, 5, 255, 256, 252))}
                if rng.random() < 0.1:
                    labels['lab'] = rng.choice((0, 3, 5, 0xffff, 0x10000, 0xffffffff, 1 << 32))
                known = [x for x in ('lab', 'zp') if rng.random() < 0.7]
                run(m, ops, labels, known, org, ctr)


def missing(cpu, m):
    def body(c):
        c.prove('%s.%s/supported' % (cpu, m), False, info='mnemonic is no longer registered')
    return body


def unknown_spec(E, m, T, n):
    raise isa.Reject('mnemonic unknown to the architecture specification')


def qual(f):
    f = getattr(f, '__func__', f)
    if not hasattr(f, '__qualname__') and callable(f):
        f = type(f).__call__
    return '%s.%s' % (getattr(f, '__module__', '?'), getattr(f, '__qualname__', repr(f)[:40]))
