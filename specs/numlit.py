"""Reference meaning of operand texts (C03, C04): written from the property text, independent of /repo."""

OPS = '+-*/&|'


class Bad(Exception):
    """the text is rejected"""


class Unknown(Exception):
    """needs a label that is not known"""


def literal(text, cfg):
    """-> (value, is_decimal) or None when the text is not a number; Bad when it is malformed"""
    if text == '':
        raise Bad('empty')
    if len(text) == 3 and text[0] == "'" and text[2] == "'":
        return ord(text[1]), False
    for base, pres in ((16, cfg.hex_prefixes), (2, cfg.bin_prefixes), (8, cfg.oct_prefixes), (10, cfg.dec_prefixes)):
        for p in pres:
            if text.startswith(p):
                try:
                    return int(text[len(p):], base), base == 10
                except ValueError:
                    raise Bad('malformed literal')
    for base, sufs in ((16, cfg.hex_suffixes), (2, cfg.bin_suffixes), (8, cfg.oct_suffixes), (10, cfg.dec_suffixes)):
        for s in sufs:
            if text.endswith(s):
                body = text[:len(text) - len(s)]
                if body.isdigit():
                    try:
                        return int(body, base), base == 10
                    except ValueError:
                        raise Bad('malformed literal')
    try:
        return int(text), True
    except ValueError:
        return None


def split(text):
    """(selectors, base term, operation tail)"""
    k = 0
    while k < len(text) and text[k] in '<>':
        k += 1
    pre, rest = text[:k], text[k:]
    if rest[:1] in OPS and rest:
        return pre, rest, ''            # a leading operator (sign) belongs to the base term
    j = 3 if rest[:1] == "'" and rest[2:3] == "'" else 0    # a quoted character is one term
    while j < len(rest) and rest[j] not in OPS:
        j += 1
    return pre, rest[:j], rest[j:]


def select(pre, value):
    drop = pre.count('>')
    keep = pre.count('<')
    if keep == 0:
        return value >> (8 * drop)
    # selectors are read left to right
    v, low, acc = value, 0, 0
    for ch in pre:
        if ch == '>':
            v >>= 8
        else:
            acc |= ((v >> (8 * low)) & 0xFF) << (8 * low)
            low += 1
    return acc


def chain(tail):
    out = []
    i = 0
    while i < len(tail):
        op = tail[i]
        j = i + 1
        while j < len(tail) and tail[j] not in OPS:
            j += 1
        out.append((op, tail[i + 1:j]))
        i = j
    return out


def apply_op(op, a, b):
    if op == '+':
        return a + b
    if op == '-':
        return a - b
    if op == '*':
        return a * b
    if op == '/':
        if b == 0:
            raise Bad('division by zero')
        return a // b
    if op == '&':
        return a & b
    return a | b


def fit(value, decimal, bits, signed):
    """C02: the accepted value of a written number in a field of `bits` bits"""
    if not decimal:
        if value < 0 or value >= 1 << bits:
            raise Bad('out of range')
        return value
    if signed:
        if not -(1 << (bits - 1)) <= value < 1 << (bits - 1):
            raise Bad('out of range')
        return value
    if not -(1 << (bits - 1)) <= value < 1 << bits:
        raise Bad('out of range')
    return value + (1 << bits) if value < 0 else value


def formula(pre, tail, value, cfg, labels):
    value = select(pre, value)
    for op, arg in chain(tail):
        if arg == '':
            b = 1
        else:
            r = number(arg, cfg, labels)
            if r is not None:
                b = fit(r[0], r[1], 64, False)
            else:
                b = label_value(arg, cfg, labels)
                if b is None:
                    raise Unknown(arg)
        value = apply_op(op, value, b)
    return value


def number(text, cfg, labels):
    """-> (value, decimal) | None (not a number)"""
    if text == '':
        raise Bad('empty')
    pre, base, tail = split(text)
    lit = literal(base, cfg)
    if lit is None:
        return None
    return formula(pre, tail, lit[0], cfg, labels), lit[1]


def label_value(text, cfg, labels, start=0):
    pre, base, tail = split(text)
    if base not in labels:
        return None
    return formula(pre, tail, labels[base] - start, cfg, labels)
