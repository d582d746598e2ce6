"""Symbolic collaborators used by the contracts of the core: dictionaries, opaque callables, event traces."""
import z3
from pyvc import core, interp, vals, models
from pyvc.core import Unsupported, PathKill
from pyvc.vals import SymBase, SBool, SInt, STok, SText, SBytes, is_sym, lift_int, lift_bool, tok_info, opaque_bytes, mk_bool


def ctx():
    return core.CTX


def key_of(k):
    """identity of a dictionary key; two keys with different identities may still be equal"""
    if isinstance(k, str):
        return 'lit:' + k
    if isinstance(k, (STok, SText)):
        return 'tok:' + k.key
    if hasattr(k, 'dict_key'):
        return k.dict_key()
    raise Unsupported('dictionary key %s' % type(k).__name__)


class OMap(SymBase):
    """a dictionary of unknown contents; value(key) builds the value of a present key.
    Stores are layered on top."""
    pytype = dict

    def __init__(self, name, value=None, log=None):
        self.name, self.value, self.over, self.log = name, value, [], log

    def present(self, k):
        return z3.Bool('%s.has(%s)' % (self.name, key_of(k)))

    def _layer(self, k):
        for kk, v in reversed(self.over):
            if key_of(kk) == key_of(k):
                return True, v
            raise Unsupported('%s: lookup of one key after a store under another' % self.name)
        return False, None

    def sym_contains(self, k):
        hit, v = self._layer(k)
        return True if hit else SBool(self.present(k))

    def _val(self, k):
        memo = ctx().store.setdefault('omap:' + self.name, {})
        kk = key_of(k)
        if kk not in memo:
            memo[kk] = self.value(k)
        return memo[kk]

    def __getitem__(self, k):
        hit, v = self._layer(k)
        if hit:
            return v
        if not ctx().branch(self.present(k)):
            raise KeyError(self.name)
        return self._val(k)

    def get(self, k, d=None):
        hit, v = self._layer(k)
        if hit:
            return v
        return self._val(k) if ctx().branch(self.present(k)) else d

    def __setitem__(self, k, v):
        if self.log is not None:
            self.log(('store', self.name, key_of(k), v))
        self.over.append((k, v))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('dict.%s' % n)


def events():
    return ctx().store.setdefault('events', [])


def event(*e):
    if ctx().merging:
        raise core.Impure('effect in merged code')
    events().append(tuple(e))


def same_event(a, b):
    if len(a) != len(b):
        return False
    out = []
    for x, y in zip(a, b):
        if x is y:
            continue
        if isinstance(x, SBytes) or isinstance(y, SBytes):
            out.append(vals.bytes_eq_goal(x, y))
        elif isinstance(x, (SInt, SBool)) or isinstance(y, (SInt, SBool)):
            out.append(lift_int(x) == lift_int(y))
        elif is_sym(x) or is_sym(y):
            if isinstance(x, STok) and isinstance(y, STok) and x.key == y.key:
                continue
            return False
        elif x != y:
            return False
    return z3.And(out) if out else True


def prove_events(c, name, got, want, info=None):
    if len(got) != len(want):
        c.fail(name, info or ('effects %r, specified %r' % (names(got), names(want))))
        return
    goals = []
    for a, b in zip(got, want):
        g = same_event(a, b)
        if g is False:
            c.fail(name, info or ('effects %r, specified %r' % (names(got), names(want))))
            return
        if g is not True:
            goals.append(g)
    c.prove(name, z3.And(goals) if goals else True, info)


def names(ev):
    return [tuple(str(x)[:60] for x in e) for e in ev]
