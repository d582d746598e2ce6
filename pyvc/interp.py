"""AST interpreter for the functions of /repo over symbolic values.

The source text of a function is read from the file its code object names, on
every run; nothing is copied or rewritten.  Statements not listed in exec_stmt and
expressions not listed in eval_ make the unit Unsupported (not verified)."""
import ast
import builtins
import os
import types
import functools
import z3
from . import core
from .core import Unsupported, Impure, PathKill
from .vals import (SBool, SInt, STok, SText, SymTokens, SBytes, SObj, STokSplit,
                   SymBase, is_sym, not_, and_, or_, mk_bool, lift_bool, lift_int, fixed_int)

REPO = os.environ.get('PYVC_REPO', '/repo')
PKG = 'necroassembler'

_ast_cache = {}
_node_cache = {}


def C():
    return core.CTX


def file_ast(fn):
    if fn not in _ast_cache:
        with open(fn, 'rb') as f:
            _ast_cache[fn] = ast.parse(f.read(), fn)
    return _ast_cache[fn]


def func_node(func):
    code = func.__code__
    key = code
    if key in _node_cache:
        return _node_cache[key]
    tree = file_ast(code.co_filename)
    cands = []
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == code.co_name:
            first = min([n.lineno] + [d.lineno for d in n.decorator_list])
            if first == code.co_firstlineno:
                cands.append(n)
        elif isinstance(n, ast.Lambda) and code.co_name == '<lambda>' and n.lineno == code.co_firstlineno:
            cands.append(n)
    if len(cands) > 1:
        cols = [p for p in code.co_positions() if p[0] is not None and p[2] is not None and p[1] == p[0]]
        best = []
        for n in cands:
            b = n.body if isinstance(n, ast.Lambda) else n
            if all((b.lineno, b.col_offset) <= (p[0], p[2]) and (p[1], p[3]) <= (b.end_lineno, b.end_col_offset)
                   for p in cols if p[2] != p[3]):
                best.append(n)
        # innermost match
        best.sort(key=lambda n: (n.end_lineno - n.lineno, n.end_col_offset - n.col_offset))
        cands = best[:1]
    if len(cands) != 1:
        raise Unsupported('source of %s not found' % func.__qualname__)
    _node_cache[key] = cands[0]
    return cands[0]


def local_names(node):
    """names bound in the function scope"""
    if hasattr(node, '_pyvc_locals'):
        return node._pyvc_locals
    out = set()
    glob = set()

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            if n is node:
                for b in n.body:
                    self.visit(b)
            else:
                out.add(n.name)

        def visit_Lambda(self, n):
            if n is node:
                self.visit(n.body)

        def visit_ListComp(self, n):
            self.visit(n.generators[0].iter)
        visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])

        def visit_ImportFrom(self, n):
            for a in n.names:
                out.add(a.asname or a.name)

        def visit_Global(self, n):
            glob.update(n.names)

        def visit_Nonlocal(self, n):
            glob.update(n.names)

        def visit_MatchAs(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)
    V().visit(node)
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(x.arg)
    if a.vararg:
        out.add(a.vararg.arg)
    if a.kwarg:
        out.add(a.kwarg.arg)
    node._pyvc_locals = out - glob
    return node._pyvc_locals


class Frame:
    __slots__ = ('vars', 'parent', 'globals', 'names', 'cells', 'func', 'nonlocals', 'globs', 'self_cls')

    def __init__(self, parent, globals_, names, cells=None, func=None):
        self.vars = {}
        self.parent = parent
        self.globals = globals_
        self.names = names
        self.cells = cells or {}
        self.func = func
        self.nonlocals = ()
        self.globs = ()
        self.self_cls = None

    def lookup(self, n):
        f = self
        while f is not None:
            if n in f.vars:
                return f.vars[n]
            if n in f.names:
                if f is self:
                    raise UnboundLocalError("cannot access local variable '%s'" % n)
                raise NameError(n)
            if n in f.cells:
                try:
                    return lift(f.cells[n].cell_contents)
                except ValueError:
                    raise NameError(n)
            f = f.parent
        if n in self.globals:
            return lift(self.globals[n])
        b = self.globals.get('__builtins__', builtins)
        if hasattr(builtins, n):
            return getattr(builtins, n)
        raise NameError("name '%s' is not defined" % n)

    def store(self, n, v):
        if n in self.nonlocals:
            f = self.parent
            while f is not None:
                if n in f.vars or n in f.names:
                    f.vars[n] = v
                    return
                f = f.parent
            raise Unsupported('nonlocal cell store')
        if n in self.globs:
            raise Unsupported('global store')
        self.vars[n] = v


class IFunc:
    """function object created while interpreting"""
    def __init__(self, node, frame, defaults, kwdefaults, name):
        self.node, self.frame, self.defaults, self.kwdefaults = node, frame, defaults, kwdefaults
        self.__name__ = name
        self.attrs = {}

    def __call__(self, *a, **k):
        return icall(self, a, k)


class IBound:
    def __init__(self, self_, func):
        self.self_, self.func = self_, func
        self.__name__ = getattr(func, '__name__', '?')

    @property
    def __self__(self):
        return self.self_

    @property
    def __func__(self):
        return self.func

    def __call__(self, *a, **k):
        return icall(self, a, k)

    def __eq__(self, o):
        return isinstance(o, IBound) and o.self_ is self.self_ and o.func is self.func

    def __hash__(self):
        return hash((id(self.self_), id(self.func)))


class StarSym:
    """*symbolic-sequence in a call"""
    def __init__(self, seq):
        self.seq = seq


def lift(v):
    """map host objects to their symbolic counterparts on this path"""
    c = C()
    if c is None:
        return v
    m = c.store.get('lift')
    if m:
        r = m.get(id(v))
        if r is not None:
            return r
    return v


def note_born(o):
    c = C()
    if c is not None and c.merging:
        c.store.setdefault('born', {})[id(o)] = o
    return o


def check_mutation(o):
    c = C()
    if c is not None and c.merging:
        b = c.store.get('born')
        if b is None or id(o) not in b:
            raise Impure('mutation of outer state in merged code')
    if c is not None and c.store.get('frozen') and id(o) in c.store['frozen']:
        raise Unsupported('mutation of a shared table')


# ---------------------------------------------------------------------------
def pytype(v):
    if is_sym(v):
        return v.pytype
    if isinstance(v, (IFunc,)):
        return types.FunctionType
    if isinstance(v, IBound):
        return types.MethodType
    return type(v)


def static_lookup(cls, n):
    for k in cls.__mro__:
        if n in k.__dict__:
            return k.__dict__[n], k
    raise AttributeError(n)


def getattr_(o, n):
    if isinstance(o, SObj):
        if n in o.attrs:
            return o.attrs[n]
        if n == '__class__':
            return o.cls
        if n == '__dict__':
            raise Unsupported('__dict__')
        try:
            v, k = static_lookup(o.cls, n)
        except AttributeError:
            v = None
            k = None
        if k is not None and isinstance(v, property):
            return icall(v.fget, (o,), {})
        if o.host is not None and n in getattr(o.host, '__dict__', {}):
            hv = o.host.__dict__[n]
            return lift(hv)
        if k is None:
            raise AttributeError("'%s' object has no attribute '%s'" % (o.cls.__name__, n))
        if isinstance(v, types.FunctionType):
            return IBound(o, v)
        if isinstance(v, staticmethod):
            return v.__func__
        if isinstance(v, classmethod):
            return IBound(o.cls, v.__func__)
        if isinstance(v, functools.cached_property):
            raise Unsupported('cached_property')
        if hasattr(type(v), '__get__') and not isinstance(v, type):
            raise Unsupported('descriptor %s' % n)
        return lift(v)
    if isinstance(o, SuperProxy):
        return o.get(n)
    if isinstance(o, IFunc):
        if n in o.attrs:
            return o.attrs[n]
        if n == '__name__':
            return o.__name__
        raise AttributeError(n)
    if isinstance(o, IBound):
        if n == '__self__':
            return o.self_
        if n == '__func__':
            return o.func
        return getattr(o.func, n)
    if isinstance(o, SymBase):
        return getattr(o, n)
    return lift(getattr(o, n))


def setattr_(o, n, v):
    if isinstance(o, SObj):
        c = C()
        if c is not None and c.merging and o.birth < c.merging:
            raise Impure('attribute store in merged code')
        try:
            d, k = static_lookup(o.cls, n)
            if isinstance(d, property):
                if d.fset is None:
                    raise AttributeError("can't set attribute")
                icall(d.fset, (o, v), {})
                return
        except AttributeError:
            pass
        o.attrs[n] = v
        return
    if isinstance(o, IFunc):
        o.attrs[n] = v
        return
    if isinstance(o, BaseException):
        if n == 'args':
            o.args = v
        else:
            setattr(o, n, v)
        return
    raise Unsupported('attribute store on host object %s.%s' % (type(o).__name__, n))


class SuperProxy:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj

    def get(self, n):
        ocls = self.obj.cls if isinstance(self.obj, SObj) else type(self.obj)
        mro = ocls.__mro__
        i = mro.index(self.cls)
        for k in mro[i + 1:]:
            if n in k.__dict__:
                v = k.__dict__[n]
                if isinstance(v, types.FunctionType):
                    return IBound(self.obj, v)
                if isinstance(v, property):
                    return icall(v.fget, (self.obj,), {})
                if isinstance(v, classmethod):
                    return IBound(ocls, v.__func__)
                if isinstance(v, staticmethod):
                    return v.__func__
                if k is object and n == '__init__':
                    return lambda *a, **kw: None
                if k is object:
                    raise Unsupported('super().%s' % n)
                return v
        raise AttributeError(n)


PRIM = (int, str, bytes, bool, type(None), float)


def is_conc(v, depth=0):
    if isinstance(v, PRIM):
        return True
    if isinstance(v, tuple) and depth < 4:
        return all(is_conc(x, depth + 1) for x in v)
    return False


def has_sym(v, depth=0):
    if is_sym(v) or isinstance(v, (IFunc, IBound, StarSym)):
        return True
    if isinstance(v, (list, tuple, set, frozenset)) and depth < 5:
        return any(has_sym(x, depth + 1) for x in v)
    if isinstance(v, dict) and depth < 5:
        return any(has_sym(x, depth + 1) or has_sym(k, depth + 1) for k, x in v.items())
    return False


CONTRACTS = {}      # 'module.qualname' -> callable(ctx, args, kwargs) spec application
DEPTH = [0]


def qual(f):
    return '%s.%s' % (f.__module__, f.__qualname__)


def icall(f, args, kwargs):
    args = tuple(args)
    if isinstance(f, IBound):
        return icall(f.func, (f.self_,) + args, kwargs)
    if isinstance(f, IFunc):
        return run_function(f.node, f.frame, f.frame.globals, args, kwargs, f.defaults, f.kwdefaults, {}, None, f.__name__)
    if isinstance(f, types.MethodType):
        return icall(f.__func__, (lift(f.__self__),) + args, kwargs)
    if isinstance(f, functools.partial):
        return icall(f.func, tuple(f.args) + args, dict(f.keywords, **kwargs))
    if isinstance(f, types.FunctionType):
        if f.__module__ == 'copy':
            from .models import call_builtin
            return call_builtin(f, args, kwargs)
        return call_function(f, args, kwargs)
    if isinstance(f, SObj):
        v, _ = static_lookup(f.cls, '__call__')
        return icall(v, (f,) + args, kwargs)
    if isinstance(f, type):
        return construct(f, args, kwargs)
    if isinstance(f, (types.BuiltinFunctionType, types.MethodWrapperType, types.MethodDescriptorType,
                      types.WrapperDescriptorType, types.ClassMethodDescriptorType)):
        from .models import call_builtin
        return call_builtin(f, args, kwargs)
    if isinstance(f, SymBase):
        if hasattr(type(f), '__call__'):
            return f(*args, **kwargs)
        raise TypeError('object is not callable')
    t = type(f)
    try:
        v, _ = static_lookup(t, '__call__')
    except AttributeError:
        raise TypeError("'%s' object is not callable" % t.__name__)
    if isinstance(v, types.FunctionType):
        if (v.__module__ or '').startswith(PKG):
            return icall(v, (f,) + args, kwargs)
        return f(*args, **kwargs)
    from .models import call_builtin
    return call_builtin(f, args, kwargs)


NOCONTRACT = object()       # a contract that does not cover this call: the body is executed instead


def call_function(f, args, kwargs):
    c = C()
    mod = f.__module__ or ''
    q = mod + '.' + f.__qualname__
    if c is not None:
        con = c.static.get('contracts', CONTRACTS).get(q)
        if con is not None and q not in c.static.get('verifying', ()):
            r = con(c, args, kwargs)
            if r is not NOCONTRACT:
                c.used_contracts.add(q)
                return r
    if mod == PKG or mod.startswith(PKG + '.'):
        if '<locals>' not in f.__qualname__ and all(is_conc(a) for a in args) and all(is_conc(v) for v in kwargs.values()) \
                and not f.__code__.co_flags & 0x20 and not f.__code__.co_freevars and q not in (c.static.get('verifying', ()) if c else ()):
            return f(*args, **kwargs)
        node = func_node(f)
        cells = dict(zip(f.__code__.co_freevars, f.__closure__ or ()))
        if c is not None:
            c.inlined.add(q)
        cls = None
        return run_function(node, None, f.__globals__, args, kwargs,
                            f.__defaults__ or (), f.__kwdefaults__ or {}, cells, f, f.__name__)
    if mod.startswith('pyvc') or mod.startswith('specs'):
        return f(*args, **kwargs)
    if any(has_sym(a) for a in args) or any(has_sym(v) for v in kwargs.values()):
        raise Unsupported('call of external function %s on symbolic values' % q)
    return f(*args, **kwargs)


def construct(cls, args, kwargs):
    from .models import TYPE_MODELS
    if cls in TYPE_MODELS:
        return TYPE_MODELS[cls](*args, **kwargs)
    if issubclass(cls, BaseException):
        return cls(*args, **kwargs)
    if (cls.__module__ or '').startswith(PKG):
        c = C()
        con = c.static.get('contracts', CONTRACTS).get(cls.__module__ + '.' + cls.__qualname__) if c else None
        if con is not None:
            c.used_contracts.add(cls.__module__ + '.' + cls.__qualname__)
            return con(c, args, kwargs)
        if issubclass(cls, (tuple, list, dict, str, int)):
            raise Unsupported('instance of builtin subclass %s' % cls.__name__)
        o = SObj(cls)
        try:
            init, k = static_lookup(cls, '__init__')
        except AttributeError:
            init, k = None, object
        if k is not object and init is not None:
            r = icall(init, (o,) + tuple(args), kwargs)
        elif args or kwargs:
            raise TypeError('%s() takes no arguments' % cls.__name__)
        return o
    if not any(has_sym(a) for a in args) and not any(has_sym(v) for v in kwargs.values()):
        return cls(*args, **kwargs)
    raise Unsupported('construction of %s from symbolic values' % cls)


class ReturnEx(Exception):
    pass


def bind(node, args, kwargs, defaults, kwdefaults, name):
    a = node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    env = {}
    star = None
    if any(isinstance(x, StarSym) for x in args):
        if not a.vararg:
            raise Unsupported('symbolic *args into fixed parameters of %s' % name)
        k = [i for i, x in enumerate(args) if isinstance(x, StarSym)][0]
        if k < len(pos) or k != len(args) - 1:
            raise Unsupported('symbolic *args position in %s' % name)
        if k > len(pos):
            raise Unsupported('mixed *args in %s' % name)
        star = args[k].seq
        args = args[:k]
    if len(args) > len(pos) and not a.vararg:
        raise TypeError('%s() takes %d positional arguments but %d were given' % (name, len(pos), len(args)))
    for n, v in zip(pos, args):
        env[n] = v
    if a.vararg:
        env[a.vararg.arg] = star if star is not None else tuple(args[len(pos):])
    extra = {}
    posonly = {x.arg for x in a.posonlyargs}
    names = set(pos) - posonly | {x.arg for x in a.kwonlyargs}
    for k, v in kwargs.items():
        if k in names:
            if k in env:
                raise TypeError("%s() got multiple values for argument '%s'" % (name, k))
            env[k] = v
        elif a.kwarg:
            extra[k] = v
        else:
            raise TypeError("%s() got an unexpected keyword argument '%s'" % (name, k))
    if a.kwarg:
        env[a.kwarg.arg] = extra
    nd = len(defaults)
    for i, n in enumerate(pos):
        if n not in env:
            j = i - (len(pos) - nd)
            if j >= 0:
                env[n] = defaults[j]
            else:
                raise TypeError("%s() missing required positional argument: '%s'" % (name, n))
    for x in a.kwonlyargs:
        if x.arg not in env:
            if x.arg in kwdefaults:
                env[x.arg] = kwdefaults[x.arg]
            else:
                raise TypeError("%s() missing keyword-only argument '%s'" % (name, x.arg))
    return env


def run_function(node, parent, globals_, args, kwargs, defaults, kwdefaults, cells, func, name):
    env = bind(node, args, kwargs, defaults, kwdefaults, name)
    fr = Frame(parent, globals_, local_names(node), cells, func)
    fr.vars.update(env)
    DEPTH[0] += 1
    if DEPTH[0] > 120:
        DEPTH[0] = 0
        raise Unsupported('recursion too deep in %s' % name)
    try:
        if isinstance(node, ast.Lambda):
            return eval_(node.body, fr)
        if is_generator(node):
            return gen_run(node, fr)
        kind, v = exec_block(node.body, fr)
        return v if kind == 'return' else None
    finally:
        DEPTH[0] -= 1


def is_generator(node):
    if not hasattr(node, '_pyvc_gen'):
        g = False
        stack = list(node.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                g = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        node._pyvc_gen = g
    return node._pyvc_gen


def gen_run(node, fr):
    """generators are run eagerly into a list (no interleaving side effects in
    the code base); order of elements is exact"""
    out = []
    fr.vars['__yield__'] = out
    fr.names = fr.names | {'__yield__'}
    exec_block(node.body, fr)
    return iter(out)


NORMAL = ('normal', None)


def exec_block(stmts, fr):
    for s in stmts:
        r = exec_stmt(s, fr)
        if r is not NORMAL:
            return r
    return NORMAL


def truth(v):
    """python truth value; forks when symbolic"""
    return bool(v)


def exec_stmt(s, fr):
    t = type(s)
    if t is ast.Expr:
        eval_(s.value, fr)
        return NORMAL
    if t is ast.Assign:
        v = eval_(s.value, fr)
        for tg in s.targets:
            assign(tg, v, fr)
        return NORMAL
    if t is ast.AugAssign:
        return aug(s, fr)
    if t is ast.AnnAssign:
        if s.value is not None:
            assign(s.target, eval_(s.value, fr), fr)
        return NORMAL
    if t is ast.If:
        if truth(eval_(s.test, fr)):
            return exec_block(s.body, fr)
        return exec_block(s.orelse, fr)
    if t is ast.Return:
        return ('return', eval_(s.value, fr) if s.value is not None else None)
    if t is ast.For:
        return exec_for(s, fr)
    if t is ast.While:
        return exec_while(s, fr)
    if t is ast.Raise:
        return exec_raise(s, fr)
    if t is ast.Try:
        return exec_try(s, fr)
    if t is ast.Pass:
        return NORMAL
    if t is ast.Break:
        return ('break', None)
    if t is ast.Continue:
        return ('continue', None)
    if t is ast.FunctionDef:
        f = make_func(s, fr)
        for d in reversed(s.decorator_list):
            f = icall(eval_(d, fr), (f,), {})
        fr.store(s.name, f)
        return NORMAL
    if t is ast.With:
        return exec_with(s, 0, fr)
    if t is ast.Assert:
        if not truth(eval_(s.test, fr)):
            raise AssertionError(eval_(s.msg, fr) if s.msg is not None else '')
        return NORMAL
    if t is ast.Import:
        for a in s.names:
            m = import_(a.name)
            if a.asname:
                fr.store(a.asname, m[1])
            else:
                fr.store(a.name.split('.')[0], m[0])
        return NORMAL
    if t is ast.ImportFrom:
        c = C()
        stubs = c.static.get('modules', {}) if c else {}
        if s.module in stubs:
            m = stubs[s.module]
        elif s.level:
            raise Unsupported('relative import')
        else:
            import importlib
            m = importlib.import_module(s.module)
        for a in s.names:
            fr.store(a.asname or a.name, lift(getattr(m, a.name)))
        return NORMAL
    if t is ast.Delete:
        for tg in s.targets:
            if isinstance(tg, ast.Name):
                fr.lookup(tg.id)
                fr.vars.pop(tg.id, None)
            elif isinstance(tg, ast.Subscript):
                o = eval_(tg.value, fr)
                i = eval_index(tg.slice, fr)
                check_mutation(o)
                if is_sym(o) or is_sym(i):
                    raise Unsupported('del on symbolic container')
                del o[i]
            else:
                raise Unsupported('del form')
        return NORMAL
    if t is ast.Global:
        fr.globs = tuple(fr.globs) + tuple(s.names)
        return NORMAL
    if t is ast.Nonlocal:
        fr.nonlocals = tuple(fr.nonlocals) + tuple(s.names)
        return NORMAL
    raise Unsupported('statement %s at line %s' % (t.__name__, getattr(s, 'lineno', '?')))


def import_(name):
    import importlib
    c = C()
    stubs = c.static.get('modules', {}) if c else {}
    if name in stubs:
        return stubs[name], stubs[name]
    m = importlib.import_module(name)
    return importlib.import_module(name.split('.')[0]), m


def make_func(node, fr):
    defaults = tuple(eval_(d, fr) for d in node.args.defaults)
    kwd = {a.arg: eval_(d, fr) for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None}
    return IFunc(node, fr, defaults, kwd, getattr(node, 'name', '<lambda>'))


def assign(tg, v, fr):
    t = type(tg)
    if t is ast.Name:
        fr.store(tg.id, v)
    elif t in (ast.Tuple, ast.List):
        unpack(tg.elts, v, fr)
    elif t is ast.Attribute:
        setattr_(eval_(tg.value, fr), tg.attr, v)
    elif t is ast.Subscript:
        o = eval_(tg.value, fr)
        i = eval_index(tg.slice, fr)
        setitem_(o, i, v)
    elif t is ast.Starred:
        raise Unsupported('starred target')
    else:
        raise Unsupported('assignment target %s' % t.__name__)


def models_():
    from . import models
    return models


def unpack(elts, v, fr):
    star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
    if isinstance(v, SymTokens) or hasattr(v, 'sym_unpack'):
        if star:
            k = star[0]
            after = len(elts) - k - 1
            if after and not isinstance(v, models_().SSeq):
                raise Unsupported('starred unpack of symbolic list')
            n = v.length()
            if not (n >= k + after):
                raise ValueError('not enough values to unpack')
            for i in range(k):
                assign(elts[i], v[i], fr)
            assign(elts[k].value, v[k:n - after] if after else v[k:], fr)
            for i in range(after):
                assign(elts[k + 1 + i], v.elem(lift_int(n - after + i)), fr)
            return
        if not (v.length() == len(elts)):
            raise ValueError('unpack: wrong number of values')
        for i, e in enumerate(elts):
            assign(e, v[i], fr)
        return
    if isinstance(v, STokSplit):
        if star:
            raise Unsupported('starred split')
        vals = v.unpack(len(elts))
    else:
        vals = list(iterate(v))
    if star:
        k = star[0]
        after = len(elts) - k - 1
        if len(vals) < len(elts) - 1:
            raise ValueError('not enough values to unpack')
        for i in range(k):
            assign(elts[i], vals[i], fr)
        assign(elts[k].value, list(vals[k:len(vals) - after]), fr)
        for i in range(after):
            assign(elts[k + 1 + i], vals[len(vals) - after + i], fr)
        return
    if len(vals) != len(elts):
        raise ValueError('unpack: wrong number of values (expected %d, got %d)' % (len(elts), len(vals)))
    for e, x in zip(elts, vals):
        assign(e, x, fr)


def setitem_(o, i, v):
    from .models import NATIVE_MUT
    check_mutation(o)
    if isinstance(o, dict):
        if has_sym(i):
            raise Unsupported('symbolic key stored into a concrete dict')
        o[i] = v
        return
    if isinstance(o, list):
        if isinstance(i, SInt):
            i = split_index(i, len(o))
        o[i] = v
        return
    if isinstance(o, bytearray):
        if has_sym(i) or has_sym(v):
            raise Unsupported('symbolic store into a concrete bytearray')
        o[i] = v
        return
    if isinstance(o, SymBase) and hasattr(type(o), '__setitem__'):
        o[i] = v
        return
    if isinstance(o, SObj):
        m, _ = static_lookup(o.cls, '__setitem__')
        icall(m, (o, i, v), {})
        return
    if isinstance(o, (str, bytes, tuple)) or (isinstance(o, SymBase) and o.pytype in (str, bytes, tuple)):
        raise TypeError('object does not support item assignment')
    raise Unsupported('item store on %s' % type(o).__name__)


def split_index(i, n):
    c = C()
    for k in range(n):
        if c.branch(i.t == k):
            return k
    for k in range(1, n + 1):
        if c.branch(i.t == -k):
            return -k
    raise IndexError('list index out of range')


def getitem_(o, i):
    if isinstance(o, SObj):
        m, _ = static_lookup(o.cls, '__getitem__')
        return icall(m, (o, i), {})
    if isinstance(o, SymBase):
        return o[i]
    if isinstance(o, dict):
        if has_sym(i):
            from .models import dict_lookup
            return dict_lookup(o, i)
        return lift(o[i])
    if isinstance(i, SInt):
        if isinstance(o, (list, tuple, bytes, bytearray, str)):
            from .models import table_index
            return table_index(o, i)
        raise Unsupported('symbolic index')
    if isinstance(i, slice) and any(is_sym(x) for x in (i.start, i.stop, i.step)):
        from .models import slice_native
        return slice_native(o, i)
    if isinstance(i, SymBase):
        raise TypeError('indices must be integers')
    return lift(o[i])


def aug(s, fr):
    op = BINOPS_I[type(s.op)]
    tg = s.target
    if isinstance(tg, ast.Name):
        old = fr.lookup(tg.id)
        new = binop_i(op, old, eval_(s.value, fr))
        fr.store(tg.id, new)
    elif isinstance(tg, ast.Attribute):
        o = eval_(tg.value, fr)
        old = getattr_(o, tg.attr)
        setattr_(o, tg.attr, binop_i(op, old, eval_(s.value, fr)))
    elif isinstance(tg, ast.Subscript):
        o = eval_(tg.value, fr)
        i = eval_index(tg.slice, fr)
        old = getitem_(o, i)
        setitem_(o, i, binop_i(op, old, eval_(s.value, fr)))
    else:
        raise Unsupported('augmented target')
    return NORMAL


import operator as op_

BINOPS = {ast.Add: op_.add, ast.Sub: op_.sub, ast.Mult: op_.mul, ast.Div: op_.truediv,
          ast.FloorDiv: op_.floordiv, ast.Mod: op_.mod, ast.Pow: op_.pow, ast.LShift: op_.lshift,
          ast.RShift: op_.rshift, ast.BitOr: op_.or_, ast.BitXor: op_.xor, ast.BitAnd: op_.and_}
BINOPS_I = {ast.Add: op_.iadd, ast.Sub: op_.isub, ast.Mult: op_.imul, ast.Div: op_.itruediv,
            ast.FloorDiv: op_.ifloordiv, ast.Mod: op_.imod, ast.Pow: op_.ipow, ast.LShift: op_.ilshift,
            ast.RShift: op_.irshift, ast.BitOr: op_.ior, ast.BitXor: op_.ixor, ast.BitAnd: op_.iand}
_I2B = {op_.iadd: op_.add, op_.isub: op_.sub, op_.imul: op_.mul, op_.itruediv: op_.truediv,
        op_.ifloordiv: op_.floordiv, op_.imod: op_.mod, op_.ipow: op_.pow, op_.ilshift: op_.lshift,
        op_.irshift: op_.rshift, op_.ior: op_.or_, op_.ixor: op_.xor, op_.iand: op_.and_}


def binop(op, a, b):
    if (is_sym(a) or is_sym(b)):
        if isinstance(a, (list, bytearray)) and is_sym(b):
            if op is op_.mul or op is op_.add:
                from .models import seq_binop
                return seq_binop(op, a, b)
        if isinstance(a, str) and op is op_.mod:
            from .models import OpaqueStr
            return OpaqueStr(C().fresh('fmt'))
        if isinstance(a, str) and isinstance(b, SInt) and op is op_.mul:
            from .models import repeat_seq
            return repeat_seq(a, b)
        if isinstance(a, SObj) or isinstance(b, SObj):
            raise Unsupported('operator on object')
    r = op(a, b)
    if isinstance(r, (list, bytearray)):
        note_born(r)
    return r


def binop_i(op, a, b):
    if isinstance(a, list):
        check_mutation(a)
        if op is op_.iadd:
            if is_sym(b) and not isinstance(b, SymBase):
                raise Unsupported('list += symbolic')
            if isinstance(b, SymBase):
                from .models import seq_binop
                return seq_binop(op_.add, a, b)
            a.extend(list(iterate(b)))
            return a
    if isinstance(a, bytearray):
        check_mutation(a)
        if is_sym(b):
            raise Unsupported('concrete bytearray += symbolic')
        return op(a, b)
    if isinstance(a, SBytes) and a.mutable:
        return op(a, b)
    return binop(_I2B[op], a, b)


def exec_while(s, fr):
    n = 0
    while truth(eval_(s.test, fr)):
        n += 1
        if n > 400:
            raise Unsupported('while loop without contract exceeds 400 iterations')
        k, v = r = exec_block(s.body, fr)
        if k == 'break':
            return NORMAL
        if k == 'return':
            return r
    return exec_block(s.orelse, fr)


def exec_for(s, fr):
    it = eval_(s.iter, fr)
    from . import loops
    h = loops.find(it)
    if h is not None:
        loops.visits_all(h, it)
        return h(s, it, fr)
    for x in iterate(it):
        assign(s.target, x, fr)
        k, v = r = exec_block(s.body, fr)
        if k == 'break':
            return NORMAL
        if k == 'return':
            return r
    return exec_block(s.orelse, fr)


def iterate(it):
    if isinstance(it, (list,)):
        # live iteration, like python
        i = 0
        while i < len(it):
            yield lift(it[i])
            i += 1
        return
    if isinstance(it, dict):
        for k in list(it):
            yield k
        return
    if isinstance(it, SymBase):
        if hasattr(type(it), 'sym_iter'):
            for x in it.sym_iter():
                yield x
            return
        if not hasattr(type(it), '__iter__'):
            raise TypeError('object is not iterable') if it.pytype in (int, bool) else Unsupported('iteration')
        for x in iter(it):
            yield x
        return
    for x in it:
        yield lift(x)


def exec_raise(s, fr):
    if s.exc is None:
        e = fr_exc(fr)
        if e is None:
            raise RuntimeError('No active exception to reraise')
        raise e
    e = eval_(s.exc, fr)
    if isinstance(e, type) and issubclass(e, BaseException):
        e = icall(e, (), {})
    if s.cause is not None:
        eval_(s.cause, fr)
    if isinstance(e, BaseException):
        raise e
    raise TypeError('exceptions must derive from BaseException')


_EXC_STACK = []


def fr_exc(fr):
    return _EXC_STACK[-1] if _EXC_STACK else None


def exec_try(s, fr):
    result = NORMAL
    try:
        try:
            result = exec_block(s.body, fr)
        except Exception as e:
            if isinstance(e, z3.Z3Exception):
                raise Unsupported('z3 error: %s' % e)
            h = None
            for hd in s.handlers:
                if hd.type is None:
                    h = hd
                    break
                ty = eval_(hd.type, fr)
                if isinstance(e, ty):
                    h = hd
                    break
            if h is None:
                raise
            if h.name:
                fr.store(h.name, e)
            _EXC_STACK.append(e)
            try:
                result = exec_block(h.body, fr)
            finally:
                _EXC_STACK.pop()
                if h.name:
                    fr.vars.pop(h.name, None)
        else:
            if result is NORMAL and s.orelse:
                result = exec_block(s.orelse, fr)
    except Exception:
        if s.finalbody:
            r = exec_block(s.finalbody, fr)
            if r is not NORMAL:
                return r
        raise
    if s.finalbody:
        r = exec_block(s.finalbody, fr)
        if r is not NORMAL:
            return r
    return result


def exec_with(s, k, fr):
    if k == len(s.items):
        return exec_block(s.body, fr)
    it = s.items[k]
    cm = eval_(it.context_expr, fr)
    v = icall(getattr_(cm, '__enter__'), (), {})
    if it.optional_vars is not None:
        assign(it.optional_vars, v, fr)
    try:
        r = exec_with(s, k + 1, fr)
    except Exception as e:
        if truth(icall(getattr_(cm, '__exit__'), (type(e), e, None), {})):
            return NORMAL
        raise
    icall(getattr_(cm, '__exit__'), (None, None, None), {})
    return r


# ---------------------------------------------------------------------------
def eval_index(n, fr):
    if isinstance(n, ast.Slice):
        return slice(eval_(n.lower, fr) if n.lower is not None else None,
                     eval_(n.upper, fr) if n.upper is not None else None,
                     eval_(n.step, fr) if n.step is not None else None)
    return eval_(n, fr)


def contains_(cont, x):
    """x in cont, without forking when possible"""
    if isinstance(cont, dict) or type(cont).__name__ in ('dict_keys',):
        if has_sym(x):
            if isinstance(x, (STok, SText)):
                return or_(*[x == k for k in cont if isinstance(k, str)])
            return or_(*[x == k for k in cont])
        return x in cont
    if isinstance(cont, (tuple, list, set, frozenset)):
        if isinstance(x, SInt) and len(cont) > 1 and all(type(k) is int for k in cont):
            ks, runs = sorted(set(cont)), []        # neighbouring numbers as an interval
            for k in ks:
                if runs and runs[-1][1] == k - 1:
                    runs[-1][1] = k
                else:
                    runs.append([k, k])
            return or_(*[x == a if a == b else and_(x >= a, x <= b) for a, b in runs])
        if has_sym(x) or has_sym(cont):
            return or_(*[eq_(x, k) for k in cont])
        return x in cont
    if isinstance(cont, str):
        if is_sym(x):
            if isinstance(x, (STok, SText)):
                # substring test of an unknown text in a constant
                subs = {cont[i:j] for i in range(len(cont) + 1) for j in range(i, len(cont) + 1)}
                return or_(*[x == k for k in sorted(subs)])
            if hasattr(x, 'in_str'):
                return x.in_str(cont)
            raise Unsupported('in str')
        return x in cont
    if isinstance(cont, (STok, SText)):
        if isinstance(cont, SText):
            cont = cont.as_tok()
        return cont.contains(x)
    if isinstance(cont, SymBase):
        if hasattr(cont, 'sym_contains'):
            return cont.sym_contains(x)
        from .models import SSeq, m_any
        if isinstance(cont, SSeq):
            return m_any(SSeq(cont.n, lambda k: eq_(x, cont.elem(k)), 'member'))
        raise Unsupported('in on %s' % type(cont).__name__)
    if has_sym(x):
        if isinstance(cont, range):
            if cont.step == 1:
                return and_(x >= cont.start, x < cont.stop)
        raise Unsupported('symbolic member test on %s' % type(cont).__name__)
    return x in cont


def eq_(a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and (has_sym(a) or has_sym(b)):
        if type(a) is not type(b) or len(a) != len(b):
            return False
        return and_(*[eq_(x, y) for x, y in zip(a, b)])
    r = a == b
    return r


def compare(op, a, b):
    t = type(op)
    if t is ast.Eq:
        return eq_(a, b)
    if t is ast.NotEq:
        return not_(eq_(a, b))
    if t is ast.Lt:
        return a < b
    if t is ast.LtE:
        return a <= b
    if t is ast.Gt:
        return a > b
    if t is ast.GtE:
        return a >= b
    if t is ast.Is:
        return is_(a, b)
    if t is ast.IsNot:
        return not_(is_(a, b))
    if t is ast.In:
        return contains_(b, a)
    if t is ast.NotIn:
        return not_(contains_(b, a))
    raise Unsupported('comparison')


def is_(a, b):
    if a is None or b is None:
        for x in (a, b):
            if hasattr(type(x), 'sym_is_none'):
                return x.sym_is_none()
        return a is b
    if isinstance(a, SBool) and isinstance(b, bool):
        return a == b
    if isinstance(b, SBool) and isinstance(a, bool):
        return a == b
    if is_sym(a) or is_sym(b):
        if a is b:
            return True
        if isinstance(a, SObj) or isinstance(b, SObj):
            return False
        raise Unsupported('identity of symbolic values')
    return a is b


def eval_(n, fr):
    t = type(n)
    if t is ast.Constant:
        return n.value
    if t is ast.Name:
        return fr.lookup(n.id)
    if t is ast.Attribute:
        return getattr_(eval_(n.value, fr), n.attr)
    if t is ast.Call:
        return eval_call(n, fr)
    if t is ast.BinOp:
        return binop(BINOPS[type(n.op)], eval_(n.left, fr), eval_(n.right, fr))
    if t is ast.Compare:
        left = eval_(n.left, fr)
        res = True
        for k, (op, r) in enumerate(zip(n.ops, n.comparators)):
            right = eval_(r, fr)
            c = compare(op, left, right)
            if len(n.ops) == 1:
                return c
            if k == len(n.ops) - 1 and res is True:
                return c
            if isinstance(c, SBool):
                # operands of the rest are evaluated only if true so far
                if all(isinstance(z, (ast.Constant, ast.Name, ast.Attribute)) for z in n.comparators[k + 1:]):
                    res = and_(res, c)
                elif not c:
                    return False
            elif not c:
                return c if res is True else False
            left = right
            if k == len(n.ops) - 1:
                return res
        return res
    if t is ast.BoolOp:
        return eval_boolop(n, fr)
    if t is ast.UnaryOp:
        v = eval_(n.operand, fr)
        o = type(n.op)
        if o is ast.Not:
            if isinstance(v, SBool):
                return not_(v)
            if isinstance(v, SInt):
                return v == 0
            return not truth(v)
        if o is ast.USub:
            return -v
        if o is ast.Invert:
            return ~v
        return +v
    if t is ast.Subscript:
        o = eval_(n.value, fr)
        return getitem_(o, eval_index(n.slice, fr))
    if t is ast.Tuple:
        return tuple(eval_elts(n.elts, fr))
    if t is ast.List:
        return note_born(eval_elts(n.elts, fr))
    if t is ast.Dict:
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(eval_(v, fr))
            else:
                kk = eval_(k, fr)
                if has_sym(kk):
                    raise Unsupported('symbolic dict key')
                d[kk] = eval_(v, fr)
        return note_born(d)
    if t is ast.Set:
        v = eval_elts(n.elts, fr)
        if has_sym(v):
            return tuple(v)      # only used for membership
        return note_born(set(v))
    if t is ast.IfExp:
        return eval_(n.body, fr) if truth(eval_(n.test, fr)) else eval_(n.orelse, fr)
    if t is ast.Lambda:
        return make_func(n, fr)
    if t in (ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp) and len(n.generators) == 1:
        src = eval_(n.generators[0].iter, fr)
        h = getattr(src, 'comprehend', None) if isinstance(src, SymBase) and hasattr(type(src), 'comprehend') else None
        if h is not None:
            return h(n, fr)
    else:
        src = _NO
    if t is ast.ListComp:
        from . import loops
        src = eval_(n.generators[0].iter, fr) if src is _NO else src
        r = loops.comp_map(n, fr, src)
        if r is not None:
            return r
        return note_born(list(comp(n, fr, first=src)))
    if t is ast.GeneratorExp:
        from . import loops
        src = eval_(n.generators[0].iter, fr) if src is _NO else src
        r = loops.comp_map(n, fr, src)
        if r is not None:
            return r
        return comp(n, fr, first=src)
    if t is ast.SetComp:
        return note_born(set(comp(n, fr, first=src)))
    if t is ast.DictComp:
        from . import loops, models
        src = eval_(n.generators[0].iter, fr) if src is _NO else src
        r = loops.comp_map(n, fr, src)
        if r is not None:
            return models.SPairs(r)
        d = {}
        for k, v in comp(n, fr, dict_=True, first=src):
            if has_sym(k):
                raise Unsupported('symbolic dict key')
            d[k] = v
        return note_born(d)
    if t is ast.JoinedStr:
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = eval_(v.value, fr)
                if v.format_spec is not None or v.conversion != -1 or not isinstance(x, (str, STok, SText)):
                    spec = eval_(v.format_spec, fr) if v.format_spec is not None else ''
                    if v.conversion == 114:
                        x = repr(x)
                    elif v.conversion == 115:
                        x = str(x)
                    parts.append(format(x, spec))
                else:
                    parts.append(x)
        if any(is_sym(p) for p in parts):
            return SText(parts)
        return ''.join(parts)
    if t is ast.NamedExpr:
        v = eval_(n.value, fr)
        fr.store(n.target.id, v)
        return v
    if t is ast.Starred:
        raise Unsupported('starred expression')
    if t is ast.Yield:
        fr.lookup('__yield__').append(eval_(n.value, fr) if n.value is not None else None)
        return None
    raise Unsupported('expression %s' % t.__name__)


def eval_elts(elts, fr):
    out = []
    for e in elts:
        if isinstance(e, ast.Starred):
            out.extend(iterate(eval_(e.value, fr)))
        else:
            out.append(eval_(e, fr))
    return out


def pure_expr(n):
    """evaluating n has no effect and cannot raise beyond what its operands do"""
    if isinstance(n, (ast.Constant, ast.Name)):
        return True
    if isinstance(n, ast.Compare):
        return all(isinstance(o, (ast.Eq, ast.NotEq, ast.Lt, ast.LtE, ast.Gt, ast.GtE)) for o in n.ops) and \
            pure_expr(n.left) and all(pure_expr(c) for c in n.comparators)
    return False


def eval_boolop(n, fr):
    is_and = isinstance(n.op, ast.And)
    v = None
    for k, e in enumerate(n.values):
        v = eval_(e, fr)
        if k == len(n.values) - 1:
            return v
        if isinstance(v, SBool) and C() is not None:
            # combine without forking when the rest is pure
            if all(pure_expr(x) for x in n.values[k + 1:]):
                rest = []
                try:
                    C().merging += 0
                    rest = [eval_(x, fr) for x in n.values[k + 1:]]
                except Exception:
                    rest = None
                if rest is not None and all(isinstance(x, (bool, SBool)) for x in rest):
                    return and_(v, *rest) if is_and else or_(v, *rest)
        tv = truth(v)
        if is_and and not tv:
            return False if isinstance(v, SBool) else v
        if not is_and and tv:
            return True if isinstance(v, SBool) else v
    return v


_NO = object()


def comp(n, fr, dict_=False, first=_NO):
    child = Frame(fr, fr.globals, set(), {}, fr.func)
    for g in n.generators:
        for x in ast.walk(g.target):
            if isinstance(x, ast.Name):
                child.names.add(x.id)
    if first is _NO:
        first = eval_(n.generators[0].iter, fr)

    def rec(k, src):
        g = n.generators[k]
        for x in iterate(src):
            assign(g.target, x, child)
            if all(truth(eval_(c, child)) for c in g.ifs):
                if k + 1 < len(n.generators):
                    yield from rec(k + 1, eval_(n.generators[k + 1].iter, child))
                elif dict_:
                    yield eval_(n.key, child), eval_(n.value, child)
                else:
                    yield eval_(n.elt, child)
    return rec(0, first)


def eval_call(n, fr):
    # super() needs the defining class
    if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
        return make_super(fr)
    f = eval_(n.func, fr)
    args = []
    for a in n.args:
        if isinstance(a, ast.Starred):
            v = eval_(a.value, fr)
            if hasattr(v, 'sym_seq'):
                args.append(StarSym(v))
            elif isinstance(v, SymTokens):
                args.append(StarSym(v))
            else:
                args.extend(iterate(v))
        else:
            args.append(eval_(a, fr))
    kwargs = {}
    for k in n.keywords:
        if k.arg is None:
            d = eval_(k.value, fr)
            for kk, vv in d.items():
                if kk in kwargs:
                    raise TypeError('multiple values for keyword')
                kwargs[kk] = vv
        else:
            kwargs[k.arg] = eval_(k.value, fr)
    return icall(f, args, kwargs)


def make_super(fr):
    f = fr
    while f is not None and f.func is None and '__class__' not in f.cells:
        f = f.parent
    if f is None or '__class__' not in f.cells:
        raise Unsupported('super() outside a method')
    cls = f.cells['__class__'].cell_contents
    first = f.func.__code__.co_varnames[0]
    return SuperProxy(cls, f.vars[first])
