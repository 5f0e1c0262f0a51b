"""Symbolic interpreter over the AST of the real functions."""
import ast
import builtins
import collections
import decimal
import functools
import inspect
import os
import sys
import types
import z3

from .core import *
from . import core
from .ropes import *
from . import ropes

INTERP_ROOTS = []      # directories whose functions are interpreted


def add_root(p):
    INTERP_ROOTS.append(os.path.realpath(p) + os.sep)


class Unbound:
    pass


UNBOUND = Unbound()


class Poison:
    """Loop-carried value of unknown content: any use is outside the subset."""

    def __init__(self, why=''):
        self.why = why


class Env(Heap):
    def __init__(self, parent, glob, nonlocals=(), globs=()):
        super().__init__()
        self.vars, self.parent, self.glob = {}, parent, glob
        self.nonlocals, self.globs = set(nonlocals), set(globs)
        self.yields = None

    def snap(self):
        return dict(self.vars)

    def unsnap(self, s):
        self.vars = dict(s)

    def find(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e
            e = e.parent
        return None


class CellEnv:
    """Closure cells of a native function (read natively, written to an overlay)."""

    def __init__(self, fn):
        self.parent = None
        self.cells = dict(zip(fn.__code__.co_freevars, fn.__closure__ or ()))
        self.vars = _CellVars(self.cells)


class _CellVars:
    def __init__(self, cells):
        self.cells = cells

    def __contains__(self, n):
        return n in self.cells

    def __getitem__(self, n):
        c = self.cells[n]
        if ('cell', id(c)) in S.over:
            return S.over[('cell', id(c))]
        try:
            return lift(c.cell_contents, True)
        except ValueError:
            return UNBOUND

    def __setitem__(self, n, v):
        S.over[('cell', id(self.cells[n]))] = v


def user_class(c):
    m = sys.modules.get(getattr(c, '__module__', None))
    f = getattr(m, '__file__', None)
    return f is not None and any(os.path.realpath(f).startswith(r) for r in INTERP_ROOTS)


def lift(v, containers=False):
    """Pre-existing mutable program state as interpreted heap objects (one per native object)."""
    t = type(v)
    if t in (int, str, bytes, bool, type(None), float, tuple, types.FunctionType, types.ModuleType, type):
        return v
    if containers and t in (list, dict, set, collections.OrderedDict, collections.deque) or \
            user_class(t) and not isinstance(v, (type, BaseException)) and not issubclass(t, (str, bytes, int, tuple, float, decimal.Decimal)):
        memo = S.extra.setdefault('lifted', {})
        if id(v) in memo:
            return memo[id(v)][1]
        if t in (list, collections.deque):
            p = PList([], kind='list' if t is list else 'deque')
            memo[id(v)] = (v, p)
            p.segs = [LitSeg([lift(x, True) for x in v])] if len(v) else []
        elif t is set:
            p = PSet(list(v))
        elif t in (dict, collections.OrderedDict):
            p = PDict([])
            memo[id(v)] = (v, p)
            p.pairs = [[k, lift(x, True)] for k, x in v.items()]
        else:
            p = PObj(t, {})
            memo[id(v)] = (v, p)
            from . import api
            p.fields = {n: lift(x, True) for n, x in api.fields_of(v).items()}
        memo[id(v)] = (v, p)
        return p
    return v


class PFunc:
    """An interpreted function."""

    def __init__(self, node, env, glob, name, defaults, kwdefaults, native=None, owner=None):
        self.node, self.env, self.glob, self.name = node, env, glob, name
        self.defaults, self.kwdefaults, self.native, self.owner = defaults, kwdefaults, native, owner
        self.attrs = {}

    def __repr__(self):
        return 'PFunc(%s)' % self.name


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class BuiltinMethod:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class SymIter:
    """An iterable of symbolic length n with item(k)."""

    def __init__(self, n, item, src=None):
        self.n, self.item, self.src = n, item, src


class SRange:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class SuperProxy:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class BreakExc(Exception):
    pass


class ContinueExc(Exception):
    pass


class ReturnExc(Exception):
    def __init__(self, v):
        self.v = v


# ---- locating source -----------------------------------------------------------

_files = {}
functions_used = {}      # (file, qualname) -> source hash, filled during a run


def parse_file(fname):
    fname = os.path.realpath(fname)
    if fname not in _files:
        src = open(fname, encoding='utf-8').read()
        tree = ast.parse(src, fname)
        index = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                ln = n.lineno
                if isinstance(n, ast.FunctionDef) and n.decorator_list:
                    ln = min(ln, min(d.lineno for d in n.decorator_list))
                index.setdefault((ln, n.name if isinstance(n, ast.FunctionDef) else '<lambda>'), []).append(n)
        _files[fname] = (src, tree, index)
    return _files[fname]


def interpretable(fn):
    if not isinstance(fn, types.FunctionType):
        return False
    f = os.path.realpath(fn.__code__.co_filename)
    return any(f.startswith(r) for r in INTERP_ROOTS)


_pf = {}


def pfunc_of(fn):
    """PFunc of a native function object."""
    p = _pf.get(fn)
    if p is None:
        src, tree, index = parse_file(fn.__code__.co_filename)
        nodes = index.get((fn.__code__.co_firstlineno, fn.__code__.co_name), [])
        if len(nodes) != 1:
            raise Unsupported('source of %s not found' % fn.__qualname__)
        p = PFunc(nodes[0], CellEnv(fn) if fn.__closure__ else None, fn.__globals__, fn.__name__,
                  list(fn.__defaults__ or ()), dict(fn.__kwdefaults__ or {}), native=fn)
        p.qual = fn.__qualname__
        p.file = os.path.realpath(fn.__code__.co_filename)
        _pf[fn] = p
    return p


# ---- generic helpers -------------------------------------------------------------

def force(v):
    while isinstance(v, VIte):
        v = v.a if S.decide(v.c) else v.b
        if type(v).__name__ == 'Lazy':
            v = v.f()
    if isinstance(v, Poison):
        raise Unsupported('use of a loop-carried value outside the summarised patterns (%s)' % v.why)
    return v


def is_sym(v):
    return isinstance(v, (SInt, SReal, SBool, SBv, VIte, Opaque, Rope, PList, PDict, PSet, PObj, SymIter, SRange))


def deep_concrete(v, seen=0):
    if seen > 12:
        return False
    if isinstance(v, (SInt, SReal, SBool, SBv, VIte, Opaque, Rope, SymIter, SRange, Poison, PFunc, Bound, BuiltinMethod)):
        return False
    if isinstance(v, PList):
        return v.concrete and all(deep_concrete(x, seen + 1) for x in v.items)
    if isinstance(v, PDict):
        return all(deep_concrete(k, seen + 1) and deep_concrete(x, seen + 1) for k, x in v.pairs)
    if isinstance(v, PSet):
        return all(deep_concrete(x, seen + 1) for x in v.items)
    if isinstance(v, PObj):
        return False
    if isinstance(v, (tuple, list, set, frozenset)):
        return all(deep_concrete(x, seen + 1) for x in v)
    if isinstance(v, dict):
        return all(deep_concrete(k, seen + 1) and deep_concrete(x, seen + 1) for k, x in v.items())
    return True


def to_native(v):
    if isinstance(v, PList):
        x = [to_native(i) for i in v.items]
        if v.kind == 'deque':
            import collections
            return collections.deque(x)
        return x
    if isinstance(v, PDict):
        return {to_native(k): to_native(x) for k, x in v.pairs}
    if isinstance(v, PSet):
        return {to_native(i) for i in v.items}
    if isinstance(v, tuple) and type(v) is tuple:
        return tuple(to_native(i) for i in v)
    if isinstance(v, (SInt, SReal, SBool, SBv, Rope, VIte, Opaque, PObj)):
        raise Unsupported('symbolic value where a concrete one is needed')
    return v


def from_native(v):
    """Result of a native call: containers become interpreted containers."""
    import collections
    if type(v) is list:
        return PList([from_native(x) for x in v])
    if type(v) is collections.deque:
        return PList([from_native(x) for x in v], kind='deque')
    if type(v) in (dict, collections.OrderedDict):
        return PDict([(k, from_native(x)) for k, x in v.items()])
    if type(v) in (set,):
        return PSet(list(v))
    if type(v) is tuple:
        return tuple(from_native(x) for x in v)
    return v


def raise_py(cls, *args):
    raise PyExc(cls, args)


def int_term(v):
    """Int term (or python int) of an int-like value."""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, SInt):
        return v.t
    if isinstance(v, SBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, SBv):
        return z3.BV2Int(v.t)
    raise Unsupported('int expected, got %r' % (v,))


def is_int(v):
    return isinstance(v, (int, SInt, SBool, SBv))


def is_num(v):
    import decimal
    return isinstance(v, (int, float, decimal.Decimal, SInt, SBool, SBv, SReal))


def real_term(v):
    import decimal
    import fractions
    if isinstance(v, SReal):
        return v.t
    if isinstance(v, (float, decimal.Decimal)):
        f = fractions.Fraction(v)
        return z3.RealVal(f.numerator) / z3.RealVal(f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)
    t = int_term(v)
    return z3.ToReal(zi(t)) if not isinstance(t, int) else z3.RealVal(t)


def mk_real(t, dec):
    return SReal(z3.simplify(t), dec)


def truth(v):
    """bool or z3 Bool."""
    v = force(v)
    if isinstance(v, SBool):
        return v.t
    if isinstance(v, SInt):
        return v.t != 0
    if isinstance(v, SBv):
        return v.t != 0
    if isinstance(v, SReal):
        return v.t != 0
    if isinstance(v, Rope):
        n = rope_len(v)
        return n != 0 if isinstance(n, int) else n > 0
    if isinstance(v, PList):
        n = v.length()
        return n != 0 if isinstance(n, int) else n > 0
    if isinstance(v, PDict):
        return len(v.pairs) > 0
    if isinstance(v, PSet):
        return len(v.items) > 0
    if isinstance(v, PObj):
        if hasattr(v.cls, '__bool__'):
            return truth(call_method(v, '__bool__'))
        if hasattr(v.cls, '__len__'):
            return truth(call_method(v, '__len__'))
        return True
    if isinstance(v, Opaque):
        raise Unsupported('truth value of an opaque value')
    if isinstance(v, (PFunc, Bound, BuiltinMethod, SymIter)):
        return True
    if isinstance(v, SRange):
        return zi(v.hi) > zi(v.lo)
    return bool(v)


def test(v):
    return S.decide(truth(v))


def bv_w(v):
    return max(1, v.bit_length())


def bv_of(v, w):
    if isinstance(v, SBv):
        return z3.ZeroExt(w - v.w, v.t) if w > v.w else v.t
    if isinstance(v, SBool):
        return z3.If(v.t, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return z3.BitVecVal(int(v), w)


# ---- bit vectors as XOR combinations (GF(2)) ---------------------------------------------
# bits of a term, least significant first: frozensets of atom bits (term, index), with None standing for the constant 1

_lin = {}


def lin(t):
    key = t.get_id()
    r = _lin.get(key)
    if r is None:
        if len(_lin) > 100000:
            _lin.clear()
        r = _lin[key] = (lin_(t), t)
    return r[0]


def lin_(t):
    kd = t.decl().kind()
    if z3.is_bv_value(t):
        v = t.as_long()
        return [frozenset([None]) if v >> j & 1 else frozenset() for j in range(t.size())]
    if kd == z3.Z3_OP_BXOR:
        out = None
        for c in t.children():
            b = lin(c)
            if b is None:
                return None
            out = b if out is None else [x ^ y for x, y in zip(out, b)]
        return out
    if kd == z3.Z3_OP_CONCAT:
        out = []
        for c in reversed(t.children()):
            b = lin(c)
            if b is None:
                return None
            out += b
        return out
    if kd == z3.Z3_OP_EXTRACT:
        hi, lo = t.params()
        b = lin(t.arg(0))
        return None if b is None else b[lo:hi + 1]
    if kd == z3.Z3_OP_ZERO_EXT:
        b = lin(t.arg(0))
        return None if b is None else b + [frozenset()] * (t.size() - len(b))
    if kd == z3.Z3_OP_BSHL and z3.is_bv_value(t.arg(1)):
        b, n = lin(t.arg(0)), t.arg(1).as_long()
        return None if b is None else ([frozenset()] * n + b)[:t.size()]
    if kd == z3.Z3_OP_BAND and t.num_args() == 2 and any(z3.is_bv_value(x) for x in t.children()):
        m, x = (t.arg(0), t.arg(1)) if z3.is_bv_value(t.arg(0)) else (t.arg(1), t.arg(0))
        b = lin(x)
        return None if b is None else [y if m.as_long() >> j & 1 else frozenset() for j, y in enumerate(b)]
    if kd == z3.Z3_OP_ITE:
        a, b, c = lin(t.arg(1)), lin(t.arg(2)), lin_cond(t.arg(0))
        if a is None or b is None or c is None:
            return None
        out = []
        for x, y in zip(a, b):
            d = x ^ y
            if not d:
                out.append(y)
            elif d == frozenset([None]):
                out.append(y ^ c)
            else:
                return None
        return out
    if kd == z3.Z3_OP_UNINTERPRETED:
        return [frozenset([(t, j)]) for j in range(t.size())]
    return None


def lin_cond(c):
    """A condition as one bit, or None."""
    kd = c.decl().kind()
    if z3.is_true(c):
        return frozenset([None])
    if z3.is_false(c):
        return frozenset()
    if kd == z3.Z3_OP_NOT:
        b = lin_cond(c.arg(0))
        return None if b is None else b ^ frozenset([None])
    if kd in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and c.num_args() == 2 and z3.is_bv(c.arg(0)):
        a, b = lin(c.arg(0)), lin(c.arg(1))
        if a is None or b is None:
            return None
        d = [x ^ y for x, y in zip(a, b)]
        if any(x == frozenset([None]) for x in d):
            r = frozenset()
        else:
            d = [x for x in d if x]
            if len(d) > 1:
                return None
            r = d[0] ^ frozenset([None]) if d else frozenset([None])
        return r ^ frozenset([None]) if kd == z3.Z3_OP_DISTINCT else r
    return None


def has_xor(t, depth=6):
    if t.decl().kind() == z3.Z3_OP_BXOR:
        return True
    return depth > 0 and any(z3.is_bv(c) and has_xor(c, depth - 1) for c in t.children())


def lin_build(bits):
    """Canonical term of a list of linear bits."""
    one = z3.BitVecVal(1, 1)
    parts = []
    for b in reversed(bits):
        atoms = sorted((x for x in b if x is not None), key=lambda x: (x[0].get_id(), x[1]))
        e = None
        for x, j in atoms:
            u = z3.Extract(j, j, x) if x.size() > 1 else x
            e = u if e is None else e ^ u
        if None in b:
            e = one if e is None else e ^ one
        parts.append(z3.BitVecVal(0, 1) if e is None else e)
    # join neighbouring plain extracts of one atom
    out = []
    for p in parts:
        if out and p.decl().kind() == z3.Z3_OP_EXTRACT and out[-1].decl().kind() == z3.Z3_OP_EXTRACT \
                and p.arg(0).eq(out[-1].arg(0)) and p.params()[0] == out[-1].params()[1] - 1:
            out[-1] = z3.Extract(out[-1].params()[0], p.params()[1], p.arg(0))
        elif out and z3.is_bv_value(p) and z3.is_bv_value(out[-1]):
            out[-1] = z3.BitVecVal(out[-1].as_long() * 2 + p.as_long(), out[-1].size() + 1)
        else:
            out.append(p)
    out = [z3.simplify(p) if p.decl().kind() == z3.Z3_OP_EXTRACT else p for p in out]
    t = out[0] if len(out) == 1 else z3.Concat(*out)
    _lin[t.get_id()] = (list(bits), t)
    return t


def mk_bv(t):
    if has_xor(t):
        b = lin(t)
        if b is not None:
            while len(b) > 1 and not b[-1]:
                b = b[:-1]
            if all(x <= frozenset([None]) for x in b):
                return sum(1 << j for j, x in enumerate(b) if x)
            return SBv(lin_build(b))
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        return t.as_long()
    # drop known-zero high bits so that widths stay small
    w = t.size()
    while w > 1 and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_CONCAT and z3.is_bv_value(t.arg(0)) \
            and t.arg(0).as_long() == 0:
        rest = [t.arg(i) for i in range(1, t.num_args())]
        t = rest[0] if len(rest) == 1 else z3.Concat(*rest)
        w = t.size()
    return SBv(t)


def upper_bv(v):
    return (1 << v.w) - 1 if isinstance(v, SBv) else (1 if isinstance(v, SBool) else int(v))


BITOPS = ('&', '|', '^', '<<', '>>')


def binop(op, a, b):
    a, b = force(a), force(b)
    # --- strings -------------------------------------------------------------
    if isinstance(a, (Rope, bytes, str)) and isinstance(b, (Rope, bytes, str)) and op == '+':
        if kind_of(a) != kind_of(b):
            raise_py(TypeError, 'cannot concatenate')
        return cat(a, b)
    if op == '*' and (isinstance(a, (Rope, bytes, str, PList)) or isinstance(b, (Rope, bytes, str, PList))):
        if is_int(a):
            a, b = b, a
        return repeat(a, b)
    if op == '%' and isinstance(a, (str, Rope)):
        if isinstance(a, str) and deep_concrete(b):
            return a % to_native(b)
        if isinstance(a, str):
            return percent_format(a, b)
        raise Unsupported('% formatting')
    if isinstance(a, PList) and op == '+':
        if isinstance(b, list):
            b = PList([from_native(x) for x in b])
        if isinstance(b, PList):
            return PList(segs=copy_segs(a) + copy_segs(b), kind=a.kind)
        raise_py(TypeError)
    if isinstance(a, list) and op == '+':
        return binop('+', from_native(a), b)
    if isinstance(a, tuple) and isinstance(b, tuple) and op == '+':
        return a + b
    if isinstance(a, PSet) or isinstance(b, PSet):
        return native_binop(op, to_native(a), to_native(b))
    if isinstance(a, PObj) or isinstance(b, PObj):
        nm = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '&': 'and', '|': 'or'}.get(op)
        if isinstance(a, PObj) and nm and hasattr(a.cls, '__%s__' % nm):
            return call_method(a, '__%s__' % nm, b)
        if isinstance(b, PObj) and nm and hasattr(b.cls, '__r%s__' % nm):
            return call_method(b, '__r%s__' % nm, a)
        raise Unsupported('operator %s on objects' % op)
    sym = isinstance(a, (SInt, SBool, SBv, SReal)) or isinstance(b, (SInt, SBool, SBv, SReal))
    if not sym:
        if isinstance(a, (Opaque, Rope, PList, PDict)) or isinstance(b, (Opaque, Rope, PList, PDict)):
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                raise Unsupported('operator %s on opaque value' % op)
            raise_py(TypeError, 'bad operands')
        return native_binop(op, a, b)
    if not is_num(a) or not is_num(b):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('operator %s on opaque value' % op)
        raise_py(TypeError, 'unsupported operand')
    import decimal
    if op in BITOPS:
        return bitop(op, a, b)
    rl = isinstance(a, (SReal, float, decimal.Decimal)) or isinstance(b, (SReal, float, decimal.Decimal))
    if rl or op == '/':
        dec = any(isinstance(x, decimal.Decimal) or isinstance(x, SReal) and x.dec for x in (a, b))
        flt = any(isinstance(x, float) or isinstance(x, SReal) and not x.dec for x in (a, b))
        if dec and flt:
            raise_py(TypeError, 'Decimal and float')
        x, y = real_term(a), real_term(b)
        if op == '+':
            return mk_real(x + y, dec)
        if op == '-':
            return mk_real(x - y, dec)
        if op == '*':
            return mk_real(x * y, dec)
        if op == '/':
            if S.decide(y == 0):
                raise_py(decimal.DivisionByZero if dec else ZeroDivisionError)
            return mk_real(x / y, dec)
        if op == '//':
            if S.decide(y == 0):
                raise_py(ZeroDivisionError)
            if dec:
                raise Unsupported('Decimal floor division')
            return mk_real(z3.ToReal(z3.ToInt(x / y)), dec)
        raise Unsupported('real operator %s' % op)
    x, y = int_term(a), int_term(b)
    if op == '+':
        return mk_int(zi(x) + zi(y))
    if op == '-':
        return mk_int(zi(x) - zi(y))
    if op == '*':
        return mk_int(zi(x) * zi(y))
    if op in ('//', '%'):
        if not isinstance(y, int):
            if S.decide(zi(y) == 0):
                raise_py(ZeroDivisionError)
            if not S.provable(zi(y) > 0):
                if S.decide(zi(y) < 0):
                    raise Unsupported('division by a possibly negative number')
        elif y == 0:
            raise_py(ZeroDivisionError)
        elif y < 0:
            raise Unsupported('division by a negative number')
        return mk_int(zi(x) / zi(y) if op == '//' else zi(x) % zi(y))
    if op == '**':
        if isinstance(y, int) and 0 <= y <= 8:
            t = z3.IntVal(1)
            for _ in range(y):
                t = t * zi(x)
            return mk_int(t)
        if isinstance(x, int):
            # small exponents by cases
            for j in range(0, 65):
                if S.decide(zi(y) == j):
                    return x ** j
        raise Unsupported('power')
    raise Unsupported('operator %s' % op)


def native_binop(op, a, b):
    import operator
    f = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '//': operator.floordiv,
         '%': operator.mod, '**': operator.pow, '&': operator.and_, '|': operator.or_, '^': operator.xor,
         '<<': operator.lshift, '>>': operator.rshift, '@': operator.matmul}[op]
    if op == '**' and isinstance(b, int) and isinstance(a, int) and b > 100000:
        raise Unsupported('huge power')
    try:
        return f(a, b)
    except Exception as e:
        raise PyExc(type(e), e.args, e)


def ite_bv(v):
    """A conditional choice between non-negative literals, as a bit vector."""
    if not isinstance(v, SInt):
        return v

    def width(t):
        if z3.is_int_value(t):
            return bv_w(t.as_long()) if t.as_long() >= 0 else None
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            p, q = width(t.arg(1)), width(t.arg(2))
            return None if p is None or q is None else max(p, q)
        return None

    def conv(t, w):
        if z3.is_int_value(t):
            return z3.BitVecVal(t.as_long(), w)
        return z3.If(t.arg(0), conv(t.arg(1), w), conv(t.arg(2), w))
    w = width(v.t)
    return v if w is None else SBv(conv(v.t, w))


def bitop(op, a, b):
    if isinstance(a, SBv) or isinstance(b, SBv):
        a, b = ite_bv(a), ite_bv(b)
        okk = lambda v: isinstance(v, (SBv, SBool)) or isinstance(v, int) and v >= 0
        if okk(a) and okk(b):
            if op in ('<<', '>>'):
                if not isinstance(b, int):
                    if not isinstance(a, int) and op == '>>' or isinstance(a, int) and op == '>>':
                        w = max(bv_w(upper_bv(a)), bv_w(upper_bv(b)))
                        return mk_bv(z3.LShR(bv_of(a, w), bv_of(b, w)))
                    raise Unsupported('shift by symbolic amount')
                if op == '<<':
                    w = a.w + b
                    return mk_bv(z3.ZeroExt(b, a.t) << b) if b else a
                if b >= a.w:
                    return 0
                return mk_bv(z3.Extract(a.w - 1, b, a.t)) if b else a
            w = max(bv_w(upper_bv(a)), bv_w(upper_bv(b)))
            if op == '&':
                # result fits in the narrower operand
                w2 = min(bv_w(upper_bv(a)), bv_w(upper_bv(b)))
                cut = lambda v: z3.Extract(w2 - 1, 0, bv_of(v, max(w, w2)))
                return mk_bv(cut(a) & cut(b))
            x, y = bv_of(a, w), bv_of(b, w)
            return mk_bv(x | y if op == '|' else x ^ y)
    x, y = int_term(a), int_term(b)
    if op == '<<' and isinstance(y, int):
        return mk_int(zi(x) * (1 << y))
    if op == '>>' and isinstance(y, int):
        return mk_int(zi(x) / z3.IntVal(1 << y))
    if op == '<<' and isinstance(x, int):
        for j in range(0, 65):
            if S.decide(zi(y) == j):
                return x << j
        raise Unsupported('shift by symbolic amount')
    if op == '&':
        if isinstance(x, int):
            x, y = y, x
        if isinstance(y, int) and y >= 0:
            if (y & (y + 1)) == 0:
                return mk_int(zi(x) % (y + 1))
            if bin(y).count('1') <= 16:
                t = z3.IntVal(0)
                for j in range(y.bit_length()):
                    if y >> j & 1:
                        t = t + ((zi(x) / z3.IntVal(1 << j)) % 2) * (1 << j)
                return mk_int(t)
    if op in ('|', '^', '&'):
        from . import loops
        if S.generic and any(not isinstance(v, int) and has_acc(zi(v)) for v in (x, y)):
            raise Unsupported('bit operation on an integer accumulator')
        # by bit vectors when both are provably small and non-negative
        for w in (1, 8, 32, 64):
            if all(isinstance(v, int) and 0 <= v < 2 ** w or not isinstance(v, int) and
                   S.provable(z3.And(zi(v) >= 0, zi(v) < 2 ** w)) for v in (x, y)):
                p, q = z3.Int2BV(zi(x), w), z3.Int2BV(zi(y), w)
                r = p | q if op == '|' else p ^ q if op == '^' else p & q
                return mk_int(z3.BV2Int(r))
    raise Unsupported('bit operation %s on unbounded ints' % op)


def has_acc(t):
    from . import loops
    names = set()
    loops.collect_decls(t, names)
    return any(c.startswith('acc!') for c in names)


def repeat(a, n):
    n = force(n)
    if not is_int(n):
        raise_py(TypeError, "can't multiply sequence by non-int")
    t = norm(zi(int_term(n)))
    if isinstance(a, PList):
        if isinstance(t, int):
            return PList(segs=[s for _ in range(max(0, t)) for s in copy_segs(a)], kind=a.kind)
        if a.concrete and len(a.items) == 1 and not isinstance(a.items[0], (PObj, PList)):
            if S.decide(zi(t) <= 0):
                return PList([], kind=a.kind)
            k = z3.Int(S.fresh_name('k'))
            return PList(segs=[MapSeg(0, t, Body(k, a.items[0]))], kind=a.kind)
        raise Unsupported('symbolic list repetition')
    if isinstance(t, int):
        if isinstance(a, (bytes, str)):
            return a * t
        return mk(a.kind, list(a.segs) * max(0, t))
    if isinstance(a, (bytes, str)):
        if not S.provable(t >= 0):
            if S.decide(t < 0):
                return empty(kind_of(a))
        return mk(kind_of(a), [Rp(a, t)]) if len(a) else a
    raise Unsupported('symbolic repetition of a symbolic string')


def copy_segs(l):
    return [LitSeg(s.items) if isinstance(s, LitSeg) else s for s in l.segs]


# ---- comparison ----------------------------------------------------------------------

def values_equal(a, b):
    """== as bool or z3 Bool (may fork for conditional values)."""
    a, b = force(a), force(b)
    if a is b and not isinstance(a, float):
        return True
    if isinstance(a, (Rope, bytes, str)) and isinstance(b, (Rope, bytes, str)):
        return rope_eq(a, b)
    if is_num(a) and is_num(b):
        return num_cmp('==', a, b)
    if isinstance(a, PObj) or isinstance(b, PObj):
        if isinstance(a, PObj) and _has_user(a.cls, '__eq__'):
            r = call_method(a, '__eq__', b)
            if r is not NotImplemented:
                return truth(r)
        elif isinstance(b, PObj) and _has_user(b.cls, '__eq__'):
            r = call_method(b, '__eq__', a)
            if r is not NotImplemented:
                return truth(r)
        return False
    if isinstance(a, list):
        a = from_native(a)
    if isinstance(b, list):
        b = from_native(b)
    if isinstance(a, PList) and isinstance(b, PList):
        return list_equal(a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return conj([values_equal(x, y) for x, y in zip(a, b)])
    if isinstance(a, PDict) and isinstance(b, PDict):
        if len(a.pairs) != len(b.pairs):
            return False
        cs = []
        for k, v in a.pairs:
            hit = [w for k2, w in b.pairs if S.decide(values_equal(k, k2))]
            if not hit:
                return False
            cs.append(values_equal(v, hit[0]))
        return conj(cs)
    if isinstance(a, PDict) and isinstance(b, dict):
        return values_equal(a, from_native(b))
    if isinstance(b, PDict) and isinstance(a, dict):
        return values_equal(from_native(a), b)
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return z3.simplify(a.t == b.t) if not a.t.eq(b.t) else True
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        o, c = (a, b) if isinstance(a, Opaque) else (b, a)
        if c is None:
            return False
        raise Unsupported('comparison of an opaque value with %r' % (c,))
    if isinstance(a, PSet) or isinstance(b, PSet):
        return to_native(a) == to_native(b)
    if is_sym(a) or is_sym(b):
        return False          # different kinds of values
    if isinstance(a, Bound) and isinstance(b, Bound):
        return a.fn is b.fn and a.self_ is b.self_
    try:
        return bool(a == b)
    except Exception as e:
        raise PyExc(type(e), e.args, e)


def _has_user(cls, name):
    return getattr(cls, name, None) is not getattr(object, name, None)


def list_equal(a, b):
    if a.concrete and b.concrete:
        x, y = a.items, b.items
        if len(x) != len(y):
            return False
        return conj([values_equal(p, q) for p, q in zip(x, y)])
    from . import loops
    return loops.list_equal(a, b)


def num_cmp(op, a, b):
    import decimal
    if not any(isinstance(x, (SInt, SBool, SBv, SReal)) for x in (a, b)):
        return native_cmp(op, a, b)
    if any(isinstance(x, (SReal, float, decimal.Decimal)) for x in (a, b)):
        x, y = real_term(a), real_term(b)
    elif (isinstance(a, SBv) or isinstance(b, SBv)) and all(
            isinstance(x, (SBv, SBool)) or isinstance(x, int) for x in (a, b)):
        if isinstance(a, int) and a < 0:
            return op in ('<', '<=', '!=')
        if isinstance(b, int) and b < 0:
            return op in ('>', '>=', '!=')
        w = max(bv_w(upper_bv(a)), bv_w(upper_bv(b)))
        x, y = bv_of(a, w), bv_of(b, w)
        if op in ('==', '!=') and (has_xor(x) or has_xor(y)):
            p, q = lin(x), lin(y)
            if p is not None and q is not None:
                d = [m ^ n for m, n in zip(p, q)]
                if not any(d):
                    return op == '=='
                if any(m == frozenset([None]) for m in d):
                    return op == '!='
                if len([m for m in d if m]) == 1:
                    return x == y if op == '==' else x != y
        t = {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: z3.ULT(x, y), '<=': lambda: z3.ULE(x, y),
             '>': lambda: z3.UGT(x, y), '>=': lambda: z3.UGE(x, y)}[op]()
        t = z3.simplify(t)
        return True if z3.is_true(t) else False if z3.is_false(t) else t
    elif isinstance(a, SBool) and isinstance(b, bool) and op in ('==', '!='):
        t = a.t if b == (op == '==') else z3.Not(a.t)
        return t
    elif isinstance(b, SBool) and isinstance(a, bool) and op in ('==', '!='):
        return b.t if a == (op == '==') else z3.Not(b.t)
    elif isinstance(a, SBool) and isinstance(b, SBool) and op in ('==', '!='):
        t = z3.simplify(a.t == b.t if op == '==' else a.t != b.t)
        return True if z3.is_true(t) else False if z3.is_false(t) else t
    else:
        x, y = zi(int_term(a)), zi(int_term(b))
    t = {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y, '<=': lambda: x <= y,
         '>': lambda: x > y, '>=': lambda: x >= y}[op]()
    t = z3.simplify(t)
    return True if z3.is_true(t) else False if z3.is_false(t) else t


def native_cmp(op, a, b):
    import operator
    f = {'==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le, '>': operator.gt,
         '>=': operator.ge}[op]
    try:
        return f(a, b)
    except Exception as e:
        raise PyExc(type(e), e.args, e)


def zneg(c):
    return (not c) if isinstance(c, bool) else z3.Not(c)


def compare(op, a, b):
    """bool or z3 Bool."""
    if op == 'is':
        a, b = force(a), force(b)
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
            return num_cmp('==', a, b)
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return a.t.eq(b.t)
        if isinstance(a, PObj) and isinstance(b, PObj) and a is not b and a.home is not None and b.home is not None:
            if a.home[0] is not b.home[0]:
                raise Unsupported('identity of items of different lists')
            from . import loops
            loops.perm_injective(a.home[1])
            loops.perm_injective(b.home[1])
            return z3.simplify(a.home[1] == b.home[1])
        return a is b or (isinstance(a, (int, str, bytes)) and type(a) is type(b) and a == b and not is_sym(a))
    if op == 'is not':
        return zneg(compare('is', a, b))
    if op == '==':
        return values_equal(a, b)
    if op == '!=':
        return zneg(values_equal(a, b))
    if op == 'in':
        return contains(b, a)
    if op == 'not in':
        return zneg(contains(b, a))
    a, b = force(a), force(b)
    if is_num(a) and is_num(b):
        return num_cmp(op, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if not deep_concrete(a) or not deep_concrete(b):
            for x, y in zip(a, b):
                if not S.decide(values_equal(x, y)):
                    return compare(op, x, y)
            return native_cmp(op, len(a), len(b))
        return native_cmp(op, a, b)
    if isinstance(a, (Rope, Opaque, PList)) or isinstance(b, (Rope, Opaque, PList)):
        if isinstance(a, (Rope, bytes, str)) and isinstance(b, (Rope, bytes, str)) and kind_of(a) == kind_of(b):
            raise Unsupported('ordering of symbolic strings')
        if isinstance(a, (Opaque,)) or isinstance(b, Opaque) or type(a) is type(b):
            raise Unsupported('ordering of symbolic values')
        raise_py(TypeError, 'not orderable')
    if isinstance(a, PObj) and isinstance(b, PObj):
        nm = {'<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}[op]
        if _has_user(a.cls, nm):
            return truth(call_method(a, nm, b))
        raise_py(TypeError)
    return native_cmp(op, a, b)


def disj(cs):
    if any(isinstance(c, bool) and c for c in cs):
        return True
    cs = [c for c in cs if not isinstance(c, bool)]
    if not cs:
        return False
    return cs[0] if len(cs) == 1 else z3.simplify(z3.Or(*cs))


def contains(c, x):
    c, x = force(c), force(x)
    if isinstance(c, (str, Rope)) and kind_of(c) == 'str':
        if not isinstance(x, (str, Rope)):
            raise_py(TypeError)
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        n = rope_len(x)
        if isinstance(n, int) and n == 1 and isinstance(c, str):
            e = rope_elem(x, 0)
            return disj([elem_eq(e, v) for v in sorted({ord(ch) for ch in c})])
        if isinstance(x, str) and len(x) == 1:
            n = rope_len(c)
            if isinstance(n, int) and n <= 200:
                return disj([elem_eq(rope_elem(c, j), ord(x)) for j in range(n)])
            from . import loops
            return loops.exists_elem(c, lambda e: elem_eq(e, ord(x)))
        if isinstance(x, str) and not x:
            return True
        raise Unsupported('substring test')
    if isinstance(c, (bytes, Rope)):
        if is_int(x):
            n = rope_len(c)
            if isinstance(n, int) and n <= 200:
                return disj([elem_eq(rope_elem(c, j), zi(int_term(x))) for j in range(n)])
        if isinstance(c, bytes) and isinstance(x, bytes):
            return x in c
        raise Unsupported('bytes containment')
    if isinstance(c, PDict):
        return disj([values_equal(k, x) for k, _ in c.pairs])
    if isinstance(c, PSet):
        return disj([values_equal(k, x) for k in c.items])
    if isinstance(c, PList):
        if c.concrete:
            return disj([values_equal(k, x) for k in c.items])
        from . import loops
        return loops.list_contains(c, x)
    if isinstance(c, (tuple, list)):
        return disj([values_equal(k, x) for k in c])
    if isinstance(c, (dict, set, frozenset)):
        if deep_concrete(x):
            try:
                return to_native(x) in c
            except TypeError as e:
                raise PyExc(TypeError, e.args, e)
        return disj([values_equal(k, x) for k in c])
    if isinstance(c, SRange):
        return z3.And(zi(int_term(x)) >= zi(c.lo), zi(int_term(x)) < zi(c.hi))
    if isinstance(c, PObj) and hasattr(c.cls, '__contains__'):
        return truth(call_method(c, '__contains__', x))
    if isinstance(c, (range,)):
        if isinstance(x, int):
            return x in c
        if c.step == 1:
            return z3.And(zi(int_term(x)) >= c.start, zi(int_term(x)) < c.stop)
    if c is None or isinstance(c, (int, SInt)):
        raise_py(TypeError, 'argument is not iterable')
    if deep_concrete(c) and deep_concrete(x):
        return x in c
    raise Unsupported('containment in %r' % (c,))


# ---- values: merging ---------------------------------------------------------------

def merge(c, a, b):
    """c ? a : b as one value."""
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, bool) and isinstance(b, bool) and a == b:
        return a
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return mk_bool(z3.If(c, zb(a if isinstance(a, bool) else a.t), zb(b if isinstance(b, bool) else b.t)))
    if isinstance(a, (SBv, int)) and isinstance(b, (SBv, int)) and not isinstance(a, bool) and not isinstance(b, bool) \
            and (isinstance(a, SBv) or isinstance(b, SBv)) and upper_bv(a) >= 0 and upper_bv(b) >= 0:
        w = max(bv_w(upper_bv(a)), bv_w(upper_bv(b)))
        return mk_bv(z3.If(c, bv_of(a, w), bv_of(b, w)))
    if is_int(a) and is_int(b) and not isinstance(a, (bool, SBool)) and not isinstance(b, (bool, SBool)):
        return mk_int(z3.If(c, zi(int_term(a)), zi(int_term(b))))
    if isinstance(a, SReal) and isinstance(b, SReal) and a.dec == b.dec:
        return mk_real(z3.If(c, a.t, b.t), a.dec)
    if isinstance(a, (Rope, bytes, str)) and isinstance(b, (Rope, bytes, str)) and kind_of(a) == kind_of(b):
        if rope_same(a, b):
            return a
        # factor common ends
        x, y = list(segs_of(a)), list(segs_of(b))
        pre, post = [], []
        while x and y and seg_same(x[0], y[0]):
            pre.append(x.pop(0))
            y.pop(0)
        while x and y and seg_same(x[-1], y[-1]):
            post.insert(0, x.pop())
            y.pop()
        k = kind_of(a)
        if len(x) == 1 and len(y) == 1 and isinstance(x[0], Sl) and isinstance(y[0], Sl) and x[0].a.t.eq(y[0].a.t) \
                and not x[0].rev and not y[0].rev and same(x[0].lo, y[0].lo):
            return mk(k, pre + [Sl(x[0].a, x[0].lo, norm(z3.If(c, zi(x[0].hi), zi(y[0].hi))))] + post)
        return mk(k, pre + [It(c, mk(k, x), mk(k, y))] + post)
    if isinstance(a, tuple) and isinstance(b, tuple) and type(a) is type(b) and len(a) == len(b):
        items = [merge(c, x, y) for x, y in zip(a, b)]
        return type(a)(*items) if hasattr(a, '_fields') else tuple(items)
    if isinstance(a, PObj) and isinstance(b, PObj) and a.cls is b.cls and set(a.fields) == set(b.fields) \
            and getattr(a, 'origin', None) is None and getattr(b, 'origin', None) is None:
        return PObj(a.cls, {n: merge(c, a.fields[n], b.fields[n]) for n in a.fields})
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return Opaque(z3.If(c, a.t, b.t)) if not a.t.eq(b.t) else a
    try:
        if not is_sym(a) and not is_sym(b) and type(a) is type(b) and a == b:
            return a
    except Exception:
        pass
    return VIte(c, a, b)


# ---- the interpreter ---------------------------------------------------------------

CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is',
       ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
BIN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
       ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}

MODELS = {}            # native callable -> model(args, kwargs)
CONTRACTS = {}         # native function -> callable(args, kwargs) or None (inline)
OVERRIDES = {}         # active per harness: native function -> model
MAX_DEPTH = 60
MAX_STEPS = 400000


def lookup(env, name):
    e = env.find(name) if env is not None else None
    if e is not None:
        v = e.vars[name]
        if v is UNBOUND:
            raise_py(UnboundLocalError if e is env else NameError, name)
        return v
    g = env.glob
    return glob_get(g, name)


def glob_get(g, name):
    k = ('glob', id(g), name)
    if k in S.over:
        return S.over[k]
    if name in g:
        return lift(g[name])
    if hasattr(builtins, name):
        return getattr(builtins, name)
    raise_py(NameError, name)


def store(env, name, v):
    if name in env.globs:
        S.over[('glob', id(env.glob), name)] = v
        return
    if name in env.nonlocals:
        e = env.parent.find(name)
        if e is None:
            raise Unsupported('nonlocal %s' % name)
        e.vars[name] = v
        return
    env.vars[name] = v


def call_method(obj, name, *args):
    return call(getattr_(obj, name), list(args), {})


def getattr_(o, name):
    o = force(o)
    from . import models
    if isinstance(o, PObj):
        if name in o.fields:
            return o.fields[name]
        if name == '__class__':
            return o.cls
        if name == '__dict__':
            return PDict([(k, v) for k, v in o.fields.items()])
        return class_attr(o, o.cls, name)
    if isinstance(o, SuperProxy):
        mro = (o.obj.cls if isinstance(o.obj, PObj) else o.obj).__mro__
        idx = mro.index(o.cls)
        for c in mro[idx + 1:]:
            if name in c.__dict__:
                return bind(c.__dict__[name], o.obj, c)
        raise_py(AttributeError, name)
    if isinstance(o, type):
        k = ('attr', id(o), name)
        if k in S.over:
            return S.over[k]
        for c in o.__mro__:
            k = ('attr', id(c), name)
            if k in S.over:
                return S.over[k]
            if name in c.__dict__:
                break
        try:
            v = getattr(o, name)
        except AttributeError as e:
            raise PyExc(AttributeError, e.args, e)
        return lift(v)
    if isinstance(o, types.ModuleType):
        k = ('glob', id(o.__dict__), name)
        if k in S.over:
            return S.over[k]
        try:
            return lift(getattr(o, name))
        except AttributeError as e:
            raise PyExc(AttributeError, e.args, e)
    if isinstance(o, PFunc):
        if name in o.attrs:
            return o.attrs[name]
        if name == '__name__':
            return o.name
        raise Unsupported('attribute %s of a function' % name)
    if isinstance(o, Bound) and name == '__self__':
        return o.self_
    if isinstance(o, (Rope, PList, PDict, PSet, SInt, SReal, SBool, SBv, Opaque, bytes, str, int, list, dict, deque_t(),
                      SymIter)) and not isinstance(o, type):
        if isinstance(o, tuple) is False:
            if isinstance(o, Opaque):
                r = models.opaque_attr(o, name)
                if r is not NotImplemented:
                    return r
            t = {'Rope': None}
            cls = pytype(o)
            if not hasattr(cls, name):
                raise_py(AttributeError, '%s has no attribute %s' % (cls, name))
            if name in ('real', 'numerator') and is_int(o):
                return o
            return BuiltinMethod(o, name)
    if isinstance(o, PyExc):
        if name == 'args':
            return tuple(o.pargs)
    m = models.native_attr(o, name)
    if m is not NotImplemented:
        return m
    try:
        return getattr(o, name)
    except AttributeError as e:
        raise PyExc(AttributeError, e.args, e)


def deque_t():
    import collections
    return collections.deque


def pytype(o):
    import decimal
    import collections
    if isinstance(o, Rope):
        return bytes if o.kind == 'bytes' else str
    if isinstance(o, PList):
        return {'list': list, 'deque': collections.deque, 'tuple': tuple}[o.kind]
    if isinstance(o, PDict):
        return dict
    if isinstance(o, PSet):
        return set
    if isinstance(o, (SInt, SBv)):
        return int
    if isinstance(o, SBool):
        return bool
    if isinstance(o, SReal):
        return decimal.Decimal if o.dec else float
    if isinstance(o, PObj):
        return o.cls
    if isinstance(o, Opaque):
        if o.cls is None:
            raise Unsupported('type of an opaque value')
        return o.cls
    if isinstance(o, (PFunc,)):
        return types.FunctionType
    if isinstance(o, Bound):
        return types.MethodType
    if isinstance(o, PyExc):
        return o.cls
    return type(o)


def class_attr(o, cls, name):
    for c in cls.__mro__:
        k = ('attr', id(c), name)
        if k in S.over:
            return bind(S.over[k], o, c)
        if name in c.__dict__:
            v = c.__dict__[name]
            if isinstance(v, (types.MemberDescriptorType, types.GetSetDescriptorType)):
                raise_py(AttributeError, name)
            return bind(v, o, c)
    for c in cls.__mro__:
        if '__getattr__' in c.__dict__:
            return call(bind(c.__dict__['__getattr__'], o, c), [name], {})
    raise_py(AttributeError, "%s has no attribute %s" % (cls.__name__, name))


def bind(v, o, c):
    if isinstance(v, property):
        return call(v.fget, [o], {})
    if isinstance(v, functools.cached_property):
        r = call(v.func, [o], {})
        if isinstance(o, PObj):
            o.fields[v.attrname] = r
        return r
    if isinstance(v, staticmethod):
        return v.__func__
    if isinstance(v, classmethod):
        return Bound(v.__func__, o.cls if isinstance(o, PObj) else o)
    if isinstance(v, types.FunctionType):
        return Bound(v, o)
    if isinstance(v, PFunc):
        return Bound(v, o)
    return v


def setattr_(o, name, v):
    o = force(o)
    if isinstance(o, PObj):
        slots = None
        for c in o.cls.__mro__:
            if isinstance(c.__dict__.get(name), property):
                p = c.__dict__[name]
                if p.fset is None:
                    raise_py(AttributeError, name)
                call(p.fset, [o, v], {})
                return
            if '__setattr__' in c.__dict__ and c is not object:
                raise Unsupported('__setattr__')
        allslots = [c.__dict__['__slots__'] for c in o.cls.__mro__ if '__slots__' in c.__dict__]
        has_dict = any('__slots__' not in c.__dict__ for c in o.cls.__mro__ if c is not object)
        if allslots and not has_dict and not any(name == s or name in s for s in allslots):
            raise_py(AttributeError, name)
        if o.origin is not None:
            from . import loops
            loops.write_elem(o, name, v)
            return
        o.fields[name] = v
        return
    if isinstance(o, type):
        S.over[('attr', id(o), name)] = v
        return
    if isinstance(o, types.ModuleType):
        S.over[('glob', id(o.__dict__), name)] = v
        return
    if isinstance(o, PFunc):
        o.attrs[name] = v
        return
    from . import models
    if models.native_setattr(o, name, v):
        return
    raise Unsupported('attribute assignment on %r' % (o,))


def index_term(i):
    i = force(i)
    if not is_int(i):
        if isinstance(i, PObj) and hasattr(i.cls, '__index__'):
            return index_term(call_method(i, '__index__'))
        raise_py(TypeError, 'indices must be integers')
    return norm(zi(int_term(i))) if not isinstance(i, int) else int(i)


def getitem(o, i):
    o = force(o)
    if isinstance(i, slice):
        lo, hi, st = [None if force(x) is None else index_term(x) for x in (i.start, i.stop, i.step)]
        if isinstance(o, (bytes, str, Rope)):
            if isinstance(st, z3.ExprRef):
                raise Unsupported('symbolic step')
            return rope_slice(o, lo, hi, st)
        if isinstance(o, PList):
            return list_slice(o, lo, hi, st)
        if isinstance(o, (tuple, list, range)):
            if all(x is None or isinstance(x, int) for x in (lo, hi, st)):
                r = o[slice(lo, hi, st)]
                return r if isinstance(r, (tuple, range)) else from_native(r)
            return list_slice(PList([from_native(x) for x in o]), lo, hi, st)
        if isinstance(o, SRange):
            raise Unsupported('slice of a range')
        raise_py(TypeError, 'not sliceable')
    if isinstance(o, PDict):
        i = force(i)
        for k, v in o.pairs:
            if S.decide(values_equal(k, i)):
                return v
        raise_py(KeyError, i)
    if isinstance(o, dict):
        i = force(i)
        if deep_concrete(i):
            try:
                return o[to_native(i)]
            except KeyError as e:
                raise PyExc(KeyError, e.args, e)
            except TypeError as e:
                raise PyExc(TypeError, e.args, e)
        # symbolic key over a concrete dict
        if isinstance(i, (Rope, SInt, SBv)):
            return dict_lookup(o, i)
        raise Unsupported('dict lookup with key %r' % (i,))
    if isinstance(o, (bytes, str, Rope)):
        t = index_term(i)
        n = rope_len(o)
        if isinstance(t, int) and isinstance(n, int):
            if not -n <= t < n:
                raise_py(IndexError, 'index out of range')
            t = t + n if t < 0 else t
        else:
            if S.decide(zi(t) < 0):
                t = norm(zi(t) + zi(n))
                if S.decide(zi(t) < 0):
                    raise_py(IndexError, 'index out of range')
            elif S.decide(zi(t) >= zi(n)):
                raise_py(IndexError, 'index out of range')
        if isinstance(o, str) and not isinstance(t, int) and isinstance(force(i), SBv):
            bi = force(i)
            v = bv_table([ord(c) for c in o], bi)
            return mk('str', [Els([v])])
        e = rope_elem(o, t)
        if kind_of(o) == 'str':
            return chr(e) if isinstance(e, int) else mk('str', [Els([e])])
        if isinstance(e, int):
            return e
        return SBv(e) if z3.is_bv(e) else mk_int(e)
    if isinstance(o, (list, tuple)) and isinstance(force(i), SBv) and all(isinstance(x, str) and len(x) == 1 for x in o):
        bi = force(i)
        if S.decide(z3.UGE(bv_of(bi, max(bi.w, bv_w(len(o)))), len(o))) if len(o) < (1 << bi.w) else False:
            raise_py(IndexError)
        return mk('str', [Els([bv_table([ord(c) for c in o], bi)])])
    if isinstance(o, (list, tuple)):
        t = index_term(i)
        if isinstance(t, int):
            try:
                return from_native(o[t]) if isinstance(o, list) else o[t]
            except IndexError as e:
                raise PyExc(IndexError, e.args, e)
        return seq_select(list(o), t)
    if isinstance(o, PList):
        t = index_term(i)
        if o.concrete:
            items = o.items
            if isinstance(t, int):
                if not -len(items) <= t < len(items):
                    raise_py(IndexError, 'list index out of range')
                return items[t]
            return seq_select(items, t)
        from . import loops
        return loops.list_elem(o, t)
    if isinstance(o, range):
        return o[index_term(i)] if isinstance(index_term(i), int) else mk_int(zi(o.start) + zi(index_term(i)) * o.step)
    if isinstance(o, PObj):
        if hasattr(o.cls, '__getitem__'):
            return call_method(o, '__getitem__', i)
        raise_py(TypeError, 'not subscriptable')
    if isinstance(o, Opaque):
        from . import models
        return models.opaque_item(o, i)
    if o is None or isinstance(o, (int, SInt)):
        raise_py(TypeError, 'not subscriptable')
    if deep_concrete(o) and deep_concrete(i):
        try:
            return from_native(o[to_native(i)])
        except Exception as e:
            raise PyExc(type(e), e.args, e)
    raise Unsupported('subscript of %r' % (o,))


def dict_lookup(d, key):
    """Concrete dict, symbolic key: membership by fork, value by cases merged into one term when integral."""
    ks = [k for k in d if (isinstance(key, Rope) and isinstance(k, (str, bytes)) and kind_of(key) == kind_of(k)) or
          (not isinstance(key, Rope) and isinstance(k, int))]
    conds = [(values_equal(k, key), d[k]) for k in ks]
    inside = disj([c for c, _ in conds])
    if not S.decide(inside):
        raise_py(KeyError, key)
    vals = [v for _, v in conds]
    if all(type(v) is int for v in vals):
        isbv = isinstance(key, Rope) and len(key.segs) == 1 and isinstance(key.segs[0], Els) and \
            not isinstance(key.segs[0].e[0], int) and z3.is_bv(key.segs[0].e[0])
        if isbv:
            w = bv_w(max(vals))
            t = z3.BitVecVal(vals[-1], w)
            for c, v in reversed(conds[:-1]):
                t = z3.If(zb(c), z3.BitVecVal(v, w), t)
            return mk_bv(t)
        t = z3.IntVal(vals[-1])
        for c, v in reversed(conds[:-1]):
            t = z3.If(zb(c), z3.IntVal(v), t)
        return mk_int(t)
    for c, v in conds:
        if S.decide(c):
            return from_native(v)
    raise PathAbort()


def bv_table(vals, i):
    w = bv_w(max(vals))
    t = z3.BitVecVal(vals[-1], w)
    for j in range(min(len(vals), 1 << i.w) - 1, -1, -1):
        t = z3.If(i.t == j, z3.BitVecVal(vals[j], w), t)
    return t


def seq_select(items, t):
    n = len(items)
    if S.decide(zi(t) < 0):
        t = norm(zi(t) + n)
        if S.decide(zi(t) < 0):
            raise_py(IndexError)
    elif S.decide(zi(t) >= n):
        raise_py(IndexError)
    if items and all(isinstance(x, str) and len(x) == 1 for x in items):
        return mk('str', [Els([table([ord(c) for c in items], t)])])
    if items and all(type(x) is int for x in items):
        return mk_int(zi(table(items, t)))
    for j in range(n - 1):
        if S.decide(zi(t) == j):
            return items[j]
    return items[n - 1]


def list_slice(o, lo, hi, st=None):
    if o.concrete and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
        return PList(o.items[slice(lo, hi, st)], kind=o.kind)
    from . import loops
    return loops.list_slice(o, lo, hi, st)


def setitem(o, i, v):
    o = force(o)
    if isinstance(i, slice):
        lo, hi, st = [None if force(x) is None else index_term(x) for x in (i.start, i.stop, i.step)]
        if isinstance(o, PList):
            v = force(v)
            nv = v if isinstance(v, PList) else PList(list(iterate(v)))
            if lo is None and hi is None and st is None:
                o.segs = copy_segs(nv)
                return
            if o.concrete and nv.concrete and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
                items = o.items
                items[slice(lo, hi, st)] = nv.items
                o.set_items(items)
                return
        raise Unsupported('slice assignment')
    if isinstance(o, PDict):
        i = force(i)
        for p in o.pairs:
            if S.decide(values_equal(p[0], i)):
                p[1] = v
                return
        if isinstance(i, (PList, PDict)):
            raise_py(TypeError, 'unhashable')
        o.pairs.append([i, v])
        return
    if isinstance(o, PList):
        t = index_term(i)
        if o.concrete and isinstance(t, int):
            items = o.items
            if not -len(items) <= t < len(items):
                raise_py(IndexError)
            items[t] = v
            o.set_items(items)
            return
        from . import loops
        loops.list_store(o, t, v)
        return
    if isinstance(o, PObj) and hasattr(o.cls, '__setitem__'):
        call_method(o, '__setitem__', i, v)
        return
    if isinstance(o, (bytes, str, Rope, tuple)):
        raise_py(TypeError, 'does not support item assignment')
    raise Unsupported('item assignment on %r' % (type(o),))


def iterate(v):
    """Concrete python list of the items, or SymIter."""
    v = force(v)
    if isinstance(v, (list, tuple, range, set, frozenset)):
        return [from_native(x) for x in v]
    if isinstance(v, dict):
        return list(v)
    if isinstance(v, PList):
        if v.concrete:
            return v.items
        from . import loops
        return loops.list_iter(v)
    if isinstance(v, PDict):
        return [k for k, _ in v.pairs]
    if isinstance(v, PSet):
        return list(v.items)
    if isinstance(v, SymIter):
        return v
    if isinstance(v, SRange):
        lo, hi, st = v.lo, v.hi, v.step
        if isinstance(lo, int) and isinstance(hi, int) and isinstance(st, int):
            return list(range(lo, hi, st))
        if st == 1:
            n = norm(z3.If(zi(hi) > zi(lo), zi(hi) - zi(lo), 0)) if not S.provable(zi(hi) >= zi(lo)) else norm(zi(hi) - zi(lo))
            return SymIter(n, lambda k: mk_int(zi(lo) + zi(k)))
        if isinstance(st, int) and st > 0:
            n = norm(z3.If(zi(hi) > zi(lo), (zi(hi) - zi(lo) + (st - 1)) / st, 0))
            return SymIter(n, lambda k: mk_int(zi(lo) + zi(k) * st))
        raise Unsupported('range step')
    if isinstance(v, (bytes, str)):
        return list(v)
    if isinstance(v, Rope):
        n = rope_len(v)
        if isinstance(n, int):
            out = []
            for j in range(n):
                out.append(getitem(v, j))
            return out
        return SymIter(n, lambda k: rope_item(v, k), src=v)
    if isinstance(v, PObj):
        if hasattr(v.cls, '__iter__'):
            return iterate(call_method(v, '__iter__'))
        raise_py(TypeError, 'not iterable')
    if isinstance(v, (SInt, SBool, SBv, int)) or v is None:
        raise_py(TypeError, 'not iterable')
    if isinstance(v, Opaque):
        raise Unsupported('iteration over an opaque value')
    if isinstance(v, types.GeneratorType) or hasattr(v, '__next__'):
        return [from_native(x) for x in v]
    if hasattr(v, '__iter__'):
        return [from_native(x) for x in v]
    raise_py(TypeError, 'not iterable')


def rope_item(v, k):
    e = rope_elem(v, norm(zi(k)))
    if v.kind == 'str':
        return chr(e) if isinstance(e, int) else mk('str', [Els([e])])
    if isinstance(e, int):
        return e
    return SBv(e) if z3.is_bv(e) else mk_int(e)


def concrete_iter(v, what='iteration'):
    it = iterate(v)
    if isinstance(it, SymIter):
        n = norm(zi(it.n))
        if isinstance(n, int):
            return [it.item(j) for j in range(n)]
        raise Unsupported('%s over a symbolic-length iterable' % what)
    return it


# ---- calls -----------------------------------------------------------------------------

def call(f, args, kwargs):
    f = force(f)
    if isinstance(f, Bound):
        return call(f.fn, [f.self_] + list(args), kwargs)
    if isinstance(f, types.MethodType):
        g = f.__func__
        if interpretable(g) or g in MODELS or g in OVERRIDES or g in CONTRACTS:
            return call(g, [f.__self__] + list(args), kwargs)
    from . import models
    if isinstance(f, BuiltinMethod):
        return models.method(f.obj, f.name, args, kwargs)
    if isinstance(f, PFunc):
        return call_pfunc(f, args, kwargs)
    r = models.call_special(f, args, kwargs)
    if r is not NotImplemented:
        return r
    try:
        hash(f)
        hashable = True
    except TypeError:
        hashable = False
    if hashable:
        if f in OVERRIDES:
            return OVERRIDES[f](args, kwargs)
        m = MODELS.get(f)
        if m is not None:
            return m(args, kwargs)
        c = CONTRACTS.get(f)
        if c is not None and f not in S.extra.get('inlining', ()):
            r = c(args, kwargs)
            if r is not NotImplemented:
                return r
    if isinstance(f, types.FunctionType) and interpretable(f):
        return call_pfunc(pfunc_of(f), args, kwargs)
    if isinstance(f, type):
        return instantiate(f, args, kwargs)
    if isinstance(f, functools.partial):
        return call(f.func, list(f.args) + list(args), {**f.keywords, **kwargs})
    if isinstance(f, (types.BuiltinMethodType, types.BuiltinFunctionType)) and getattr(f, '__self__', None) is not None \
            and not isinstance(f.__self__, types.ModuleType) and not isinstance(f.__self__, type):
        # method of a native constant, e.g. 'abc'.join
        if isinstance(f.__self__, (str, bytes, int, list, dict, tuple)):
            return models.method(f.__self__, f.__name__, args, kwargs)
    if isinstance(f, PObj):
        if hasattr(f.cls, '__call__'):
            return call_method_kw(f, '__call__', args, kwargs)
        raise_py(TypeError, 'not callable')
    if not callable(f):
        raise_py(TypeError, 'not callable')
    if deep_concrete(list(args)) and deep_concrete(dict(kwargs)):
        return native_call(f, args, kwargs)
    raise Unsupported('call of %r with symbolic arguments' % (getattr(f, '__qualname__', f),))


def call_method_kw(o, name, args, kwargs):
    return call(getattr_(o, name), list(args), kwargs)


NATIVE_OK_MODULES = ('builtins', 'math', 'binascii', 'hashlib', '_hashlib', 'json', 'json.encoder', 'json.decoder', 'collections', 're', 'decimal',
                     'itertools', 'functools', 'operator', '_operator', 'string', 'base64', 'struct', '_struct', '_sha2', '_sha256',
                     'coincurve', 'coincurve.keys', 'coincurve.ecdsa', 'coincurve.utils', 'coincurve.context',
                     '_collections', '_json', '_decimal', 'codecs', '_codecs', 'textwrap', 'fractions', 'numbers', 'bit.utils',
                     'copy', 'unicodedata', 'types', 'typing', 'abc', 'enum', 'dataclasses')


def native_call(f, args, kwargs):
    mod = getattr(f, '__module__', None) or getattr(type(getattr(f, '__self__', None)), '__module__', None) or 'builtins'
    if mod.split('.')[0] in ('requests', 'urllib', 'socket', 'subprocess', 'os', 'shutil', 'multiprocessing', 'random',
                             'time', 'threading', 'sys', 'secrets'):
        raise Unsupported('unmodelled external call %s.%s' % (mod, getattr(f, '__name__', f)))
    try:
        r = f(*[to_native(a) for a in args], **{k: to_native(v) for k, v in kwargs.items()})
    except Exception as e:
        raise PyExc(type(e), e.args, e)
    return from_native(r)


def instantiate(cls, args, kwargs):
    from . import models
    if issubclass(cls, BaseException):
        if _interp_cls(cls) and '__init__' in cls.__dict__:
            raise Unsupported('custom exception constructor')
        return PyExc(cls, args)
    if issubclass(cls, tuple) and hasattr(cls, '_fields'):
        try:
            return cls(*args, **kwargs)
        except TypeError as e:
            raise PyExc(TypeError, e.args, e)
    if _interp_cls(cls):
        import decimal
        if issubclass(cls, decimal.Decimal):
            return models.decimal_new(args, kwargs, cls)
        if issubclass(cls, (int, str, bytes, list, dict)):
            raise Unsupported('subclass of a builtin')
        o = PObj(cls)
        init = getattr(cls, '__init__', None)
        if init is not object.__init__:
            call(init, [o] + list(args), kwargs)
        elif args or kwargs:
            raise_py(TypeError, 'takes no arguments')
        return o
    if deep_concrete(list(args)) and deep_concrete(dict(kwargs)):
        return native_call(cls, args, kwargs)
    raise Unsupported('constructor of %s with symbolic arguments' % cls.__name__)


def _interp_cls(cls):
    m = sys.modules.get(cls.__module__)
    f = getattr(m, '__file__', None)
    return f is not None and any(os.path.realpath(f).startswith(r) for r in INTERP_ROOTS)


def bind_args(fn, args, kwargs):
    a = fn.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    vals = {}
    args = list(args)
    if len(args) > len(names) and not a.vararg:
        raise_py(TypeError, '%s() takes %d positional arguments' % (fn.name, len(names)))
    for n, v in zip(names, args):
        vals[n] = v
    if a.vararg:
        vals[a.vararg.arg] = tuple(args[len(names):])
    extra = {}
    kwn = [x.arg for x in a.kwonlyargs]
    for k, v in kwargs.items():
        if k in names or k in kwn:
            if k in vals:
                raise_py(TypeError, 'multiple values for argument %s' % k)
            vals[k] = v
        elif a.kwarg:
            extra[k] = v
        else:
            raise_py(TypeError, 'unexpected keyword argument %s' % k)
    if a.kwarg:
        vals[a.kwarg.arg] = PDict(list(extra.items()))
    nd = len(fn.defaults)
    for n, d in zip(names[len(names) - nd:], fn.defaults):
        if n not in vals:
            vals[n] = d
    for n in kwn:
        if n not in vals:
            if n in fn.kwdefaults:
                vals[n] = fn.kwdefaults[n]
            else:
                raise_py(TypeError, 'missing keyword-only argument %s' % n)
    for n in names:
        if n not in vals:
            raise_py(TypeError, 'missing argument %s' % n)
    return vals


_scan = {}


def scan(node):
    """(nonlocal names, global names, local names, has yield) of a function body."""
    r = _scan.get(node)
    if r is None:
        nl, gl, loc, yl = set(), set(), set(), False
        stack = list(node.body) if isinstance(node, ast.FunctionDef) else [node.body]
        while stack:
            n = stack.pop()
            if isinstance(n, ast.Nonlocal):
                nl |= set(n.names)
            elif isinstance(n, ast.Global):
                gl |= set(n.names)
            elif isinstance(n, (ast.Yield, ast.YieldFrom)):
                yl = True
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                loc.add(n.name)
                continue
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                loc.add(n.id)
            if isinstance(n, ast.ExceptHandler) and n.name:
                loc.add(n.name)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    loc.add((al.asname or al.name).split('.')[0])
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                # comprehension targets are local to it; walrus targets are not
                for sub in ast.walk(n):
                    if isinstance(sub, ast.NamedExpr):
                        loc.add(sub.target.id)
                continue
            stack.extend(ast.iter_child_nodes(n))
        r = _scan[node] = (nl, gl, loc - nl - gl, yl)
    return r


def call_pfunc(fn, args, kwargs):
    if S.depth > MAX_DEPTH:
        raise Unsupported('call depth limit (recursion without a contract?)')
    if isinstance(fn.node, ast.Lambda):
        nl, gl, loc, yl = set(), set(), set(), False
    else:
        nl, gl, loc, yl = scan(fn.node)
    vals = bind_args(fn, args, kwargs)
    env = Env(fn.env, fn.glob, nl, gl)
    for n in loc:
        env.vars[n] = UNBOUND
    env.vars.update(vals)
    env.fn = fn
    if getattr(fn, 'file', None):
        S.reads[(fn.file, fn.qual)] = fn.node
    S.depth += 1
    try:
        if isinstance(fn.node, ast.Lambda):
            return ev(fn.node.body, env)
        if yl:
            env.yields = PList([])
        try:
            run(fn.node.body, env)
        except ReturnExc as r:
            if yl:
                return env.yields
            return r.v
        return env.yields if yl else None
    finally:
        S.depth -= 1


def make_func(node, env, name):
    a = node.args
    f = PFunc(node, env, env.glob, name, [ev(d, env) for d in a.defaults],
              {k.arg: ev(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    f.file, f.qual = None, name
    return f


# ---- statements -------------------------------------------------------------------------

def run(stmts, env):
    for s in stmts:
        ex(s, env)


def ex(s, env):
    S.steps += 1
    if S.steps > MAX_STEPS:
        raise Unsupported('step limit')
    m = STMT.get(type(s))
    if m is None:
        raise Unsupported('statement %s' % type(s).__name__)
    m(s, env)


def ex_expr(s, env):
    if isinstance(s.value, ast.Constant):
        return
    ev(s.value, env)


def ex_assign(s, env):
    v = ev(s.value, env)
    for t in s.targets:
        assign(t, v, env)


def assign(t, v, env):
    if isinstance(t, ast.Name):
        store(env, t.id, v)
    elif isinstance(t, ast.Attribute):
        setattr_(ev(t.value, env), t.attr, v)
    elif isinstance(t, ast.Subscript):
        setitem(ev(t.value, env), ev_index(t.slice, env), v)
    elif isinstance(t, (ast.Tuple, ast.List)):
        items = concrete_iter(v, 'unpacking')
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        if star:
            i = star[0]
            after = len(t.elts) - i - 1
            if len(items) < len(t.elts) - 1:
                raise_py(ValueError, 'not enough values to unpack')
            for e, x in zip(t.elts[:i], items[:i]):
                assign(e, x, env)
            assign(t.elts[i].value, PList(items[i:len(items) - after]), env)
            for e, x in zip(t.elts[i + 1:], items[len(items) - after:]):
                assign(e, x, env)
            return
        if len(items) != len(t.elts):
            raise_py(ValueError, 'unpacking %d values into %d' % (len(items), len(t.elts)))
        for e, x in zip(t.elts, items):
            assign(e, x, env)
    elif isinstance(t, ast.Starred):
        assign(t.value, v, env)
    else:
        raise Unsupported('assignment target')


def ex_aug(s, env):
    op = BIN[type(s.op)]
    t = s.target
    if isinstance(t, ast.Name):
        cur = lookup(env, t.id)
        store(env, t.id, inplace(op, cur, ev(s.value, env)))
    elif isinstance(t, ast.Attribute):
        o = ev(t.value, env)
        setattr_(o, t.attr, inplace(op, getattr_(o, t.attr), ev(s.value, env)))
    elif isinstance(t, ast.Subscript):
        o, i = ev(t.value, env), ev_index(t.slice, env)
        setitem(o, i, inplace(op, getitem(o, i), ev(s.value, env)))


def inplace(op, cur, v):
    cur = force(cur)
    if op == '+' and isinstance(cur, PList):
        from . import models
        models.method(cur, 'extend', [v], {})
        return cur
    if isinstance(cur, list):
        raise Unsupported('in-place change of a module-level list')
    return binop(op, cur, v)


def ex_ann(s, env):
    if s.value is not None:
        assign(s.target, ev(s.value, env), env)


def pure_names(stmts):
    """Names assigned by straight-line bit arithmetic, or None."""
    out = set()
    for s in stmts:
        if isinstance(s, ast.Pass):
            continue
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            out.add(s.target.id)
            v = s.value
            if not isinstance(s.op, (ast.BitXor, ast.BitOr, ast.BitAnd, ast.LShift, ast.RShift)):
                return None
        elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            out.add(s.targets[0].id)
            v = s.value
        else:
            return None
        for x in ast.walk(v):
            if not isinstance(x, (ast.Constant, ast.Name, ast.BinOp, ast.Load, ast.BitXor, ast.BitOr, ast.BitAnd, ast.LShift,
                                  ast.RShift, ast.Subscript)):
                return None
    return out


def merge_if(s, env, c):
    """Both branches of a conditional bit manipulation as one value; False when that does not apply."""
    names = pure_names(list(s.body) + list(s.orelse))
    if not names or any(n not in env.vars or n in env.globs or n in env.nonlocals for n in names):
        return False
    old = {n: force(env.vars[n]) for n in names}
    if not all(isinstance(v, SBv) or isinstance(v, int) and not isinstance(v, bool) and v >= 0 for v in old.values()):
        return False
    if not any(isinstance(v, SBv) for v in old.values()):
        return False
    res = []
    for body in (s.body, s.orelse):
        env.vars.update(old)
        run(body, env)
        res.append({n: force(env.vars[n]) for n in names})
    env.vars.update(old)
    if not all(isinstance(v, SBv) or isinstance(v, int) and v >= 0 for r in res for v in r.values()):
        return False
    for n in names:
        p, q = res[0][n], res[1][n]
        w = max(bv_w(upper_bv(p)), bv_w(upper_bv(q)))
        env.vars[n] = mk_bv(z3.If(c, bv_of(p, w), bv_of(q, w)))
    return True


def ex_if(s, env):
    c = truth(ev_cond(s.test, env))
    if not isinstance(c, bool) and pure_names(s.body) is not None:
        b = lin_cond(c)
        if b is None or not b - {None}:
            c = z3.simplify(c)
        if not z3.is_true(c) and not z3.is_false(c) and merge_if(s, env, c):
            return
    if S.decide(c):
        run(s.body, env)
    else:
        run(s.orelse, env)


def ex_for(s, env):
    for_over(s, env, iterate(ev(s.iter, env)))


def for_over(s, env, it):
    from . import loops
    if isinstance(it, SymIter):
        n = norm(zi(it.n))
        if isinstance(n, int):
            it = [it.item(j) for j in range(n)]
        else:
            parts = loops.fission(it)
            if parts is None:
                loops.sym_for(s, env, it)
                return
            for part in parts:
                if isinstance(part, SymIter):
                    if loops.sym_for(s, env, part, []):
                        return
                    continue
                for x in part:
                    assign(s.target, x, env)
                    try:
                        run(s.body, env)
                    except BreakExc:
                        return
                    except ContinueExc:
                        continue
            run(s.orelse, env)
            return
    for x in it:
        assign(s.target, x, env)
        try:
            run(s.body, env)
        except BreakExc:
            return
        except ContinueExc:
            continue
    run(s.orelse, env)


MAX_UNROLL = 300


def ex_while(s, env):
    from . import loops
    if S.extra.get('invariants'):
        from . import whiles
        rule = whiles.invariant_for(s, env)
        if rule is not None:
            return whiles.annotated(s, env, rule)
    n = 0
    snap = None
    while True:
        c = truth(ev_cond(s.test, env))
        if not isinstance(c, bool):
            c2 = z3.simplify(c)
            if not z3.is_true(c2) and not z3.is_false(c2) and (n == 0 or n >= 4):
                if loops.sym_while(s, env, n):
                    return
        if not S.decide(c):
            break
        n += 1
        if n > MAX_UNROLL:
            raise Unsupported('while loop without a bound')
        try:
            run(s.body, env)
        except BreakExc:
            return
        except ContinueExc:
            continue
    run(s.orelse, env)


def ex_return(s, env):
    raise ReturnExc(ev(s.value, env) if s.value is not None else None)


def ex_raise(s, env):
    if s.exc is None:
        cur = getattr(env, 'handling', None)
        e = env
        while cur is None and e is not None:
            cur = getattr(e, 'handling', None)
            e = getattr(e, 'parent', None)
        if cur is None:
            raise_py(RuntimeError, 'No active exception to reraise')
        raise cur
    v = force(ev(s.exc, env))
    if s.cause is not None:
        ev(s.cause, env)
    if isinstance(v, type) and issubclass(v, BaseException):
        raise PyExc(v)
    if isinstance(v, PyExc):
        raise v
    if isinstance(v, BaseException):
        raise PyExc(type(v), v.args, v)
    raise_py(TypeError, 'exceptions must derive from BaseException')


def exc_matches(exc, t):
    t = force(t)
    if isinstance(t, PList):
        t = tuple(t.items)
    if isinstance(t, (tuple, list)):
        return any(exc_matches(exc, x) for x in t)
    if isinstance(t, type) and issubclass(t, BaseException):
        return issubclass(exc.cls, t)
    raise_py(TypeError, 'catching classes that do not inherit from BaseException is not allowed')


def ex_try(s, env):
    def body():
        try:
            run(s.body, env)
        except PyExc as e:
            for h in s.handlers:
                if h.type is None or exc_matches(e, ev(h.type, env)):
                    if h.name:
                        store(env, h.name, e)
                    save = getattr(env, 'handling', None)
                    env.handling = e
                    try:
                        run(h.body, env)
                    finally:
                        env.handling = save
                        if h.name:
                            env.vars[h.name] = UNBOUND
                    return
            raise
        run(s.orelse, env)
    if not s.finalbody:
        body()
        return
    try:
        body()
    except (PyExc, ReturnExc, BreakExc, ContinueExc):
        run(s.finalbody, env)
        raise
    run(s.finalbody, env)


def ex_with(s, env):
    from . import models
    ctxs = []
    for it in s.items:
        c = ev(it.context_expr, env)
        v = models.enter(c)
        ctxs.append(c)
        if it.optional_vars is not None:
            assign(it.optional_vars, v, env)
    try:
        run(s.body, env)
    except PyExc as e:
        for c in reversed(ctxs):
            if models.leave(c, e):
                return
        raise
    except (ReturnExc, BreakExc, ContinueExc):
        for c in reversed(ctxs):
            models.leave(c, None)
        raise
    for c in reversed(ctxs):
        models.leave(c, None)


def ex_assert(s, env):
    if not test(ev_cond(s.test, env)):
        raise_py(AssertionError)


def ex_def(s, env):
    f = make_func(s, env, s.name)
    for d in reversed(s.decorator_list):
        f = call(ev(d, env), [f], {})
    store(env, s.name, f)


def ex_delete(s, env):
    for t in s.targets:
        if isinstance(t, ast.Name):
            env.vars[t.id] = UNBOUND
        elif isinstance(t, ast.Subscript):
            o = force(ev(t.value, env))
            i = ev_index(t.slice, env)
            if isinstance(o, PDict):
                for j, (k, _) in enumerate(o.pairs):
                    if S.decide(values_equal(k, i)):
                        o.pairs.pop(j)
                        break
                else:
                    raise_py(KeyError)
            elif isinstance(o, PList) and isinstance(i, slice):
                lo, hi, st = [None if force(x) is None else index_term(x) for x in (i.start, i.stop, i.step)]
                if o.concrete and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
                    items = o.items
                    del items[slice(lo, hi, st)]
                    o.set_items(items)
                elif lo in (None, 0) and st is None and hi is not None:
                    o.segs = copy_segs(list_slice(o, hi, None))
                else:
                    raise Unsupported('del slice')
            elif isinstance(o, PList) and isinstance(index_term(i), int):
                if o.concrete:
                    items = o.items
                    if not -len(items) <= index_term(i) < len(items):
                        raise_py(IndexError)
                    del items[index_term(i)]
                    o.set_items(items)
                elif index_term(i) == 0:
                    from . import models
                    models.method(o, 'pop', [0], {})
                else:
                    raise Unsupported('del item')
            else:
                raise Unsupported('del item')
        elif isinstance(t, ast.Attribute):
            o = force(ev(t.value, env))
            if isinstance(o, PObj) and t.attr in o.fields:
                del o.fields[t.attr]
            else:
                raise_py(AttributeError)
        else:
            raise Unsupported('del')


def ex_import(s, env):
    import importlib
    if isinstance(s, ast.Import):
        for al in s.names:
            m = importlib.import_module(al.name)
            store(env, al.asname or al.name.split('.')[0], m if al.asname else importlib.import_module(al.name.split('.')[0]))
    else:
        if s.level:
            raise Unsupported('relative import')
        m = importlib.import_module(s.module)
        for al in s.names:
            store(env, al.asname or al.name, getattr_(m, al.name) if hasattr(m, al.name)
                  else importlib.import_module(s.module + '.' + al.name))


def _brk(s, env):
    raise BreakExc()


def _cont(s, env):
    raise ContinueExc()


def ex_match(s, env):
    subj = ev(s.subject, env)
    for c in s.cases:
        if match_pattern(c.pattern, subj, env) and (c.guard is None or test(ev_cond(c.guard, env))):
            run(c.body, env)
            return


def match_pattern(p, v, env):
    if isinstance(p, ast.MatchValue):
        return S.decide(values_equal(v, ev(p.value, env)))
    if isinstance(p, ast.MatchSingleton):
        return S.decide(compare('is', v, p.value))
    if isinstance(p, ast.MatchOr):
        return any(match_pattern(q, v, env) for q in p.patterns)
    if isinstance(p, ast.MatchAs):
        if p.pattern is not None and not match_pattern(p.pattern, v, env):
            return False
        if p.name:
            store(env, p.name, v)
        return True
    raise Unsupported('match pattern')


STMT = {ast.Expr: ex_expr, ast.Assign: ex_assign, ast.AugAssign: ex_aug, ast.AnnAssign: ex_ann, ast.If: ex_if,
        ast.For: ex_for, ast.While: ex_while, ast.Return: ex_return, ast.Raise: ex_raise, ast.Try: ex_try,
        ast.With: ex_with, ast.Assert: ex_assert, ast.FunctionDef: ex_def, ast.Delete: ex_delete,
        ast.Import: ex_import, ast.ImportFrom: ex_import, ast.Break: _brk, ast.Continue: _cont,
        ast.Pass: lambda s, e: None, ast.Global: lambda s, e: None, ast.Nonlocal: lambda s, e: None,
        ast.Match: ex_match}


# ---- expressions -------------------------------------------------------------------------

def ev(n, env):
    m = EXPR.get(type(n))
    if m is None:
        raise Unsupported('expression %s' % type(n).__name__)
    return m(n, env)


def ev_index(n, env):
    if isinstance(n, ast.Slice):
        return slice(*[None if x is None else force(ev(x, env)) for x in (n.lower, n.upper, n.step)])
    return ev(n, env)


def speculate(thunk, guard):
    """Evaluate without forking and without lasting effects on pc; None-able via NeedFork."""
    S.solver.push()
    npc = len(S.pc)
    save_journal = S.journal
    S.journal = []
    fs = set(S.factset)
    memo = {k: list(v) for k, v in S.memo.items()}
    snap = S.snapshot()
    nheap = len(S.heap)
    qs = S.save_q()
    S.nofork += 1
    ok = False
    try:
        S.assume(guard)
        v = thunk()
        from . import loops
        if loops.changed(snap[0]) or S.over != snap[1]:
            raise NeedFork()
        ok = True
        return v
    except (PyExc, PathAbort, Unsupported):
        raise NeedFork()
    finally:
        S.nofork -= 1
        S.solver.pop()
        del S.pc[npc:], S.pcids[npc:]
        facts = S.journal
        S.journal = save_journal
        S.factset = fs
        S.memo = memo
        S.load_q(qs)
        if not ok:
            S.restore(snap)
            del S.heap[nheap:]
        for f in facts:
            S.fact(f)


PURE = (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Name, ast.Constant, ast.Attribute, ast.BinOp, ast.Call, ast.Subscript,
        ast.IfExp, ast.Tuple)


def ev_boolop(n, env):
    isand = isinstance(n.op, ast.And)
    vals = n.values
    v = ev(vals[0], env)
    for i, nxt in enumerate(vals[1:]):
        v = force(v)
        t = truth(v)
        if isinstance(t, bool):
            if t != isand:
                return v
            v = ev(nxt, env)
            continue
        # symbolic: combine boolean values without forking if possible
        if isinstance(v, SBool):
            rest = ast.BoolOp(op=n.op, values=vals[i + 1:]) if len(vals[i + 1:]) > 1 else vals[i + 1]
            try:
                w = speculate(lambda: force(ev(rest, env)), t if isand else z3.Not(t))
                if isinstance(w, (SBool, bool)):
                    wt = w.t if isinstance(w, SBool) else z3.BoolVal(w)
                    return mk_bool(z3.And(t, wt) if isand else z3.Or(t, wt))
            except NeedFork:
                pass
        if S.decide(t) != isand:
            if isinstance(v, SBool):
                return not isand
            return v
        v = ev(nxt, env)
    if isinstance(v, SBool):
        return v
    return v


def ev_cond(n, env):
    return ev(n, env)


def ev_ifexp(n, env):
    t = truth(ev_cond(n.test, env))
    if isinstance(t, bool):
        return ev(n.body if t else n.orelse, env)
    ts = z3.simplify(t)
    if z3.is_true(ts):
        return ev(n.body, env)
    if z3.is_false(ts):
        return ev(n.orelse, env)
    if simple(n.body) and simple(n.orelse):
        try:
            a = speculate(lambda: ev(n.body, env), ts)
            b = speculate(lambda: ev(n.orelse, env), z3.Not(ts))
            m = merge(ts, a, b)
            if not isinstance(m, VIte) and not lost_identity(m, a, b):
                return m
        except NeedFork:
            pass
    return ev(n.body if S.decide(ts) else n.orelse, env)


def lost_identity(m, a, b):
    """The merged value holds an object that is neither of the two."""
    if isinstance(m, PObj):
        return m is not a or m is not b
    if isinstance(m, tuple):
        return any(lost_identity(x, y, z) for x, y, z in zip(m, a, b))
    return isinstance(m, VIte)


def simple(n):
    return all(isinstance(x, (ast.Name, ast.Constant, ast.Attribute, ast.BinOp, ast.UnaryOp, ast.Subscript, ast.Load,
                              ast.operator, ast.unaryop, ast.Compare, ast.cmpop)) for x in ast.walk(n))


def ev_compare(n, env):
    left = ev(n.left, env)
    res = []
    for op, r in zip(n.ops, n.comparators):
        right = ev(r, env)
        c = compare(CMP[type(op)], left, right)
        if not isinstance(c, (bool, z3.ExprRef)):
            return c
        if isinstance(c, bool) and not c:
            return False
        res.append(c)
        left = right
    c = conj(res)
    return mk_bool(c) if not isinstance(c, bool) else c


def ev_unary(n, env):
    v = force(ev(n.operand, env))
    if isinstance(n.op, ast.Not):
        return mk_bool(zneg(truth(v))) if not isinstance(truth(v), bool) else not truth(v)
    if isinstance(n.op, ast.USub):
        if isinstance(v, SReal):
            return mk_real(-v.t, v.dec)
        if isinstance(v, (SInt, SBool, SBv)):
            return mk_int(-zi(int_term(v)))
        return native1(lambda: -v)
    if isinstance(n.op, ast.UAdd):
        return v if isinstance(v, (SInt, SReal)) else native1(lambda: +v)
    if isinstance(n.op, ast.Invert):
        if isinstance(v, (SInt, SBv, SBool)):
            return mk_int(-zi(int_term(v)) - 1)
        return native1(lambda: ~v)


def native1(f):
    try:
        return f()
    except Exception as e:
        raise PyExc(type(e), e.args, e)


def ev_call(n, env):
    # super()
    if isinstance(n.func, ast.Name) and n.func.id == 'super' and env.find('super') is None:
        return make_super(n, env)
    f = ev(n.func, env)
    args, kwargs = [], {}
    for a in n.args:
        if isinstance(a, ast.Starred):
            args += concrete_iter(ev(a.value, env), 'star argument')
        else:
            args.append(ev(a, env))
    for k in n.keywords:
        if k.arg is None:
            d = force(ev(k.value, env))
            if isinstance(d, PDict):
                for kk, vv in d.pairs:
                    kwargs[kk] = vv
            elif isinstance(d, dict):
                kwargs.update(d)
            else:
                raise Unsupported('** argument')
        else:
            kwargs[k.arg] = ev(k.value, env)
    return call(f, args, kwargs)


def make_super(n, env):
    e = env
    while e is not None and not (getattr(e, 'fn', None) and isinstance(e.fn.node, ast.FunctionDef) and e.fn.node.args.args):
        e = e.parent
    if n.args:
        return SuperProxy(force(ev(n.args[0], env)), force(ev(n.args[1], env)))
    if e is None:
        raise Unsupported('super()')
    fn = e.fn
    obj = e.vars[fn.node.args.args[0].arg]
    cls = None
    q = fn.native.__qualname__.rsplit('.', 1)[0] if fn.native else None
    start = obj.cls if isinstance(obj, PObj) else obj
    for c in start.__mro__:
        for v in c.__dict__.values():
            g = getattr(v, '__func__', v)
            if g is fn.native:
                cls = c
    if cls is None:
        raise Unsupported('super()')
    return SuperProxy(cls, obj)


def ev_list(n, env, kind='list'):
    items = []
    segs = []
    for e in n.elts:
        if isinstance(e, ast.Starred):
            v = force(ev(e.value, env))
            if isinstance(v, PList) and not v.concrete:
                segs += [LitSeg(items)] + copy_segs(v)
                items = []
            else:
                items += concrete_iter(v, 'star item')
        else:
            items.append(ev(e, env))
    if segs:
        return PList(segs=segs + ([LitSeg(items)] if items else []), kind=kind)
    return items


def ev_comp(n, env):
    return comp(n.generators, n.elt, env, 'list')


def comp(gens, elt, env, kind):
    from . import loops
    sub = Env(env, env.glob)
    out = PList([])
    first = iterate(ev(gens[0].iter, env))
    if len(gens) == 1 and isinstance(first, SymIter) and not isinstance(norm(zi(first.n)), int):
        parts = None if gens[0].ifs else loops.fission(first)
        if not parts:
            return loops.sym_comp(gens[0], elt, sub, first)
        for p in parts:
            if isinstance(p, SymIter):
                got = loops.sym_comp(gens[0], elt, sub, p)
                out.segs.extend(got.segs)
            else:
                for x in p:
                    assign(gens[0].target, x, sub)
                    got = ev(elt, sub)
                    out.segs.append(LitSeg([got]))
        return out

    def go(i):
        it = first if i == 0 else iterate(ev(gens[i].iter, sub))
        if isinstance(it, SymIter):
            it = concrete_iter(it, 'comprehension')
        for x in it:
            assign(gens[i].target, x, sub)
            if all(test(ev_cond(c, sub)) for c in gens[i].ifs):
                if i + 1 < len(gens):
                    go(i + 1)
                else:
                    got = ev(elt, sub)
                    out.segs.append(LitSeg([got]))
    go(0)
    out.set_items(out.items)
    return out


def ev_dictcomp(n, env):
    pairs = comp(n.generators, ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), env, 'list')
    d = PDict()
    for kv in pairs.items:
        setitem(d, kv[0], kv[1])
    return d


def ev_setcomp(n, env):
    l = comp(n.generators, n.elt, env, 'list')
    return mk_set(l.items)


def mk_set(items):
    s = PSet()
    for x in items:
        if not S.decide(disj([values_equal(x, y) for y in s.items])):
            s.items.append(x)
    return s


def ev_dict(n, env):
    d = PDict()
    for k, v in zip(n.keys, n.values):
        if k is None:
            m = force(ev(v, env))
            for kk, vv in (m.pairs if isinstance(m, PDict) else m.items()):
                setitem(d, kk, vv)
        else:
            setitem(d, ev(k, env), ev(v, env))
    return d


def ev_joined(n, env):
    from . import models
    parts = []
    for v in n.values:
        if isinstance(v, ast.Constant):
            parts.append(v.value)
        else:
            x = ev(v.value, env)
            spec = ev(v.format_spec, env) if v.format_spec is not None else ''
            conv = {115: 's', 114: 'r', 97: 'a'}.get(v.conversion)
            parts.append(models.format_value(x, conv, spec))
    return models.concat_str(parts)


def percent_format(fmt, args):
    from . import models
    args = args if isinstance(args, tuple) else (args,)
    out, i, j = [], 0, 0
    while i < len(fmt):
        if fmt[i] == '%' and i + 1 < len(fmt):
            c = fmt[i + 1]
            if c == '%':
                out.append('%')
            elif c in 'sdr':
                out.append(models.format_value(args[j], 'r' if c == 'r' else None, ''))
                j += 1
            else:
                raise Unsupported('% format')
            i += 2
        else:
            out.append(fmt[i])
            i += 1
    return models.concat_str(out)


def ev_yield(n, env):
    e = env
    while e is not None and getattr(e, 'yields', None) is None:
        e = e.parent
    v = ev(n.value, env) if n.value is not None else None
    if isinstance(n, ast.YieldFrom):
        from . import models
        models.method(e.yields, 'extend', [v], {})
    else:
        e.yields.segs.append(LitSeg([v]))
    return None


def ev_walrus(n, env):
    v = ev(n.value, env)
    e = env
    while e.parent is not None and not hasattr(e, 'fn'):
        e = e.parent
    store(e, n.target.id, v)
    return v


def ev_attr(n, env):
    return getattr_(ev(n.value, env), n.attr)


EXPR = {
    ast.Constant: lambda n, e: n.value,
    ast.Name: lambda n, e: lookup(e, n.id),
    ast.BinOp: lambda n, e: binop(BIN[type(n.op)], ev(n.left, e), ev(n.right, e)),
    ast.BoolOp: ev_boolop, ast.Compare: ev_compare, ast.UnaryOp: ev_unary, ast.IfExp: ev_ifexp,
    ast.Call: ev_call, ast.Attribute: ev_attr,
    ast.Subscript: lambda n, e: getitem(ev(n.value, e), ev_index(n.slice, e)),
    ast.Tuple: lambda n, e: (lambda r: tuple(r) if isinstance(r, list) else r)(ev_list(n, e, 'tuple')),
    ast.List: lambda n, e: (lambda r: PList(r) if isinstance(r, list) else r)(ev_list(n, e)),
    ast.Set: lambda n, e: mk_set([ev(x, e) for x in n.elts]),
    ast.Dict: ev_dict, ast.ListComp: ev_comp, ast.GeneratorExp: ev_comp, ast.DictComp: ev_dictcomp,
    ast.SetComp: ev_setcomp, ast.Lambda: lambda n, e: make_func(n, e, '<lambda>'),
    ast.JoinedStr: ev_joined, ast.Yield: ev_yield, ast.YieldFrom: ev_yield, ast.NamedExpr: ev_walrus,
    ast.Starred: lambda n, e: ev(n.value, e),
}
