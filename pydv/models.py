"""Models of builtins and of the standard-library functions the verified code uses."""
import builtins
import collections
import decimal
import functools
import hashlib
import time
import itertools
import math
import types
import z3
import binascii
import logging
import random
import re
import json
import operator

from .core import *
from .ropes import *
from . import ropes
from . import interp as I
from .interp import (MODELS, force, raise_py, is_int, is_num, int_term, real_term, truth, call, pytype, iterate,
                     concrete_iter, deep_concrete, to_native, from_native, SymIter, SRange, PFunc, Bound,
                     BuiltinMethod, index_term, values_equal, mk_real)

f_dec = z3.Function('decimal_text', z3.IntSort(), B)
f_realtext = z3.Function('real_text', z3.RealSort(), B)
f_realplain = z3.Function('real_plain_text', z3.RealSort(), B)
f_optext = z3.Function('text_of', V, B)
f_bl = z3.Function('bytelen', z3.IntSort(), z3.IntSort())      # bytes needed for |v|
f_bits = z3.Function('bitlen', z3.IntSort(), z3.IntSort())
f_sha = z3.Function('sha256', B, B)
f_rip = z3.Function('ripemd160', B, B)
f_parse = z3.Function('parse_int', B, z3.IntSort())
f_isint = z3.Function('is_int_text', B, z3.BoolSort())
f_utf8 = z3.Function('utf8', B, B)
f_low = z3.Function('lower', B, B)
f_up = z3.Function('upper', B, B)


def model(*fs):
    def deco(g):
        for f in fs:
            MODELS[f] = g
        return g
    return deco


def native(f, *args, **kw):
    return I.native_call(f, args, kw)


class Iterator(Heap):
    """An eager iterator over a concrete list of items."""

    def __init__(self, items):
        super().__init__()
        self.items, self.pos = items, 0

    def snap(self):
        return self.pos

    def unsnap(self, s):
        self.pos = s


class HashObj(Heap):
    def __init__(self, name, data):
        super().__init__()
        self.name, self.data = name, data

    def snap(self):
        return self.data

    def unsnap(self, s):
        self.data = s


# ---- integers ------------------------------------------------------------------------

def byte_len_facts(v, n):
    """n = number of bytes of v >= 0 (0 for 0): defining facts."""
    S.fact(n >= 0)
    S.fact((n == 0) == (v == 0))
    for j in (1, 2, 3, 4, 5, 8, 9, 16, 32, 33):
        S.fact((n <= j) == (v < 256 ** j))
    rep = S.reps.get(v.get_id()) if not isinstance(v, int) else None
    if rep is not None:
        r, ln = rep
        S.fact(n <= zi(ln))
        from . import loops
        if isinstance(r, Rope) and len(r.segs) == 1 and isinstance(r.segs[0], Sl) and not r.segs[0].rev:
            sl = r.segs[0]
            off = norm(zi(ln) - n)
            S.fact(z3.Implies(n > 0, at_term(sl.a, norm(zi(sl.lo) + zi(off))) > 0))
            k = loops.new_k()
            loops.forall(k, 0, off, f_at(sl.a.t, zi(sl.lo) + k) == 0)
            loops.note_index(off)


def byte_len(v):
    if isinstance(v, int):
        return (v.bit_length() + 7) // 8
    c = norm(v)
    if isinstance(c, int):
        return z3.IntVal((c.bit_length() + 7) // 8)
    n = f_bl(v)
    key = ('bl', v.get_id())
    if key not in S.extra:
        S.extra[key] = True
        byte_len_facts(v, n)
    return n


class BitLen(SInt):
    """bit_length of v; (x + 7) // 8 of it is the byte length."""
    __slots__ = ('v',)


def bit_length(v):
    if isinstance(v, int):
        return v.bit_length()
    if isinstance(v, SBv):
        v = SInt(int_term(v))
    if not S.provable(v.t >= 0):
        if S.decide(v.t < 0):
            v = mk_int(-v.t)
    t = f_bits(v.t)
    n = byte_len(v.t)
    # the two lengths are linked by ceiling division
    S.fact(z3.And(t >= 0, 8 * n >= t, 8 * n < t + 8))
    S.fact((t == 0) == (v.t == 0))
    for j in (1, 2, 3, 4, 5, 6, 7, 15, 16, 31, 32, 63, 64, 255, 256):
        S.fact((t <= j) == (v.t < 2 ** j))
    return SInt(t)


def to_bytes(v, n, order, signed=False):
    if force(signed) is not False:
        raise Unsupported('signed to_bytes')
    order = force(order)
    if not isinstance(order, str) or order not in ('big', 'little'):
        if isinstance(order, str):
            raise_py(ValueError, 'byteorder')
        raise_py(TypeError, 'byteorder')
    n = index_term(n)
    if not isinstance(n, int):
        n2 = pin(n, 0, 40)
        n = n2 if n2 is not None else n
    t = zi(int_term(v))
    if isinstance(v, SBv) and isinstance(n, int):
        w = v.w
        if w <= 8 * n:
            full = I.bv_of(v, 8 * n)
            els = [z3.simplify(z3.Extract(8 * n - 1 - 8 * j, 8 * n - 8 - 8 * j, full)) for j in range(n)]
            els = [e.as_long() if z3.is_bv_value(e) else e for e in els]
            if order == 'little':
                els = els[::-1]
            return mk('bytes', [Els(els)])
    t = norm(t)
    if isinstance(t, int) and isinstance(n, int):
        try:
            return t.to_bytes(n, order)
        except OverflowError as e:
            raise PyExc(OverflowError, e.args, e)
    if isinstance(n, int):
        if n < 0:
            raise_py(ValueError, 'length argument must be non-negative')
        if S.decide(z3.Or(zi(t) < 0, zi(t) >= 256 ** n)):
            raise_py(OverflowError, 'int too big to convert')
        return mk('bytes', [IB(zi(t), n, order)])
    if S.decide(n < 0):
        raise_py(ValueError, 'length argument must be non-negative')
    if S.decide(zi(t) < 0):
        raise_py(OverflowError, "can't convert negative int to unsigned")
    bl = byte_len(t) if not isinstance(t, int) else (t.bit_length() + 7) // 8
    if not same(bl, n) and S.provable(zi(bl) == n):
        n = bl
        if isinstance(n, int):
            return to_bytes(v, n, order)
    if S.decide(zi(bl) > n):
        raise_py(OverflowError, 'int too big to convert')
    # v in a symbolic number n >= bytelen(v) of bytes
    rep = S.reps.get(t.get_id()) if not isinstance(t, int) else None
    if rep is not None:
        r, ln = rep
        if S.decide(zi(ln) >= n):
            out = rope_slice(r, norm(zi(ln) - n), None)
        else:
            out = mk('bytes', [Rp(b'\0', norm(n - zi(ln)))] + list(segs_of(r)))
    else:
        m = f_ib(zi(t), n)
        out = mk('bytes', [Sl(Atom(m, n, 'bytes'), 0, n)])
        x = f_be(m)
        S.fact(z3.Implies(n >= zi(bl), x == zi(t)))
        e = at_term(out.segs[0].a, 0)
        S.fact(z3.Implies(z3.And(n == zi(bl), n > 0), e > 0))
    return out if order == 'big' else rope_rev(out)


def pin(t, lo, hi):
    """The concrete value of t when the path condition fixes it."""
    S.solver.set('timeout', S.quick_ms)
    if str(S.solver.check()) != 'sat':
        return None
    m = S.solver.model()
    v = m.eval(t, model_completion=True)
    if not z3.is_int_value(v):
        return None
    v = v.as_long()
    if lo <= v <= hi and S.provable(t == v):
        return v
    return None


def from_bytes(b, order='big', signed=False):
    b = force(b)
    if isinstance(b, PList) and b.concrete:
        b = bytes_of(b)
    if isinstance(b, (bytes, bytearray)):
        return native(int.from_bytes, bytes(b), order)
    if not isinstance(b, Rope) or b.kind != 'bytes':
        raise_py(TypeError, 'cannot convert to bytes')
    if force(signed) is not False:
        raise Unsupported('signed from_bytes')
    order = force(order)
    if order not in ('big', 'little'):
        raise_py(ValueError, 'byteorder')
    if all(isinstance(s, Els) and all(isinstance(e, int) or z3.is_bv(e) for e in s.e) or isinstance(s, Lit) for s in b.segs) \
            and any(isinstance(s, Els) for s in b.segs):
        if order == 'little':
            b = rope_rev(b)
        es = []
        for s in b.segs:
            es += [z3.BitVecVal(x, 8) for x in s.d] if isinstance(s, Lit) else \
                [z3.BitVecVal(e, 8) if isinstance(e, int) else z3.ZeroExt(8 - e.size(), e) if e.size() < 8 else e for e in s.e]
        return I.mk_bv(z3.Concat(*es) if len(es) > 1 else es[0])
    r = rope_int(b if order == 'big' else rope_rev(b))
    return mk_int(zi(r)) if not isinstance(r, int) else r


@model(int.from_bytes)
def m_from_bytes(args, kw):
    names = ['bytes', 'byteorder']
    d = dict(zip(names, args))
    d.update(kw)
    return from_bytes(d['bytes'], d.get('byteorder', 'big'), d.get('signed', False))


@model(int.to_bytes)
def m_to_bytes(args, kw):
    return int_method(force(args[0]), 'to_bytes', args[1:], kw)


@model(int.bit_length)
def m_bitlen(args, kw):
    return bit_length(force(args[0]))


def int_method(o, name, args, kw):
    if name == 'to_bytes':
        d = dict(zip(('length', 'byteorder'), args))
        d.update(kw)
        return to_bytes(o, d.get('length', 1), d.get('byteorder', 'big'), d.get('signed', False))
    if name == 'bit_length':
        return bit_length(o)
    if name == 'from_bytes':
        return m_from_bytes(args, kw)
    if name == 'conjugate' or name == '__int__' or name == '__index__':
        return o
    raise Unsupported('int.%s' % name)


@model(int)
def m_int(args, kw):
    if not args:
        return 0
    x = force(args[0])
    base = force(args[1]) if len(args) > 1 else force(kw.get('base')) if 'base' in kw else None
    if deep_concrete(x) and not isinstance(x, PObj):
        if base is not None:
            return native(int, to_native(x), base)
        return native(int, to_native(x))
    if base is not None and isinstance(x, Rope) and x.kind == 'bytes':
        raise Unsupported('int of bytes')
    if isinstance(x, Rope) and x.kind == 'str':
        if base == 16:
            b = unhex(x, odd_ok=True)
            r = rope_int(b)
            return mk_int(zi(r)) if not isinstance(r, int) else r
        if base in (None, 10):
            if len(x.segs) == 1 and isinstance(x.segs[0], Sl):
                t = x.segs[0].a.t
                if t.decl().name() == 'decimal_text' and same(x.segs[0].lo, 0) and same(x.segs[0].hi, x.segs[0].a.n):
                    return mk_int(t.arg(0))
            rt = rope_term(x)
            if not S.decide(f_isint(rt)):
                raise_py(ValueError, 'invalid literal for int()')
            return mk_int(f_parse(rt))
        raise Unsupported('int with base')
    if isinstance(x, (SInt, SBv)):
        return x
    if isinstance(x, SBool):
        return mk_int(int_term(x))
    if isinstance(x, SReal):
        return mk_int(z3.If(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t)))
    if isinstance(x, PObj):
        for nm in ('__int__', '__index__'):
            if hasattr(x.cls, nm):
                return I.call_method(x, nm)
    if isinstance(x, Opaque):
        return opaque_int(x)
    raise_py(TypeError, 'int() argument')


f_opint = z3.Function('int_of', V, z3.IntSort())


def opaque_int(x):
    raise Unsupported('int of an opaque value')


@model(bool)
def m_bool(args, kw):
    if not args:
        return False
    t = truth(args[0])
    return mk_bool(t) if not isinstance(t, bool) else t


@model(float)
def m_float(args, kw):
    x = force(args[0]) if args else 0.0
    if isinstance(x, (SInt, SBool)):
        return SReal(real_term(x), False)
    if isinstance(x, SReal):
        return SReal(x.t, False)
    if deep_concrete(x):
        return native(float, x)
    raise Unsupported('float()')


@model(math.ceil)
def m_ceil(args, kw):
    x = force(args[0])
    if isinstance(x, SReal):
        return mk_int(-z3.ToInt(-x.t))
    if isinstance(x, (SInt, SBv, SBool)):
        return mk_int(int_term(x))
    return native(math.ceil, x)


@model(math.floor)
def m_floor(args, kw):
    x = force(args[0])
    if isinstance(x, SReal):
        return mk_int(z3.ToInt(x.t))
    if isinstance(x, (SInt, SBv, SBool)):
        return mk_int(int_term(x))
    return native(math.floor, x)


@model(abs)
def m_abs(args, kw):
    x = force(args[0])
    if isinstance(x, (SInt,)):
        return mk_int(z3.If(x.t >= 0, x.t, -x.t))
    if isinstance(x, SReal):
        return mk_real(z3.If(x.t >= 0, x.t, -x.t), x.dec)
    if isinstance(x, (SBv, SBool)):
        return x
    return native(abs, x)


@model(divmod)
def m_divmod(args, kw):
    a, b = args
    return (I.binop('//', a, b), I.binop('%', a, b))


@model(pow)
def m_pow(args, kw):
    a = [force(x) for x in args]
    if deep_concrete(a):
        return native(pow, *a)
    if len(a) == 3:
        f = z3.Function('modpow', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
        t = f(*[zi(int_term(x)) for x in a])
        if isinstance(a[2], int) and a[2] > 0:
            S.fact(z3.And(t >= 0, t < a[2]))
            if isinstance(a[1], int) and a[1] in (0, 1, 2, 3):
                e = z3.IntVal(1)
                for _ in range(a[1]):
                    e = e * zi(int_term(a[0]))
                return mk_int(e % a[2])
            # powers agree on congruent bases
            S.fact(f(zi(int_term(a[0])) % a[2], zi(int_term(a[1])), zi(a[2])) == t)
        return mk_int(t)
    return I.binop('**', a[0], a[1])


for _n, _op in (('add', '+'), ('sub', '-'), ('mul', '*'), ('floordiv', '//'), ('mod', '%'), ('truediv', '/'),
                ('and_', '&'), ('or_', '|'), ('xor', '^'), ('lshift', '<<'), ('rshift', '>>'), ('concat', '+')):
    MODELS[getattr(operator, _n)] = (lambda op: lambda a, kw: I.binop(op, a[0], a[1]))(_op)
for _n, _op in (('eq', '=='), ('ne', '!='), ('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>=')):
    MODELS[getattr(operator, _n)] = (lambda op: lambda a, kw: bool_v(I.compare(op, a[0], a[1])))(_op)
MODELS[operator.getitem] = lambda a, kw: I.getitem(a[0], a[1])


def bool_v(c):
    return c if isinstance(c, bool) else mk_bool(c)


@model(hex)
def m_hex(args, kw):
    x = force(args[0])
    if isinstance(x, int):
        return hex(x)
    if isinstance(x, (SInt, SBv)):
        t = zi(int_term(x))
        if S.decide(t < 0):
            raise Unsupported('hex of a negative number')
        f = z3.Function('hextext', z3.IntSort(), B)
        n = z3.Function('hexlen', z3.IntSort(), z3.IntSort())(t)
        S.fact(n >= 1)
        for j in (1, 2, 3, 4, 8, 16, 40, 64):
            S.fact((n <= j) == (t < 16 ** j))
        return cat('0x', mk('str', [Sl(Atom(f(t), n, 'str', ('hexint', t)), 0, n)]))
    raise_py(TypeError)


@model(chr)
def m_chr(args, kw):
    x = force(args[0])
    if isinstance(x, int):
        return native(chr, x)
    if isinstance(x, SBv) and x.w <= 20:
        return mk('str', [Els([x.t])])
    t = int_term(x)
    if S.decide(z3.Or(zi(t) < 0, zi(t) >= 0x110000)):
        raise_py(ValueError)
    return mk('str', [Els([t])])


@model(ord)
def m_ord(args, kw):
    x = force(args[0])
    n = rope_len(x)
    if isinstance(n, int) and n == 1 or S.provable(zi(n) == 1):
        e = rope_elem(x, 0)
        return e if isinstance(e, int) else SBv(e) if z3.is_bv(e) else mk_int(e)
    raise_py(TypeError)


@model(round)
def m_round(args, kw):
    a = [force(x) for x in args]
    if deep_concrete(a):
        return native(round, *a)
    if isinstance(a[0], (SInt, SBv)) and len(a) == 1:
        return a[0]
    if isinstance(a[0], SReal) and a[0].dec:
        if len(a) == 1:
            return mk_int(round_int(a[0].t, None))
        if isinstance(a[1], int):
            sc = z3.RealVal(10) ** a[1] if a[1] < 0 else z3.RealVal(10 ** a[1])
            return mk_real(z3.ToReal(round_int(a[0].t * sc, None)) / sc, True)
    raise Unsupported('round')


# ---- decimals --------------------------------------------------------------------------

def decimal_new(args, kw, cls):
    dec_context_ok()
    x = force(args[0]) if args else 0
    if isinstance(x, (SInt, SBv, SBool)):
        return SReal(real_term(x), True)
    if isinstance(x, SReal):
        return SReal(x.t, True)
    if isinstance(x, (int, decimal.Decimal)) and not isinstance(x, bool):
        return decimal.Decimal(x)
    if isinstance(x, (str, float)):
        try:
            return decimal.Decimal(str(x))
        except Exception as e:
            raise PyExc(type(e), e.args, e)
    if isinstance(x, Rope) and x.kind == 'str':
        if len(x.segs) == 1 and isinstance(x.segs[0], Sl):
            t = x.segs[0].a.t
            if t.decl().name() == 'decimal_text':
                return SReal(z3.ToReal(t.arg(0)), True)
            if t.decl().name() in ('real_text', 'real_plain_text'):
                return SReal(t.arg(0), True)
        raise Unsupported('Decimal of a symbolic string')
    if isinstance(x, tuple):
        return native(decimal.Decimal, x)
    if x is None:
        raise_py(decimal.InvalidOperation if cls is not decimal.Decimal else TypeError)
    raise Unsupported('Decimal of %r' % (x,))


@model(decimal.getcontext)
def m_getcontext(args, kw):
    c = S.extra.get('decimal_context')
    if c is None:
        c = S.extra['decimal_context'] = PObj(DecimalContext, {'prec': 28})
    return c


class DecimalContext:
    pass


def dec_context_ok():
    c = S.extra.get('decimal_context')
    if c is not None and not (isinstance(c.fields['prec'], int) and c.fields['prec'] >= 28):
        raise Unsupported('arithmetic under a changed decimal precision')


@model(time.time)
def m_time(args, kw):
    return SReal(S.fresh_real('now'), False)


@model(decimal.Decimal)
def m_decimal(args, kw):
    return decimal_new(args, kw, decimal.Decimal)


def round_int(y, mode):
    """Integer term: real y rounded as decimal does (default half-even)."""
    i = z3.ToInt(y)
    fr = y - z3.ToReal(i)
    half = z3.RealVal(1) / 2
    if mode == decimal.ROUND_FLOOR:
        return i
    if mode == decimal.ROUND_CEILING:
        return z3.If(fr > 0, i + 1, i)
    if mode == decimal.ROUND_DOWN:
        return z3.If(z3.And(y < 0, fr > 0), i + 1, i)
    if mode == decimal.ROUND_UP:
        return z3.If(z3.And(y > 0, fr > 0), i + 1, i)
    if mode == decimal.ROUND_HALF_UP:
        return z3.If(z3.Or(fr > half, z3.And(fr == half, y > 0)), i + 1, i)
    if mode == decimal.ROUND_HALF_DOWN:
        return z3.If(z3.Or(fr > half, z3.And(fr == half, y < 0)), i + 1, i)
    if mode is None or mode == decimal.ROUND_HALF_EVEN:
        return z3.If(z3.Or(fr > half, z3.And(fr == half, i % 2 == 1)), i + 1, i)
    raise Unsupported('rounding mode %r' % (mode,))


def real_method(o, name, args, kw):
    if name == 'to_integral_exact' or name == 'to_integral_value' or name == 'to_integral':
        rnd = force(args[0]) if args else force(kw.get('rounding')) if 'rounding' in kw else None
        return mk_real(z3.ToReal(round_int(o.t, rnd)), True)
    if name == 'quantize':
        exp = force(args[0])
        rnd = force(args[1]) if len(args) > 1 else force(kw.get('rounding')) if 'rounding' in kw else None
        if isinstance(exp, decimal.Decimal):
            scale = decimal.Decimal(1).scaleb(-exp.as_tuple().exponent)
            sc = real_term(scale)
            return mk_real(z3.ToReal(round_int(o.t * sc, rnd)) / sc, True)
    if name == 'normalize':
        return SReal(o.t, True, True)
    if name == 'is_integer':
        return mk_bool(z3.IsInt(o.t))
    if name == 'is_nan' or name == 'is_infinite':
        return False
    if name == 'is_finite':
        return True
    raise Unsupported('Decimal.%s' % name)


# ---- text ------------------------------------------------------------------------------

@model(str)
def m_str(args, kw):
    if not args:
        return ''
    x = force(args[0])
    if len(args) > 1 or kw:
        if isinstance(x, (bytes, Rope)) and kind_of(x) == 'bytes':
            return decode(x, force(args[1]) if len(args) > 1 else 'utf-8')
        raise Unsupported('str()')
    return to_text(x)


def to_text(x):
    x = force(x)
    if isinstance(x, (str,)):
        return x
    if isinstance(x, Rope) and x.kind == 'str':
        return x
    if isinstance(x, SBool):
        return 'True' if S.decide(x.t) else 'False'
    if isinstance(x, (SInt, SBv)):
        t = zi(int_term(x))
        r = atom('str', 'dec', t=f_dec(t))
        n = f_len(f_dec(t))
        S.fact(n >= 1)
        return r
    if isinstance(x, SReal):
        return atom('str', 'real', t=f_realtext(x.t))
    if isinstance(x, Opaque):
        return atom('str', 'text', t=f_optext(x.t))
    if isinstance(x, PObj):
        if I._has_user(x.cls, '__str__'):
            return I.call_method(x, '__str__')
        if I._has_user(x.cls, '__repr__'):
            return I.call_method(x, '__repr__')
        return opaque_text(x)
    if deep_concrete(x):
        return str(to_native(x))
    return opaque_text(x)


def real_text(t):
    """Plain notation of an exact decimal without trailing zeros: a function of its value, and of an integer its digits."""
    cs = '0123456789.' if S.provable(t >= 0) else '-0123456789.'
    r = atom('str', 'real', t=f_realplain(t), tag=('charset', cs))
    S.fact(f_len(f_realplain(t)) >= 1)
    whole = z3.ToInt(t)
    S.fact(z3.Implies(z3.IsInt(t), f_realplain(t) == f_dec(whole)))
    return r


def opaque_text(x):
    """Text whose content is not modelled (messages)."""
    return atom('str', 'txt')


@model(repr)
def m_repr(args, kw):
    x = force(args[0])
    if isinstance(x, PObj) and I._has_user(x.cls, '__repr__'):
        return I.call_method(x, '__repr__')
    if deep_concrete(x):
        return repr(to_native(x))
    if isinstance(x, (SInt, SBv)):
        return to_text(x)
    return opaque_text(x)


@model(format)
def m_format(args, kw):
    return format_value(args[0], None, args[1] if len(args) > 1 else '')


def format_value(x, conv, spec):
    x = force(x)
    spec = force(spec)
    if conv == 'r':
        return m_repr([x], {})
    if deep_concrete(x):
        try:
            return format(to_native(x), spec) if not isinstance(x, (PList, PDict, PSet)) else format(str(to_native(x)), spec)
        except Exception as e:
            raise PyExc(type(e), e.args, e)
    if spec in ('', 's', 'd'):
        return to_text(x)
    if spec == 'f' and isinstance(x, SReal) and x.dec:
        return real_text(x.t) if x.norm else opaque_text(x)
    if spec == 'x' and isinstance(x, (SInt, SBv)):
        return rope_slice(m_hex([x], {}), 2, None)
    m = re.fullmatch(r'0(\d+)x', spec)
    if m and isinstance(x, (SInt, SBv)) and int(m.group(1)) % 2 == 0:
        w = int(m.group(1)) // 2
        t = zi(int_term(x))
        if S.provable(z3.And(t >= 0, t < 256 ** w)):
            return hex_of(to_bytes(x, w, 'big'))
    if spec in (',',) or spec.startswith('.') or True:
        return opaque_text(x)


def concat_str(parts):
    out = ''
    for p in parts:
        out = cat(out, p)
    return out


def str_format(fmt, args, kw):
    if not isinstance(fmt, str):
        return opaque_text(fmt)
    import string
    out, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        name = field
        attrs = []
        m = re.match(r'^([^.\[]*)(.*)$', field)
        name, rest = m.group(1), m.group(2)
        if name == '':
            if auto >= len(args):
                raise_py(IndexError, 'Replacement index out of range')
            v = args[auto]
            auto += 1
        elif name.isdigit():
            v = args[int(name)]
        else:
            if name not in kw:
                raise_py(KeyError, name)
            v = kw[name]
        for a in re.findall(r'\.(\w+)', rest):
            v = I.getattr_(v, a)
        if '[' in rest or '{' in (spec or ''):
            return opaque_text(fmt)
        out.append(format_value(v, conv, spec or ''))
    return concat_str(out)


def hex_of(b):
    b = force(b)
    if isinstance(b, bytes):
        return b.hex()
    return mk('str', [Hx(b)])


def is_hex_digit(e):
    return z3.Or(z3.And(e >= 48, e <= 57), z3.And(e >= 97, e <= 102), z3.And(e >= 65, e <= 70))


def hex_val(e):
    return z3.If(e <= 57, e - 48, z3.If(e >= 97, e - 87, e - 55))


f_unhex = z3.Function('unhex', B, B)
f_hexok = z3.Function('is_hex', B, z3.BoolSort())


def unhex(s, odd_ok=False):
    """bytes.fromhex of a str rope (raises ValueError as a path)."""
    if isinstance(s, str):
        try:
            if odd_ok:
                return bytes.fromhex('0' * (len(s) % 2) + s) if s else I.raise_py(ValueError)
            return bytes.fromhex(s)
        except ValueError as e:
            raise PyExc(ValueError, e.args, e)
    segs = list(s.segs)
    if odd_ok and S.decide(zi(rope_len(s)) == 0):
        raise_py(ValueError, 'empty')
    out = []
    i = 0
    # a hexint atom: hex(v)[2:] (possibly after one '0' pad)
    lead = ''
    if segs and isinstance(segs[0], Lit) and set(segs[0].d) <= {'0'} and len(segs) > 1:
        lead, rest = segs[0].d, segs[1:]
    else:
        rest = segs
    if len(rest) == 1 and isinstance(rest[0], Sl) and rest[0].a.tag and rest[0].a.tag[0] == 'hexint' \
            and same(rest[0].lo, 0) and same(rest[0].hi, rest[0].a.n):
        v, n = rest[0].a.tag[1], norm(zi(rest[0].a.n) + len(lead))
        if odd_ok:
            m = norm((zi(n) + 1) / 2)
        else:
            if not S.decide(zi(n) % 2 == 0):
                raise_py(ValueError, 'non-hexadecimal number')
            m = norm(zi(n) / 2)
        # hexlen and bytelen agree
        S.fact(z3.Implies(v > 0, z3.And(2 * byte_len(v) >= zi(rest[0].a.n), 2 * byte_len(v) <= zi(rest[0].a.n) + 1)))
        return to_bytes(SInt(v), mk_int(zi(m)), 'big')
    total = rope_len(s)
    for g in segs:
        if isinstance(g, Hx):
            out += list(segs_of(g.r))
            continue
        n = seg_len(g)
        if isinstance(g, Lit):
            if n % 2:
                if odd_ok and not out:
                    out.append(Lit(bytes.fromhex('0' + g.d)))
                    continue
                raise Unsupported('hex text split inside a byte')
            try:
                out.append(Lit(bytes.fromhex(g.d)))
            except ValueError as e:
                raise PyExc(ValueError, e.args, e)
            continue
        if isinstance(g, Sl) and g.a.tag and g.a.tag[0] == 'hexof':
            # text known to be the hex of some bytes (any case)
            src = g.a.tag[1]
            if same(g.lo, 0) and same(g.hi, g.a.n):
                out += list(segs_of(src))
                continue
            lo, hi = g.lo, g.hi
            if S.provable(z3.And(zi(lo) % 2 == 0, zi(hi) % 2 == 0)):
                out += list(segs_of(rope_slice(src, norm(zi(lo) / 2), norm(zi(hi) / 2))))
                continue
        if isinstance(n, int) and n <= 80 and n % 2 == 0 and isinstance(g, (Els, Sl)):
            es = []
            for j in range(0, n, 2):
                a, b = as_int_term(seg_elem(g, j)), as_int_term(seg_elem(g, j + 1))
                if not S.decide(z3.And(is_hex_digit(a), is_hex_digit(b))):
                    raise_py(ValueError, 'non-hexadecimal number')
                es.append(z3.simplify(hex_val(a) * 16 + hex_val(b)))
            out.append(Els(es))
            continue
        if len(segs) == 1 and isinstance(g, Sl):
            # arbitrary text
            rt = rope_term(s)
            if not S.decide(f_hexok(rt)):
                raise_py(ValueError, 'non-hexadecimal number')
            if odd_ok:
                m = norm((zi(n) + 1) / 2)
            else:
                if not S.decide(zi(n) % 2 == 0):
                    raise_py(ValueError, 'non-hexadecimal number')
                m = norm(zi(n) / 2)
            return atom('bytes', 'unhex', n=m, t=f_unhex(rt))
        raise Unsupported('fromhex of %s' % seg_repr(g))
    return mk('bytes', out)


@model(bytes.fromhex)
def m_fromhex(args, kw):
    x = force(args[0])
    if not isinstance(x, (str, Rope)) or kind_of(x) != 'str':
        raise_py(TypeError, 'fromhex() argument must be str')
    if isinstance(x, str):
        return native(bytes.fromhex, x)
    return unhex(x)


@model(binascii.hexlify, binascii.b2a_hex)
def m_hexlify(args, kw):
    x = force(args[0])
    if not isinstance(x, (bytes, Rope)) or kind_of(x) != 'bytes':
        raise_py(TypeError, 'a bytes-like object is required')
    h = hex_of(x)
    return ascii_bytes(h)


@model(binascii.unhexlify, binascii.a2b_hex)
def m_unhexlify(args, kw):
    x = force(args[0])
    if kind_of(x) == 'bytes':
        x = decode(x, 'ascii')
    try:
        return unhex(x)
    except PyExc as e:
        if e.cls is ValueError:
            raise_py(binascii.Error)
        raise


class AsciiBytes:
    """bytes view of a known-ASCII text (hexlify before .decode())."""

    def __init__(self, s):
        self.s = s


def ascii_bytes(h):
    if isinstance(h, str):
        return h.encode()
    return AsciiBytes(h)


def decode(b, enc='utf-8', errors='strict'):
    if isinstance(b, AsciiBytes):
        return b.s
    if isinstance(b, bytes):
        try:
            return b.decode(enc, errors)
        except Exception as e:
            raise PyExc(type(e), e.args, e)
    if len(b.segs) == 1 and isinstance(b.segs[0], Sl) and b.segs[0].a.tag and b.segs[0].a.tag[0] == 'utf8of' \
            and same(b.segs[0].lo, 0) and same(b.segs[0].hi, b.segs[0].a.n):
        return b.segs[0].a.tag[1]
    raise Unsupported('decoding of symbolic bytes')


def encode(s, enc='utf-8', errors='strict'):
    if isinstance(s, str):
        try:
            return s.encode(enc, errors)
        except Exception as e:
            raise PyExc(type(e), e.args, e)
    if enc.lower().replace('-', '') not in ('utf8', 'ascii'):
        raise Unsupported('text encoding %s' % enc)
    if all(isinstance(g, Hx) for g in s.segs):
        return AsciiBytes(s)
    n = rope_len(s)
    t = f_utf8(rope_term(s))
    m = f_len(t)
    S.fact(m >= zi(n))
    S.fact(m <= 4 * zi(n))
    return mk('bytes', [Sl(Atom(t, m, 'bytes', ('utf8of', s)), 0, m)])


def case_map(s, up):
    if isinstance(s, str):
        return s.upper() if up else s.lower()
    out = []
    for g in s.segs:
        if isinstance(g, Lit):
            out.append(Lit(g.d.upper() if up else g.d.lower()))
        elif isinstance(g, Hx):
            if up:
                n = seg_len(g)
                f = z3.Function('upperhex', B, B)
                src = g.r
                out.append(Sl(Atom(f(rope_term(src)), n, 'str', ('hexof', src)), 0, n))
            else:
                out.append(g)
        elif isinstance(g, Sl) and g.a.tag == ('ascii',) and same(g.lo, 0) and same(g.hi, g.a.n) and not g.rev:
            # an ASCII text known by contract: one letter per letter
            out.append(Sl(Atom((f_up if up else f_low)(g.a.t), g.a.n, 'str', None), 0, g.a.n))
        elif isinstance(g, (Els, Sl)) and isinstance(seg_len(g), int) and seg_len(g) <= 128:
            es = []
            for j in range(seg_len(g)):
                e = seg_elem(g, j)
                if isinstance(e, int):
                    c = chr(e).upper() if up else chr(e).lower()
                    if len(c) != 1:
                        raise Unsupported('case mapping')
                    es.append(ord(c))
                elif z3.is_bv(e):
                    if e.size() > 7:
                        if not S.provable(z3.ULT(e, 128)):
                            raise Unsupported('case mapping of non-ASCII text')
                    if up:
                        es.append(z3.simplify(z3.If(z3.And(z3.UGE(e, 97), z3.ULE(e, 122)), e - 32, e)))
                    else:
                        es.append(z3.simplify(z3.If(z3.And(z3.UGE(e, 65), z3.ULE(e, 90)), e + 32, e)))
                else:
                    if not S.provable(e < 128):
                        raise Unsupported('case mapping of non-ASCII text')
                    if up:
                        es.append(z3.simplify(z3.If(z3.And(e >= 97, e <= 122), e - 32, e)))
                    else:
                        es.append(z3.simplify(z3.If(z3.And(e >= 65, e <= 90), e + 32, e)))
            out.append(Els(es))
        elif isinstance(g, Sl):
            f = f_up if up else f_low
            t = f(seg_term(g))
            n = f_len(t)
            S.fact(n >= 0)
            tag = None
            if g.a.tag and g.a.tag[0] == 'hexof':
                n = seg_len(g)
                tag = g.a.tag if same(g.lo, 0) and same(g.hi, g.a.n) else None
            if g.a.tag and g.a.tag[0] == 'hexint':
                n = seg_len(g)
                tag = g.a.tag if same(g.lo, 0) and same(g.hi, g.a.n) else None
            out.append(Sl(Atom(t, n, 'str', tag), 0, n))
            if tag is None:
                from . import loops
                m = seg_len(g)
                if loops.prove_forall(0, m, lambda j: z3.And(seg_elem(g, j) >= 0, seg_elem(g, j) < 128)):
                    # ASCII text: letter by letter (depends on the path condition)
                    S.assume(n == zi(m))
                    out[-1] = Sl(Atom(t, m, 'str', None), 0, m)
                    k = loops.new_k()
                    e = seg_elem(g, k)
                    c = z3.If(z3.And(e >= 97, e <= 122), e - 32, e) if up else z3.If(z3.And(e >= 65, e <= 90), e + 32, e)
                    loops.forall(k, 0, m, f_at(t, k) == c)
        elif isinstance(g, Jn):
            from . import loops
            k = loops.new_k()
            holder = []

            def one():
                S.assume(z3.And(zi(g.lo) <= k, k < zi(g.hi)))
                return case_map(loops.inst(g.body, k), up)
            save = S.save_q()
            try:
                rs = S.subexplore(one)
            finally:
                S.load_q(save)
            if len(rs) != 1:
                raise Unsupported('case mapping')
            out.append(Jn(g.lo, g.hi, Body(k, rs[0])))
        else:
            raise Unsupported('case mapping of %s' % seg_repr(g))
    return mk('str', out)


def zb_(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def elem_neq(a, b):
    return z3.Not(zb_(elem_eq(a, b)))


def rope_find(o, x, rev=False, single=True):
    """index of a one-element needle or -1 (python int or SInt)."""
    n = rope_len(o)
    if not (isinstance(x, (str, bytes)) and len(x) == 1 or isinstance(rope_len(x), int) and rope_len(x) == 1):
        raise Unsupported('substring search')
    e = rope_elem(x, 0)
    if isinstance(o, (str, bytes)) and not isinstance(e, int):
        vals = [ord(c) for c in o] if isinstance(o, str) else list(o)
        if z3.is_bv(e):
            # position as a bit vector: only meaningful when present
            if S.decide(I.disj([elem_eq(e, v) for v in vals])):
                w = I.bv_w(len(vals))
                t = z3.BitVecVal(0, w)
                order = range(len(vals)) if rev else range(len(vals) - 1, -1, -1)
                for j in order:
                    t = z3.If(elem_eq(e, vals[j]), z3.BitVecVal(j, w), t)
                return I.mk_bv(t)
            return -1
        t = z3.IntVal(-1)
        order = range(len(vals)) if rev else range(len(vals) - 1, -1, -1)
        for j in order:
            t = z3.If(elem_eq(e, vals[j]), z3.IntVal(j), t)
        return mk_int(t)
    if isinstance(n, int) and n <= 200:
        order = range(n - 1, -1, -1) if rev else range(n)
        for j in order:
            c = elem_eq(rope_elem(o, j), e)
            if S.decide(c if isinstance(c, bool) else c):
                return j
        return -1
    if isinstance(o, Rope) and isinstance(e, int):
        from . import loops
        # whole segments without the needle
        segs = list(o.segs)
        rest = list(reversed(segs)) if rev else list(segs)
        while rest:
            g = rest[0]
            if isinstance(g, Lit):
                j = g.d.rfind(x) if rev else g.d.find(x)
                if j < 0:
                    rest.pop(0)
                    continue
                before = rest[1:] if rev else segs[:len(segs) - len(rest)]
                return mk_int(sum([zi(seg_len(h)) for h in before], z3.IntVal(j)))
            if isinstance(g, (Els, Jn)) and loops.prove_forall(0, seg_len(g), lambda q: elem_neq(seg_elem(g, q), e)):
                rest.pop(0)
                continue
            break
        if not rest:
            return -1
        f = z3.Function('rfind' if rev else 'find', B, z3.IntSort(), z3.IntSort())
        p = f(rope_term(o), z3.IntVal(e))
        key = ('find', p.get_id(), rev)
        if key not in S.memo:
            S.memo[key] = [p]
            S.fact(z3.And(p >= -1, p < zi(n)))
            if not S.decide(p >= 0):
                k = loops.new_k()
                loops.forall(k, 0, n, elem_neq(rope_elem(o, k), e))
                return -1
            S.assume(zb_(elem_eq(rope_elem(o, p), e)))
            k = loops.new_k()
            c = elem_neq(rope_elem(o, k), e)
            if rev:
                loops.forall(k, p + 1, n, c)
            else:
                loops.forall(k, 0, p, c)
        elif not S.decide(p >= 0):
            return -1
        return mk_int(p)
    raise Unsupported('search in text of symbolic length')


def str_method(o, name, args, kw):
    kind = kind_of(o)
    args = [force(a) for a in args]
    if name == 'join':
        return join(o, args[0])
    if name == 'format' and kind == 'str':
        return str_format(o, args, kw)
    if name == 'hex' and kind == 'bytes':
        return hex_of(o)
    if name == 'fromhex':
        return m_fromhex(args, kw)
    if name == 'decode' and kind == 'bytes':
        return decode(o, *(args or [kw.get('encoding', 'utf-8')]))
    if name == 'encode' and kind == 'str':
        return encode(o, *(args or [kw.get('encoding', 'utf-8')]))
    if isinstance(o, (str, bytes)) and deep_concrete(args):
        return I.native_call(getattr(o, name), args, kw)
    if name in ('lower', 'upper') and kind == 'str':
        return case_map(o, name == 'upper')
    if name in ('find', 'rfind', 'index', 'rindex') and len(args) == 1:
        r = rope_find(o, args[0], name.startswith('r'))
        if 'index' in name:
            t = r if isinstance(r, int) else None
            if t == -1:
                raise_py(ValueError)
            if isinstance(r, SInt) and S.decide(r.t < 0):
                raise_py(ValueError)
        return r
    if name == 'startswith' or name == 'endswith':
        pre = args[0]
        if isinstance(pre, tuple):
            return bool_v(I.disj([truth(str_method(o, name, [p], {})) for p in pre]))
        n, m = rope_len(o), rope_len(pre)
        if not S.decide(zi(n) >= zi(m)) if not (isinstance(n, int) and isinstance(m, int)) else not n >= m:
            return False
        part = rope_slice(o, 0, m) if name == 'startswith' else rope_slice(o, norm(zi(n) - zi(m)), None)
        c = rope_eq(part, pre)
        return bool_v(c)
    if name == 'zfill' and isinstance(o, Rope) and isinstance(args[0], int):
        n = rope_len(o)
        w = args[0]
        if isinstance(n, int):
            return cat('0' * max(0, w - n), o)
        if S.decide(zi(n) >= w):
            return o
        return cat(mk('str', [Rp('0', norm(w - zi(n)))]), o)
    if name in ('rjust', 'ljust') and isinstance(args[0], int):
        n = rope_len(o)
        fill = args[1] if len(args) > 1 else (' ' if kind == 'str' else b' ')
        if isinstance(n, int):
            p = fill * max(0, args[0] - n)
        elif S.decide(zi(n) >= args[0]):
            return o
        else:
            p = mk(kind, [Rp(fill, norm(args[0] - zi(n)))])
        return cat(p, o) if name == 'rjust' else cat(o, p)
    if name in ('lstrip', 'rstrip') and args and isinstance(args[0], (str, bytes)) and len(args[0]) == 1:
        return strip(o, name, args[0])
    if name == 'count' and len(args) == 1 and isinstance(args[0], (str, bytes)) and len(args[0]) == 1:
        n = rope_len(o)
        if isinstance(n, int) and n <= 100:
            t = z3.IntVal(0)
            for j in range(n):
                c = elem_eq(rope_elem(o, j), ropes.rope_elem(args[0], 0))
                t = t + z3.If(zb(c), z3.IntVal(1), z3.IntVal(0))
            return mk_int(t)
    if name in ('isdigit', 'isalnum', 'isascii') and isinstance(o, Rope):
        if all(isinstance(g, Hx) for g in o.segs) and name != 'isdigit':
            return True
    if name == 'strip' and isinstance(o, Rope) and not args and all(isinstance(g, Hx) for g in o.segs):
        return o
    if name in ('partition', 'rpartition', 'split') and isinstance(o, Rope) and len(args) == 1 and isinstance(args[0], (str, bytes)) and len(args[0]) == 1:
        parts = cut_at(o, args[0])
        if name == 'split':
            return PList(parts)
        e = ropes.empty(kind)
        if len(parts) == 1:
            return (o, e, e) if name == 'partition' else (e, e, o)
        if name == 'partition':
            return (parts[0], args[0], join(args[0], PList(parts[1:])))
        return (join(args[0], PList(parts[:-1])), args[0], parts[-1])
    raise Unsupported('%s.%s on a symbolic string' % (kind, name))


def cut_at(o, sep):
    """The parts between the separators, when the symbolic pieces cannot contain one."""
    parts, cur = [], []
    for g in o.segs:
        if isinstance(g, Lit):
            ds = g.d.split(sep)
            for i, d in enumerate(ds):
                if i:
                    parts.append(mk(o.kind, cur))
                    cur = []
                if d:
                    cur.append(Lit(d))
            continue
        if isinstance(g, Hx) and o.kind == 'str' and sep not in '0123456789abcdef':
            cur.append(g)
            continue
        if isinstance(g, Sl) and (g.a.t.decl().eq(f_dec) and sep not in '-0123456789' or
                                  isinstance(g.a.tag, tuple) and g.a.tag[0] == 'charset' and sep not in g.a.tag[1]):
            cur.append(g)
            continue
        raise Unsupported('cutting a symbolic string at a separator')
    parts.append(mk(o.kind, cur))
    return parts


def strip(o, name, ch):
    """One-character strip: the number of stripped characters as a witness."""
    from . import loops
    n = rope_len(o)
    e = ropes.rope_elem(ch, 0)
    if isinstance(n, int) and n <= 64:
        idx = range(n) if name == 'lstrip' else range(n - 1, -1, -1)
        for c, j in enumerate(idx):
            if not S.decide(elem_eq(rope_elem(o, j), e)):
                return rope_slice(o, c, None) if name == 'lstrip' else rope_slice(o, 0, n - c)
        return empty(kind_of(o))
    w = S.fresh_int('strip')
    S.assume(z3.And(w >= 0, w <= zi(n)))
    k = loops.new_k()
    if len(o.segs) != 1 or not isinstance(o.segs[0], Sl) or o.segs[0].rev:
        raise Unsupported('strip of composed text')
    pos = (lambda j: j) if name == 'lstrip' else (lambda j: norm(zi(n) - 1 - zi(j)))
    sl = o.segs[0]
    loops.forall(k, 0, w, f_at(sl.a.t, zi(sl.lo) + zi(pos(k))) == e)
    if S.decide(w < zi(n)):
        S.assume(zi(rope_elem(o, norm(zi(pos(w))))) != e)
        loops.note_index(w)
        return rope_slice(o, w, None) if name == 'lstrip' else rope_slice(o, 0, norm(zi(n) - w))
    return empty(kind_of(o))


def join(sep, it):
    kind = kind_of(sep)
    it = force(it)
    if isinstance(it, Rope) and isinstance(sep, str) and sep == '' and it.kind == 'str':
        return it
    lst = it if isinstance(it, PList) else None
    if lst is not None and not lst.concrete:
        if not (isinstance(sep, (str, bytes)) and len(sep) == 0):
            raise Unsupported('join with a separator over a symbolic-length list')
        segs = []
        for s in lst.segs:
            if isinstance(s, LitSeg):
                for x in s.items:
                    x = force(x)
                    check_str(x, kind)
                    segs += list(segs_of(x))
            else:
                segs.append(join_family(s, kind))
        return mk(kind, segs)
    items = concrete_iter(it, 'join')
    out = empty(kind)
    for j, x in enumerate(items):
        x = force(x)
        check_str(x, kind)
        if j:
            out = cat(out, sep)
        out = cat(out, x)
    return out


def check_str(x, kind):
    if not isinstance(x, (str, bytes, Rope)) or kind_of(x) != kind:
        if isinstance(x, Opaque):
            raise Unsupported('join of opaque value')
        raise_py(TypeError, 'sequence item: expected %s instance' % kind)


def join_family(s, kind):
    from . import loops
    b = s.body
    v = loops.inst(b, b.k)
    if isinstance(v, VIte):
        raise Unsupported('join over conditional values')
    if not isinstance(v, (str, bytes, Rope)) or kind_of(v) != kind:
        raise_py(TypeError, 'sequence item')
    if isinstance(v, (str, bytes)) and len(v) == 1:
        return Rp(v, norm(zi(s.hi) - zi(s.lo)))
    if isinstance(v, Rope) and len(v.segs) == 1 and isinstance(v.segs[0], Sl) and not v.segs[0].rev:
        # consecutive slices of one string: the join is one slice
        sl = v.segs[0]
        at = lambda t, j: norm(loops.subst_t(t, b.k, j)) if not isinstance(t, int) else t
        if not loops.has_var(sl.a.t, b.k) and loops.prove_forall(
                s.lo, norm(zi(s.hi) - 1), lambda j: zi(at(sl.hi, j)) == zi(at(sl.lo, norm(j + 1)))) and loops.prove_forall(
                s.lo, s.hi, lambda j: z3.And(zi(at(sl.lo, j)) <= zi(at(sl.hi, j)), 0 <= zi(at(sl.lo, j)),
                                             zi(at(sl.hi, j)) <= zi(sl.a.n))):
            if S.decide(zi(s.lo) >= zi(s.hi)):
                return Lit(empty(kind))
            return Sl(sl.a, at(sl.lo, s.lo), at(sl.hi, norm(zi(s.hi) - 1)))
    return Jn(s.lo, s.hi, b)


@model(bytes)
def m_bytes(args, kw):
    if not args:
        return b''
    x = force(args[0])
    if len(args) > 1:
        return encode(x, force(args[1]))
    return bytes_of(x)


def bytes_of(x):
    if isinstance(x, bytes):
        return x
    if isinstance(x, Rope):
        if x.kind == 'bytes':
            return x
        raise_py(TypeError, 'string argument without an encoding')
    if isinstance(x, str):
        raise_py(TypeError, 'string argument without an encoding')
    if isinstance(x, PObj):
        if hasattr(x.cls, '__bytes__'):
            return I.call_method(x, '__bytes__')
        raise_py(TypeError, 'cannot convert to bytes')
    if x is None:
        raise_py(TypeError, "cannot convert 'NoneType' object to bytes")
    if is_int(x):
        t = norm(zi(int_term(x)))
        if isinstance(t, int):
            return native(bytes, t)
        if S.decide(t < 0):
            raise_py(ValueError, 'negative count')
        return mk('bytes', [Rp(b'\0', t)])
    it = iterate(x)
    if isinstance(it, SymIter):
        if isinstance(x, PList):
            segs = []
            for s in x.segs:
                if isinstance(s, LitSeg):
                    segs += list(segs_of(bytes_of(PList(s.items))))
                else:
                    from . import loops
                    b = s.body
                    v = loops.inst(b, b.k)
                    if not isinstance(v, (SInt, SBv, int)):
                        raise Unsupported('bytes of a symbolic list')
                    if not loops.prove_forall(s.lo, s.hi, lambda j: byte_range(loops.inst(b, j))):
                        raise Unsupported('bytes of a symbolic list with possibly invalid items')
                    segs.append(Jn(s.lo, s.hi, Body(b.k, mk('bytes', [Els([elem_of(v)])]), b.facts)))
            return mk('bytes', segs)
        raise Unsupported('bytes of a symbolic-length iterable')
    es = []
    for v in it:
        v = force(v)
        if not is_int(v):
            raise_py(TypeError, 'cannot be interpreted as an integer')
        if not S.decide(byte_range(v)):
            raise_py(ValueError, 'bytes must be in range(0, 256)')
        es.append(elem_of(v))
    return mk('bytes', [Els(es)])


def byte_range(v):
    if isinstance(v, int):
        return 0 <= v < 256
    if isinstance(v, SBv):
        return True if v.w <= 8 else z3.ULT(v.t, 256)
    t = zi(int_term(v))
    return z3.And(t >= 0, t < 256)


def elem_of(v):
    if isinstance(v, int):
        return int(v)
    if isinstance(v, SBv):
        return v.t if v.w <= 8 else z3.simplify(z3.Extract(7, 0, v.t))
    return zi(int_term(v))


MODELS[bytearray] = lambda a, kw: (_ for _ in ()).throw(Unsupported('bytearray'))


# ---- containers ---------------------------------------------------------------------------

@model(len)
def m_len(args, kw):
    x = force(args[0])
    if isinstance(x, AsciiBytes):
        x = x.s
    if isinstance(x, (Rope, bytes, str)):
        n = rope_len(x)
        return mk_int(zi(n)) if not isinstance(n, int) else n
    if isinstance(x, PList):
        n = x.length()
        return mk_int(zi(n)) if not isinstance(n, int) else n
    if isinstance(x, PDict):
        return len(x.pairs)
    if isinstance(x, PSet):
        return len(x.items)
    if isinstance(x, SymIter):
        raise_py(TypeError, 'object has no len()')
    if isinstance(x, SRange):
        raise Unsupported('len of a range')
    if isinstance(x, PObj):
        if hasattr(x.cls, '__len__'):
            return I.call_method(x, '__len__')
        raise_py(TypeError, 'object has no len()')
    if isinstance(x, Opaque):
        raise Unsupported('len of an opaque value')
    if I.is_sym(x):
        raise_py(TypeError, 'object has no len()')
    return native(len, x)


@model(range)
def m_range(args, kw):
    a = [index_term(x) for x in args]
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    if all(isinstance(x, int) for x in (lo, hi, st)):
        return range(lo, hi, st)
    if not isinstance(st, int):
        raise Unsupported('range with a symbolic step')
    return SRange(lo, hi, st)


def as_plist(x, kind='list'):
    x = force(x)
    if isinstance(x, PList):
        return PList(segs=I.copy_segs(x), kind=kind)
    if isinstance(x, Iterator):
        items = x.items[x.pos:]
        x.pos = len(x.items)
        return PList(items, kind=kind)
    it = iterate(x)
    if isinstance(it, SymIter):
        from . import loops
        n = norm(zi(it.n))
        if isinstance(n, int):
            return PList([it.item(j) for j in range(n)], kind=kind)
        k = loops.new_k()
        return PList(segs=[MapSeg(0, n, Body(k, None, maker=lambda j: it.item(j)))], kind=kind)
    return PList(list(it), kind=kind)


@model(list)
def m_list(args, kw):
    return as_plist(args[0]) if args else PList([])


@model(tuple)
def m_tuple(args, kw):
    if not args:
        return ()
    l = as_plist(args[0])
    if l.concrete:
        return tuple(l.items)
    return PList(segs=l.segs, kind='tuple')


@model(collections.deque)
def m_deque(args, kw):
    if len(args) > 1 or kw:
        raise Unsupported('bounded deque')
    return as_plist(args[0], 'deque') if args else PList([], kind='deque')


@model(dict, collections.OrderedDict)
def m_dict(args, kw):
    d = PDict()
    if args:
        x = force(args[0])
        if isinstance(x, (PDict,)):
            d.pairs = [list(p) for p in x.pairs]
        elif isinstance(x, dict):
            d.pairs = [[k, from_native(v)] for k, v in x.items()]
        else:
            for p in concrete_iter(x, 'dict()'):
                a, b = concrete_iter(p, 'dict()')
                I.setitem(d, a, b)
    for k, v in kw.items():
        I.setitem(d, k, v)
    return d


@model(set, frozenset)
def m_set(args, kw):
    return I.mk_set(concrete_iter(args[0], 'set()')) if args else PSet()


@model(enumerate)
def m_enumerate(args, kw):
    start = force(args[1]) if len(args) > 1 else force(kw.get('start', 0))
    it = iterate(args[0])
    if isinstance(it, SymIter):
        return SymIter(it.n, lambda k: (mk_int(zi(k) + zi(int_term(start))), it.item(k)), src=it.src)
    return PList([(I.binop('+', start, j), x) for j, x in enumerate(it)])


@model(zip)
def m_zip(args, kw):
    its = [iterate(a) for a in args]
    if any(isinstance(i, SymIter) for i in its):
        def ln(i):
            return zi(i.n) if isinstance(i, SymIter) else z3.IntVal(len(i))
        n = ln(its[0])
        for i in its[1:]:
            m = ln(i)
            if S.provable(n <= m):
                continue
            if S.provable(m <= n):
                n = m
                continue
            n = z3.If(n <= m, n, m)
        n = norm(n)
        if isinstance(n, int):
            return PList([tuple(i.item(j) if isinstance(i, SymIter) else i[j] for i in its) for j in range(n)])

        def item(k):
            return tuple(i.item(k) if isinstance(i, SymIter) else I.getitem(PList(i), mk_int(zi(k))) for i in its)
        return SymIter(n, item)
    return PList([tuple(t) for t in zip(*its)])


@model(map)
def m_map(args, kw):
    f = args[0]
    its = [iterate(a) for a in args[1:]]
    if len(its) == 1 and isinstance(its[0], SymIter):
        import ast
        from . import loops
        it = its[0]
        sub = I.Env(None, {})
        sub.vars['__f'] = f
        gen = ast.comprehension(target=ast.Name(id='__x', ctx=ast.Store()), iter=None, ifs=[], is_async=0)
        elt = ast.Call(func=ast.Name(id='__f', ctx=ast.Load()), args=[ast.Name(id='__x', ctx=ast.Load())], keywords=[])
        n = norm(zi(it.n))
        if isinstance(n, int):
            return PList([call(f, [it.item(j)], {}) for j in range(n)])
        return loops.sym_comp(gen, elt, sub, it)
    its = [concrete_iter(i) for i in its]
    return PList([call(f, list(t), {}) for t in zip(*its)])


@model(filter)
def m_filter(args, kw):
    f = force(args[0])
    out = []
    for x in concrete_iter(args[1], 'filter'):
        if I.test(x if f is None else call(f, [x], {})):
            out.append(x)
    return PList(out)


@model(itertools.islice)
def m_islice(args, kw):
    src = force(args[0])
    a = [None if force(x) is None else index_term(x) for x in args[1:]]
    if len(a) == 1:
        lo, hi, st = 0, a[0], None
    else:
        lo, hi, st = (a + [None])[:3]
        lo = 0 if lo is None else lo
    l = as_plist(src)
    for x in (lo, hi):
        if x is not None and not isinstance(x, int) and S.decide(x < 0) or isinstance(x, int) and x < 0:
            raise_py(ValueError, 'islice indices must be non-negative')
    if st not in (None, 1):
        if l.concrete and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
            return PList(l.items[lo:hi:st])
        raise Unsupported('islice step')
    return I.list_slice(l, lo, hi, None)


@model(itertools.chain)
def m_chain(args, kw):
    out = PList([])
    for a in args:
        out.segs += as_plist(a).segs
    return out


MODELS[itertools.chain.from_iterable] = lambda a, kw: m_chain(concrete_iter(a[0]), {})


@model(itertools.takewhile)
def m_takewhile(args, kw):
    out = []
    for x in concrete_iter(args[1], 'takewhile'):
        if not I.test(call(args[0], [x], {})):
            break
        out.append(x)
    return PList(out)


@model(itertools.accumulate)
def m_accumulate(args, kw):
    out, acc = [], None
    for j, x in enumerate(concrete_iter(args[0], 'accumulate')):
        acc = x if j == 0 else (call(args[1], [acc, x], {}) if len(args) > 1 else I.binop('+', acc, x))
        out.append(acc)
    return PList(out)


@model(itertools.repeat)
def m_repeat(args, kw):
    if len(args) == 2:
        return I.repeat(PList([args[0]]), args[1])
    raise Unsupported('repeat()')


@model(functools.reduce)
def m_reduce(args, kw):
    it = iterate(args[1])
    if isinstance(it, SymIter):
        import ast
        from . import loops
        env = I.Env(None, {})
        if len(args) < 3:
            raise Unsupported('reduce without an initial value')
        env.vars.update({'__f': args[0], '__acc': args[2], '__x': I.UNBOUND})
        body = ast.parse('__acc = __f(__acc, __x)').body
        node = ast.For(target=ast.Name(id='__x', ctx=ast.Store()), iter=None, body=body, orelse=[])
        I.for_over(node, env, it)
        return env.vars['__acc']
    items = list(it)
    if len(args) > 2:
        acc = args[2]
    else:
        if not items:
            raise_py(TypeError, 'reduce() of empty sequence')
        acc = items.pop(0)
    for x in items:
        acc = call(args[0], [acc, x], {})
    return acc


@model(sum)
def m_sum(args, kw):
    start = args[1] if len(args) > 1 else kw.get('start', 0)
    x = force(args[0])
    it = iterate(x)
    if isinstance(it, SymIter):
        from . import loops
        if isinstance(x, PList):
            acc = start
            for s in x.segs:
                if isinstance(s, LitSeg):
                    for v in s.items:
                        acc = I.binop('+', acc, v)
                else:
                    acc = I.binop('+', acc, sum_seg(s))
            return acc
        l = as_plist(x)
        return m_sum([l, start], {})
    acc = start
    for v in it:
        acc = I.binop('+', acc, v)
    return acc


def sum_seg(s):
    from . import loops
    b = s.body
    v = loops.inst(b, b.k)
    if isinstance(v, (SReal, float, decimal.Decimal)):
        dec = isinstance(v, decimal.Decimal) or isinstance(v, SReal) and v.dec
        t = loops.sum_term(s.lo, s.hi, b, lambda y: real_term(y), 'rsum')
        return mk_real(t, dec) if not isinstance(t, int) else t
    if not is_int(v):
        raise Unsupported('sum over a family of %r' % (v,))
    t = loops.sum_term(s.lo, s.hi, b, lambda y: zi(int_term(y)), 'isum')
    return mk_int(zi(t)) if not isinstance(t, int) else t


@model(any)
def m_any(args, kw):
    return quant(args[0], False)


@model(all)
def m_all(args, kw):
    return quant(args[0], True)


def quant(x, isall):
    from . import loops
    x = force(x)
    if isinstance(x, SymIter):
        x = as_plist(x)
    if isinstance(x, PList) and not x.concrete:
        cs = []
        for s in x.segs:
            if isinstance(s, LitSeg):
                for v in s.items:
                    t = truth(v)
                    cs.append(I.zneg(t) if isall else t)
            else:
                b = s.body

                def pred(j, b=b):
                    t = truth(loops.inst(b, j))
                    return I.zneg(t) if isall else t
                cs.append(loops.exists_in(s.lo, s.hi, pred))
        c = I.disj(cs)
        c = I.zneg(c) if isall else c
        return bool_v(c)
    cs = []
    for v in concrete_iter(x, 'any/all'):
        t = truth(v)
        t = I.zneg(t) if isall else t
        if isinstance(t, bool) and t:
            return not isall if not cs else bool_v(I.zneg(I.disj(cs + [t])) if isall else I.disj(cs + [t]))
        cs.append(t)
    c = I.disj(cs)
    return bool_v(I.zneg(c) if isall else c)


def minmax(args, kw, less):
    key = kw.get('key')
    items = concrete_iter(args[0], 'min/max') if len(args) == 1 else list(args)
    if not items:
        if 'default' in kw:
            return kw['default']
        raise_py(ValueError, 'min/max of empty sequence')
    best = items[0]
    bk = call(key, [best], {}) if key is not None else force(best)
    for x in items[1:]:
        xk = call(key, [x], {}) if key is not None else force(x)
        c = I.compare('<' if less else '>', xk, bk)
        if isinstance(c, bool):
            if c:
                best, bk = x, xk
            continue
        if key is None and is_int(x) and is_int(best):
            best = bk = I.merge(c, x, best)
            continue
        if S.decide(c):
            best, bk = x, xk
    return best


MODELS[min] = lambda a, kw: minmax(a, kw, True)
MODELS[max] = lambda a, kw: minmax(a, kw, False)


@model(sorted)
def m_sorted(args, kw):
    l = as_plist(args[0])
    sort_list(l, kw.get('key'), kw.get('reverse', False))
    return l


def sort_list(l, key=None, reverse=False):
    reverse = I.test(reverse)
    if not l.concrete:
        from . import loops
        loops_sort(l, key, reverse)
        return
    items = l.items
    key = force(key)
    ks = [call(key, [x], {}) if key is not None else x for x in items]
    if all(deep_concrete(k) for k in ks):
        order = sorted(range(len(items)), key=lambda j: to_native(ks[j]), reverse=reverse)
        l.set_items([items[j] for j in order])
        return
    if len(items) > 6:
        raise Unsupported('sorting more than 6 symbolic items')
    out = []          # stable insertion sort
    for x, k in zip(items, ks):
        j = len(out)
        while j > 0:
            c = I.compare('<' if not reverse else '>', k, out[j - 1][1])
            if S.decide(c):
                j -= 1
            else:
                break
        out.insert(j, (x, k))
    l.set_items([x for x, _ in out])


def loops_sort(l, key, reverse):
    """Sorted: some rearrangement of the items (nothing is said about the order)."""
    from . import loops
    n = l.length()
    for s in l.segs:
        b = getattr(s, 'body', None)
        if key is not None and b is not None:
            k = loops.new_k()

            def one():
                S.assume(z3.And(zi(s.lo) <= k, k < zi(s.hi)))
                return call(key, [loops.inst(b, k)], {})
            save = S.save_q()
            try:
                S.subexplore(one)
            finally:
                S.load_q(save)
    l.segs = loops.permuted(l)


@model(reversed)
def m_reversed(args, kw):
    x = force(args[0])
    if isinstance(x, (Rope,)):
        l = as_plist(rope_rev(x))
        return l
    l = as_plist(x)
    if l.concrete:
        return PList(l.items[::-1])
    from . import loops
    return loops.list_slice(l, None, None, -1)


@model(iter)
def m_iter(args, kw):
    x = force(args[0])
    if isinstance(x, Iterator):
        return x
    return Iterator(list(concrete_iter(x, 'iter()')))


@model(next)
def m_next(args, kw):
    x = force(args[0])
    if isinstance(x, PList):        # eagerly collected generator
        if x.concrete:
            if x.items:
                v = x.items[0]
                x.set_items(x.items[1:])
                return v
            if len(args) > 1:
                return args[1]
            raise_py(StopIteration)
        raise Unsupported('next()')
    if isinstance(x, Iterator):
        if x.pos < len(x.items):
            x.pos += 1
            return x.items[x.pos - 1]
        if len(args) > 1:
            return args[1]
        raise_py(StopIteration)
    raise Unsupported('next()')


def list_method(o, name, args, kw):
    if name == 'append':
        o.segs = o.segs + [LitSeg([args[0]])] if not (o.segs and isinstance(o.segs[-1], LitSeg)) else \
            o.segs[:-1] + [LitSeg(o.segs[-1].items + [args[0]])]
        o.track = ('append', args[0])
        return None
    if name == 'appendleft':
        o.segs = [LitSeg([args[0]])] + o.segs
        o.track = ('appendleft', args[0])
        return None
    if name == 'extend':
        x = force(args[0])
        add = as_plist(x).segs
        o.segs = o.segs + I.copy_segs(PList(segs=add))
        return None
    if name == 'extendleft':
        for x in concrete_iter(args[0]):
            list_method(o, 'appendleft', [x], {})
        return None
    if name in ('copy',):
        return PList(segs=I.copy_segs(o), kind=o.kind)
    if name == 'clear':
        o.segs = []
        return None
    if name in ('pop', 'popleft'):
        i = index_term(args[0]) if args else (-1 if name == 'pop' else 0)
        n = o.length()
        if isinstance(n, int) and n == 0 or not isinstance(n, int) and S.decide(n <= 0):
            raise_py(IndexError, 'pop from empty list')
        if o.concrete and isinstance(i, int):
            items = o.items
            if not -len(items) <= i < len(items):
                raise_py(IndexError, 'pop index out of range')
            v = items.pop(i)
            o.set_items(items)
            o.track = ('pop0',) if i == 0 else ('pop',)
            return v
        from . import loops
        if i == 0:
            segs = [s for s in o.segs if not (isinstance(s, LitSeg) and not s.items)]
            while isinstance(segs[0], MapSeg) and S.decide(zi(segs[0].hi) <= zi(segs[0].lo)):
                segs.pop(0)
            s = segs[0]
            if isinstance(s, LitSeg):
                v = s.items[0]
                o.segs = [LitSeg(s.items[1:])] + segs[1:]
            else:
                v = loops.inst(s.body, s.lo)
                o.segs = [MapSeg(norm(zi(s.lo) + 1), s.hi, s.body)] + segs[1:]
            o.track = ('pop0',)
            return v
        if i == -1:
            segs = [s for s in o.segs if not (isinstance(s, LitSeg) and not s.items)]
            while isinstance(segs[-1], MapSeg) and S.decide(zi(segs[-1].hi) <= zi(segs[-1].lo)):
                segs.pop()
            s = segs[-1]
            if isinstance(s, LitSeg):
                v = s.items[-1]
                o.segs = segs[:-1] + [LitSeg(s.items[:-1])]
            else:
                v = loops.inst(s.body, norm(zi(s.hi) - 1))
                o.segs = segs[:-1] + [MapSeg(s.lo, norm(zi(s.hi) - 1), s.body)]
            return v
        raise Unsupported('pop from a symbolic list')
    if name == 'insert':
        i = index_term(args[0])
        if isinstance(i, int) and i == 0:
            return list_method(o, 'appendleft', [args[1]], {})
        if o.concrete and isinstance(i, int):
            items = o.items
            items.insert(i, args[1])
            o.set_items(items)
            return None
        raise Unsupported('insert into a symbolic list')
    if name == 'reverse':
        r = I.list_slice(o, None, None, -1)
        o.segs = r.segs
        return None
    if name == 'sort':
        sort_list(o, kw.get('key'), kw.get('reverse', False))
        return None
    if name == 'index' and o.concrete:
        for j, x in enumerate(o.items):
            if S.decide(values_equal(x, args[0])):
                return j
        raise_py(ValueError, 'not in list')
    if name == 'count' and o.concrete:
        t = z3.IntVal(0)
        for x in o.items:
            c = values_equal(x, args[0])
            t = t + z3.If(zb(c), z3.IntVal(1), z3.IntVal(0))
        return mk_int(t)
    if name == 'remove' and o.concrete:
        items = o.items
        for j, x in enumerate(items):
            if S.decide(values_equal(x, args[0])):
                items.pop(j)
                o.set_items(items)
                return None
        raise_py(ValueError, 'not in list')
    if name == '__len__':
        return m_len([o], {})
    if name == '__iter__':
        return o
    raise Unsupported('list.%s' % name)


def dict_method(o, name, args, kw):
    if isinstance(o, dict):
        if name in ('get', '__getitem__', '__contains__') and args and not deep_concrete(args[0]):
            if name == '__contains__':
                return bool_v(I.contains(o, args[0]))
            try:
                return I.getitem(o, args[0])
            except PyExc as e:
                if e.cls is KeyError and name == 'get':
                    return args[1] if len(args) > 1 else None
                raise
        if name in ('get', 'keys', 'values', 'items', '__contains__', '__getitem__', 'copy'):
            if name == 'get':
                try:
                    return from_native(o.get(to_native(args[0]))) if to_native(args[0]) in o else (args[1] if len(args) > 1 else None)
                except TypeError as e:
                    raise PyExc(TypeError, e.args, e)
            if name == 'copy':
                return from_native(o)
            if name in ('keys', 'values', 'items'):
                return PList([from_native(x) for x in getattr(o, name)()])
            return I.native_call(getattr(o, name), args, kw)
        raise Unsupported('mutation of a module-level dict (%s)' % name)
    if name == 'get':
        for k, v in o.pairs:
            if S.decide(values_equal(k, args[0])):
                return v
        return args[1] if len(args) > 1 else kw.get('default')
    if name == 'setdefault':
        for k, v in o.pairs:
            if S.decide(values_equal(k, args[0])):
                return v
        v = args[1] if len(args) > 1 else None
        I.setitem(o, args[0], v)
        return v
    if name == 'keys':
        return PList([k for k, _ in o.pairs])
    if name == 'values':
        return PList([v for _, v in o.pairs])
    if name == 'items':
        return PList([(k, v) for k, v in o.pairs])
    if name == 'pop':
        for j, (k, v) in enumerate(o.pairs):
            if S.decide(values_equal(k, args[0])):
                o.pairs.pop(j)
                return v
        if len(args) > 1:
            return args[1]
        raise_py(KeyError, args[0])
    if name == 'update':
        for a in args:
            a = force(a)
            for k, v in (a.pairs if isinstance(a, PDict) else a.items() if isinstance(a, dict) else
                         [concrete_iter(p) for p in concrete_iter(a)]):
                I.setitem(o, k, v)
        for k, v in kw.items():
            I.setitem(o, k, v)
        return None
    if name == 'copy':
        return PDict(o.pairs)
    if name == 'clear':
        o.pairs = []
        return None
    if name == '__contains__':
        return bool_v(I.contains(o, args[0]))
    raise Unsupported('dict.%s' % name)


def set_method(o, name, args, kw):
    if name == 'add':
        if not S.decide(I.disj([values_equal(x, args[0]) for x in o.items])):
            o.items = o.items + [args[0]]
        return None
    if name in ('discard', 'remove'):
        for j, x in enumerate(o.items):
            if S.decide(values_equal(x, args[0])):
                o.items = o.items[:j] + o.items[j + 1:]
                return None
        if name == 'remove':
            raise_py(KeyError)
        return None
    if name in ('union', 'update'):
        r = PSet(o.items) if name == 'union' else o
        for a in args:
            for x in concrete_iter(a):
                set_method(r, 'add', [x], {})
        return r if name == 'union' else None
    if name == 'copy':
        return PSet(o.items)
    if deep_concrete(o) and deep_concrete(list(args)):
        return from_native(getattr(to_native(o), name)(*[to_native(a) for a in args]))
    raise Unsupported('set.%s' % name)


def method(o, name, args, kw):
    o = force(o)
    if isinstance(o, PList):
        return list_method(o, name, list(args), kw)
    if isinstance(o, (PDict, dict)):
        return dict_method(o, name, list(args), kw)
    if isinstance(o, PSet):
        return set_method(o, name, list(args), kw)
    if isinstance(o, (str, bytes, Rope)):
        return str_method(o, name, list(args), kw)
    if isinstance(o, (SReal,)) or isinstance(o, (decimal.Decimal, float)):
        if isinstance(o, SReal):
            return real_method(o, name, args, kw)
        return I.native_call(getattr(o, name), args, kw)
    if is_int(o):
        return int_method(o, name, list(args), kw)
    if isinstance(o, SymIter):
        raise Unsupported('iterator.%s' % name)
    if isinstance(o, (list, tuple)) and not isinstance(o, tuple):
        if name in ('append', 'extend', 'pop', 'insert', 'sort', 'reverse', 'clear', 'remove'):
            raise Unsupported('mutation of a module-level list')
        return list_method(from_native(o), name, list(args), kw)
    if isinstance(o, tuple):
        if name in ('index', 'count'):
            return list_method(PList(list(o)), name, list(args), kw)
    if isinstance(o, Opaque):
        raise Unsupported('method %s of an opaque value' % name)
    return I.native_call(getattr(o, name), args, kw)


# ---- objects -----------------------------------------------------------------------------

def subclass_of(c, t):
    try:
        return issubclass(c, t)
    except TypeError as e:
        raise PyExc(TypeError, e.args, e)


@model(isinstance)
def m_isinstance(args, kw):
    o, t = force(args[0]), force(args[1])
    if isinstance(o, AsciiBytes):
        return subclass_of(bytes, t)
    if isinstance(t, PList):
        t = tuple(t.items)
    if I.is_sym(o) or isinstance(o, (PyExc, PFunc, Bound)):
        return subclass_of(pytype(o), t)
    return isinstance(o, t)


@model(issubclass)
def m_issubclass(args, kw):
    return subclass_of(force(args[0]), force(args[1]))


@model(type)
def m_type(args, kw):
    if len(args) != 1:
        raise Unsupported('type()')
    return pytype(force(args[0]))


@model(callable)
def m_callable(args, kw):
    o = force(args[0])
    if isinstance(o, (PFunc, Bound, BuiltinMethod)):
        return True
    if isinstance(o, PObj):
        return hasattr(o.cls, '__call__')
    return callable(o) and not I.is_sym(o)


@model(getattr)
def m_getattr(args, kw):
    nm = force(args[1])
    try:
        return I.getattr_(args[0], nm)
    except PyExc as e:
        if len(args) > 2 and issubclass(e.cls, AttributeError):
            return args[2]
        raise


@model(hasattr)
def m_hasattr(args, kw):
    try:
        I.getattr_(args[0], force(args[1]))
        return True
    except PyExc as e:
        if issubclass(e.cls, AttributeError):
            return False
        raise


@model(setattr)
def m_setattr(args, kw):
    I.setattr_(args[0], force(args[1]), args[2])


@model(vars)
def m_vars(args, kw):
    o = force(args[0])
    if isinstance(o, PObj):
        return PDict([(k, v) for k, v in o.fields.items()])
    raise Unsupported('vars()')


@model(id)
def m_id(args, kw):
    return id(force(args[0]))


@model(hash)
def m_hash(args, kw):
    raise Unsupported('hash()')


@model(print)
def m_print(args, kw):
    S.extra.setdefault('printed', [])
    S.extra['printed'] = S.extra['printed'] + [tuple(args)]


for _f in (logging.debug, logging.info, logging.warning, logging.error):
    MODELS[_f] = lambda a, kw: None


@model(functools.wraps)
def m_wraps(args, kw):
    return IdentityDeco()


class IdentityDeco:
    pass


def native_attr(o, name):
    if isinstance(o, (HashObj, AsciiBytes, Iterator)):
        return MethodOf(o, name)
    if isinstance(o, logging.Logger):
        return MethodOf(o, name)
    return NotImplemented


class MethodOf:
    def __init__(self, o, name):
        self.o, self.name = o, name

    def __call__(self, *a, **k):
        raise Unsupported('native call of a modelled method')


def call_special(f, args, kw):
    """Callables that only exist inside the verifier; NotImplemented if not one."""
    if isinstance(f, IdentityDeco):
        return args[0]
    if isinstance(f, MethodOf):
        o, name = f.o, f.name
        if isinstance(o, HashObj):
            if name == 'update':
                o.data = cat(o.data, force(args[0]))
                return None
            if name == 'digest':
                return digest(o.name, o.data)
            if name == 'hexdigest':
                return hex_of(digest(o.name, o.data))
            if name == 'copy':
                return HashObj(o.name, o.data)
            raise Unsupported('hash object method %s' % name)
        if isinstance(o, AsciiBytes):
            if name == 'decode':
                return o.s
            if name == 'upper':
                return AsciiBytes(case_map(o.s, True))
            if name == 'lower':
                return AsciiBytes(case_map(o.s, False))
            raise Unsupported('hexlify(...).%s' % name)
        if isinstance(o, logging.Logger):
            return None
        if isinstance(o, Iterator) and name == '__next__':
            return m_next([o], {})
    return NotImplemented


def native_setattr(o, name, v):
    return False


def opaque_attr(o, name):
    return NotImplemented


def opaque_item(o, i):
    raise Unsupported('item of an opaque value')


def enter(c):
    c = force(c)
    if isinstance(c, PObj) and hasattr(c.cls, '__enter__'):
        return I.call_method(c, '__enter__')
    if isinstance(c, Ctx):
        return c.enter()
    raise Unsupported('with %r' % (c,))


def leave(c, exc):
    c = force(c)
    if isinstance(c, PObj) and hasattr(c.cls, '__exit__'):
        r = I.call_method(c, '__exit__', exc.cls if exc else None, exc, None)
        return bool(r) if isinstance(r, bool) or r is None else I.test(r)
    if isinstance(c, Ctx):
        return c.leave(exc)
    return False


class Ctx:
    """Base of modelled context managers."""

    def enter(self):
        return self

    def leave(self, exc):
        return False


class Suppress(Ctx):
    def __init__(self, classes):
        self.classes = classes

    def leave(self, exc):
        return exc is not None and I.exc_matches(exc, self.classes)


import contextlib
MODELS[contextlib.suppress] = lambda a, kw: Suppress(tuple(a))


# ---- hashing ---------------------------------------------------------------------------------

def digest(name, data):
    if isinstance(data, AsciiBytes):
        raise Unsupported('hash of hex text')
    if isinstance(data, bytes):
        return hashlib.new(name, data).digest()
    if not isinstance(data, Rope) or data.kind != 'bytes':
        raise_py(TypeError, 'object supporting the buffer API required')
    f, n = (f_sha, 32) if name == 'sha256' else (f_rip, 20) if name == 'ripemd160' else (None, None)
    if f is None:
        raise Unsupported('hash %s' % name)
    return uf_bytes(f, n, data)


def uf_bytes(f, n, *ropes_, memo=None):
    """f(ropes) as an atom of n bytes; provably equal arguments give the identical atom."""
    key = ('uf', f.name())
    ropes_ = [settle(a) for a in ropes_]
    for args2, out in S.memo.get(key, []):
        if all(rope_same(a, b) for a, b in zip(ropes_, args2)):
            return out
    for args2, out in S.memo.get(key, []):
        okk = True
        for a, b in zip(ropes_, args2):
            if rope_same(a, b):
                continue
            la, lb = rope_len(a), rope_len(b)
            if isinstance(la, int) and isinstance(lb, int) and la != lb:
                okk = False
                break
            try:
                S.nofork += 1
                try:
                    c = rope_eq(a, b)
                finally:
                    S.nofork -= 1
            except (NeedFork, Unsupported, PathAbort):
                okk = False
                break
            if not S.provable(c):
                okk = False
                break
        if okk:
            return out
    t = f(*[rope_term(a) for a in ropes_])
    out = atom('bytes', 'h', n=n, t=t)
    S.memo.setdefault(key, []).append((ropes_, out))
    return out


@model(hashlib.sha256)
def m_sha256(args, kw):
    return HashObj('sha256', force(args[0]) if args else b'')


@model(hashlib.new)
def m_hnew(args, kw):
    d = dict(zip(('name', 'data'), args))
    d.update(kw)
    return HashObj(force(d['name']), force(d.get('data', b'')))


# ---- random --------------------------------------------------------------------------------

@model(random.randint)
def m_randint(args, kw):
    lo, hi = index_term(args[0]), index_term(args[1])
    draw_state()
    t = S.fresh_int('rand')
    S.assume(z3.And(t >= zi(lo), t <= zi(hi)))
    return mk_int(t)


@model(random.seed)
def m_seed(args, kw):
    """Only contracts of drawing functions look at it: the same seed and the same arguments draw the same."""
    S.extra['seed'] = (I.force(args[0]) if args else None, 0)


def draw_state():
    """(seed, number of draws since), or None when not seeded."""
    d = S.extra.get('seed')
    if d is None or d[0] is None:
        return None
    S.extra['seed'] = (d[0], d[1] + 1)
    return d


@model(random.shuffle)
def m_shuffle(args, kw):
    l = force(args[0])
    draw_state()
    h = S.extra.get('shuffle')
    if h is not None:
        return h(l)
    if not l.concrete:
        from . import loops
        l.segs = loops.permuted(l)
        return None
    items = l.items
    out = []
    if len(items) > 5:
        raise Unsupported('shuffle of more than 5 items')
    while items:
        for j in range(len(items) - 1):
            if S.decide(S.fresh_bool('pick')):
                out.append(items.pop(j))
                break
        else:
            out.append(items.pop())
    l.set_items(out)


# ---- re / json ---------------------------------------------------------------------------

HEXRE = {'^[0-9a-fA-F]*$', '[0-9a-fA-F]*$', '^[0-9A-Fa-f]*$', '[0-9a-fA-F]*', '^[a-fA-F0-9]*$'}


@model(re.fullmatch)
def m_refullmatch(args, kw):
    if isinstance(args[0], str) and len(args) == 2:
        if isinstance(force(args[1]), str):
            return native(re.fullmatch, args[0], force(args[1]))
        return m_rematch(['^%s$' % args[0].strip('^$'), args[1]], kw)
    raise Unsupported('regular expression on a symbolic string')


@model(re.match)
def m_rematch(args, kw):
    pat, s = force(args[0]), force(args[1])
    if isinstance(pat, str) and isinstance(s, str) and len(args) == 2:
        return native(re.match, pat, s)
    if pat in HEXRE and isinstance(s, Rope):
        if all(isinstance(g, Hx) or isinstance(g, Sl) and g.a.tag and g.a.tag[0] in ('hexof', 'hexint') or
               isinstance(g, Lit) and re.fullmatch('[0-9a-fA-F]*', g.d) for g in s.segs):
            return True
        if len(s.segs) == 1:
            return mk_bool(f_hexok(rope_term(s)))
    raise Unsupported('regular expression on a symbolic string')


def json_copy(v, default=None):
    """What comes back from a JSON text of v (tuples become lists)."""
    v = force(v)
    if v is None or isinstance(v, (bool, int, str, SBool, SInt, SBv)) or isinstance(v, Rope) and v.kind == 'str':
        return v
    if isinstance(v, tuple):
        return PList([json_copy(x, default) for x in v])
    if isinstance(v, PList):
        out = []
        for g in v.segs:
            if isinstance(g, LitSeg):
                out.append(LitSeg([json_copy(x, default) for x in g.items]))
            else:
                b = g.body
                from . import loops
                out.append(MapSeg(g.lo, g.hi, Body(b.k, json_copy(loops.body_value(b), default), b.facts) if b.maker is None else
                                  Body(b.k, None, b.facts, maker=lambda j, b=b: json_copy(b.maker(j), default))))
        return PList(segs=out)
    if isinstance(v, PDict):
        if not all(isinstance(a, str) for a, _ in v.pairs):
            raise Unsupported('JSON object with symbolic keys')
        return PDict([(a, json_copy(b, default)) for a, b in v.pairs])
    if isinstance(v, (bytes, Rope, complex)):
        if default is not None:
            return json_copy(I.call(default, [v], {}))
        raise_py(TypeError, 'not JSON serializable')
    raise Unsupported('JSON text of %s' % type(v).__name__)


@model(json.dumps)
def m_json_dumps(args, kw):
    if set(kw) - {'separators', 'default', 'sort_keys', 'indent', 'ensure_ascii'} or len(args) != 1:
        raise Unsupported('json options')
    v = force(args[0])
    default = force(kw.get('default'))
    if isinstance(v, (bool, int, str, type(None))):
        return native(json.dumps, v)
    c = json_copy(v, default)
    r = atom('str', 'json')
    S.fact(zi(rope_len(r)) >= 2)
    S.memo.setdefault('json', []).append((r, c))
    return r


@model(json.loads)
def m_json_loads(args, kw):
    t = force(args[0])
    if kw or len(args) != 1:
        raise Unsupported('json options')
    if isinstance(t, Rope):
        for r, c in S.memo.get('json', []):
            if rope_same(r, t):
                return json_copy(c)
        if t.kind == 'str' and all(isinstance(g, Hx) or isinstance(g, Lit) and re.fullmatch('[0-9a-fA-F]*', g.d) for g in t.segs):
            # hexadecimal digits: a JSON number or no JSON
            if S.decide(S.fresh_bool('number')):
                return SInt(S.fresh_int('json'))
            raise_py(json.JSONDecodeError, 'no JSON')
        raise Unsupported('JSON from an arbitrary text')
    if isinstance(t, (str, bytes)):
        return native(json.loads, t)
    raise_py(TypeError, 'the JSON object must be str, bytes or bytearray')
