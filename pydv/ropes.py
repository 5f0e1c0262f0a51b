"""Byte strings and character strings as ropes of segments.

Segment kinds
  Lit(data)            concrete bytes / str
  Els(elems)           individual symbolic elements (z3 Int or BitVec terms, or python ints)
  Sl(base, lo, hi)     base[lo:hi] of an atom;  rev: taken backwards
  IB(v, n, order)      v.to_bytes(n, order) with 0 <= v < 256**n
  Hx(rope)             lower-case hex text of a byte rope
  Jn(lo, hi, body)     concatenation of body(j), lo <= j < hi
  Rp(unit, count)      one literal repeated a symbolic number of times
  It(c, a, b)          rope a or rope b
"""
import z3
from .core import S, B, SInt, SBv, SBool, Unsupported, norm, zi, Body, mk_int

I = z3.IntSort()
f_at = z3.Function('at', B, I, I)
f_slice = z3.Function('slice', B, I, I, B)
f_rev = z3.Function('rev', B, B)
f_cat = z3.Function('cat', B, B, B)
f_len = z3.Function('len', B, I)
f_ib = z3.Function('ib', I, I, B)
f_ibl = z3.Function('ibl', I, I, B)
f_hex = z3.Function('hex', B, B)
f_unit = z3.Function('unit', I, B)
f_rep = z3.Function('rep', B, I, B)
f_be = z3.Function('be', B, I)
f_asc = z3.Function('asciistr', B, B)     # text <-> bytes views are kept apart


class Atom:
    __slots__ = ('t', 'n', 'kind', 'tag')

    def __init__(self, t, n, kind, tag=None):
        self.t, self.n, self.kind, self.tag = t, n, kind, tag
        name = t.decl().name()
        if name not in ATOMS:
            if isinstance(n, int):
                ATOMS[name] = (n, kind, tag)
            elif z3.is_app(n) and n.decl().eq(f_len):
                ATOMS[name] = (None, kind, tag)
            else:
                ATOMS[name] = ('?', kind, tag)
        elif isinstance(n, int) and ATOMS[name][0] != n or not isinstance(n, int) and isinstance(ATOMS[name][0], int):
            ATOMS[name] = ('?', kind, tag)


import os
DEBUG = bool(os.environ.get('PYDV_EQ'))
ATOMS = {}       # length and kind of the atoms made by each symbol
LITS = {}
JOINS = {}


class Sg:
    __slots__ = ()


class Lit(Sg):
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d


class Els(Sg):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = tuple(e)


class Sl(Sg):
    __slots__ = ('a', 'lo', 'hi', 'rev')

    def __init__(self, a, lo, hi, rev=False):
        self.a, self.lo, self.hi, self.rev = a, lo, hi, rev


class IB(Sg):
    __slots__ = ('v', 'n', 'o')

    def __init__(self, v, n, o):
        self.v, self.n, self.o = v, n, o


class Hx(Sg):
    __slots__ = ('r',)

    def __init__(self, r):
        self.r = r


class Jn(Sg):
    __slots__ = ('lo', 'hi', 'body')

    def __init__(self, lo, hi, body):
        self.lo, self.hi, self.body = lo, hi, body


class Rp(Sg):
    __slots__ = ('u', 'n')

    def __init__(self, u, n):
        self.u, self.n = u, n


class It(Sg):
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Rope:
    __slots__ = ('kind', 'segs')

    def __init__(self, kind, segs):
        self.kind = kind
        self.segs = _norm(kind, segs)

    def __repr__(self):
        return 'Rope<%s %s>' % (self.kind, ' + '.join(seg_repr(s) for s in self.segs))


def seg_repr(s):
    if isinstance(s, Lit):
        return repr(s.d)
    if isinstance(s, Els):
        return '[%s]' % ','.join(str(e)[:40] for e in s.e)
    if isinstance(s, Sl):
        return '%s[%s:%s]%s' % (str(s.a.t)[:60], s.lo, s.hi, '~' if s.rev else '')
    if isinstance(s, IB):
        return 'ib(%s,%s,%s)' % (str(s.v)[:60], s.n, s.o)
    if isinstance(s, Hx):
        return 'hex(%r)' % s.r
    if isinstance(s, Jn):
        return 'join(%s,%s,%r)' % (s.lo, s.hi, s.body.value)
    if isinstance(s, Rp):
        return '%r*%s' % (s.u, s.n)
    return 'ite(%s,%r,%r)' % (s.c, s.a, s.b)


def empty(kind):
    return b'' if kind == 'bytes' else ''


def same(a, b):
    """Syntactic equality of two lengths / terms."""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, int) or isinstance(b, int):
        return False
    return a.eq(b)


def seg_len(s):
    if isinstance(s, Lit):
        return len(s.d)
    if isinstance(s, Els):
        return len(s.e)
    if isinstance(s, Sl):
        return norm(zi(s.hi) - zi(s.lo)) if not (isinstance(s.hi, int) and isinstance(s.lo, int)) else s.hi - s.lo
    if isinstance(s, IB):
        return s.n
    if isinstance(s, Hx):
        return norm(2 * zi(rope_len(s.r)))
    if isinstance(s, Rp):
        return norm(zi(s.n) * len(s.u))
    if isinstance(s, It):
        a, b = rope_len(s.a), rope_len(s.b)
        return a if same(a, b) else norm(z3.If(s.c, zi(a), zi(b)))
    if isinstance(s, Jn):
        return join_len(s)
    raise Unsupported('segment length')


def join_len(s):
    from . import loops
    return loops.sum_term(s.lo, s.hi, s.body, lambda v: zi(rope_len(v)) if isinstance(v, Rope) else z3.IntVal(len(v)),
                          'len')


def rope_len(r):
    if isinstance(r, (bytes, str)):
        return len(r)
    n = 0
    for s in r.segs:
        ln = seg_len(s)
        n = n + ln if isinstance(n, int) and isinstance(ln, int) else zi(n) + zi(ln)
    return norm(n)


def _norm(kind, segs):
    out = []
    for s in segs:
        if isinstance(s, Rope):
            out = _norm(kind, list(out) + list(s.segs))
            continue
        if isinstance(s, (bytes, str)):
            s = Lit(s)
        if isinstance(s, IB):
            if s.n == 0:
                continue
            v = norm(s.v)
            if isinstance(v, int):
                s = Lit(v.to_bytes(s.n, s.o))
            elif s.n == 1:
                s = Els([v])
            else:
                orig = S.reps.get(v.get_id())
                if orig is not None and same(orig[1], s.n):
                    out = _norm(kind, list(out) + list((orig[0] if s.o == 'big' else rope_rev(orig[0])).segs))
                    continue
        if isinstance(s, Els):
            if all(isinstance(e, int) for e in s.e):
                s = Lit(bytes(s.e) if kind == 'bytes' else ''.join(map(chr, s.e)))
        if isinstance(s, Rp):
            n = norm(s.n)
            if isinstance(n, int):
                s = Lit(s.u * n)
        if isinstance(s, Hx):
            if isinstance(s.r, bytes):
                s = Lit(s.r.hex())
            elif isinstance(s.r, Rope) and len(s.r.segs) != 1:
                out = _norm(kind, list(out) + [Hx(mk(s.r.kind, [x])) for x in s.r.segs])
                continue
            elif isinstance(s.r, Rope) and isinstance(s.r.segs[0], Lit):
                s = Lit(s.r.segs[0].d.hex())
        if isinstance(s, Lit):
            if not len(s.d):
                continue
            if out and isinstance(out[-1], Lit):
                out[-1] = Lit(out[-1].d + s.d)
                continue
        if isinstance(s, Els):
            if not s.e:
                continue
            if out and isinstance(out[-1], Els):
                out[-1] = Els(out[-1].e + s.e)
                continue
        if isinstance(s, Sl):
            if same(s.lo, s.hi):
                continue
            if out and isinstance(out[-1], Sl) and out[-1].a.t.eq(s.a.t) and out[-1].rev == s.rev:
                p = out[-1]
                if not s.rev and same(p.hi, s.lo):
                    out[-1] = Sl(s.a, p.lo, s.hi)
                    continue
                if s.rev and same(p.lo, s.hi):
                    out[-1] = Sl(s.a, s.lo, p.hi, True)
                    continue
        if isinstance(s, Jn):
            if same(s.lo, s.hi):
                continue
            if out and isinstance(out[-1], Jn) and out[-1].body is s.body and same(out[-1].hi, s.lo):
                out[-1] = Jn(out[-1].lo, s.hi, s.body)
                continue
        out.append(s)
    return tuple(out)


def mk(kind, segs):
    """Rope or native constant."""
    r = Rope(kind, segs)
    if not r.segs:
        return empty(kind)
    if len(r.segs) == 1 and isinstance(r.segs[0], Lit):
        return r.segs[0].d
    return r


def segs_of(v):
    if isinstance(v, (bytes, str)):
        return (Lit(v),) if len(v) else ()
    return v.segs


def kind_of(v):
    if isinstance(v, Rope):
        return v.kind
    return 'bytes' if isinstance(v, bytes) else 'str'


def cat(*vs):
    kind = kind_of(vs[0])
    segs = []
    for v in vs:
        segs += segs_of(v)
    return mk(kind, segs)


def atom(kind, base, n=None, t=None, tag=None):
    """A rope of one fresh (or given) atom with length n (int, term or None = arbitrary)."""
    t = S.fresh_b(base) if t is None else t
    if n is None:
        n = f_len(t)
        S.fact(n >= 0)
    n = norm(n)
    if not isinstance(n, int):
        S.fact(n >= 0)
    return mk(kind, [Sl(Atom(t, n, kind, tag), 0, n)])


# ---- elements ---------------------------------------------------------------

def at_term(a, i):
    e = f_at(a.t, zi(i))
    if a.kind == 'bytes':
        S.fact(z3.And(e >= 0, e < 256))
    else:
        S.fact(z3.And(e >= 0, e < 0x110000))
        if a.tag and a.tag[0] == 'charset':
            S.fact(z3.Implies(z3.And(zi(i) >= 0, zi(i) < zi(a.n)), z3.Or([e == ord(c) for c in a.tag[1]])))
    return e


HEXD = z3.Function('hexdigit', I, I)


def seg_elem(s, i):
    """Element i (0 <= i < len, int or term) of a segment."""
    if isinstance(s, Lit):
        if isinstance(i, int):
            return s.d[i] if isinstance(s.d, bytes) else ord(s.d[i])
        vals = list(s.d) if isinstance(s.d, bytes) else [ord(c) for c in s.d]
        return table(vals, i)
    if isinstance(s, Els):
        if isinstance(i, int):
            return s.e[i]
        return table([e if isinstance(e, int) else as_int_term(e) for e in s.e], i)
    if isinstance(s, Sl):
        if s.rev:
            return at_term(s.a, norm(zi(s.hi) - 1 - zi(i)))
        return at_term(s.a, norm(zi(s.lo) + zi(i)))
    if isinstance(s, IB) and isinstance(i, int):
        k = s.n - 1 - i if s.o == 'big' else i
        return norm((s.v / z3.IntVal(256 ** k)) % 256)
    if isinstance(s, Rp):
        if len(s.u) == 1:
            return s.u[0] if isinstance(s.u, bytes) else ord(s.u)
    if isinstance(s, Hx) and isinstance(i, int):
        e = zi(as_int_term(seg_elem(s.r.segs[0], i // 2)))
        d = e / 16 if i % 2 == 0 else e % 16
        return norm(z3.If(d < 10, d + 48, d + 87))
    if isinstance(s, It):
        a = S.decide(s.c)
        return rope_elem(s.a if a else s.b, i)
    if isinstance(s, Jn):
        from . import loops
        kk = loops.new_k()
        w = rope_len(loops.inst(s.body, kk))
        if isinstance(w, int) and w > 0:
            if w == 1:
                return rope_elem(loops.inst(s.body, norm(zi(s.lo) + zi(i))), 0)
            return rope_elem(loops.inst(s.body, norm(zi(s.lo) + zi(i) / w)), norm(zi(i) % w))
    raise Unsupported('element of segment %s' % seg_repr(s))


def as_int_term(e):
    if isinstance(e, int):
        return z3.IntVal(e)
    if z3.is_bv(e):
        return z3.BV2Int(e)
    return e


def table(vals, i):
    """vals[i] as an if-chain."""
    t = zi(vals[-1]) if vals else z3.IntVal(0)
    for j in range(len(vals) - 2, -1, -1):
        if isinstance(vals[j], int) and z3.is_int_value(t) and t.as_long() == vals[j]:
            continue
        t = z3.If(zi(i) == j, zi(vals[j]), t)
    return norm(t)


def rope_elem(r, i):
    """Element at index i (already known to be within range)."""
    if isinstance(r, (bytes, str)):
        return seg_elem(Lit(r), i)
    segs = r.segs
    off = 0
    for n, s in enumerate(segs):
        ln = seg_len(s)
        if n == len(segs) - 1:
            return seg_elem(s, norm(zi(i) - zi(off)))
        end = norm(zi(off) + zi(ln))
        if isinstance(i, int) and isinstance(end, int):
            inside = i < end
        else:
            inside = S.decide(zi(i) < zi(end))
        if inside:
            return seg_elem(s, norm(zi(i) - zi(off)))
        off = end
    raise Unsupported('element')


# ---- slicing ------------------------------------------------------------------

def split_seg(s, n):
    """(first n elements, rest) of a segment; 0 < n < len known."""
    if isinstance(s, Lit) and isinstance(n, int):
        return [Lit(s.d[:n])], [Lit(s.d[n:])]
    if isinstance(s, Els) and isinstance(n, int):
        return [Els(s.e[:n])], [Els(s.e[n:])]
    if isinstance(s, Sl):
        if s.rev:
            m = norm(zi(s.hi) - zi(n))
            return [Sl(s.a, m, s.hi, True)], [Sl(s.a, s.lo, m, True)]
        m = norm(zi(s.lo) + zi(n))
        return [Sl(s.a, s.lo, m)], [Sl(s.a, m, s.hi)]
    if isinstance(s, IB) and isinstance(n, int):
        if s.o == 'big':
            d = 256 ** (s.n - n)
            return [IB(norm(s.v / d), n, 'big')], [IB(norm(s.v % d), s.n - n, 'big')]
        d = 256 ** n
        return [IB(norm(s.v % d), n, 'little')], [IB(norm(s.v / d), s.n - n, 'little')]
    if isinstance(s, Rp) and len(s.u) == 1:
        return [Rp(s.u, n)], [Rp(s.u, norm(zi(s.n) - zi(n)))]
    if isinstance(s, Hx):
        if isinstance(n, int) and n % 2 == 0 or (not isinstance(n, int) and S.provable(zi(n) % 2 == 0)):
            h = n // 2 if isinstance(n, int) else norm(zi(n) / 2)
            a, b = split_seg(s.r.segs[0], h)
            return [Hx(mk('bytes', a))], [Hx(mk('bytes', b))]
        if isinstance(n, int):
            l = seg_len(s)
            if isinstance(l, int):
                return [Els([seg_elem(s, j) for j in range(n)])], [Els([seg_elem(s, j) for j in range(n, l)])]
    if isinstance(s, It):
        c = S.decide(s.c)
        r = s.a if c else s.b
        a, b = split_rope(r, n)
        return list(segs_of(a)), list(segs_of(b))
    if isinstance(s, Jn):
        # peel one generic element if n is within the first one
        first = s.body.inst(s.lo) if hasattr(s.body, 'inst') else None
        from . import loops
        first = loops.inst(s.body, s.lo)
        rest = Jn(norm(zi(s.lo) + 1), s.hi, s.body)
        fl = rope_len(first)
        if S.provable(zi(n) <= zi(fl)):
            a, b = split_rope(first, n)
            return list(segs_of(a)), list(segs_of(b)) + [rest]
        if S.provable(zi(n) >= zi(fl)):
            m = norm(zi(n) - zi(fl))
            if same(m, 0):
                return list(segs_of(first)), [rest]
            a, b = split_seg(rest, m)
            return list(segs_of(first)) + a, b
    if isinstance(s, Els) and not isinstance(n, int) or isinstance(s, (Lit, IB)) and not isinstance(n, int):
        l = seg_len(s)
        for j in range(1, l):
            if S.decide(zi(n) == j):
                return split_seg(s, j)
    raise Unsupported('split of %s at %s' % (seg_repr(s), n))


def split_rope(r, n):
    """(r[:n], r[n:]) for 0 <= n <= len(r)."""
    kind = kind_of(r)
    if isinstance(r, (bytes, str)) and isinstance(n, int):
        return r[:n], r[n:]
    segs = list(segs_of(r))
    left = []
    need = n
    while segs:
        if isinstance(need, int) and need == 0:
            break
        s = segs[0]
        ln = seg_len(s)
        if isinstance(need, int) and isinstance(ln, int):
            if ln <= need:
                left.append(segs.pop(0))
                need -= ln
                continue
            a, b = split_seg(s, need)
            left += a
            segs[0:1] = b
            need = 0
            break
        if same(need, ln) or S.provable(zi(need) == zi(ln)):
            left.append(segs.pop(0))
            need = 0
            break
        if isinstance(s, It):
            segs[0:1] = list(segs_of(s.a if S.decide(s.c) else s.b))
            continue
        if isinstance(s, Jn):
            # compare against the first element of the family
            if S.decide(zi(s.lo) >= zi(s.hi)):
                segs.pop(0)
                continue
            from . import loops
            first = loops.inst(s.body, s.lo)
            segs[0:1] = list(segs_of(first)) + [Jn(norm(zi(s.lo) + 1), s.hi, s.body)]
            S.extra['peel'] = S.extra.get('peel', 0) + 1
            if S.extra['peel'] > 200:
                raise Unsupported('unbounded peeling of a joined family')
            continue
        if len(segs) == 1 and isinstance(s, Sl):
            a, b = split_seg(s, need)
            left += a
            segs[0:1] = b
            break
        if S.decide(zi(ln) <= zi(need)):
            left.append(segs.pop(0))
            need = norm(zi(need) - zi(ln))
            continue
        if S.decide(zi(need) <= 0):
            need = 0
            break
        a, b = split_seg(s, need)
        left += a
        segs[0:1] = b
        need = 0
        break
    return mk(kind, left), mk(kind, segs)


def rope_slice(r, lo, hi, step=None):
    """r[lo:hi] with Python semantics (indices int, z3 Int term or None)."""
    if isinstance(r, (bytes, str)) and all(x is None or isinstance(x, int) for x in (lo, hi, step)):
        return r[slice(lo, hi, step)]
    if step is not None and step != 1:
        if step == -1 and lo is None and hi is None:
            return rope_rev(r)
        n = rope_len(r)
        if isinstance(n, int) and all(x is None or isinstance(x, int) for x in (lo, hi, step)):
            return mk(kind_of(r), [Els([rope_elem(r, j) for j in range(*slice(lo, hi, step).indices(n))])])
        raise Unsupported('stepped slice')
    n = rope_len(r)
    lo = clamp(0 if lo is None else lo, n)
    hi = clamp(n if hi is None else hi, n)
    if not same(hi, n):
        if not (isinstance(lo, int) and lo == 0):
            if isinstance(lo, int) and isinstance(hi, int):
                if hi <= lo:
                    return empty(kind_of(r))
            elif S.decide(zi(hi) <= zi(lo)):
                return empty(kind_of(r))
        r, _ = split_rope(r, hi)
    if not (isinstance(lo, int) and lo == 0):
        _, r = split_rope(r, lo)
    return r


def clamp(i, n):
    """Python slice index normalisation."""
    if isinstance(i, int) and isinstance(n, int):
        return max(0, min(n, i + n if i < 0 else i))
    if same(i, n):
        return n
    if S.decide(zi(i) < 0):
        i = norm(zi(i) + zi(n))
        if S.decide(zi(i) < 0):
            return 0
        return i
    if isinstance(i, int) and i == 0:
        return 0
    if S.decide(zi(i) > zi(n)):
        return n
    return i


def rope_rev(r):
    if isinstance(r, (bytes, str)):
        return r[::-1]
    out = []
    for s in reversed(r.segs):
        if isinstance(s, Lit):
            out.append(Lit(s.d[::-1]))
        elif isinstance(s, Els):
            out.append(Els(s.e[::-1]))
        elif isinstance(s, Sl):
            out.append(Sl(s.a, s.lo, s.hi, not s.rev))
        elif isinstance(s, IB):
            out.append(IB(s.v, s.n, 'little' if s.o == 'big' else 'big'))
        elif isinstance(s, Rp) and len(s.u) == 1:
            out.append(s)
        elif isinstance(s, It):
            out.append(It(s.c, rope_rev(s.a), rope_rev(s.b)))
        elif isinstance(s, Hx) and isinstance(seg_len(s), int):
            out.append(Els([seg_elem(s, j) for j in range(seg_len(s))][::-1]))
        else:
            raise Unsupported('reversal of %s' % seg_repr(s))
    return mk(r.kind, out)


# ---- canonical terms -------------------------------------------------------------

_lits = {}


def lit_term(d):
    key = d.hex() if isinstance(d, bytes) else 's' + d.encode('utf-8', 'surrogatepass').hex()
    t = _lits.get(key)
    if t is None:
        t = _lits[key] = z3.Const('lit_' + key, B)
        LITS['lit_' + key] = d
    return t


def seg_term(s):
    if isinstance(s, Lit):
        return lit_term(s.d)
    if isinstance(s, Els):
        t = None
        for e in reversed(s.e):
            u = f_unit(as_int_term(e))
            t = u if t is None else f_cat(u, t)
        return t
    if isinstance(s, Sl):
        if same(s.lo, 0) and same(s.hi, s.a.n):
            t = s.a.t
        else:
            t = f_slice(s.a.t, zi(s.lo), zi(s.hi))
        return f_rev(t) if s.rev else t
    if isinstance(s, IB):
        return (f_ib if s.o == 'big' else f_ibl)(s.v, z3.IntVal(s.n))
    if isinstance(s, Hx):
        return f_hex(rope_term(s.r))
    if isinstance(s, Rp):
        return f_rep(lit_term(s.u), zi(s.n))
    if isinstance(s, It):
        return z3.If(s.c, rope_term(s.a), rope_term(s.b))
    if isinstance(s, Jn):
        from . import loops
        return loops.fam_term('join', s.lo, s.hi, s.body, B)
    raise Unsupported('term of segment')


def rope_term(r):
    if isinstance(r, (bytes, str)):
        return lit_term(r)
    t = None
    for s in reversed(r.segs):
        u = seg_term(s)
        t = u if t is None else f_cat(u, t)
    return t


def term_rope(t, kind='bytes'):
    """The rope a term was made from (inverse of rope_term, also for instantiated terms)."""
    out = []
    stack = [t]
    while stack:
        x = stack.pop()
        d = x.decl()
        n = d.name()
        if n in LITS:
            out.append(Lit(LITS[n]))
        elif d.eq(f_cat):
            stack += [x.arg(1), x.arg(0)]
        elif d.eq(f_unit):
            out.append(Els([x.arg(0)]))
        elif d.eq(f_ib) or d.eq(f_ibl):
            w = norm(x.arg(1))
            if isinstance(w, int):
                out.append(IB(x.arg(0), w, 'big' if d.eq(f_ib) else 'little'))
            elif d.eq(f_ib):
                out.append(Sl(Atom(x, w, 'bytes'), 0, w))
            else:
                raise Unsupported('term')
        elif d.eq(f_hex):
            out.append(Hx(term_rope(x.arg(0))))
        elif d.eq(f_rev):
            out += list(segs_of(rope_rev(term_rope(x.arg(0), kind))))
        elif d.eq(f_rep) and x.arg(0).decl().name() in LITS:
            out.append(Rp(LITS[x.arg(0).decl().name()], norm(x.arg(1))))
        elif d.kind() == z3.Z3_OP_ITE:
            out.append(It(x.arg(0), term_rope(x.arg(1), kind), term_rope(x.arg(2), kind)))
        elif n in JOINS:
            from . import loops
            t2, k0, args, kd = JOINS[n]
            sub = [(a, x.arg(i)) for i, a in enumerate(args)]
            body = Body(loops.new_k(), None, maker=None)
            body.maker = lambda j, sub=sub, t2=t2, kd=kd, k0=k0: term_rope(z3.substitute(t2, *(sub + [(k0, zi(j))])), kd)
            out.append(Jn(norm(x.arg(len(args))), norm(x.arg(len(args) + 1)), body))
        else:
            y, lo, hi = x, None, None
            if d.eq(f_slice):
                y, lo, hi = x.arg(0), norm(x.arg(1)), norm(x.arg(2))
            a = ATOMS.get(y.decl().name())
            if a is None or a[0] == '?':
                raise Unsupported('no rope for term %s' % n)
            if a[0] is None:
                S.fact(f_len(y) >= 0)
            at = Atom(y, a[0] if a[0] is not None else f_len(y), a[1], a[2])
            out.append(Sl(at, 0 if lo is None else lo, at.n if hi is None else hi))
    return mk(kind, out)


def settle(r):
    """Conditional parts that the path condition decides are replaced by their value."""
    if not isinstance(r, Rope) or not any(isinstance(s, It) for s in r.segs):
        return r
    out = []
    for s in r.segs:
        if isinstance(s, It):
            if S.provable(s.c):
                out += list(segs_of(settle(s.a)))
                continue
            if S.provable(z3.Not(s.c)):
                out += list(segs_of(settle(s.b)))
                continue
        out.append(s)
    return mk(r.kind, out)


def uf_args_equal(x, y):
    """Terms f(..) and f(..) of the same function whose arguments are provably the same texts."""
    if not x.decl().eq(y.decl()) or x.num_args() == 0 or x.decl().name() in JOINS or x.decl().kind() != z3.Z3_OP_UNINTERPRETED:
        return False
    for i in range(x.num_args()):
        a, b = x.arg(i), y.arg(i)
        if a.eq(b):
            continue
        try:
            if a.sort() == B:
                c = rope_eq(term_rope(a), term_rope(b))
            else:
                c = a == b
        except Unsupported as e:
            if DEBUG:
                print('UF unsupported', e)
            return False
        if not S.provable(c):
            if DEBUG:
                print('UF differs', c)
            return False
    return True


# ---- equality ---------------------------------------------------------------------

def conj(cs):
    cs = [c for c in cs if not (isinstance(c, bool) and c)]
    if any(isinstance(c, bool) for c in cs):
        return False
    cs = [z3.simplify(c) for c in cs]
    if any(z3.is_false(c) for c in cs):
        return False
    cs = [c for c in cs if not z3.is_true(c)]
    if not cs:
        return True
    return cs[0] if len(cs) == 1 else z3.And(*cs)


def elem_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if not isinstance(a, int) and z3.is_bv(a):
        if isinstance(b, int):
            return z3.BoolVal(False) if b >= (1 << a.size()) else a == b
        if z3.is_bv(b):
            w = max(a.size(), b.size())
            return z3.ZeroExt(w - a.size(), a) == z3.ZeroExt(w - b.size(), b)
        return z3.BV2Int(a) == b
    if not isinstance(b, int) and z3.is_bv(b):
        return elem_eq(b, a)
    return zi(a) == zi(b)


def seg_same(s, t):
    """Syntactically identical segments."""
    if type(s) is not type(t):
        return False
    if isinstance(s, Lit):
        return s.d == t.d
    if isinstance(s, Els):
        return len(s.e) == len(t.e) and all(same(a, b) for a, b in zip(s.e, t.e))
    if isinstance(s, Sl):
        return s.a.t.eq(t.a.t) and same(s.lo, t.lo) and same(s.hi, t.hi) and s.rev == t.rev
    if isinstance(s, IB):
        return s.n == t.n and s.o == t.o and same(s.v, t.v)
    if isinstance(s, Hx):
        return rope_same(s.r, t.r)
    if isinstance(s, Rp):
        return s.u == t.u and same(s.n, t.n)
    if isinstance(s, It):
        return s.c.eq(t.c) and rope_same(s.a, t.a) and rope_same(s.b, t.b)
    if isinstance(s, Jn):
        return s.body is t.body and same(s.lo, t.lo) and same(s.hi, t.hi)
    return False


def rope_same(a, b):
    if isinstance(a, (bytes, str)) or isinstance(b, (bytes, str)):
        return type(a) is type(b) and a == b
    return len(a.segs) == len(b.segs) and all(seg_same(x, y) for x, y in zip(a.segs, b.segs))


def seg_val(s):
    """(value term of a big-endian reading, n) for number-like segments."""
    if isinstance(s, IB):
        return s
    return None


def seg_eq(s, t):
    """Equality of two segments of equal length."""
    if seg_same(s, t):
        return True
    n = seg_len(s)
    if not isinstance(n, int):
        n = seg_len(t)
    if isinstance(s, IB) and isinstance(t, IB) and s.o == t.o and s.n == t.n:
        return s.v == t.v
    if isinstance(t, IB) and not isinstance(s, IB):
        s, t = t, s
    if isinstance(s, IB) and isinstance(t, Lit):
        return s.v == int.from_bytes(t.d, s.o)
    if isinstance(s, IB) and isinstance(t, Sl):
        r = mk('bytes', [t])
        return s.v == zi(rope_int(r if s.o == 'big' else rope_rev(r)))
    if isinstance(s, Hx) and isinstance(t, Hx):
        return rope_eq(s.r, t.r)
    if isinstance(s, Hx) and isinstance(t, Lit) or isinstance(t, Hx) and isinstance(s, Lit):
        h, l = (s, t) if isinstance(s, Hx) else (t, s)
        if any(c not in '0123456789abcdef' for c in l.d):
            return False
        return rope_eq(h.r, bytes.fromhex(l.d))
    if isinstance(s, Rp) and isinstance(t, Rp) and s.u == t.u:
        return zi(s.n) == zi(t.n)
    if isinstance(s, Sl) and isinstance(t, Sl) and s.rev == t.rev and s.a.t.eq(t.a.t) and \
            S.provable(z3.And(zi(s.lo) == zi(t.lo), zi(s.hi) == zi(t.hi))):
        return True
    if isinstance(s, Sl) and isinstance(t, Sl) and s.rev == t.rev and same(s.lo, t.lo) and uf_args_equal(s.a.t, t.a.t):
        return zi(s.hi) == zi(t.hi)
    if isinstance(n, int) and (isinstance(s, (Lit, Els)) or isinstance(t, (Lit, Els))) and n <= 200:
        return conj([elem_eq(seg_elem(s, j), seg_elem(t, j)) for j in range(n)])
    if isinstance(s, Jn) and isinstance(t, Jn):
        from . import loops
        d = norm(zi(t.lo) - zi(s.lo))
        if same(norm(zi(s.hi) + zi(d)), t.hi) or S.provable(zi(s.hi) + zi(d) == zi(t.hi)):
            if loops.fam_equal(s.lo, s.hi, s.body, t.body, d):
                return True
    return seg_term(s) == seg_term(t)


def expand_it(segs):
    """Resolve a leading conditional segment by forking."""
    s = segs[0]
    return list(segs_of(s.a if S.decide(s.c) else s.b)) + segs[1:]


def is_ib(s):
    return isinstance(s, Sl) and not isinstance(s.a.n, int) and s.a.t.decl().eq(f_ib) and same(s.lo, 0) and same(s.hi, s.a.n)


def fix_lengths(r):
    """Integer fields whose width is now known get it as a literal."""
    if not isinstance(r, Rope) or not any(is_ib(s) for s in r.segs):
        return r
    out = []
    for s in r.segs:
        if is_ib(s):
            c = next((c for c in (1, 2, 4, 8) if S.provable(zi(s.a.n) == c)), None)
            if c is not None:
                s = IB(s.a.t.arg(0), c, 'little' if s.rev else 'big')
        out.append(s)
    return mk(r.kind, out)


def unhex(r):
    """The bytes a text is the lower-case hex form of, or None."""
    out = []
    for s in segs_of(r):
        if isinstance(s, Hx):
            out += s.r.segs
        elif isinstance(s, Lit) and len(s.d) % 2 == 0 and all(c in '0123456789abcdef' for c in s.d):
            out.append(Lit(bytes.fromhex(s.d)))
        else:
            return None
    return mk('bytes', out)


def literal_choice(r):
    """r is a literal, or a choice between such."""
    if isinstance(r, (bytes, str)):
        return True
    return len(r.segs) == 1 and isinstance(r.segs[0], It) and literal_choice(r.segs[0].a) and literal_choice(r.segs[0].b)


def rope_eq(a, b):
    """bool or z3 Bool."""
    if isinstance(a, (bytes, str)) and isinstance(b, (bytes, str)):
        return a == b
    if kind_of(a) != kind_of(b):
        return False
    if rope_same(a, b):
        return True
    if kind_of(a) == 'str' and any(isinstance(s, Hx) for s in list(segs_of(a)) + list(segs_of(b))):
        x, y = unhex(a), unhex(b)
        if x is not None and y is not None:
            return rope_eq(x, y)
    a, b = fix_lengths(a), fix_lengths(b)
    if isinstance(a, (bytes, str)) and isinstance(b, (bytes, str)):
        return a == b
    if rope_same(a, b):
        return True
    for u, v in ((a, b), (b, a)):
        if literal_choice(u) and not isinstance(u, (bytes, str)) and (literal_choice(v) or not isinstance(v, (bytes, str))):
            g = u.segs[0]
            w = v.segs[0] if not isinstance(v, (bytes, str)) and len(v.segs) == 1 else None
            one = lambda side: rope_eq(getattr(g, side), getattr(w, side) if isinstance(w, It) and w.c.eq(g.c) else v)
            p, q = one('a'), one('b')
            if isinstance(p, bool) and isinstance(q, bool):
                return p if p == q else (g.c if p else z3.Not(g.c))
            return z3.simplify(z3.If(g.c, zb(p), zb(q)))
    la, lb = rope_len(a), rope_len(b)
    if isinstance(la, int) and isinstance(lb, int) and la != lb:
        return False
    cs = []
    if not same(la, lb):
        c = z3.simplify(zi(la) == zi(lb))
        if z3.is_false(c):
            return False
        if not S.provable(c):
            if S.provable(z3.Not(c)):
                return False
            cs.append(c)
    x, y = list(segs_of(a)), list(segs_of(b))
    # common prefix / suffix
    while x and y and seg_same(x[0], y[0]):
        x.pop(0), y.pop(0)
    while x and y and seg_same(x[-1], y[-1]):
        x.pop(), y.pop()
    if cs:
        # lengths may differ: compare under the assumption that they agree
        if not x or not y:
            return conj(cs)
        # align heads that provably have equal length; the remainder weakly
        while x and y:
            lx, ly = seg_len(x[0]), seg_len(y[0])
            if same(lx, ly) or S.provable(zi(lx) == zi(ly)):
                cs.append(seg_eq(x.pop(0), y.pop(0)))
                continue
            if isinstance(lx, int) and isinstance(ly, int):
                if lx < ly:
                    p, q = split_seg(y[0], lx)
                    y[0:1] = p + q
                else:
                    p, q = split_seg(x[0], ly)
                    x[0:1] = p + q
                continue
            break
        if x and y:
            lx, ly = seg_len(x[-1]), seg_len(y[-1])
            if len(x) == 1 and len(y) == 1:
                cs.append(weak_eq(x[0], y[0], la, lb))
            else:
                cs.append(rope_term(mk(kind_of(a), x)) == rope_term(mk(kind_of(b), y)))
        return conj(cs)
    guard = 0
    while x and y:
        guard += 1
        if guard > 4000:
            raise Unsupported('rope comparison too long')
        s, t = x[0], y[0]
        if seg_same(s, t):
            x.pop(0), y.pop(0)
            continue
        if isinstance(s, It) or isinstance(t, It):
            ls, lt = seg_len(s), seg_len(t)
            if isinstance(s, It) and isinstance(t, It) and s.c.eq(t.c) and same(ls, lt):
                cs.append(z3.If(s.c, zb(rope_eq(s.a, t.a)), zb(rope_eq(s.b, t.b))))
                x.pop(0), y.pop(0)
                continue
            if isinstance(s, It):
                x = expand_it(x)
            else:
                y = expand_it(y)
            continue
        ls, lt = seg_len(s), seg_len(t)
        if same(ls, lt):
            cs.append(seg_eq(s, t))
            x.pop(0), y.pop(0)
            continue
        if isinstance(ls, int) and isinstance(lt, int):
            if ls < lt:
                p, q = split_seg(t, ls)
                y[0:1] = p + q
            else:
                p, q = split_seg(s, lt)
                x[0:1] = p + q
            continue
        if S.provable(zi(ls) == zi(lt)):
            cs.append(seg_eq(s, t))
            x.pop(0), y.pop(0)
            continue
        if isinstance(s, Jn) or isinstance(t, Jn):
            j, o = (x, y) if isinstance(s, Jn) else (y, x)
            sj = j[0]
            if isinstance(o[0], Jn) and o[0].body is sj.body and same(o[0].lo, sj.lo):
                if S.decide(zi(o[0].hi) <= zi(sj.hi)):
                    rest = Jn(o[0].hi, sj.hi, sj.body)
                    o.pop(0)
                    j[0:1] = [rest]
                else:
                    rest = Jn(sj.hi, o[0].hi, sj.body)
                    j.pop(0)
                    o[0:1] = [rest]
                continue
            break
        try:
            if S.provable(zi(ls) <= zi(lt)):
                p, q = split_seg(t, ls)
                y[0:1] = p + q
            elif S.provable(zi(lt) <= zi(ls)):
                p, q = split_seg(s, lt)
                x[0:1] = p + q
            else:
                break
        except Unsupported:
            break
    if x and y:
        # try from the right end
        while x and y:
            ls, lt = seg_len(x[-1]), seg_len(y[-1])
            if seg_same(x[-1], y[-1]):
                x.pop(), y.pop()
            elif same(ls, lt) or S.provable(zi(ls) == zi(lt)):
                cs.append(seg_eq(x.pop(), y.pop()))
            else:
                break
    if x and y:
        cs.append(rope_term(mk(kind_of(a), x)) == rope_term(mk(kind_of(b), y)))
    else:
        for s in x + y:
            cs.append(zi(seg_len(s)) == 0)
    return conj(cs)


def weak_eq(s, t, la, lb):
    if isinstance(s, Lit) or isinstance(t, Lit):
        l, o = (s, t) if isinstance(s, Lit) else (t, s)
        if isinstance(o, Sl) and len(l.d) <= 128:
            # equal lengths are asserted alongside: compare elementwise
            es = [l.d[j] if isinstance(l.d, bytes) else ord(l.d[j]) for j in range(len(l.d))]
            return conj([elem_eq(seg_elem(o, j), es[j]) for j in range(len(es))])
        if isinstance(o, Rp) and len(o.u) == 1:
            return all(c == o.u for c in ([l.d[j:j + 1] for j in range(len(l.d))]))
        if isinstance(o, Hx):
            if any(c not in '0123456789abcdef' for c in l.d) or len(l.d) % 2:
                return False
            return rope_eq(o.r, bytes.fromhex(l.d))
    if isinstance(s, Hx) and isinstance(t, Hx):
        return rope_eq(s.r, t.r)
    if isinstance(s, Jn) and isinstance(t, Jn) and same(s.lo, t.lo):
        from . import loops
        if loops.fam_equal(s.lo, s.hi, s.body, t.body):
            return zi(s.hi) == zi(t.hi)
    return seg_term(s) == seg_term(t)


def zb(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


# ---- integers --------------------------------------------------------------------

def rope_int(r):
    """Big-endian value of a byte rope: int or z3 Int term."""
    if isinstance(r, bytes):
        return int.from_bytes(r, 'big')
    segs = list(r.segs)
    if any(isinstance(s, It) for s in segs):
        for j, s in enumerate(segs):
            if isinstance(s, It):
                segs[j:j + 1] = list(segs_of(s.a if S.decide(s.c) else s.b))
                return rope_int(mk('bytes', segs))
    # leading zeros do not matter
    while segs and isinstance(segs[0], Lit) and set(segs[0].d) == {0} or segs and isinstance(segs[0], Rp) and set(segs[0].u) == {0}:
        segs.pop(0)
    if not segs:
        return 0
    v = 0
    for s in segs:
        n = seg_len(s)
        if isinstance(s, Lit):
            x = int.from_bytes(s.d, 'big')
        elif isinstance(s, IB) and s.o == 'big':
            x = s.v
        elif isinstance(s, (Els, IB)):
            x = 0
            for j in range(n):
                e = seg_elem(s, j)
                x = norm(zi(x) * 256 + as_int_term(e))
        else:
            rr = mk('bytes', [s])
            x = f_be(rope_term(rr))
            S.reps[x.get_id()] = (rr, n)
            S.keep.append(x)
            S.fact(x >= 0)
            if isinstance(n, int):
                S.fact(x < 256 ** n)
                S.fact(f_ib(x, z3.IntVal(n)) == rope_term(rr))     # n bytes are determined by their value
        if isinstance(v, int) and v == 0:
            v = x
        elif isinstance(n, int):
            v = norm(zi(v) * (256 ** n) + zi(x))
        else:
            rr = mk('bytes', segs)
            v = f_be(rope_term(rr))
            S.reps[v.get_id()] = (rr, rope_len(rr))
            S.keep.append(v)
            S.fact(v >= 0)
            return v
    return v
