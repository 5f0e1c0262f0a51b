"""Input domains: symbolic values for proof, generated values for the falsifier."""
import z3
from .core import *
from .ropes import *
from . import interp as I

MINED = {'ints': [], 'bytes': [], 'strs': []}


def mine(files):
    """Constants of the current source, used to bias generated inputs."""
    import ast
    ints, bs, ss = set(), set(), set()
    for f in files:
        try:
            tree = ast.parse(open(f, encoding='utf-8').read())
        except (OSError, SyntaxError):
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant):
                v = n.value
                if isinstance(v, bool):
                    continue
                if isinstance(v, int):
                    ints.add(v)
                elif isinstance(v, bytes) and len(v) <= 64:
                    bs.add(v)
                elif isinstance(v, str) and 0 < len(v) <= 64 and '\n' not in v:
                    ss.add(v)
    MINED['ints'] = sorted(ints)
    MINED['bytes'] = sorted(bs)
    MINED['strs'] = sorted(ss)


class Dom:
    bounded = False

    def sym(self, name):
        raise NotImplementedError

    def gen(self, rng):
        raise NotImplementedError

    def fits(self, v):
        """v is an input of this domain (asked of a counterexample before it is run)."""
        return True


class Int(Dom):
    def __init__(self, lo=None, hi=None, pool=()):
        self.lo, self.hi, self.pool = lo, hi, list(pool)

    def sym(self, name):
        return SInt(S.fresh_int(name, self.lo, self.hi))

    def ok(self, v):
        return (self.lo is None or v >= self.lo) and (self.hi is None or v <= self.hi)

    def fits(self, v):
        return isinstance(v, int) and self.ok(v)

    def gen(self, rng):
        for _ in range(50):
            r = rng.random()
            if r < 0.25:
                base = self.pool + [x for x in (self.lo, self.hi) if x is not None] + [0, 1, 252, 253, 75, 76, 255, 256,
                                                                                       65535, 65536, 2 ** 32 - 1, 2 ** 32]
                v = rng.choice(base) + rng.choice((-1, 0, 0, 0, 1))
            elif r < 0.45 and MINED['ints']:
                v = rng.choice(MINED['ints']) + rng.choice((-1, 0, 1))
            elif r < 0.6:
                v = 2 ** rng.randrange(0, 66) + rng.choice((-1, 0, 1))
            elif r < 0.8 and self.lo is not None and self.hi is not None:
                v = rng.randint(self.lo, self.hi)
            else:
                v = rng.getrandbits(rng.randrange(1, 72))
                if (self.lo is None or self.lo < 0) and rng.random() < 0.3:
                    v = -v
            if self.ok(v):
                return v
        return self.lo if self.lo is not None else (self.hi if self.hi is not None else 0)


class Bool(Dom):
    def sym(self, name):
        return SBool(S.fresh_bool(name))

    def fits(self, v):
        return isinstance(v, bool)

    def gen(self, rng):
        return rng.random() < 0.5


class BvInt(Dom):
    """0 <= v < 2**w, as a bit vector."""

    def __init__(self, w, hi=None):
        self.w, self.hi = w, hi

    def sym(self, name):
        t = S.fresh_bv(self.w, name)
        if self.hi is not None:
            S.fact(z3.ULE(t, self.hi))
        return SBv(t)

    def fits(self, v):
        return isinstance(v, int) and 0 <= v <= (self.hi if self.hi is not None else 2 ** self.w - 1)

    def gen(self, rng):
        return Int(0, self.hi if self.hi is not None else 2 ** self.w - 1).gen(rng)


class Choice(Dom):
    """One of a finite set of native values (exhaustive when symbolic)."""

    def __init__(self, *vals):
        self.vals = vals

    def sym(self, name):
        for j in range(len(self.vals) - 1):
            if S.decide(S.fresh_bool('%s_is%d' % (name, j))):
                return I.from_native(self.vals[j])
        return I.from_native(self.vals[-1])

    def gen(self, rng):
        import copy
        return copy.deepcopy(rng.choice(self.vals))


class OneOf(Dom):
    """Union of domains."""

    def __init__(self, *doms):
        self.doms = doms

    def sym(self, name):
        for j in range(len(self.doms) - 1):
            if S.decide(S.fresh_bool('%s_alt%d' % (name, j))):
                return self.doms[j].sym(name)
        return self.doms[-1].sym(name)

    def fits(self, v):
        return any(d.fits(v) for d in self.doms)

    def gen(self, rng):
        return rng.choice(self.doms).gen(rng)


LENS = [0, 1, 2, 3, 4, 5, 19, 20, 21, 24, 25, 31, 32, 33, 34, 64, 65, 74, 75, 76, 77, 79, 80, 81, 100]
BIGLENS = [251, 252, 253, 254, 255, 256, 257, 519, 520, 521]


MAXLEN = 2 ** 63 - 1      # no CPython object is longer


class Bytes(Dom):
    """n: None (any length), int, or (lo, hi)."""

    def __init__(self, n=None, lo=0, hi=None, gen_hi=140, els=False):
        self.n, self.lo, self.hi, self.gen_hi, self.els = n, lo, hi, gen_hi, els
        if isinstance(n, tuple):
            self.n, self.lo, self.hi = None, n[0], n[1]

    def sym(self, name):
        if self.n is not None:
            if self.els:
                return mk('bytes', [Els([S.fresh_bv(8, '%s%d' % (name, j)) for j in range(self.n)])]) if self.n else b''
            return atom('bytes', name, n=self.n) if self.n else b''
        r = atom('bytes', name)
        n = rope_len(r)
        S.fact(n >= self.lo)
        S.fact(n <= (self.hi if self.hi is not None else MAXLEN))
        return r

    def length(self, rng):
        if self.n is not None:
            return self.n
        if BIG[0]:
            return max(self.lo, min(self.hi if self.hi is not None else 9, rng.randrange(0, 9)))
        hi = self.hi if self.hi is not None else 10 ** 9
        for _ in range(50):
            r = rng.random()
            if r < 0.4:
                n = rng.choice(LENS)
            elif r < 0.5 and self.gen_hi >= 140:
                n = rng.choice(BIGLENS)
            elif r < 0.6 and MINED['ints']:
                n = rng.choice(MINED['ints']) + rng.choice((-1, 0, 1))
            else:
                n = rng.randrange(0, min(hi, self.gen_hi) + 1)
            if self.lo <= n <= hi and n < 2000:
                return n
        return self.lo

    def fits(self, v):
        return isinstance(v, bytes) and (len(v) == self.n if self.n is not None else self.lo <= len(v) <= (self.hi if self.hi is not None else MAXLEN))

    def gen(self, rng):
        n = self.length(rng)
        r = rng.random()
        if r < 0.08:
            return bytes(n)
        if r < 0.12:
            return b'\xff' * n
        b = bytes(rng.getrandbits(8) for _ in range(n))
        if r < 0.4:
            z = rng.randrange(0, n + 1)
            b = bytes(z) + b[z:]
        elif r < 0.45:
            z = rng.randrange(0, n + 1)
            b = b[:z] + bytes(n - z)
        elif r < 0.55 and MINED['bytes']:
            p = rng.choice(MINED['bytes'])
            b = (p + b)[:n]
        elif r < 0.6 and n:
            b = bytes([rng.choice((0, 1, 2, 3, 4, 0x7f, 0x80, 0xfd, 0xff))]) + b[1:]
        return b


class Text(Dom):
    """Arbitrary text (or over an alphabet)."""

    def __init__(self, n=None, lo=0, hi=None, alphabet=None, bits=None, gen_hi=60):
        self.n, self.lo, self.hi, self.alphabet, self.bits, self.gen_hi = n, lo, hi, alphabet, bits, gen_hi

    def sym(self, name):
        if self.n is not None and self.bits:
            return mk('str', [Els([S.fresh_bv(self.bits, '%s%d' % (name, j)) for j in range(self.n)])]) if self.n else ''
        tag = ('charset', self.alphabet) if self.alphabet else None
        r = atom('str', name, n=self.n, tag=tag) if self.n != 0 else ''
        if self.n is None:
            n = rope_len(r)
            S.fact(n >= self.lo)
            if self.hi is not None:
                S.fact(n <= self.hi)
        return r

    def fits(self, v):
        if not isinstance(v, str) or any(0xd800 <= ord(c) < 0xe000 for c in v):
            return False
        if self.n is not None and len(v) != self.n:
            return False
        if self.n is None and not self.lo <= len(v) <= (self.hi if self.hi is not None else MAXLEN):
            return False
        return not (self.alphabet and any(c not in self.alphabet for c in v)) and not (self.bits and any(ord(c) >> self.bits for c in v))

    def gen(self, rng):
        n = self.n if self.n is not None else Bytes(None, self.lo, self.hi, self.gen_hi).length(rng)
        al = self.alphabet
        if al:
            if rng.random() < 0.15:
                return rng.choice(al) * n
            return ''.join(rng.choice(al) for _ in range(n))
        if self.bits:
            return ''.join(chr(rng.randrange(0, 2 ** self.bits)) for _ in range(n))
        r = rng.random()
        if r < 0.5:
            return ''.join(chr(rng.randrange(32, 127)) for _ in range(n))
        if r < 0.7:
            return ''.join(rng.choice('0123456789abcdef') for _ in range(n))
        return ''.join(chr(rng.choice((0, 9, 10, 32, 48, 65, 97, 0xe9, 0x20ac, 0x1f600, rng.randrange(1, 0xd800)))) for _ in range(n))


class HexText(Dom):
    """Lower-case hex text of n bytes."""

    def __init__(self, n=None, **kw):
        self.b = Bytes(n, **kw)

    def sym(self, name):
        b = self.b.sym(name)
        return b.hex() if isinstance(b, bytes) else mk('str', [Hx(b)])

    def fits(self, v):
        return isinstance(v, str) and len(v) % 2 == 0 and all(c in '0123456789abcdef' for c in v) and self.b.fits(bytes.fromhex(v))

    def gen(self, rng):
        return self.b.gen(rng).hex()


class Real(Dom):
    """Exact decimal; native: a Decimal with at most `places` places."""

    def __init__(self, lo=None, hi=None, places=8, strict=False):
        self.lo, self.hi, self.places, self.strict = lo, hi, places, strict

    def sym(self, name):
        t = S.fresh_real(name)
        if self.lo is not None:
            S.fact(t > self.lo if self.strict else t >= self.lo)
        if self.hi is not None:
            S.fact(t <= self.hi)
        return SReal(t, True)

    def fits(self, v):
        return (self.lo is None or (v > self.lo if self.strict else v >= self.lo)) and (self.hi is None or v <= self.hi)

    def gen(self, rng):
        import decimal
        lo = self.lo if self.lo is not None else -10 ** 6
        hi = self.hi if self.hi is not None else 10 ** 8
        p = rng.randrange(0, self.places + 1)
        for _ in range(20):
            v = decimal.Decimal(rng.randint(int(lo * 10 ** p), int(hi * 10 ** p))) / (10 ** p)
            q = rng.random()
            if q < 0.3:
                v = decimal.Decimal(rng.randint(0, 1000)) / (10 ** rng.randrange(0, self.places + 1))
            elif q < 0.5:
                v = decimal.Decimal(rng.randint(0, 1000)) / (10 ** rng.randrange(0, self.places // 2 + 1))
                v -= decimal.Decimal(1) / (10 ** rng.randrange(0, self.places + 1))
            if (v > lo if self.strict else v >= lo) and v <= hi:
                return v
        return decimal.Decimal(hi)


class Tup(Dom):
    def __init__(self, *doms):
        self.doms = doms

    def sym(self, name):
        return tuple(d.sym('%s_%d' % (name, j)) for j, d in enumerate(self.doms))

    def fits(self, v):
        return len(v) == len(self.doms) and all(d.fits(x) for d, x in zip(self.doms, v))

    def gen(self, rng):
        return tuple(d.gen(rng) for d in self.doms)


class Rec(Dom):
    """Instance of a class with the given fields (no constructor run)."""

    def __init__(self, cls, **fields):
        self.cls, self.fields = cls, fields

    def sym(self, name):
        return PObj(self.cls, {n: d.sym('%s_%s' % (name, n)) if isinstance(d, Dom) else d for n, d in self.fields.items()})

    def fits(self, v):
        return all(d.fits(getattr(v, n)) for n, d in self.fields.items() if isinstance(d, Dom))

    def gen(self, rng):
        o = object.__new__(self.cls)
        for n, d in self.fields.items():
            setattr(o, n, d.gen(rng) if isinstance(d, Dom) else d)
        return o


BIG = [False]


class Lst(Dom):
    """n: int (exact), or None: any length lo..hi (a family when symbolic)."""

    def __init__(self, elem, n=None, lo=0, hi=None, gen_hi=6, kind='list'):
        self.elem, self.n, self.lo, self.hi, self.gen_hi, self.kind = elem, n, lo, hi, gen_hi, kind

    def sym(self, name):
        if self.n is not None:
            return PList([self.elem.sym('%s%d' % (name, j)) for j in range(self.n)], kind=self.kind)
        from . import loops
        n = S.fresh_int(name + '_n', self.lo, self.hi if self.hi is not None else MAXLEN)
        k = loops.new_k()
        S.generic.append(k)
        save, S.journal = S.journal, []
        try:
            v = self.elem.sym(name)
            facts = S.journal
        finally:
            S.generic.pop()
            S.journal = save
        if save is not None:
            save.extend(facts)
        return PList(segs=[MapSeg(0, n, Body(k, v, [f for f in facts]))], kind=self.kind)

    def fits(self, v):
        if not (len(v) == self.n if self.n is not None else self.lo <= len(v) <= (self.hi if self.hi is not None else MAXLEN)):
            return False
        return all(self.elem.fits(x) for x in v)

    def gen(self, rng):
        n = self.n
        if n is None:
            hi = self.hi if self.hi is not None else self.gen_hi
            n = rng.randint(self.lo, max(self.lo, min(hi, self.gen_hi)))
            r = rng.random()
            if r < 0.2:
                n = self.lo
            elif r < 0.22 and self.hi is None and not BIG[0]:
                n = max(self.lo, rng.choice((75, 76, 252, 253, 254, 255, 256, 257, 300)))
                BIG[0] = True                # a long list of short parts
                try:
                    return [self.elem.gen(rng) for _ in range(n)]
                finally:
                    BIG[0] = False
        return [self.elem.gen(rng) for _ in range(n)]


class Maybe(Dom):
    def __init__(self, dom, none=None):
        self.dom, self.none = dom, none

    def sym(self, name):
        if S.decide(S.fresh_bool(name + '_none')):
            return self.none
        return self.dom.sym(name)

    def fits(self, v):
        return v is self.none or v == self.none or self.dom.fits(v)

    def gen(self, rng):
        return self.none if rng.random() < 0.3 else self.dom.gen(rng)


class Gen(Dom):
    """Native generator with a separate symbolic maker."""

    def __init__(self, g, s=None):
        self.g, self.s = g, s

    def sym(self, name):
        if self.s is None:
            raise Unsupported('no symbolic form of this input')
        return self.s(name)

    def gen(self, rng):
        return self.g(rng)


# ---- counterexamples -------------------------------------------------------------------------

class NoValue(Exception):
    pass


def concretize(m, v, depth=0):
    """Native value of v in a z3 model."""
    if depth > 30:
        raise NoValue()
    ev = lambda t: m.eval(t, model_completion=True)

    def ival(t):
        if isinstance(t, int):
            return t
        x = ev(t)
        if z3.is_int_value(x):
            return x.as_long()
        raise NoValue()
    if isinstance(v, SInt):
        return ival(v.t)
    if isinstance(v, SBool):
        return z3.is_true(ev(v.t))
    if isinstance(v, SBv):
        return ev(v.t).as_long()
    if isinstance(v, SReal):
        import decimal
        x = ev(v.t)
        if z3.is_rational_value(x):
            return decimal.Decimal(x.numerator_as_long()) / decimal.Decimal(x.denominator_as_long())
        raise NoValue()
    if isinstance(v, VIte):
        a = v.a if z3.is_true(ev(v.c)) else v.b
        return concretize(m, a, depth + 1)
    if isinstance(v, Rope):
        out = []
        for s in v.segs:
            out.append(conc_seg(m, s, v.kind, ival, ev, depth))
        return (b'' if v.kind == 'bytes' else '').join(out)
    if isinstance(v, PList):
        from . import loops
        items = []
        for s in v.segs:
            if isinstance(s, LitSeg):
                items += [concretize(m, x, depth + 1) for x in s.items]
            else:
                lo, hi = ival(s.lo), ival(s.hi)
                if hi - lo > 400:
                    raise NoValue()
                for j in range(lo, hi):
                    items.append(concretize(m, loops.inst(s.body, j), depth + 1))
        return items if v.kind != 'tuple' else tuple(items)
    if isinstance(v, PDict):
        return {concretize(m, k, depth + 1): concretize(m, x, depth + 1) for k, x in v.pairs}
    if isinstance(v, tuple):
        items = [concretize(m, x, depth + 1) for x in v]
        return type(v)(*items) if hasattr(v, '_fields') else tuple(items)
    if isinstance(v, PObj):
        o = object.__new__(v.cls)
        for n, x in v.fields.items():
            setattr(o, n, concretize(m, x, depth + 1))
        return o
    if isinstance(v, (Opaque, I.Poison)):
        raise NoValue()
    return v


def conc_seg(m, s, kind, ival, ev, depth):
    def chars(es):
        if kind == 'bytes':
            return bytes(e % 256 for e in es)
        return ''.join(chr(e) if 0 <= e < 0x110000 and not 0xd800 <= e < 0xe000 else '?' for e in es)

    def one(e):
        if isinstance(e, int):
            return e
        x = ev(e)
        return x.as_long()
    if isinstance(s, Lit):
        return s.d
    if isinstance(s, Els):
        return chars([one(e) for e in s.e])
    if isinstance(s, Sl):
        lo, hi = ival(s.lo), ival(s.hi)
        if hi - lo > 5000:
            raise NoValue()
        # the value of be(atom), when the model mentions it, decides the bytes
        if s.a.kind == 'bytes' and isinstance(s.a.n, int) and not s.rev and lo == 0 and hi == s.a.n:
            b = m.eval(f_be(s.a.t), model_completion=False)
            if z3.is_int_value(b) and 0 <= b.as_long() < 256 ** s.a.n:
                return b.as_long().to_bytes(s.a.n, 'big')
        xs = []
        for j in range(lo, hi):
            e = m.eval(f_at(s.a.t, z3.IntVal(j)), model_completion=True)
            x = e.as_long() if z3.is_int_value(e) else 0
            if s.a.tag and s.a.tag[0] == 'charset' and not (0 <= x < 0x110000 and chr(x) in s.a.tag[1]):
                x = ord(s.a.tag[1][0])
            xs.append(x)
        return chars(xs[::-1] if s.rev else xs)
    if isinstance(s, IB):
        return (ival(s.v) % 256 ** s.n).to_bytes(s.n, s.o)
    if isinstance(s, Hx):
        r = s.r if isinstance(s.r, bytes) else concretize(m, s.r, depth + 1)
        return r.hex()
    if isinstance(s, Rp):
        return s.u * ival(s.n)
    if isinstance(s, It):
        return concretize(m, s.a if z3.is_true(ev(s.c)) else s.b, depth + 1) if True else None
    if isinstance(s, Jn):
        from . import loops
        return (b'' if kind == 'bytes' else '').join(
            concretize(m, loops.inst(s.body, j), depth + 1) for j in range(ival(s.lo), min(ival(s.hi), ival(s.lo) + 400)))
    raise NoValue()


class DecText(Dom):
    """Decimal number as text (symbolic: the text of an exact real)."""

    def __init__(self, lo=0, hi=None, places=8):
        self.r = Real(lo, hi, places)

    def sym(self, name):
        from . import models
        return models.real_text(self.r.sym(name).t)

    def gen(self, rng):
        return '{:f}'.format(self.r.gen(rng))
