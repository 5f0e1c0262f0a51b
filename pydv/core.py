"""Symbolic values, path state and solver access for the pydv verifier."""
import time
import z3

z3.set_param('smt.random_seed', 1)


class Unsupported(Exception):
    """A construct outside the verifier's subset (never reported as a violation by itself)."""


class NeedFork(Exception):
    """Speculative (non-forking) evaluation met a symbolic branch."""


class PathAbort(Exception):
    """The current path is infeasible (an assumption failed)."""


class PyExc(Exception):
    """An exception of the verified program."""

    def __init__(self, cls, args=(), obj=None):
        super().__init__(cls.__name__)
        self.cls, self.pargs, self.obj = cls, tuple(args), obj

    def __repr__(self):
        return 'PyExc(%s)' % self.cls.__name__


class SInt:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SInt(%s)' % self.t


class SReal:
    """A symbolic float / Decimal, as an exact real.  dec: it is a Decimal; norm: one without trailing zeros (normalize)."""
    __slots__ = ('t', 'dec', 'norm')

    def __init__(self, t, dec=False, norm=False):
        self.t, self.dec, self.norm = t, dec, norm

    def __repr__(self):
        return 'SReal(%s)' % self.t


class SBool:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SBool(%s)' % self.t


class SBv:
    """A non-negative int held as a bit vector (for bit operations)."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    @property
    def w(self):
        return self.t.size()

    def __repr__(self):
        return 'SBv(%s)' % self.t


class VIte:
    """Either of two values, by condition; resolved by forking when used."""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Opaque:
    """An abstract value known only by its z3 term (uninterpreted sort V)."""
    __slots__ = ('t', 'cls')

    def __init__(self, t, cls=None):
        self.t, self.cls = t, cls

    def __repr__(self):
        return 'Opaque(%s)' % self.t


B = z3.DeclareSort('B')       # byte / character strings
V = z3.DeclareSort('V')       # opaque values


def norm(t):
    """z3 Int term -> python int when it is a numeral."""
    if isinstance(t, int):
        return t
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return t


def zi(x):
    if isinstance(x, z3.ExprRef):
        return x
    return z3.IntVal(x)


def mk_int(t):
    t = norm(t)
    return t if isinstance(t, int) else SInt(t)


def mk_bool(t):
    if isinstance(t, bool):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def same_shape(a, b):
    """The same condition, up to the numbers of names made since (a branch followed again makes them anew)."""
    if a.eq(b):
        return True
    ta = [(a, b)]
    names = {}
    n = 0
    while ta:
        a, b = ta.pop()
        n += 1
        if n > 20000:
            return True
        if a.eq(b):
            continue
        if not z3.is_app(a) or not z3.is_app(b):
            if z3.is_quantifier(a) and z3.is_quantifier(b):
                ta.append((a.body(), b.body()))
                continue
            return False
        if a.num_args() != b.num_args() or a.decl().kind() != b.decl().kind():
            return False
        na, nb = a.decl().name(), b.decl().name()
        if na != nb and (na.split('!')[0] != nb.split('!')[0] or names.setdefault(na, nb) != nb):
            return False
        for x, y in zip(a.children(), b.children()):
            ta.append((x, y))
    return True


class Trail:
    def __init__(self):
        self.items, self.pos = [], 0


class Stats:
    def __init__(self):
        self.queries = self.time = self.cached = self.unknown = 0
        self.paths = 0


class State:
    def __init__(self):
        self.stats = Stats()
        self.cache = {}
        self.keep = []
        self.deadline = None
        self.quick_ms = 4000
        self.oblig_ms = 20000
        self.reset()
        self.reads = {}
        self.unsummarised = set()      # while loops no summary was found for, by the form of their variables

    # ---- path life cycle -------------------------------------------------
    def reset(self, trail=None):
        self.solver = z3.Solver()
        self.solver.set('timeout', self.quick_ms)
        self.pc, self.pcids = [], []
        self.trails = [trail or Trail()]
        self.fresh_n = 0
        self.heap = []
        self.generic = []
        self.nofork = 0
        self.memo = {}
        self.over = {}
        self.journal = None
        self.reps = {}
        self.qfacts = []
        self.indices = []
        self.factset = set()
        self.depth = 0
        self.log = []
        self.idx_seen = set()
        self.steps = 0
        self.extra = {}

    def fresh_name(self, base):
        self.fresh_n += 1
        return '%s!%d' % (base, self.fresh_n)

    def _fresh(self, base, sort):
        name = self.fresh_name(base)
        if self.generic:
            idx = [g for g in self.generic]
            f = z3.Function(name, *([z3.IntSort()] * len(idx) + [sort]))
            return f(*idx)
        return z3.Const(name, sort)

    def fresh_int(self, base='i', lo=None, hi=None):
        t = self._fresh(base, z3.IntSort())
        if lo is not None:
            self.fact(t >= lo)
        if hi is not None:
            self.fact(t <= hi)
        return t

    def fresh_bool(self, base='b'):
        return self._fresh(base, z3.BoolSort())

    def fresh_real(self, base='r'):
        return self._fresh(base, z3.RealSort())

    def fresh_b(self, base='s'):
        return self._fresh(base, B)

    def fresh_v(self, base='v'):
        return self._fresh(base, V)

    def fresh_bv(self, w, base='x'):
        return self._fresh(base, z3.BitVecSort(w))

    # ---- assumptions ---------------------------------------------------
    def _add(self, t):
        self.keep.append(t)
        self.pc.append(t)
        self.pcids.append(t.get_id())
        self.solver.add(t)

    def fact(self, t):
        """A formula that is valid for every execution (definition, domain fact)."""
        if isinstance(t, bool):
            if not t:
                raise PathAbort()
            return
        t = z3.simplify(t)
        if z3.is_true(t):
            return
        i = t.get_id()
        if i in self.factset:
            if self.journal is not None and not any(f.get_id() == i for f in self.journal):
                self.journal.append(t)
            return
        self.factset.add(i)
        if self.journal is not None:
            self.journal.append(t)
        self._add(t)

    def assume(self, t):
        """A path condition."""
        if isinstance(t, bool):
            if not t:
                raise PathAbort()
            return
        t = z3.simplify(t)
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise PathAbort()
        self._add(t)

    def check(self, t, ms=None, full=False):
        """Satisfiability of pc and t: 'sat' | 'unsat' | 'unknown' (cached)."""
        t = z3.simplify(t)
        if z3.is_false(t):
            return 'unsat'
        key = (tuple(self.pcids), t.get_id())
        r = self.cache.get(key)
        if r is not None and not (r == 'unknown' and full):
            self.stats.cached += 1
            return r
        if self.deadline and time.monotonic() > self.deadline:
            raise Unsupported('time budget of this obligation group exhausted')
        self.keep.append(t)
        self.stats.queries += 1
        t0 = time.monotonic()
        self.solver.set('timeout', ms or self.quick_ms)
        self.solver.push()
        self.solver.add(t)
        r = str(self.solver.check())
        self.solver.pop()
        dt = time.monotonic() - t0
        if dt > 1.0:
            import os
            if os.environ.get('PYDV_SLOW'):
                print('SLOW %.1fs %s %s' % (dt, r, str(t)[:300]))
                d = os.environ.get('PYDV_DUMP')
                if d:
                    s = z3.Solver()
                    s.add(self.pc + [t])
                    open('%s/%d.smt2' % (d, self.stats.queries), 'w').write(s.to_smt2())
        if r == 'unknown' and linear_part(self.pc, t, ms or self.quick_ms) == 'unsat':
            r = 'unsat'
        if r == 'unknown':
            r = second_opinion(self.pc, t, ms or self.quick_ms, full)
            if r == 'unknown':
                self.stats.unknown += 1
        self.stats.time += time.monotonic() - t0
        self.cache[key] = r
        return r

    def provable(self, c, ms=None):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False if False else self.check(z3.BoolVal(True)) == 'unsat'
        return self.check(z3.Not(c), ms) == 'unsat'

    def decide(self, c):
        """Branch on a condition: True/False, forking the exploration when both are possible."""
        if isinstance(c, SBool):
            c = c.t
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        tr = self.trails[-1]
        if not self.nofork and tr.pos < len(tr.items):
            val = tr.items[tr.pos][0]
            if not same_shape(c, tr.items[tr.pos][2]):
                raise Unsupported('a path could not be followed again')
            tr.pos += 1
            self.assume(c if val else z3.Not(c))
            if self.hook is not None:
                self.hook(c)
            return val
        rt = self.check(c)
        rf = self.check(z3.Not(c))
        if rt == 'unsat' and rf == 'unsat':
            raise PathAbort()
        if rt == 'unsat' or rf == 'unsat':
            val, opened = rt != 'unsat', False
        else:
            if self.nofork:
                raise NeedFork()
            val, opened = True, True
        if not self.nofork:
            tr.items.append([val, opened, c])
            tr.pos += 1
        self.assume(c if val else z3.Not(c))
        if self.hook is not None:
            self.hook(c)
        return val

    hook = None

    def save_q(self):
        return list(self.indices), set(self.idx_seen), list(self.qfacts)

    def load_q(self, q):
        """Back to an earlier set of index terms; definitions made since stay."""
        self.indices, self.idx_seen = list(q[0]), set(q[1])
        old = {id(x) for x in q[2]}
        self.qfacts = list(q[2]) + [x for x in self.qfacts if x[4] and id(x) not in old]

    # ---- exploration -----------------------------------------------------
    def snapshot(self):
        return [(o, o.snap()) for o in self.heap], dict(self.over)

    def restore(self, snap):
        heap, over = snap
        for o, s in heap:
            o.unsnap(s)
        self.over = dict(over)

    def subexplore(self, thunk, limit=400):
        """Explore every path of thunk() from the current state; yields after-states through
        the callback's return value.  The heap is restored afterwards."""
        outs = []
        trail = Trail()
        snap = self.snapshot()
        nheap = len(self.heap)
        save_nofork, self.nofork = self.nofork, 0
        save_journal = self.journal
        while True:
            self.journal = []
            self.trails.append(trail)
            trail.pos = 0
            npc = len(self.pc)
            memo = {k: list(v) for k, v in self.memo.items()}
            fs = set(self.factset)
            qs = self.save_q()
            self.solver.push()
            try:
                outs.append(thunk())
            except PathAbort:
                pass
            finally:
                self.trails.pop()
                self.solver.pop()
                conds = self.pc[npc:]
                del self.pc[npc:], self.pcids[npc:]
                facts = self.journal
                self.journal = save_journal
                self.restore(snap)
                del self.heap[nheap:]
                self.memo = memo
                self.factset = fs
                self.load_q(qs)
            for f in facts:
                self.fact(f)
            if len(outs) > limit:
                self.nofork = save_nofork
                raise Unsupported('too many paths in a nested exploration')
            while trail.items and not trail.items[-1][1]:
                trail.items.pop()
            if not trail.items:
                break
            trail.items[-1] = [not trail.items[-1][0], False, trail.items[-1][2]]
        self.nofork = save_nofork
        return outs


def second_opinion(pc, t, ms, full):
    """Retry an 'unknown' in a fresh solver (no incremental mode)."""
    s = z3.Solver()
    s.set('timeout', ms if not full else 3 * ms)
    for a in pc:
        s.add(a)
    s.add(t)
    return str(s.check())


_nonlinear = {}


def nonlinear(t):
    """t multiplies or divides by something unknown."""
    key = t.get_id()
    r = _nonlinear.get(key)
    if r is None:
        k = t.decl().kind() if z3.is_app(t) else None
        if k == z3.Z3_OP_MUL and sum(not z3.is_int_value(x) and not z3.is_rational_value(x) for x in t.children()) > 1 or \
                k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_DIV) and not (z3.is_int_value(t.arg(1)) or z3.is_rational_value(t.arg(1))):
            r = True
        else:
            r = any(nonlinear(x) for x in t.children())
        _nonlinear[key] = (t, r)
        return r
    return r[1]


def linear_part(pc, t, ms):
    """Satisfiability without the assumptions the solver may get lost in (only 'unsat' is an answer)."""
    part = [a for a in pc if not nonlinear(a)]
    if len(part) == len(pc):
        return 'unknown'
    s = z3.Solver()
    s.set('timeout', ms)
    s.add(part)
    s.add(t)
    return str(s.check())


S = State()


class Heap:
    """Base of mutable interpreted objects (registered for snapshots)."""

    def __init__(self):
        S.heap.append(self)


class PObj(Heap):
    def __init__(self, cls, fields=None, origin=None):
        super().__init__()
        self.cls, self.fields, self.origin = cls, dict(fields or {}), origin
        self.home = None               # (body, index) the object was first read from: its identity

    def snap(self):
        return dict(self.fields), self.origin

    def unsnap(self, s):
        self.fields, self.origin = dict(s[0]), s[1]

    def __repr__(self):
        return '<%s %s>' % (self.cls.__name__, self.fields)


class Seg:
    """Part of a list: concrete items or an indexed family of items."""


class LitSeg(Seg):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = list(items)


class MapSeg(Seg):
    """items body(j) for lo <= j < hi."""
    __slots__ = ('lo', 'hi', 'body')

    def __init__(self, lo, hi, body):
        self.lo, self.hi, self.body = lo, hi, body


class Body(Heap):
    """A value depending on an index variable; shared (and updated) by the lists that hold it."""

    def __init__(self, k, value, facts=(), maker=None):
        super().__init__()
        self.k, self.value, self.facts, self.maker = k, value, list(facts), maker
        self.cache = {}
        self.version = 0
        self.shift = None
        self.distinct = False          # a rearrangement: different indices give different items of another list
        self.stale = False             # items were written through a rearrangement of this list

    def snap(self):
        return self.k, self.value, list(self.facts), self.maker, dict(self.cache), self.version, self.stale

    def unsnap(self, s):
        self.k, self.value, self.facts, self.maker, self.cache, self.version, self.stale = s
        self.cache = dict(self.cache)
        self.facts = list(self.facts)


class PList(Heap):
    """list / deque / (tuple of symbolic length)."""

    def __init__(self, items=(), segs=None, kind='list'):
        super().__init__()
        self.kind = kind
        self.segs = list(segs) if segs is not None else ([LitSeg(items)] if len(items) else [])
        self.track = None

    def snap(self):
        return [LitSeg(s.items) if isinstance(s, LitSeg) else s for s in self.segs], self.track

    def unsnap(self, s):
        self.segs, self.track = [LitSeg(x.items) if isinstance(x, LitSeg) else x for x in s[0]], s[1]

    @property
    def concrete(self):
        return all(isinstance(s, LitSeg) for s in self.segs)

    @property
    def items(self):
        if not self.concrete:
            raise Unsupported('list of symbolic length where a concrete one is needed')
        out = []
        for s in self.segs:
            out += s.items
        return out

    def set_items(self, items):
        self.segs = [LitSeg(items)] if items else []

    def length(self):
        n = 0
        for s in self.segs:
            n = n + (len(s.items) if isinstance(s, LitSeg) else zi(s.hi) - zi(s.lo))
        return norm(n)

    def __repr__(self):
        return 'PList(%s)' % [s.items if isinstance(s, LitSeg) else ('map', s.lo, s.hi) for s in self.segs]


class PDict(Heap):
    def __init__(self, pairs=()):
        super().__init__()
        self.pairs = [list(p) for p in pairs]      # insertion ordered [key, value]

    def snap(self):
        return [list(p) for p in self.pairs]

    def unsnap(self, s):
        self.pairs = [list(p) for p in s]

    def __repr__(self):
        return 'PDict(%s)' % self.pairs


class PSet(Heap):
    def __init__(self, items=()):
        super().__init__()
        self.items = list(items)

    def snap(self):
        return list(self.items)

    def unsnap(self, s):
        self.items = list(s)
