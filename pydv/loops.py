"""Families of values indexed by a symbolic position, and loops over them.

A loop over a symbolic-length iterable is executed once, at a generic iteration k, from a state whose loop-carried
locations hold placeholders.  What the body does to the placeholders gives the closed form of the state after k
iterations (an inductive invariant that is checked by that very execution: base case = initial value, step = body).
"""
import ast
import hashlib
import os
import z3

from .core import *
from .ropes import *
from . import ropes
from . import interp as I

K = [z3.Int('K%d' % i) for i in range(8)]


_consts = {}


def consts_of(t):
    r = _consts.get(t.get_id())
    if r is None:
        if len(_consts) > 200000:
            _consts.clear()
        r = _consts[t.get_id()] = (consts_of_(t), t)
    return r[0]


def consts_of_(t, out=None, seen=None):
    out = {} if out is None else out
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[x.decl().name()] = x
        stack.extend(x.children())
    return out


def has_var(t, v):
    if isinstance(t, int):
        return False
    return v.decl().name() in consts_of(t)


# ---- substitution --------------------------------------------------------------------

def subst_t(t, k, j):
    if isinstance(t, int):
        return t
    return z3.substitute(t, (k, zi(j)))


def subst(v, k, j):
    s = lambda t: norm(subst_t(t, k, j)) if not isinstance(t, int) else t
    if isinstance(v, SInt):
        return mk_int(subst_t(v.t, k, j))
    if isinstance(v, SBool):
        return mk_bool(subst_t(v.t, k, j))
    if isinstance(v, SReal):
        return SReal(z3.simplify(subst_t(v.t, k, j)), v.dec)
    if isinstance(v, SBv):
        return I.mk_bv(subst_t(v.t, k, j))
    if isinstance(v, Opaque):
        return Opaque(subst_t(v.t, k, j), v.cls)
    if isinstance(v, VIte):
        return I.merge(z3.simplify(subst_t(v.c, k, j)), subst(v.a, k, j), subst(v.b, k, j))
    if isinstance(v, Rope):
        return mk(v.kind, [subst_seg(x, k, j) for x in v.segs])
    if isinstance(v, tuple):
        items = [subst(x, k, j) for x in v]
        return type(v)(*items) if hasattr(v, '_fields') else tuple(items)
    if isinstance(v, PList):
        out = []
        for x in v.segs:
            if isinstance(x, LitSeg):
                out.append(LitSeg([subst(y, k, j) for y in x.items]))
            else:
                out.append(MapSeg(s(x.lo), s(x.hi), subst_body(x.body, k, j)))
        return PList(segs=out, kind=v.kind)
    if isinstance(v, PObj):
        return PObj(v.cls, {n: subst(x, k, j) for n, x in v.fields.items()})
    if isinstance(v, PDict):
        return PDict([(subst(a, k, j), subst(b, k, j)) for a, b in v.pairs])
    return v


def subst_body(b, k, j):
    if b.maker is not None:
        mkr = b.maker
        return Body(b.k, subst(body_value(b), k, j), [subst_t(f, k, j) for f in b.facts])
    return Body(b.k, subst(b.value, k, j), [subst_t(f, k, j) for f in b.facts])


def subst_seg(x, k, j):
    s = lambda t: norm(subst_t(t, k, j)) if not isinstance(t, int) else t
    if isinstance(x, Lit):
        return x
    if isinstance(x, Els):
        return Els([e if isinstance(e, int) else z3.simplify(subst_t(e, k, j)) if z3.is_bv(e) else s(e) for e in x.e])
    if isinstance(x, Sl):
        return Sl(Atom(subst_t(x.a.t, k, j), s(x.a.n), x.a.kind, x.a.tag), s(x.lo), s(x.hi), x.rev)
    if isinstance(x, IB):
        return IB(s(x.v), x.n, x.o)
    if isinstance(x, Hx):
        return Hx(subst(x.r, k, j))
    if isinstance(x, Rp):
        return Rp(x.u, s(x.n))
    if isinstance(x, It):
        c = z3.simplify(subst_t(x.c, k, j))
        if z3.is_true(c):
            return mk_seg(subst(x.a, k, j))
        if z3.is_false(c):
            return mk_seg(subst(x.b, k, j))
        return It(c, subst(x.a, k, j), subst(x.b, k, j))
    if isinstance(x, Jn):
        return Jn(s(x.lo), s(x.hi), subst_body(x.body, k, j))
    raise Unsupported('substitution')


def mk_seg(v):
    return Rope(kind_of(v), segs_of(v)) if isinstance(v, Rope) else Lit(v)


def new_k():
    return z3.Int(S.fresh_name('k'))


def body_value(b):
    """Value at the body's own generic index."""
    if b.maker is not None and b.value is None:
        b.value = b.maker(b.k)
    return b.value


def note_index(j):
    """Instantiate the universally quantified facts at a new index term."""
    if isinstance(j, int):
        j = z3.IntVal(j)
    if j.get_id() in S.idx_seen:
        return
    S.idx_seen.add(j.get_id())
    S.indices.append(j)
    for (k, lo, hi, f, d) in list(S.qfacts):
        add_q(k, lo, hi, f, d, j)


def perm_at(perm, inv, n, j):
    """Every position j of the original list is position inv(j) of the rearranged one."""
    save, S.journal = S.journal, None
    S.fact(z3.Implies(z3.And(0 <= j, j < zi(n)), z3.And(perm(inv(j)) == j, 0 <= inv(j), inv(j) < zi(n))))
    S.journal = save
    note_index(inv(j))


def perm_injective(t):
    """Different positions of a rearranged list hold different items."""
    for (perm, inv, n) in S.extra.get('perms', ()):
        todo = [t]
        while todo:
            x = todo.pop()
            if z3.is_app(x) and x.decl().eq(perm):
                j = x.arg(0)
                S.fact(z3.Implies(z3.And(0 <= j, j < zi(n)), inv(x) == j))
            todo += x.children()


def places(t):
    """Indices of the original list that a term about a rearranged one speaks of."""
    perms = S.extra.get('perms', ())
    todo = [t] if perms else []
    while todo:
        x = todo.pop()
        if z3.is_app(x):
            if any(x.decl().eq(q[0]) for q in perms):
                note_index(x)
            todo += x.children()


def permuted(l):
    """The items of l in an unknown order."""
    n = l.length()
    S.fresh_n += 1
    tag = S.fresh_n
    perm = z3.Function('perm!%d' % tag, z3.IntSort(), z3.IntSort())
    inv = z3.Function('inv!%d' % tag, z3.IntSort(), z3.IntSort())
    old = PList(segs=I.copy_segs(l))

    def maker(j):
        j = zi(j)
        p = perm(j)
        S.fact(z3.Implies(z3.And(0 <= j, j < zi(n)), z3.And(0 <= p, p < zi(n))))
        if len(old.segs) == 1 and isinstance(old.segs[0], MapSeg) and same(old.segs[0].lo, 0):
            return inst(old.segs[0].body, p)
        return list_elem(old, p)
    S.extra['perms'] = list(S.extra.get('perms', ())) + [(perm, inv, n)]
    b = Body(new_k(), None, [], maker)
    b.distinct = True
    return [MapSeg(0, n, b)]


def add_q(k, lo, hi, f, d, j):
    (S.fact if d else S.assume)(z3.Implies(z3.And(zi(lo) <= j, j < zi(hi)), z3.substitute(f, (k, j))))


def forall(k, lo, hi, f, defn=False):
    """Assume (path condition, or definition of a fresh symbol) that f holds for every k in [lo, hi)."""
    f = z3.simplify(f)
    if z3.is_true(f):
        return
    S.qfacts = S.qfacts + [(k, lo, hi, f, defn)]
    for j in list(S.indices):
        add_q(k, lo, hi, f, defn, j)
    for j in (zi(lo), zi(hi) - 1):
        note_index(z3.simplify(j))
    refresh_sums(hi)


def inst(body, j):
    """body at index j (the same object for the same index)."""
    if body.stale:
        raise Unsupported('item changed through another list')
    jt = z3.simplify(zi(j))
    key = (jt.get_id(), body.version)
    if key in body.cache:
        return body.cache[key]
    note_index(jt)
    if body.maker is not None:
        v = body.maker(jt)
    elif jt.eq(body.k):
        v = body.value
        if isinstance(v, PObj):
            v = PObj(v.cls, v.fields)
    else:
        v = subst(body_value(body), body.k, jt)
        for f in body.facts:
            S.fact(subst_t(f, body.k, jt))
    if isinstance(v, PObj):
        v.origin = (body, jt)
        if v.home is None:
            v.home = v.origin
    body.cache = dict(body.cache)
    body.cache[key] = v
    S.keep.append(jt)
    return v


def write_elem(o, name, v):
    body, idx = o.origin
    if o.home is not None and o.home[0] is not body:
        if not body.distinct:
            raise Unsupported('write to an object seen through another list')
        if not (S.generic and idx.eq(S.generic[-1])):
            o.home[0].stale = True
    if S.generic and idx.eq(S.generic[-1]):
        for (i, ver), other in body.cache.items():
            if ver == body.version and other is not o and i != idx.get_id():
                raise Unsupported('loop touches other elements of the list it updates')
        o.fields[name] = v
        S.extra.setdefault('elemwrites', {})[id(o)] = o
        return
    # a single element of a family changes
    for (i, ver), other in list(body.cache.items()):
        if ver == body.version and other is not o:
            raise Unsupported('write to one of several materialised elements of a symbolic list')
    k = body.k
    old = body_value(body)
    o.fields[name] = v
    fields = dict(old.fields)
    if name in fields:
        fields[name] = I.merge(z3.simplify(k == idx), v, fields[name])
    else:
        raise Unsupported('new attribute on an element of a symbolic list')
    body.value = PObj(old.cls, fields)
    body.maker = None
    body.version += 1
    body.cache = dict(body.cache)
    body.cache[(idx.get_id(), body.version)] = o


# ---- canonical family terms ---------------------------------------------------------------

def value_term(v):
    """A canonical z3 term for an element value."""
    if isinstance(v, (Rope, bytes, str)):
        return rope_term(v)
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, (SInt, SBool, SReal, SBv, Opaque)):
        return v.t
    raise Unsupported('no canonical term for %r' % (v,))


def canon(t, k):
    """(hash name, extra args): t with k -> K0 and other generic indices abstracted."""
    t = z3.simplify(z3.substitute(t, (k, K[0])))
    cs = consts_of(t)
    ks = sorted(n for n in cs if n.startswith('k!'))
    args = [cs[n] for n in ks]
    t2 = z3.substitute(t, *[(cs[n], z3.Int('A%d' % i)) for i, n in enumerate(ks)]) if ks else t
    h = hashlib.sha1(t2.sexpr().encode()).hexdigest()[:16]
    return h, args, t2


def fam_term(tag, lo, hi, body, sort):
    v = inst(body, body.k)
    t = value_term(v)
    h, args, t2 = canon(t, body.k)
    if tag == 'join':
        JOINS['join_' + h] = (t2, K[0], [z3.Int('A%d' % i) for i in range(len(args))], kind_of(v))
    f = z3.Function('%s_%s' % (tag, h), *([z3.IntSort()] * (len(args) + 2) + [sort]))
    return f(*(args + [zi(lo), zi(hi)]))


def sum_term(lo, hi, body, proj, tag):
    """Sum of proj(body(j)) for lo <= j < hi as an int or Int/Real term."""
    if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 16:
        n = z3.IntVal(0)
        for j in range(lo, hi):
            n = n + proj(inst(body, j))
        return norm(n)
    try:
        tk = z3.simplify(zi(proj(inst(body, body.k))))
    except NeedFork:
        raise Unsupported('sum over elements with a conditional shape')
    if not has_var(tk, body.k):
        if isinstance(hi, int) and isinstance(lo, int):
            return norm(tk * (hi - lo))
        c = tk * (zi(hi) - zi(lo))
        return norm(c) if z3.is_int(c) else z3.simplify(c)
    gen = lambda j: zi(proj(inst(body, j)))
    return psum(tk, body.k, hi, gen) if same(lo, 0) else norm_any(zi(psum(tk, body.k, hi, gen)) - zi(psum(tk, body.k, lo, gen)))


def norm_any(t):
    return norm(t) if z3.is_int(t) else z3.simplify(t)


def psum(tk, k, i, gen=None):
    """Prefix sum P(i) = sum of tk[k:=j] for 0 <= j < i, with its defining equations around i."""
    h, args, t2 = canon(tk, k)
    sort = tk.sort()
    f = z3.Function('sum_%s' % h, *([z3.IntSort()] * (len(args) + 1) + [sort]))
    P = lambda x: f(*(args + [x]))
    it = z3.simplify(zi(i))
    at = lambda x: z3.substitute(tk, (k, x))
    gat = lambda j: [gen(j) if gen else None, at(zi(j))][1]      # gen brings the facts about element j
    zero = z3.IntVal(0) if z3.is_int(tk) else z3.RealVal(0)
    S.fact(P(z3.IntVal(0)) == zero)
    note_index(it)
    prev = z3.simplify(it - 1)
    S.fact(P(it) == P(prev) + at(prev))
    key = ('psum', h, tuple(a.get_id() for a in args))
    # element-wise lower bound gives a lower bound of the sum (induction on i)
    lb = None
    mark = S.extra.get(key + (it.get_id(),))
    known = mark is not None and S.pcids[mark[0]:mark[0] + len(mark[1])] == mark[1] and (mark[0] == 0 or S.pcids[mark[0] - 1] == mark[2])
    n_pc = len(S.pcids)
    last = S.pcids[-1] if S.pcids else None
    slb = syntactic_lb(tk)
    if slb is not None:
        NONNEG.add('sum_%s' % h)
    if slb is not None and (S.extra.get('in_psum') or args):
        lb, seen, top = slb, S.extra.setdefault(key + ('idx',), []), it
    elif not known and not S.extra.get('in_psum'):
        S.extra['in_psum'] = True
        try:
            seen = S.extra.setdefault(key + ('idx',), [])
            top = it
            for o in seen:
                if not o.eq(top) and S.provable(o >= top):
                    top = o
            for c in (0, 1, 34):
                if prove_forall(0, top, lambda j: gat(j) >= c):
                    lb = c
                else:
                    break
            if lb == 0 and z3.is_int(tk) and prove_forall(0, it, lambda j: gat(j) == 0):
                S.assume(z3.Implies(it >= 0, P(it) == 0))
            if lb is None and not top.eq(it) and prove_forall(0, it, lambda j: gat(j) >= 0):
                lb, top = 0, it
        finally:
            S.extra['in_psum'] = False
    if lb is not None:
        add = S.fact if slb is not None and lb <= slb else S.assume
        add(z3.Implies(it >= 0, P(it) >= lb * it if z3.is_int(tk) else P(it) >= lb * z3.ToReal(it)))
        for o in seen:
            if not o.eq(it):
                add(z3.Implies(z3.And(0 <= o, o <= it), P(it) - P(o) >= lb * (it - o) if z3.is_int(tk) else P(it) >= P(o)))
                add(z3.Implies(z3.And(0 <= it, it <= o, o <= top), P(o) - P(it) >= lb * (o - it) if z3.is_int(tk) else P(o) >= P(it)))
    if known:
        return norm_any(P(it))
    for (perm, inv, n) in S.extra.get('perms', ()):
        # a sum over all items does not depend on their order
        t0 = z3.simplify(z3.substitute(tk, (perm(k), k)))
        if not t0.eq(tk) and perm.name() not in decls_in(t0) and S.provable(it == zi(n)):
            S.assume(P(it) == zi(psum(t0, k, n)))
    seen = S.extra.setdefault(key + ('idx',), [])
    if not any(o.eq(it) for o in seen):
        seen.append(it)
    # equal summands give equal sums
    fams = S.extra.setdefault(('psums', str(sort)), [])
    depth = S.extra.get('psum_depth', 0)
    for (tk2, k2, h2, args2, gen2) in fams if depth < 2 else ():
        if h2 == h or len(args) != len(args2) or not all(a.eq(b) for a, b in zip(args, args2)):
            continue
        S.extra['psum_depth'] = depth + 1
        try:
            okk = same_sums(tk, k, it, gat, tk2, k2, gen2)
        finally:
            S.extra['psum_depth'] = depth
        if okk:
            f2 = z3.Function('sum_%s' % h2, *([z3.IntSort()] * (len(args2) + 1) + [sort]))
            S.assume(z3.Implies(it >= 0, P(it) == f2(*(args2 + [it]))))
    if not any(h2 == h and all(a.eq(b) for a, b in zip(args, a2)) for (_, _, h2, a2, _) in fams):
        fams.append((tk, k, h, args, gen))
    S.extra[key + (it.get_id(),)] = (n_pc, S.pcids[n_pc:], last)
    S.keep.append(it)
    return norm_any(P(it))


def same_sums(tk, k, it, gat, tk2, k2, gen2):
    return prove_forall(0, it, lambda j: [gen2(j) if gen2 else None, gat(j) == z3.substitute(tk2, (k2, zi(j)))][1])


NONNEG = set()


def syntactic_lb(t):
    """A constant c with t >= c, read off a sum of lengths; None if it is not one."""
    if z3.is_int_value(t):
        return t.as_long()
    if t.num_args() == 0:
        return None
    n = t.decl().name()
    if t.decl().eq(f_len):
        return 1 if t.arg(0).decl().name() == 'compact_size' else 0
    if n in NONNEG and not z3.is_add(t.arg(t.num_args() - 1)):        # counts of lists, never negative
        return 0
    if z3.is_add(t):
        c = [syntactic_lb(x) for x in t.children()]
        return None if None in c else sum(c)
    if z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() >= 0:
        c = syntactic_lb(t.arg(1))
        return None if c is None or c < 0 else c * t.arg(0).as_long()
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        a, b = syntactic_lb(t.arg(1)), syntactic_lb(t.arg(2))
        return None if a is None or b is None else min(a, b)
    return None


def refresh_sums(hi):
    """New knowledge about every element of a range gives bounds of the sums over that range."""
    if S.extra.get('refreshing'):
        return
    S.extra['refreshing'] = True
    try:
        for sort in ('Int', 'Real'):
            for (tk, k, h, args, gen) in list(S.extra.get(('psums', sort), [])):
                if args:
                    continue
                f = z3.Function('sum_%s' % h, z3.IntSort(), tk.sort())
                for it in list(S.extra.get(('psum', h, (), 'idx'), [])) or []:
                    if it.eq(z3.simplify(zi(hi))):
                        for c in (34, 1, 0):
                            if prove_forall(0, it, lambda j: [gen(j) if gen else None, z3.substitute(tk, (k, zi(j))) >= c][1]):
                                b = c * it if z3.is_int(tk) else c * z3.ToReal(it)
                                S.assume(z3.Implies(it >= 0, f(it) >= b))
                                if c == 0 and prove_forall(0, it, lambda j: [gen(j) if gen else None, z3.substitute(tk, (k, zi(j))) == 0][1]):
                                    S.assume(z3.Implies(it >= 0, f(it) == 0))
                                break
    finally:
        S.extra['refreshing'] = False


def after_decide(c):
    exs = S.extra.get('exs')
    if not exs or S.extra.get('refreshing') or not S.extra.get(('psums', 'Int')):
        return
    for x in [c] + list(c.children()) + [y for x in c.children() for y in x.children()]:
        if x.num_args() == 0 and z3.is_bool(x):
            hi = exs.get(x.decl().name())
            if hi is not None and S.provable(z3.Not(x)):
                refresh_sums(hi)


S.__class__.hook = staticmethod(after_decide)


def prove_forall(lo, hi, pred):
    """pred(j) provable for every lo <= j < hi (pred may fork)."""
    k = new_k()

    def thunk():
        S.assume(z3.And(zi(lo) <= k, k < zi(hi)))
        note_index(k)
        c = pred(k)
        return S.provable(c) if not isinstance(c, bool) else (c or S.check(z3.BoolVal(True)) == 'unsat')
    save = S.save_q()
    try:
        rs = S.subexplore(thunk)
    finally:
        S.load_q(save)
    return all(rs)


def fam_equal(lo, hi, b1, b2, d=0):
    if b1 is b2 and same(d, 0):
        return True
    try:
        return prove_forall(lo, hi, lambda j: deep_eq(inst(b1, j), inst(b2, norm(zi(j) + zi(d)))))
    except Unsupported:
        return False


def deep_eq(a, b):
    """Structural equality: like == but objects by fields and kinds must agree."""
    a, b = I.force(a), I.force(b)
    if isinstance(a, PObj) and isinstance(b, PObj):
        if a is b:
            return True
        if a.cls is not b.cls or set(a.fields) != set(b.fields):
            return False
        return conj([deep_eq(a.fields[n], b.fields[n]) for n in sorted(a.fields)])
    if isinstance(a, list):
        a = I.from_native(a)
    if isinstance(b, list):
        b = I.from_native(b)
    if isinstance(a, PList) and isinstance(b, PList):
        if a.concrete and b.concrete:
            x, y = a.items, b.items
            return len(x) == len(y) and conj([deep_eq(p, q) for p, q in zip(x, y)])
        return list_equal(a, b, deep_eq)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and conj([deep_eq(p, q) for p, q in zip(a, b)])
    if isinstance(a, PDict) and isinstance(b, PDict):
        if len(a.pairs) != len(b.pairs):
            return False
        return conj([conj([deep_eq(p[0], q[0]), deep_eq(p[1], q[1])]) for p, q in zip(a.pairs, b.pairs)])
    if isinstance(a, (I.Bound,)) and isinstance(b, I.Bound):
        return a.fn is b.fn and a.self_ is b.self_
    return I.values_equal(a, b)


# ---- lists ------------------------------------------------------------------------------

def seg_n(s):
    return len(s.items) if isinstance(s, LitSeg) else norm(zi(s.hi) - zi(s.lo))


def split_list(l, n):
    """segments of l[:n], l[n:] for 0 <= n <= len."""
    segs = I.copy_segs(l)
    left, need = [], n
    while segs:
        if isinstance(need, int) and need == 0:
            break
        s = segs[0]
        ln = seg_n(s)
        if isinstance(need, int) and isinstance(ln, int):
            if ln <= need:
                left.append(segs.pop(0))
                need -= ln
                continue
        elif same(need, ln) or S.provable(zi(need) == zi(ln)):
            left.append(segs.pop(0))
            need = 0
            break
        elif S.decide(zi(ln) <= zi(need)):
            left.append(segs.pop(0))
            need = norm(zi(need) - zi(ln))
            continue
        if isinstance(s, LitSeg):
            if not isinstance(need, int):
                for j in range(len(s.items)):
                    if S.decide(zi(need) == j):
                        need = j
                        break
                else:
                    raise PathAbort()
            left.append(LitSeg(s.items[:need]))
            segs[0] = LitSeg(s.items[need:])
        else:
            m = norm(zi(s.lo) + zi(need))
            left.append(MapSeg(s.lo, m, s.body))
            segs[0] = MapSeg(m, s.hi, s.body)
        need = 0
        break
    return left, segs


def list_slice(o, lo, hi, st=None):
    if st is not None and st != 1:
        if st == -1 and lo is None and hi is None:
            segs = []
            for s in reversed(o.segs):
                if isinstance(s, LitSeg):
                    segs.append(LitSeg(s.items[::-1]))
                else:
                    segs.append(rev_map(s))
            return PList(segs=segs, kind=o.kind)
        raise Unsupported('list slice step')
    n = o.length()
    lo = clamp(0 if lo is None else lo, n)
    hi = clamp(n if hi is None else hi, n)
    cur = PList(segs=I.copy_segs(o), kind=o.kind)
    if not same(hi, n):
        if S.decide(zi(hi) <= zi(lo)):
            return PList([], kind=o.kind)
        cur = PList(segs=split_list(cur, hi)[0], kind=o.kind)
    if not same(lo, 0):
        cur = PList(segs=split_list(cur, lo)[1], kind=o.kind)
    return cur


def rev_map(s):
    b = s.body
    k = new_k()
    return MapSeg(0, norm(zi(s.hi) - zi(s.lo)), Body(k, None, maker=lambda j: inst(b, norm(zi(s.hi) - 1 - zi(j)))))


def list_elem(o, t):
    n = o.length()
    if not same(t, 0) and S.decide(zi(t) < 0):
        t = norm(zi(t) + zi(n))
        if S.decide(zi(t) < 0):
            I.raise_py(IndexError)
    elif S.decide(zi(t) >= zi(n)):
        I.raise_py(IndexError)
    segs = o.segs
    off = 0
    for i, s in enumerate(segs):
        ln = seg_n(s)
        if i < len(segs) - 1:
            end = norm(zi(off) + zi(ln))
            if not (isinstance(t, int) and isinstance(end, int) and t < end) and not S.decide(zi(t) < zi(end)):
                off = end
                continue
        r = norm(zi(t) - zi(off))
        if isinstance(s, LitSeg):
            return s.items[r] if isinstance(r, int) else I.seq_select(s.items, r)
        return inst(s.body, norm(zi(s.lo) + zi(r)))
    raise PathAbort()


def list_store(o, t, v):
    n = o.length()
    if S.decide(z3.Or(zi(t) < 0, zi(t) >= zi(n))):
        if S.decide(z3.And(zi(t) < 0, zi(t) + zi(n) >= 0)):
            t = norm(zi(t) + zi(n))
        else:
            I.raise_py(IndexError)
    o.track = ('store', t, v)
    if len(o.segs) == 1 and isinstance(o.segs[0], MapSeg):
        s = o.segs[0]
        idx = norm(zi(s.lo) + zi(t))
        if S.generic and not isinstance(idx, int) and idx.eq(S.generic[-1]):
            o.segs = [MapSeg(s.lo, idx, s.body), LitSeg([v]), MapSeg(norm(idx + 1), s.hi, s.body)]
            return
        o.segs = [MapSeg(s.lo, idx, s.body), LitSeg([v]), MapSeg(norm(zi(idx) + 1), s.hi, s.body)]
        return
    left, right = split_list(o, t)
    right = [x for x in right if not (isinstance(x, LitSeg) and not x.items or isinstance(x, MapSeg) and same(x.lo, x.hi))]
    if right and isinstance(right[0], MapSeg) and S.provable(zi(right[0].lo) < zi(right[0].hi)):
        x = right[0]
        o.segs = left + [LitSeg([v]), MapSeg(norm(zi(x.lo) + 1), x.hi, x.body)] + right[1:]
        return
    tmp = PList(segs=right)
    _, rest = split_list(tmp, 1)
    o.segs = left + [LitSeg([v])] + rest


def list_iter(l):
    l2 = PList(segs=I.copy_segs(l), kind=l.kind)
    return I.SymIter(l2.length(), lambda k: list_elem_in(l2, k), src=l)


def list_elem_in(l, k):
    if len(l.segs) == 1 and isinstance(l.segs[0], MapSeg):
        return inst(l.segs[0].body, norm(zi(l.segs[0].lo) + zi(k)))
    return list_elem(l, norm(zi(k)))


def list_equal(a, b, eq=None):
    eq = eq or I.values_equal
    la, lb = a.length(), b.length()
    if isinstance(la, int) and la == 0 or isinstance(lb, int) and lb == 0:
        return norm_eq(la, lb)
    x, y = I.copy_segs(a), I.copy_segs(b)
    cs = []
    c = norm_eq(la, lb)
    if c is False:
        return False
    if c is not True:
        if S.provable(z3.Not(c)):
            return False
        if not S.provable(c):
            cs.append(c)
    guard = 0
    while x and y:
        guard += 1
        if guard > 300:
            break
        s, t = x[0], y[0]
        ls, lt = seg_n(s), seg_n(t)
        if isinstance(ls, int) and ls == 0:
            x.pop(0)
            continue
        if isinstance(lt, int) and lt == 0:
            y.pop(0)
            continue
        if isinstance(s, LitSeg) and isinstance(t, LitSeg):
            m = min(ls, lt)
            cs += [eq(s.items[j], t.items[j]) for j in range(m)]
            x[0:1] = [LitSeg(s.items[m:])] if ls > m else []
            y[0:1] = [LitSeg(t.items[m:])] if lt > m else []
            continue
        if isinstance(s, MapSeg) and isinstance(t, MapSeg):
            if same(ls, lt) or S.provable(zi(ls) == zi(lt)):
                d = norm(zi(t.lo) - zi(s.lo))
                if s.body is t.body and same(d, 0):
                    x.pop(0), y.pop(0)
                    continue
                def one(j, s=s, t=t, d=d):
                    a, b = inst(s.body, j), inst(t.body, norm(zi(j) + zi(d)))
                    c = eq(a, b)
                    if os.environ.get('PYDV_EQ') and not S.provable(c):
                        print('EQ', a, '\n  ', b, '\n  ->', c)
                    return c
                try:
                    okk = prove_forall(s.lo, s.hi, one)
                except Unsupported as e:
                    if os.environ.get('PYDV_EQ'):
                        print('EQ unsupported', e)
                    okk = False
                if okk:
                    x.pop(0), y.pop(0)
                    continue
                break
            if cs:
                break
            if S.decide(zi(ls) <= zi(lt)):
                m = norm(zi(t.lo) + zi(ls))
                y[0:1] = [MapSeg(t.lo, m, t.body), MapSeg(m, t.hi, t.body)]
            else:
                m = norm(zi(s.lo) + zi(lt))
                x[0:1] = [MapSeg(s.lo, m, s.body), MapSeg(m, s.hi, s.body)]
            continue
        # literal against family: peel one element
        fam, lit = (x, y) if isinstance(s, MapSeg) else (y, x)
        f = fam[0]
        if S.decide(zi(f.hi) <= zi(f.lo)):
            fam.pop(0)
            continue
        first = inst(f.body, f.lo)
        fam[0:1] = [LitSeg([first]), MapSeg(norm(zi(f.lo) + 1), f.hi, f.body)]
    rest = [s for s in x + y if not (isinstance(seg_n(s), int) and seg_n(s) == 0)]
    if x and y:
        e = S.fresh_bool('listeq')
        cs.append(e)
        S.log.append('undecided list equality')
    else:
        for s in rest:
            cs.append(zi(seg_n(s)) <= 0)
    return conj(cs)


def norm_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    t = z3.simplify(zi(a) == zi(b))
    return True if z3.is_true(t) else False if z3.is_false(t) else t


def list_contains(c, x):
    cs = []
    for s in c.segs:
        if isinstance(s, LitSeg):
            cs += [I.values_equal(y, x) for y in s.items]
        else:
            b = s.body
            cs.append(exists_in(s.lo, s.hi, lambda j: I.values_equal(inst(b, j), x)))
    return I.disj(cs)


def exists_elem(r, pred):
    n = rope_len(r)
    return exists_in(0, n, lambda j: pred(rope_elem(r, j)))


def generic_bool(k, pred):
    """pred(k) as one formula (paths merged)."""
    outs = S.subexplore(lambda: with_conds(lambda: pred(k)))
    cs = []
    for conds, v in outs:
        cs.append(z3.And(*(conds + [zb(v)])) if conds else zb(v))
    return z3.simplify(z3.Or(*cs)) if cs else z3.BoolVal(False)


def with_conds(thunk):
    n0 = len(S.pc)
    v = thunk()
    facts = {f.get_id() for f in S.journal or []}
    return [p for p in S.pc[n0:] if p.get_id() not in facts], v


def old_symbols(f, n, k):
    """No symbol in f is younger than the n-th, other than k."""
    for d in decls_in(f):
        if '!' in d and d != k.decl().name() and int(d[d.rfind('!') + 1:]) > n:
            return False
    return True


def exists_in(lo, hi, pred):
    """A Bool that is true iff some index satisfies pred."""
    k = new_k()
    fresh0 = S.fresh_n
    save = S.save_q()
    kfacts = []

    def run_():
        outs = []

        def thunk():
            S.assume(z3.And(zi(lo) <= k, k < zi(hi)))
            r = with_conds(lambda: pred(k))
            kfacts.extend(f for f in S.journal or [] if has_var(f, k))
            if not isinstance(r[1], bool) and S.provable(z3.Not(r[1])):
                r = (r[0], False)
            elif not isinstance(r[1], bool) and S.provable(r[1]):
                r = (r[0], True)
            return r
        outs = S.subexplore(thunk)
        if outs and all(v is True for _, v in outs):
            return z3.BoolVal(True)                # the branches cover every element
        cs = [z3.And(*(conds + [zb(v)])) if conds else zb(v) for conds, v in outs]
        return z3.simplify(z3.Or(*cs)) if cs else z3.BoolVal(False)
    try:
        p = run_()
    finally:
        S.load_q(save)
    if z3.is_false(p):
        return False
    if z3.is_true(p):
        return z3.simplify(zi(hi) > zi(lo))
    # reuse an earlier quantifier over the same range with an equivalent predicate
    for (lo2, hi2, k2, p2, b2) in S.memo.get('exists', []):
        if same(lo, lo2) and (same(hi, hi2) or S.provable(zi(hi) == zi(hi2))):
            S.solver.push()
            n0 = len(S.pc)
            S._add(z3.And(zi(lo) <= k, k < zi(hi)))
            okk = S.provable(p == z3.substitute(p2, (k2, k)))
            S.solver.pop()
            del S.pc[n0:], S.pcids[n0:]
            if okk:
                return b2
    b = S.fresh_bool('ex')
    S.extra.setdefault('exs', {})[b.decl().name()] = hi
    w = S.fresh_int('w')
    S.fact(z3.Implies(b, z3.And(zi(lo) <= w, w < zi(hi), z3.substitute(p, (k, w)))))
    for f in kfacts:
        S.fact(z3.substitute(f, (k, w)))
    forall(k, lo, hi, z3.Implies(p, b), True)
    about = [f for f in {f.get_id(): f for f in kfacts}.values() if old_symbols(f, fresh0, k)]
    if about:
        forall(k, lo, hi, z3.And(*about), True)        # what is known about every element
    note_index(w)
    if not S.generic:
        places(z3.substitute(p, (k, w)))
        for (perm, inv, n) in S.extra.get('perms', ()):
            for j in [w] + [x for x in S.indices if z3.is_const(x) and not z3.is_int_value(x)]:
                perm_at(perm, inv, n, j)
    S.memo.setdefault('exists', []).append((lo, hi, k, p, b))
    return b


# ---- loops --------------------------------------------------------------------------------

def merge_paths(outs, get):
    """Merge get(out) over path outcomes [(conds, ...)]: if-chain."""
    v = get(outs[-1])
    for o in reversed(outs[:-1]):
        c = z3.And(*o[0]) if o[0] else z3.BoolVal(True)
        v = I.merge(z3.simplify(c), get(o), v)
    return v


def sym_comp(gen, elt, sub, it):
    """[elt for target in it] at a generic index."""
    n = it.n
    if gen.ifs:
        raise Unsupported('filtered comprehension over a symbolic-length iterable')
    k = new_k()
    save = S.save_q()
    S.generic.append(k)
    pre = S.snapshot()[0]
    facts0 = []

    def thunk():
        S.assume(z3.And(0 <= k, k < zi(n)))
        note_index(k)
        def go():
            I.assign(gen.target, it.item(k), sub)
            return ('val', I.ev(elt, sub))
        try:
            conds, r = with_conds(go)
        except PyExc as e:
            facts = {f.get_id() for f in S.journal or []}
            conds, r = None, ('exc', e)
            conds = [p for p in S.pc[mark[0]:] if p.get_id() not in facts]
        ch = changed(pre)
        ch = [c for c in ch if c[0] != 'env' or c[1] is not sub]
        ew = S.extra.pop('elemwrites', {})
        facts0.extend(S.journal or [])
        return conds, r, ch, {(o.origin[0]): (o, dict(o.fields)) for o in ew.values()}
    mark = [0]

    def wrapped():
        mark[0] = len(S.pc) + 1
        return thunk()
    S.extra.pop('elemwrites', None)
    try:
        outs = S.subexplore(wrapped)
    finally:
        S.generic.pop()
        S.load_q(save)
    if not outs:
        return PList([])
    bad = [o for o in outs if o[1][0] == 'exc']
    good = [o for o in outs if o[1][0] == 'val']
    for o in outs:
        for c in o[2]:
            if c[0] == 'fld' and c[1].origin is not None:
                continue
            if c[0] == 'body':
                continue
            raise Unsupported('comprehension over a symbolic-length iterable has a side effect: %s' % (c[:1],))
    if bad:
        ex = z3.simplify(z3.Or(*[z3.And(*(o[0] or [z3.BoolVal(True)])) for o in bad]))
        e = S.fresh_bool('raises')
        if S.decide(e):
            w = S.fresh_int('w')
            S.assume(z3.And(0 <= w, w < zi(n)))
            note_index(w)
            S.assume(z3.substitute(ex, (k, w)))
            cls = {o[1][1].cls for o in bad}
            for o in bad[:-1]:
                if S.decide(z3.substitute(z3.And(*(o[0] or [z3.BoolVal(True)])), (k, w))):
                    raise o[1][1]
            raise bad[-1][1][1]
        forall(k, 0, n, z3.Not(ex))
    if not good:
        S.assume(zi(n) <= 0)
        return PList([])
    v = merge_paths(good, lambda o: o[1][1])
    apply_elemwrites(good, [o[3] for o in good], k, n)
    facts = [f for f in facts0 if k.decl().name() in consts_of(f)]
    # elements that are the (possibly updated) objects of another list stay shared with it
    if all(isinstance(o[1][1], PObj) and o[1][1].origin is not None and o[1][1].origin[1].eq(k) for o in good):
        b = good[0][1][1].origin[0]
        if all(o[1][1].origin[0] is b for o in good):
            return PList(segs=[MapSeg(0, n, b)])
    if isinstance(v, PObj):
        v = PObj(v.cls, v.fields)
    return PList(segs=[MapSeg(0, n, Body(k, v, facts))])


def apply_elemwrites(outs, writes, k, n, upto=None):
    bodies = []
    for w in writes:
        for b in w:
            if b not in bodies:
                bodies.append(b)
    for b in bodies:
        old = body_value(b) if b.maker is None else b.maker(k)
        if b.maker is None and not b.k.eq(k):
            old = subst(old, b.k, k)
        vals = []
        for o, w in zip(outs, writes):
            vals.append((o[0], w[b][1] if b in w else dict(old.fields)))
        names = set()
        for _, f in vals:
            names |= set(f)
        fields = {}
        for nm in names:
            if any(nm not in f for _, f in vals):
                raise Unsupported('attribute set on some paths only')
            fields[nm] = merge_paths([(c, f[nm]) for c, f in vals], lambda o: o[1])
        if upto is not None:
            fields = {nm: I.merge(z3.simplify(k < zi(upto)), fields[nm], old.fields[nm]) for nm in fields}
        if isinstance(old, PObj) and old.home is not None and old.home[0] is not b:
            old.home[0].stale = True
        b.k, b.value, b.maker = k, PObj(old.cls, fields), None
        b.version += 1
        b.cache = {}


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, (bool, int, str, bytes)) and type(a) is type(b):
        return a == b
    if isinstance(a, SInt) and isinstance(b, SInt) or isinstance(a, SBool) and isinstance(b, SBool) \
            or isinstance(a, SBv) and isinstance(b, SBv):
        return a.t.eq(b.t)
    if isinstance(a, Rope) and isinstance(b, Rope):
        return rope_same(a, b)
    return False


def changed(pre):
    """Locations of pre-existing heap objects that differ from the snapshot."""
    out = []
    for o, s in pre:
        if isinstance(o, I.Env):
            for n in set(o.vars) | set(s):
                if n not in s or n not in o.vars or not same_val(o.vars[n], s[n]):
                    out.append(('env', o, n))
        elif isinstance(o, PObj):
            for n in set(o.fields) | set(s[0]):
                if n not in s[0] or n not in o.fields or not same_val(o.fields[n], s[0][n]):
                    out.append(('fld', o, n))
        elif isinstance(o, PList):
            if not same_segs(o.segs, s[0]):
                out.append(('list', o, None))
        elif isinstance(o, PDict):
            if len(o.pairs) != len(s) or any(not same_val(p[0], q[0]) or not same_val(p[1], q[1])
                                             for p, q in zip(o.pairs, s)):
                out.append(('dict', o, None))
        elif isinstance(o, PSet):
            if len(o.items) != len(s):
                out.append(('set', o, None))
        elif isinstance(o, Body):
            if o.version != s[5]:
                out.append(('body', o, None))
    return out


def same_segs(a, b):
    a = [s for s in a if not (isinstance(s, LitSeg) and not s.items)]
    b = [s for s in b if not (isinstance(s, LitSeg) and not s.items)]
    if len(a) != len(b):
        return False
    for s, t in zip(a, b):
        if isinstance(s, LitSeg) != isinstance(t, LitSeg):
            return False
        if isinstance(s, LitSeg):
            if len(s.items) != len(t.items) or any(not same_val(p, q) for p, q in zip(s.items, t.items)):
                return False
        elif s.body is not t.body or not same(s.lo, t.lo) or not same(s.hi, t.hi):
            return False
    return True


def loc_get(loc):
    kind, o, n = loc
    if kind == 'env':
        return o.vars.get(n, I.UNBOUND)
    if kind == 'fld':
        return o.fields.get(n, I.UNBOUND)
    if kind == 'list':
        return I.copy_segs(o)
    raise Unsupported('loop changes a %s' % kind)


def loc_set(loc, v):
    kind, o, n = loc
    if kind == 'env':
        o.vars[n] = v
    elif kind == 'fld':
        o.fields[n] = v
    elif kind == 'list':
        o.segs = list(v)


def loc_key(loc):
    return (loc[0], id(loc[1]), loc[2])


class Role:
    """How a loop-carried location evolves."""


def assigned_names(stmts):
    out = set()
    stack = list(stmts)
    while stack:
        n = stack.pop()
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return out


def sym_for(s, env, it, orelse=None):
    def step(k):
        I.assign(s.target, it.item(k), env)
        I.run(s.body, env)
    names = assigned_names([s.target] + s.body)
    return loop(env, step, it.n, names, s.orelse if orelse is None else orelse, iter_src=it.src)


def fission(it):
    """A loop over a concatenation is the loops over its parts, one after the other."""
    src = it.src
    if isinstance(src, Rope):
        segs = list(src.segs)
        lens = [seg_len(x) for x in segs]
    elif isinstance(src, PList):
        segs = [x for x in I.copy_segs(src) if not (isinstance(x, LitSeg) and not x.items)]
        lens = [seg_n(x) for x in segs]
    else:
        return None
    if len(segs) < 2 or any(isinstance(x, It) for x in segs):
        return None
    tot = 0
    for x in lens:
        tot = norm(zi(tot) + zi(x))
    if not same(tot, it.n) and not S.provable(zi(tot) == zi(it.n)):
        return None
    out, off = [], 0
    for x in lens:
        if isinstance(x, int):
            out.append([it.item(norm(zi(off) + j)) for j in range(x)])
        else:
            out.append(I.SymIter(x, lambda k, off=off, x=x: part_item(it, off, x, k)))
        off = norm(zi(off) + zi(x))
    return out


def part_item(it, off, n, k):
    return it.item(norm(zi(off) + zi(k)))


def sym_while(s, env, done):
    """Try to treat a while loop as a counted loop that consumes a list or a number; False if not possible."""
    from . import whiles
    return whiles.sym_while(s, env, done)


def loop(env, step, n, names, orelse, iter_src=None, cond=None):
    """Summarise n iterations of step(k)."""
    S.extra['loops'] = S.extra.get('loops', 0) + 1
    k = new_k()
    plan = {}                      # loc_key -> (loc, mode)
    for nm in sorted(names):
        e = env.find(nm)
        if isinstance(e, I.Env):
            plan[loc_key(('env', e, nm))] = (('env', e, nm), None)
    last = None
    failures = []
    for rnd in range(14):
        r = attempt(env, step, n, k, plan, cond)
        if DEBUG:
            print('LOOP', n, k, {str(l[2]) if len(l) > 2 else l[0]: m for l, m in plan.values()}, '->', r[0], r[1] if r[0] == 'fail' else S.extra.get('why'))
        if r[0] == 'ok':
            return finish(env, step, n, k, plan, r[1], orelse, cond)
        if r[0] == 'more':
            continue
        failures.append(r[1])
        raise NotSummarised('loop not summarised: %s' % (r[1],))
    raise NotSummarised('loop not summarised: %s' % failures)


DEBUG = bool(os.environ.get('PYDV_LOOP'))
MODES_RANK = {}


def initial_modes(v, loc):
    """Candidate modes for a loop-carried location with initial value v, cheapest assumption first."""
    if loc[0] == 'list':
        return ['append', 'consume', 'store']
    if v is I.UNBOUND or v is None:
        return ['temp']
    if isinstance(v, (bool, SBool)):
        return ['temp', 'bool']
    if I.is_int(v):
        return ['temp', 'int', 'bv']
    if isinstance(v, (Rope, bytes, str)):
        return ['temp', 'rope', 'eat']
    return ['temp']


def placeholder(loc, mode, init, k, n):
    if mode == 'temp':
        p = I.Poison('%s' % (loc[2],))
        p.loc = loc_key(loc)
        return p
    if mode == 'int':
        return SInt(S.fresh_int('acc'))
    if mode == 'bool':
        return SBool(S.fresh_bool('acc'))
    if isinstance(mode, tuple) and mode[0] == 'bv':
        return SBv(S.fresh_bv(mode[1], 'acc'))
    if mode == 'rope':
        return atom(kind_of(init), 'acc')
    if mode == 'eat':
        segs = list(segs_of(init))
        j = segs[0]
        return mk(kind_of(init), [Jn(norm(zi(j.lo) + k), j.hi, j.body)] + segs[1:])
    raise Unsupported(mode)


class NotSummarised(Unsupported):
    pass


class LoopFail(Exception):
    pass


def attempt(env, step, n, k, plan, cond):
    """One generic iteration under the current plan.  ('ok', data) | ('more',) | ('fail', why)"""
    inits = {}
    for key, (loc, mode) in list(plan.items()):
        inits[key] = loc_get(loc)
        if mode is None:
            modes = initial_modes(inits[key], loc)
            plan[key] = (loc, modes[0])
    save_state = S.snapshot()
    nheap = len(S.heap)
    save = S.save_q()
    S.generic.append(k)
    phs = {}
    tracks = {}
    facts0 = []
    try:
        # install placeholders
        S.fact(z3.BoolVal(True))
        for key, (loc, mode) in plan.items():
            if loc[0] == 'list':
                l = loc[1]
                if isinstance(mode, tuple) and mode[0] == 'append':
                    b = mode[1]
                    ph = I.copy_segs(l) + [MapSeg(0, k, b)]
                elif mode == 'append':
                    b = Body(new_k(), I.Poison('list contents'))
                    b.loc = key
                    ph = I.copy_segs(l) + [MapSeg(0, k, b)]
                elif mode == 'prepend' or isinstance(mode, tuple) and mode[0] == 'prepend':
                    b = Body(new_k(), I.Poison('list contents'))
                    b.loc = key
                    ph = [MapSeg(0, k, b)] + I.copy_segs(l)
                elif mode == 'consume':
                    segs = [x for x in I.copy_segs(l) if not (isinstance(x, LitSeg) and not x.items)]
                    if not segs or not isinstance(segs[0], MapSeg):
                        return ('fail', 'list consumed from a literal part')
                    ph = [MapSeg(norm(zi(segs[0].lo) + k), segs[0].hi, segs[0].body)] + segs[1:]
                elif mode == 'store':
                    segs = I.copy_segs(l)
                    if len(segs) != 1 or not isinstance(segs[0], MapSeg):
                        return ('fail', 'indexed store')
                    if not same(segs[0].lo, 0):
                        return ('fail', 'indexed store into a shifted list')
                    done = Body(new_k(), I.Poison('stored items'))
                    done.loc = key
                    ph = [MapSeg(0, k, done), MapSeg(k, segs[0].hi, segs[0].body)]
                else:
                    raise Unsupported(str(mode))
                phs[key] = ph
                l.segs = list(ph)
                l.track = None
            else:
                if mode == 'eat':
                    segs = list(segs_of(inits[key])) if isinstance(inits[key], Rope) else []
                    if not segs or not isinstance(segs[0], Jn):
                        return ('fail', 'no family to consume')
                phs[key] = placeholder(loc, mode, inits[key], k, n)
                loc_set(loc, phs[key])
        pre = S.snapshot()[0]
        problems = []
        mark = [0]
        condterm = [None]

        def thunk():
            S.assume(z3.And(0 <= k, k < zi(n)) if n is not None else 0 <= k)
            note_index(k)
            mark[0] = len(S.pc)
            S.extra.pop('elemwrites', None)
            out = 'next'
            try:
                if cond is not None:
                    c = cond()
                    condterm[0] = c
                    S.assume(c if not isinstance(c, bool) else z3.BoolVal(c))
                    mark[0] = len(S.pc)
                step(k)
            except I.ContinueExc:
                pass
            except (PyExc, I.ReturnExc, I.BreakExc):
                out = 'exit'
            except Unsupported as e:
                problems.append((str(e), {id(o): o.track for o in S.heap if isinstance(o, PList) and o.track}))
                for key2, (loc2, m2) in plan.items():
                    if loc2[0] == 'list' and loc2[1].track:
                        tracks.setdefault(key2, []).append(loc2[1].track)
                raise
            facts = {f.get_id() for f in S.journal or []}
            conds = [p for p in S.pc[mark[0]:] if p.get_id() not in facts]
            ch = changed(pre)
            vals = {}
            for key, (loc, mode) in plan.items():
                vals[key] = loc_get(loc)
            ew = S.extra.pop('elemwrites', {})
            tr = {key: loc[1].track for key, (loc, m) in plan.items() if loc[0] == 'list'}
            facts0.extend(S.journal or [])
            return conds, out, ch, vals, {o.origin[0]: (o, dict(o.fields)) for o in ew.values()}, tr
        try:
            outs = S.subexplore(thunk)
        except Unsupported as e:
            return upgrade(plan, inits, str(e), tracks, k)
    finally:
        S.generic.pop()
        S.load_q(save)
        S.restore(save_state)
        del S.heap[nheap:]
    # newly discovered loop-carried locations
    new = False
    for o in outs:
        if o[1] != 'next':
            continue
        for loc in o[2]:
            key = loc_key(loc)
            if key in plan:
                continue
            if loc[0] == 'body':
                continue
            if loc[0] == 'fld' and any(loc[1] is w[0] for w in o[4].values()):
                continue
            if loc[0] == 'env' and isinstance(loc[1], I.Env) or loc[0] in ('fld', 'list'):
                plan[key] = (loc, None)
                new = True
            else:
                return ('fail', 'loop changes a %s' % loc[0])
    if new:
        return ('more',)
    normal = [o for o in outs if o[1] == 'next']
    exits = [o for o in outs if o[1] == 'exit']
    # derive closed forms
    forms = {}
    todo = sorted(plan, key=lambda key: 0 if plan[key][1] in ('int', 'bool') or isinstance(plan[key][1], tuple) else 1)
    resolve = Resolver(phs, forms, k)
    while todo:
        late, err = [], None
        for key in todo:
            loc, mode = plan[key]
            try:
                forms[key] = closed_form(loc, mode, inits[key], phs[key], normal, key, k, n, plan, phs, facts0, resolve)
            except LoopFail as e:
                late.append(key)
                err = err or (key, str(e))
        if len(late) == len(todo):
            key, why = err
            return upgrade(plan, inits, why, {key: [o[5].get(key) for o in normal if o[5].get(key)]}, k, key)
        todo = late
    facts = [f for f in facts0 if k.decl().name() in consts_of(f)]
    return ('ok', dict(inits=inits, phs=phs, normal=normal, exits=exits, forms=forms, facts=facts, cond=condterm[0]))


def upgrade(plan, inits, why, tracks, k, key=None):
    """Change the mode of some location after a failed attempt."""
    # lists: use what was appended / popped before the failure
    for kk, trs in tracks.items():
        loc, mode = plan[kk]
        if loc[0] != 'list':
            continue
        for tr in trs:
            if tr and tr[0] == 'append' and mode == 'append':
                b = Body(k, tr[1])
                if isinstance(tr[1], PObj) and tr[1].origin is not None and tr[1].origin[1].eq(k):
                    b = tr[1].origin[0]
                plan[kk] = (loc, ('append', b))
                return ('more',)
            if tr and tr[0] == 'appendleft' and mode in ('append',):
                plan[kk] = (loc, 'prepend')
                return ('more',)
            if tr and tr[0] == 'pop0' and mode in ('append',) or tr and tr[0] == 'pop0' and isinstance(mode, tuple) and mode[0] == 'append':
                plan[kk] = (loc, 'consume')
                for k2, (l2, m2) in list(plan.items()):
                    if isinstance(m2, tuple) and m2[0] == 'append':
                        plan[k2] = (l2, 'append')        # guessed from contents that have changed
                return ('more',)
            if tr and tr[0] == 'store' and mode == 'append':
                plan[kk] = (loc, 'store')
                return ('more',)
    S.extra['why'] = why
    cands = [key] if key is not None else list(plan)
    if key is None and 'loop-carried value' in why:
        # which poison was used?
        nm = why[why.rfind('(') + 1:why.rfind(')')]
        cands = [kk for kk, (loc, m) in plan.items() if m == 'temp' and str(loc[2]) == nm] or cands
    for kk in cands:
        loc, mode = plan[kk]
        nxt = next_mode(loc, mode, inits.get(kk), why)
        if nxt is not None:
            plan[kk] = (loc, nxt)
            return ('more',)
    return ('fail', why)


def next_mode(loc, mode, init, why):
    if loc[0] == 'list':
        if mode == 'append':
            return 'consume' if 'pop' in why or 'consum' in why else None
        return None
    if mode == 'temp':
        if isinstance(init, (bool, SBool)):
            return 'bool'
        if init is not None and init is not I.UNBOUND and I.is_int(init):
            return 'int'
        if isinstance(init, Rope) and init.segs and isinstance(init.segs[0], Jn):
            return 'eat'
        if isinstance(init, (Rope, bytes, str)):
            return 'rope'
        return None
    if mode == 'int':
        return ('bv', 8)
    if isinstance(mode, tuple) and mode[0] == 'bv':
        nx = {8: 30, 30: 32, 32: 64}.get(mode[1])
        return ('bv', nx) if nx else None
    if mode == 'eat':
        return 'rope'
    return None


def contains_term(v, t):
    """Does value v mention term t?"""
    nm = t.decl().name()
    try:
        return nm in all_names(v)
    except Unsupported:
        return True


def all_names(v, out=None):
    out = set() if out is None else out
    if isinstance(v, (SInt, SBool, SReal, SBv, Opaque)):
        collect_decls(v.t, out)
    elif isinstance(v, VIte):
        collect_decls(v.c, out)
        all_names(v.a, out)
        all_names(v.b, out)
    elif isinstance(v, Rope):
        for s in v.segs:
            seg_names(s, out)
    elif isinstance(v, (tuple, list)):
        for x in v:
            all_names(x, out)
    elif isinstance(v, PList):
        for s in v.segs:
            if isinstance(s, LitSeg):
                all_names(s.items, out)
            else:
                for x in (s.lo, s.hi):
                    if not isinstance(x, int):
                        collect_decls(x, out)
                if s.body.maker is None:
                    all_names(s.body.value, out)
    elif isinstance(v, PObj):
        for x in v.fields.values():
            all_names(x, out)
    elif isinstance(v, PDict):
        for p in v.pairs:
            all_names(p[0], out)
            all_names(p[1], out)
    return out


def collect_decls(t, out):
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        stack.extend(x.children())


def seg_names(s, out):
    if isinstance(s, Els):
        for e in s.e:
            if not isinstance(e, int):
                collect_decls(e, out)
    elif isinstance(s, Sl):
        collect_decls(s.a.t, out)
        for x in (s.lo, s.hi, s.a.n):
            if not isinstance(x, int):
                collect_decls(x, out)
    elif isinstance(s, IB):
        collect_decls(s.v, out)
    elif isinstance(s, Hx):
        all_names(s.r, out)
    elif isinstance(s, Rp):
        collect_decls(zi(s.n), out)
    elif isinstance(s, It):
        collect_decls(s.c, out)
        all_names(s.a, out)
        all_names(s.b, out)
    elif isinstance(s, Jn):
        for x in (s.lo, s.hi):
            if not isinstance(x, int):
                collect_decls(x, out)
        if s.body.maker is None:
            all_names(s.body.value, out)


def ph_names(phs):
    out = set()
    for p in phs.values():
        if isinstance(p, (SInt, SBool, SBv)):
            collect_decls(p.t, out)
        elif isinstance(p, Rope):
            for s in p.segs:
                if isinstance(s, Sl) and s.a.t.decl().name().startswith('acc'):
                    out.add(s.a.t.decl().name())
    return {n for n in out if n.startswith('acc')}


class Resolver:
    """Replaces loop-carried placeholders whose closed form is known by that form at the generic index k."""

    def __init__(self, phs, forms, k):
        self.phs, self.forms, self.k, self.done = phs, forms, k, {}

    def __call__(self, v, own=None):
        for key in list(self.forms):
            ph = self.phs[key]
            if not isinstance(ph, (SInt, SBool, SBv)) or key == own:
                continue
            if ph.t.decl().name() not in (all_names(v) if not z3.is_expr(v) else decls_in(v)):
                continue
            if key not in self.done:
                x = self.forms[key](self.k)
                self.done[key] = zb_(x) if isinstance(ph, SBool) else I.bv_of(x, ph.w) if isinstance(ph, SBv) else zi(I.int_term(x))
            v = subst_t(v, ph.t, self.done[key]) if z3.is_expr(v) else subst(v, ph.t, self.done[key])
        return v


def decls_in(t):
    out = set()
    collect_decls(t, out)
    return out


def closed_form(loc, mode, init, ph, normal, key, k, n, plan, phs, facts0, resolve=lambda v, own=None: v):
    """A function i -> value of the location after i iterations."""
    if not normal:
        return lambda i: init if loc[0] != 'list' else init
    accs = ph_names(phs)

    def clean(v, what):
        v = resolve(v, key)
        if all_names(v) & accs:
            raise LoopFail('%s depends on other loop-carried values' % what)
        return v

    if loc[0] == 'list':
        l = loc[1]
        base = ph
        if mode == 'consume':
            for o in normal:
                segs = o[3][key]
                want = [MapSeg(norm(zi(ph[0].lo) + 1), ph[0].hi, ph[0].body)] + list(ph[1:])
                if not same_segs(segs, want):
                    raise LoopFail('list not consumed one by one')
            i0 = [x for x in init if not (isinstance(x, LitSeg) and not x.items)]
            return lambda i: [MapSeg(norm(zi(i0[0].lo) + zi(i)), i0[0].hi, i0[0].body)] + list(i0[1:])
        if mode == 'store':
            vals = []
            for o in normal:
                segs = [x for x in o[3][key] if not (isinstance(x, LitSeg) and not x.items or
                                                     isinstance(x, MapSeg) and same(x.lo, x.hi))]
                if len(segs) != 3 or not isinstance(segs[1], LitSeg) or not same(segs[0].hi, k):
                    raise LoopFail('indexed store pattern %s' % [(x.items if isinstance(x, LitSeg) else (x.lo, x.hi)) for x in segs])
                vals.append((o[0], segs[1].items[0]))
            v = merge_paths(vals, lambda o: o[1])
            v = clean(v, 'stored value')
            b = Body(k, v, [f for f in facts0 if k.decl().name() in consts_of(f)])
            s0 = init[0]
            if not same(s0.lo, 0):
                raise LoopFail('indexed store into a shifted list')
            return lambda i: [MapSeg(0, i, b), MapSeg(i, s0.hi, s0.body)]
        if mode == 'append' or isinstance(mode, tuple) and mode[0] == 'append':
            counts = set()
            vals = []
            np = len(ph)
            for o in normal:
                segs = [x for x in o[3][key]]
                if not same_segs(segs[:np], ph):
                    raise LoopFail('list changed other than by appending')
                extra = []
                for x in segs[np:]:
                    if not isinstance(x, LitSeg):
                        raise LoopFail('list extended by a symbolic number of items')
                    extra += x.items
                counts.add(len(extra))
                vals.append((o[0], extra))
            if counts == {0}:
                return lambda i: init
            if len(counts) != 1:
                raise LoopFail('conditional append')
            m = counts.pop()
            if m != 1:
                raise LoopFail('several appends per iteration')
            objs = [v[0] for _, v in vals]
            if all(isinstance(x, PObj) and x.origin is not None and x.origin[1].eq(k) and
                   x.origin[0] is objs[0].origin[0] for x in objs):
                b = objs[0].origin[0]
            else:
                v = merge_paths(vals, lambda o: o[1][0])
                v = clean(v, 'appended value')
                if isinstance(v, PObj):
                    v = PObj(v.cls, v.fields)
                b = Body(k, v, [f for f in facts0 if k.decl().name() in consts_of(f)])
            if isinstance(mode, tuple):
                # contents were assumed while checking: the assumption must be what is appended
                hyp = mode[1]
                if hyp is not b and not (hyp.maker is None and b.maker is None and
                                         prove_forall(0, zi(n) if n is not None else 10 ** 9,
                                                      lambda j: deep_eq(inst(hyp, j), inst(b, j)))):
                    raise LoopFail('appended values differ from the assumed contents')
            else:
                pass
            return lambda i: list(init) + [MapSeg(0, i, b)]
        if mode == 'prepend':
            vals = []
            np = len(ph)
            for o in normal:
                segs = o[3][key]
                ex = []
                rest = list(segs)
                while rest and isinstance(rest[0], LitSeg):
                    ex += rest.pop(0).items
                if len(ex) != 1 or not same_segs(rest, ph):
                    raise LoopFail('list changed other than by prepending one item')
                vals.append((o[0], ex))
            v = merge_paths(vals, lambda o: o[1][0])
            v = clean(v, 'prepended value')
            b = Body(k, v, [f for f in facts0 if k.decl().name() in consts_of(f)])
            return lambda i: [rev_map(MapSeg(0, i, b))] + list(init)
        raise LoopFail('list mode %s' % (mode,))
    vals = [(o[0], o[3][key]) for o in normal]
    if all(v is ph or same_val(v, ph) for _, v in vals):
        return lambda i: init
    if mode == 'temp':
        if any(v is ph for _, v in vals) and next_mode(loc, mode, init, '') is None:
            return last_assigned(loc, init, ph, vals, k, accs, resolve, key, facts0)
        for _, v in vals:
            if v is ph or isinstance(v, I.Poison):
                raise LoopFail('value kept on some iterations (%s)' % loc[2])
        objs = [v for _, v in vals]
        if all(isinstance(x, PObj) and x.origin is not None and x.origin[1].eq(k) and
               x.origin[0] is objs[0].origin[0] for x in objs):
            b = objs[0].origin[0]
        else:
            v = resolve(merge_paths(vals, lambda o: o[1]), key)
            if all_names(v) & accs:
                raise LoopFail('value depends on other loop-carried values (%s)' % loc[2])
            b = Body(k, v, [f for f in facts0 if k.decl().name() in consts_of(f)])
        iv = I.Poison('%s after zero iterations' % loc[2]) if init is I.UNBOUND else init

        def form(i):
            if isinstance(i, int) and i == 0:
                return init
            if S.provable(zi(i) >= 1):
                return inst(b, norm(zi(i) - 1))
            return LazyLast(i, b, init)
        return form
    if mode in ('int',):
        v = resolve(merge_paths(vals, lambda o: o[1]), key)
        if not I.is_int(v):
            raise LoopFail('integer becomes something else')
        d = z3.simplify(zi(I.int_term(v)) - ph.t)
        dn = set()
        collect_decls(d, dn)
        if not (dn & accs):
            # additive
            b = Body(k, mk_int(d), [f for f in facts0 if k.decl().name() in consts_of(f)])
            it0 = zi(I.int_term(init))
            return lambda i: mk_int(it0 + zi(sum_term(0, i, b, lambda x: zi(I.int_term(x)), 'isum')))
        tn = set()
        collect_decls(zi(I.int_term(v)), tn)
        if not (tn & (accs - {ph.t.decl().name()})):
            return fold_form(init, ph, v, k, n, z3.IntSort(), facts0)
        raise LoopFail('integer recurrence mixes loop-carried values')
    if mode == 'bool':
        v = resolve(merge_paths(vals, lambda o: o[1]), key)
        if not isinstance(v, (bool, SBool)):
            raise LoopFail('flag becomes something else')
        t = zb(v) if isinstance(v, bool) else v.t
        # acc' = acc or p / acc and p
        t0 = z3.simplify(z3.substitute(t, (ph.t, z3.BoolVal(False))))
        t1 = z3.simplify(z3.substitute(t, (ph.t, z3.BoolVal(True))))
        tn = set()
        collect_decls(t0, tn)
        collect_decls(t1, tn)
        if tn & accs:
            raise LoopFail('flag recurrence')
        if z3.is_true(t1):
            return lambda i: mk_bool(z3.Or(zb_(init), exists_form(t0, k, i)))
        if z3.is_false(t0):
            return lambda i: mk_bool(z3.And(zb_(init), z3.Not(exists_form(z3.Not(t1), k, i))))
        raise LoopFail('flag recurrence')
    if isinstance(mode, tuple) and mode[0] == 'bv':
        v = resolve(merge_paths(vals, lambda o: o[1]), key)
        if isinstance(v, int):
            v = SBv(z3.BitVecVal(v, mode[1]))
        if not isinstance(v, SBv):
            raise LoopFail('bit vector becomes something else')
        if v.w > mode[1]:
            hi = z3.Extract(v.w - 1, mode[1], v.t)
            if not S.provable(hi == 0):
                raise LoopFail('accumulator exceeds %d bits' % mode[1])
            v = SBv(z3.simplify(z3.Extract(mode[1] - 1, 0, v.t)))
        tn = set()
        collect_decls(v.t, tn)
        if tn & (accs - {ph.t.decl().name()}):
            raise LoopFail('bit vector recurrence mixes loop-carried values')
        if I.upper_bv(init if isinstance(init, (SBv, int)) else 1 << 70) >= (1 << mode[1]):
            raise LoopFail('initial value too wide')
        return fold_form(init, ph, SBv(I.bv_of(v, mode[1])), k, n, z3.BitVecSort(mode[1]), facts0)
    if mode == 'rope':
        outs = []
        side = None
        for c, v in vals:
            if not isinstance(v, (Rope, bytes, str)):
                raise LoopFail('string becomes something else (%s)' % loc[2])
            segs = list(segs_of(v))
            me = lambda s: isinstance(s, Sl) and s.a.t.eq(ph.segs[0].a.t) and same(s.lo, 0) and same(s.hi, ph.segs[0].hi)
            if segs and me(segs[0]):
                sd, rest = 'app', segs[1:]
            elif segs and me(segs[-1]):
                sd, rest = 'pre', segs[:-1]
            else:
                raise LoopFail('string changed other than by appending (%s)' % loc[2])
            if rest:
                if side not in (None, sd):
                    raise LoopFail('string grows at both ends')
                side = sd
            outs.append((c, mk(kind_of(init), rest)))
        v = merge_paths(outs, lambda o: o[1])
        v = clean(v, 'appended text')
        if isinstance(v, (bytes, str)) and not len(v):
            return lambda i: init
        b = Body(k, v, [f for f in facts0 if k.decl().name() in consts_of(f)])
        kd = kind_of(init)
        if isinstance(v, (bytes, str)) and len(v) == 1:
            if side == 'pre':
                return lambda i: mk(kd, [Rp(v, i)] + list(segs_of(init)))
            return lambda i: mk(kd, list(segs_of(init)) + [Rp(v, i)])
        if side == 'pre':
            return lambda i: mk(kd, [Jn(0, i, rev_map(MapSeg(0, i, b)).body)] + list(segs_of(init)))
        return lambda i: mk(kd, list(segs_of(init)) + [Jn(0, i, b)])
    if mode == 'eat':
        segs = list(segs_of(init))
        j0 = segs[0]
        for c, v in vals:
            want = mk(kind_of(init), [Jn(norm(zi(j0.lo) + k + 1), j0.hi, j0.body)] + segs[1:])
            if not (isinstance(v, (Rope, bytes, str)) and (rope_same(v, want))):
                raise LoopFail('stream not consumed one element per iteration')
        return lambda i: mk(kind_of(init), [Jn(norm(zi(j0.lo) + zi(i)), j0.hi, j0.body)] + segs[1:])
    raise LoopFail('mode %s' % (mode,))


def zb_(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v.t


def exists_form(p, k, i):
    b = exists_in(0, i, lambda j: z3.substitute(p, (k, zi(j))))
    return zb(b)


class LazyLast(VIte):
    """Value of the last iteration, or the initial value when there was none."""
    __slots__ = ()

    def __init__(self, i, b, init):
        super().__init__(z3.simplify(zi(i) >= 1), None, None)
        self.a = Lazy(lambda: inst(b, norm(zi(i) - 1)))
        self.b = init


def last_assigned(loc, init, ph, vals, k, accs, resolve, key, facts0):
    """A variable set on some iterations only: its last assignment, or the initial value when there was none."""
    sets = [(c, v) for c, v in vals if v is not ph]
    if any(isinstance(v, (I.Poison, PObj, PList)) for _, v in sets):
        raise LoopFail('value kept on some iterations (%s)' % loc[2])
    cond = z3.simplify(z3.Or(*[z3.And(*(c or [z3.BoolVal(True)])) for c, _ in sets]))
    v = resolve(merge_paths(sets, lambda o: o[1]), key)
    if decls_in(cond) & accs or all_names(v) & accs:
        raise LoopFail('value kept on some iterations (%s)' % loc[2])
    const = v is None or isinstance(v, (bool, int, str, bytes))
    b = Body(k, v, [f for f in facts0 if k.decl().name() in consts_of(f)])
    iv = I.Poison('%s never assigned' % loc[2]) if init is I.UNBOUND else init

    def form(i):
        if isinstance(i, int) and i == 0:
            return init
        e = z3.simplify(zb(exists_form(cond, k, i)))

        def last():
            w = S.fresh_int('w')
            S.assume(z3.And(0 <= w, w < zi(i), z3.substitute(cond, (k, w))))
            forall(k, norm(w + 1), i, z3.Not(cond))
            note_index(w)
            return inst(b, w)
        return VIte(e, v if const else Lazy(last), iv)
    return form


class Lazy:
    def __init__(self, f):
        self.f = f


def fold_form(init, ph, v, k, n, sort, facts0):
    """Recurrence acc' = step(acc, k): an uninterpreted sequence with its defining equations."""
    isbv = z3.is_bv_sort(sort) if hasattr(z3, 'is_bv_sort') else isinstance(sort, z3.BitVecSortRef)
    st = v.t if isinstance(v, (SInt, SBv)) else zi(v)
    acc = ph.t
    it = I.bv_of(init, sort.size()) if isbv else zi(I.int_term(init))

    def form(i):
        return fold_value(it, st, acc, k, i, sort)
    return form


def fold_value(it, st, acc, k, i, sort):
    ac = z3.Const('ACC_%s' % sort, sort)
    s2 = z3.simplify(z3.substitute(st, (acc, ac)))
    h0, args, _ = canon(s2, k)
    h = hashlib.sha1((h0 + it.sexpr()).encode()).hexdigest()[:16]
    ck = consts_of(it)
    extra = [ck[x] for x in sorted(ck) if x.startswith('k!') and not any(ck[x].eq(a) for a in args)]
    args = args + extra
    isbv = isinstance(sort, z3.BitVecSortRef)
    wrap = (lambda t: I.mk_bv(t)) if isbv else mk_int
    # the same recurrence met before on this path?
    for (it2, s22, k2, f2, args2, sort2, i2) in S.memo.get('folds', []):
        if sort2 != sort:
            continue
        kk = z3.Int(S.fresh_name('k'))
        a = z3.Const(S.fresh_name('facc'), sort)
        if not S.provable(it == it2):
            continue
        S.solver.push()
        n0 = len(S.pc)
        S._add(z3.And(kk >= 0, kk < zi(i)))
        if z3.is_int(a) and S.provable(it >= 0):
            pass
        x = z3.substitute(s2, (ac, a), (k, kk))
        y = z3.substitute(s22, (ac, a), (k2, kk))
        okk = S.provable(x == y)
        if not okk and z3.is_int(a):
            # with the invariant acc >= 0 when both steps keep it
            S._add(a >= 0)
            okk = S.provable(z3.And(x == y, x >= 0)) and S.provable(it >= 0)
        S.solver.pop()
        del S.pc[n0:], S.pcids[n0:]
        if okk:
            if not any(e[3].eq(f2) and same(e[6], i) for e in S.memo['folds']):
                S.memo['folds'].append((it2, s22, k2, f2, args2, sort2, i))
                kq = new_k()
                forall(kq, 0, zi(i), f2(*(args2 + [kq + 1])) == z3.substitute(s22, (ac, f2(*(args2 + [kq]))), (k2, kq)), True)
            return wrap(f2(*(args2 + [zi(i)])))
    f = z3.Function('fold_%s' % h, *([z3.IntSort()] * (len(args) + 1) + [sort]))
    F = lambda x: f(*(args + [x]))
    S.fact(F(z3.IntVal(0)) == it)
    jt = z3.simplify(zi(i))
    prev = z3.simplify(jt - 1)
    S.fact(z3.Implies(jt >= 1, F(jt) == z3.substitute(s2, (ac, F(prev)), (k, prev))))
    if not isbv:
        a = z3.Int(S.fresh_name('facc'))
        kk = new_k()
        S.solver.push()
        n0 = len(S.pc)
        S._add(z3.And(a >= 0, kk >= 0, kk < jt))
        okk = S.provable(z3.substitute(s2, (ac, a), (k, kk)) >= 0)
        S.solver.pop()
        del S.pc[n0:], S.pcids[n0:]
        if okk and S.provable(it >= 0):
            S.fact(z3.Implies(jt >= 0, F(jt) >= 0))
    if not isbv:
        v = fold_template(it, s2, ac, k, F, jt, sort)
        if v is not None:
            return wrap(v)
    S.memo.setdefault('folds', []).append((it, s2, k, f, args, sort, i))
    kq = new_k()
    forall(kq, 0, jt, F(kq + 1) == z3.substitute(s2, (ac, F(kq)), (k, kq)), True)
    return wrap(F(jt))


def fold_template(it, s2, ac, k, F, jt, sort):
    """Invariants G(j) = c and G(j) = H(m - j), m the length of an earlier recurrence H; each checked by induction."""
    def step_holds(inv, extra):
        kk = new_k()
        S.solver.push()
        n0 = len(S.pc)
        saved = S.save_q()
        S._add(z3.And(kk >= 0, kk < jt))
        for e in extra(kk):
            S._add(e)
        okk = S.provable(z3.substitute(s2, (ac, inv(kk)), (k, kk)) == inv(kk + 1))
        S.load_q(saved)
        S.solver.pop()
        del S.pc[n0:], S.pcids[n0:]
        return okk
    if step_holds(lambda j: it, lambda j: []):
        S.fact(z3.Implies(jt >= 0, F(jt) == it))
        return it
    for (it2, s22, k2, f2, args2, sort2, i2) in list(S.memo.get('folds', [])):
        if sort2 != sort:
            continue
        H = lambda x: f2(*(args2 + [x]))
        m = zi(i2)
        if not S.provable(jt <= m) or not S.provable(it == H(m)):
            continue
        acs = z3.Const('ACC_%s' % sort, sort)
        defn = lambda j: [z3.Implies(m - j >= 1, H(m - j) == z3.substitute(s22, (acs, H(m - j - 1)), (k2, m - j - 1)))]
        if step_holds(lambda j: H(m - j), defn):
            x = z3.simplify(m - jt)
            v = it2 if S.provable(x == 0) else H(x)
            S.fact(z3.Implies(jt >= 0, F(jt) == v))
            return v
    return None


def finish(env, step, n, k, plan, d, orelse, cond):
    normal, exits, forms, inits = d['normal'], d['exits'], d['forms'], d['inits']
    ncond = z3.simplify(z3.Or(*[z3.And(*(o[0] or [z3.BoolVal(True)])) for o in normal])) if normal else z3.BoolVal(False)
    # placeholder terms inside conditions become the closed forms
    reps = []
    for key, (loc, mode) in plan.items():
        ph = d['phs'][key]
        if isinstance(ph, (SInt, SBool, SBv)):
            reps.append((ph, forms[key], loc))

    def at(t, j):
        """formula t (mentions k and placeholders) at iteration j."""
        t = z3.substitute(t, (k, zi(j)))
        names = set()
        collect_decls(t, names)
        for ph, form, loc in reps:
            if ph.t.decl().name() in names:
                v = form(norm(zi(j)))
                if isinstance(ph, SBool):
                    new = zb_(v)
                elif isinstance(ph, SBv):
                    new = I.bv_of(v, ph.w)
                else:
                    new = zi(I.int_term(v))
                t = z3.substitute(t, (z3.substitute(ph.t, (k, zi(j))), new))
        return t

    def all_normal(hi):
        if not exits:
            return
        names = set()
        collect_decls(ncond, names)
        hit = [r for r in reps if r[0].t.decl().name() in names]
        rn = rope_ph_names(plan, d)
        if names & rn:
            return                         # weaker knowledge, still sound
        if not hit:
            forall(k, 0, hi, ncond)
        else:
            # instantiate through the closed forms lazily: only at known indices
            S.qfacts = S.qfacts + [(k, 0, hi, ncond_closed(ncond, hit, k))] if False else S.qfacts
            for j in list(S.indices):
                if len(S.indices) < 12:
                    S.assume(z3.Implies(z3.And(0 <= j, j < zi(hi)), at(ncond, j)))

    def while_facts():
        """The condition held before every iteration and fails now."""
        c = d['cond']
        if c is not None and not isinstance(c, bool):
            names = decls_in(c)
            if not (names & rope_ph_names(plan, d)):
                r = Resolver(d['phs'], forms, k)(c)
                if not (decls_in(r) & ph_names(d['phs'])):
                    forall(k, 0, n, r)
        c = cond()
        S.assume(z3.Not(c) if not isinstance(c, bool) else z3.BoolVal(not c))
        if S.check(z3.BoolVal(True)) == 'unsat':
            raise PathAbort()
        note_index(z3.simplify(zi(n)))

    if exits:
        e = S.fresh_bool('exits')
        if S.decide(e):
            w = S.fresh_int('w')
            S.assume(z3.And(0 <= w, w < zi(n)) if n is not None else w >= 0)
            all_normal(w)
            note_index(w)
            apply_elemwrites(normal, [o[4] for o in normal], k, n, upto=w) if normal else None
            for key, (loc, mode) in plan.items():
                v = forms[key](w)
                loc_set(loc, v)
            if cond is not None:
                c = cond()
                S.assume(c if not isinstance(c, bool) else z3.BoolVal(c))
            try:
                step(w)
            except I.BreakExc:
                return True
            except I.ContinueExc:
                raise PathAbort()
            raise PathAbort()
        all_normal(n)
    if not normal and n is not None:
        S.assume(zi(n) <= 0)
    if n is None:
        raise Unsupported('loop without an iteration count')
    apply_elemwrites(normal, [o[4] for o in normal], k, n) if normal else None
    for key, (loc, mode) in plan.items():
        loc_set(loc, forms[key](n))
    if cond is not None:
        while_facts()
    I.run(orelse, env)
    return False


def rope_ph_names(plan, d):
    out = set()
    for key, (loc, mode) in plan.items():
        ph = d['phs'][key]
        if isinstance(ph, Rope) and mode == 'rope':
            out.add(ph.segs[0].a.t.decl().name())
    return out
