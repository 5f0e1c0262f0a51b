"""Discharge harnesses: symbolic exploration (proof) and native falsification."""
import hashlib
import ast
import os
import pickle
import random
import signal
import sys
import itertools
import time
import traceback
import z3

from .core import *
from .ropes import *
from . import core
from . import interp as I
from . import models
from . import loops
from . import api
from . import domains
from .domains import concretize, NoValue

REPO = os.environ.get('PYDV_REPO', '/repo')

# ---- specification primitives inside the verifier ---------------------------------------------


class Obl:
    """Record of one exploration."""

    def __init__(self):
        self.total = self.ok = 0
        self.labels = {}
        self.failures = []
        self.reached = 0
        self.model = None
        self.live = {}                # label -> reached on a path whose conditions are satisfiable


CUR = [None]


def s_lemma(args, kw):
    s_check(args, kw, soft=True)


def s_check(args, kw, soft=False):
    o = CUR[0]
    cond = I.truth(args[0]) if args else True
    label = args[1] if len(args) > 1 else ''
    if S.nofork:
        raise NeedFork()
    o.total += 1
    o.reached += 1
    if isinstance(cond, bool):
        res = 'ok' if cond else None
        if res is None:
            r = S.check(z3.BoolVal(True), ms=S.oblig_ms, full=True)
            res = 'ok' if r == 'unsat' else (saturate(o, z3.BoolVal(True)) if r == 'sat' else 'unknown')
    else:
        r = S.check(z3.Not(cond), ms=S.oblig_ms, full=True)
        res = 'ok' if r == 'unsat' else ('refuted' if r == 'sat' else 'unknown')
        if res == 'refuted':
            res = saturate(o, z3.Not(cond))
        if res == 'refuted' and any(x.startswith('listeq!') for x in loops.consts_of(cond)):
            res = 'unknown'
    if res == 'ok':
        if not o.live.get(label):
            o.live[label] = S.check(z3.BoolVal(True)) != 'unsat'
        o.ok += 1
        o.labels[label] = o.labels.get(label, 0) + 1
        return None
    if soft:
        res = 'unknown'
    fail(o, label, res, z3.Not(cond) if not isinstance(cond, bool) else z3.BoolVal(True), args[2:])
    # continue as if it held, to find independent failures
    if not isinstance(cond, bool):
        S.assume(cond)
    else:
        raise PathAbort()


def saturate(o, neg, rounds=12, secs=25):
    """A candidate counterexample against the facts about all list items that were only used at some of them.

    'ok' when using them at further items shows there is none, 'refuted' when one fits them all, else 'unknown'."""
    t0 = time.monotonic()
    o.model = None
    for _ in range(rounds):
        s = z3.Solver()
        s.set('timeout', S.oblig_ms)
        s.add(S.pc)
        s.add(neg)
        r = str(s.check())
        if r != 'sat':
            return 'ok' if r == 'unsat' else 'unknown'
        m = s.model()
        n0 = len(S.pc)
        bad = 0
        ev = lambda t: m.eval(t, model_completion=True)
        for (k, lo, hi, f, d) in list(S.qfacts):
            a, b = ev(zi(lo)), ev(zi(hi))
            if not (z3.is_int_value(a) and z3.is_int_value(b)):
                bad += 1
                continue
            a, b = a.as_long(), b.as_long()
            n = 0
            for j in itertools.chain(range(a, min(b, a + 80)), range(max(a + 80, b - 80), b)):
                if time.monotonic() - t0 > secs:
                    return 'unknown'
                if z3.is_false(ev(z3.substitute(f, (k, z3.IntVal(j))))):
                    bad += 1
                    n += 1
                    for t in named(j, hi, ev):
                        loops.note_index(t)
                        loops.add_q(k, lo, hi, f, d, t)
                        for (perm, inv, top) in S.extra.get('perms', ()):
                            loops.perm_at(perm, inv, top, t)
                    if n >= 3:
                        break
        if not bad:
            try:
                for v in o.inputs.values():
                    concretize(m, v)              # brings in what is known of the items of the inputs
            except Exception:
                pass
            if len(S.pc) == n0 or all(z3.is_true(ev(x)) for x in S.pc[n0:]):
                o.model = m
                return 'refuted'
        elif len(S.pc) == n0:
            return 'unknown'
        if time.monotonic() - t0 > secs:
            return 'unknown'
    return 'unknown'


def named(j, hi, ev):
    """Index terms with the value j in the model, the number itself included."""
    out = []
    for t in list(S.indices):
        if z3.is_int_value(t) or len(out) > 3:
            continue
        for u in (t, t + 1, t - 1, zi(hi) - 1 - t):
            x = ev(u)
            if z3.is_int_value(x) and x.as_long() == j:
                out.append(z3.simplify(u))
                break
    return out + [z3.IntVal(j)]


def fail(o, label, res, neg, info=()):
    ce = None
    m = o.model
    o.model = None
    if res == 'refuted' and m is None:
        s = z3.Solver()
        s.set('timeout', S.oblig_ms)
        for a in S.pc:
            s.add(a)
        s.add(neg)
        if str(s.check()) == 'sat':
            m = s.model()
    if m is not None:
        try:
            ce = {n: concretize(m, v) for n, v in o.inputs.items()}
        except (NoValue, Unsupported, PathAbort, NeedFork, Exception):
            ce = None
    if S.extra.get('invariants') and res == 'refuted':
        res = 'unknown'                        # an arbitrary state of a written invariant need not be reachable
    o.failures.append(dict(label=label, status=res, input=ce, detail=', '.join(str(x)[:400] for x in info),
                           formula=str(neg)[:1500]))


def s_assume(args, kw):
    if S.nofork:
        raise NeedFork()
    c = I.truth(args[0])
    if isinstance(c, bool):
        if not c:
            raise PathAbort()
        return None
    if S.check(c) == 'unsat':
        raise PathAbort()
    S.assume(c)


def s_outcome(args, kw):
    try:
        return ('ok', I.call(args[0], list(args[1:]), kw))
    except PyExc as e:
        return ('raises', api.canon_exc(e.cls))


def s_raises(args, kw):
    try:
        I.call(args[1], list(args[2:]), kw)
    except PyExc as e:
        return issubclass(e.cls, args[0])
    return False


def s_same(args, kw):
    c = loops.deep_eq(args[0], args[1])
    a, b = I.force(args[0]), I.force(args[1])
    if isinstance(a, (bool, SBool)) != isinstance(b, (bool, SBool)):
        return False
    return c if isinstance(c, bool) else mk_bool(c)


I.MODELS[api.check] = s_check
I.MODELS[api.lemma] = s_lemma
I.MODELS[api.assume] = s_assume
I.MODELS[api.outcome] = s_outcome
I.MODELS[api.raises] = s_raises
I.MODELS[api.same] = s_same
I.MODELS[api.short] = lambda a, k: ''


# ---- patches ----------------------------------------------------------------------------------

class Patched:
    def __init__(self, *fs):
        self.fs = [f for f in fs if f is not None]

    def __enter__(self):
        self.saved = []
        for f in self.fs:
            for o, n, v in f():
                had = n in vars(o) if hasattr(o, '__dict__') else hasattr(o, n)
                self.saved.append((o, n, vars(o).get(n) if had else None, had))
                setattr(o, n, v)

    def __exit__(self, *a):
        for o, n, v, had in reversed(self.saved):
            if had:
                setattr(o, n, v)
            else:
                delattr(o, n)


# ---- proof ------------------------------------------------------------------------------------

def install_contracts(names):
    out = {}
    for n in names:
        c = api.CONTRACT[n]
        try:
            ts = c.targets()
        except AttributeError:
            continue       # the function is gone: callers are verified through whatever replaced it
        for t in ts:
            out[t] = c.model
    return out


def pieces(h):
    """Values of the split parameters: each piece is proved in its own process, together they are the whole domain."""
    out = [{}]
    for n in h.split:
        d = h.doms[n]
        vals = (False, True) if isinstance(d, domains.Bool) else d.vals
        out = [dict(x, **{n: v}) for x in out for v in vals]
    return out


def merge(rs):
    """Results of the pieces of one harness."""
    if len(rs) == 1:
        return rs[0]
    order = ('failed', 'error', 'unsupported', 'proved')
    worst = min(rs, key=lambda r: order.index(r['status']))
    rs = [r for r in rs if 'obligations' in r]
    if not rs:
        return worst
    labels, fns = {}, {}
    for r in rs:
        fns.update(r['functions'])
        for l, c in r['labels'].items():
            labels[l] = labels.get(l, 0) + c
    out = dict(status=worst['status'], why=worst.get('why', ''), labels=labels, functions=fns, failures=[f for r in rs for f in r['failures']])
    for k in ('obligations', 'discharged', 'paths', 'queries', 'cached', 'solver_s', 'wall_s'):
        out[k] = sum(r[k] for r in rs)
    return out


def prove(h, budget=None, fix=()):
    fix = dict(fix)
    o = Obl()
    CUR[0] = o
    t0 = time.monotonic()
    S.deadline = t0 + (budget or h.budget)
    S.stats = core.Stats()
    S.reads = {}
    trail = core.Trail()
    status, why = 'proved', ''
    paths = 0
    I.CONTRACTS.clear()
    I.CONTRACTS.update(install_contracts(h.uses))
    with Patched(h.patch, h.sympatch):
        while True:
            trail.pos = 0
            S.reset(trail)
            S.extra.update(h.extra)
            S.quick_ms = h.quick_ms
            if h.unroll:
                I.MAX_UNROLL = h.unroll
            paths += 1
            exc = None
            try:
                if h.setup:
                    h.setup()
                o.inputs = {}
                for n, d in h.doms.items():
                    o.inputs[n] = I.from_native(fix[n]) if n in fix else d.sym(n)
                before = {n: snapshot_value(v) for n, v in o.inputs.items()}
                o.inputs = before if before else o.inputs
                live = {n: v for n, v in o.inputs.items()}
                args = {n: copy_value(v) for n, v in live.items()}
                I.call(h.fn, [], args)
            except PathAbort:
                pass
            except PyExc as e:
                exc = e
            except Unsupported as e:
                status, why = 'unsupported', str(e)
                if os.environ.get('PYDV_TRACE'):
                    traceback.print_exc()
                break
            except NeedFork:
                status, why = 'unsupported', 'branch in a non-forking context'
                break
            except RecursionError:
                status, why = 'unsupported', 'recursion limit of the verifier'
                break
            except z3.Z3Exception as e:
                status, why = 'unsupported', 'solver interface: %s' % e
                if os.environ.get('PYDV_TRACE'):
                    traceback.print_exc()
                break
            except (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError) as e:
                status, why = 'unsupported', 'verifier error %s: %s' % (type(e).__name__, e)
                if os.environ.get('PYDV_TRACE'):
                    traceback.print_exc()
                break
            if exc is not None:
                o.total += 1
                r = S.check(z3.BoolVal(True), ms=S.oblig_ms, full=True)
                res = 'ok' if r == 'unsat' else saturate(o, z3.BoolVal(True)) if r == 'sat' else 'unknown'
                if res == 'ok':
                    o.ok += 1
                else:
                    fail(o, 'no exception escapes (%s %s)' % (exc.cls.__name__, str(exc.pargs)[:200]),
                         res, z3.BoolVal(True))
            if len(o.failures) >= 6:
                break
            if paths > h.paths:
                status, why = 'unsupported', 'more than %d paths' % h.paths
                break
            while trail.items and not trail.items[-1][1]:
                trail.items.pop()
            if not trail.items:
                break
            trail.items[-1] = [not trail.items[-1][0], False, trail.items[-1][2]]
    if o.failures:
        status = 'failed'
    elif status == 'proved' and o.reached == 0 and not fix:
        status, why = 'unsupported', 'no obligation was reached'
    elif status == 'proved' and not all(o.live.values()):
        status, why = 'unsupported', 'vacuous: %s' % [l for l, v in o.live.items() if not v]
    fns = {}
    for (f, q), node in S.reads.items():
        fns['%s:%s' % (os.path.relpath(f, REPO) if f.startswith(REPO) else os.path.basename(f), q)] = \
            hashlib.sha1(ast.dump(node).encode()).hexdigest()[:12]
    return dict(status=status, why=why, obligations=o.total, discharged=o.ok, labels=o.labels, failures=o.failures,
                paths=paths, queries=S.stats.queries, cached=S.stats.cached, solver_s=round(S.stats.time, 2),
                wall_s=round(time.monotonic() - t0, 2), functions=fns)


def snapshot_value(v):
    return v


def copy_value(v):
    """A copy whose mutation does not affect the recorded input."""
    if isinstance(v, PList):
        return PList(segs=[LitSeg([copy_value(x) for x in s.items]) if isinstance(s, LitSeg) else s for s in v.segs], kind=v.kind)
    if isinstance(v, PDict):
        return PDict([(k, copy_value(x)) for k, x in v.pairs])
    if isinstance(v, PObj) and v.origin is None:
        return PObj(v.cls, {n: copy_value(x) for n, x in v.fields.items()})
    return v


# ---- native falsification -----------------------------------------------------------------------

def _alarm(*a):
    raise api.TimeoutError_()


def run_native(h, args, secs=25):
    """None if fine, 'skip', or (label, detail)."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(secs)
    api.COUNT[0] = 0
    try:
        h.fn(**args)
        return None if api.COUNT[0] else 'skip'
    except api.Assumed:
        return 'skip'
    except api.CheckFailed as e:
        return (e.label, e.detail)
    except api.TimeoutError_:
        return ('terminates', 'no result within %d s' % secs)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join('%s:%d' % (os.path.basename(x.filename), x.lineno) for x in reversed(tb[-3:]))
        return ('no exception escapes', '%s: %s at %s' % (type(e).__name__, e, where))
    finally:
        signal.alarm(0)


def inputs_of(h, rng, near):
    """Generated arguments; with the verifier's counterexamples at hand, every other case keeps some of their parts."""
    args = {n: d.gen(rng) for n, d in h.doms.items()}
    if near and rng.random() < 0.5:
        try:
            model = pickle.loads(bytes.fromhex(rng.choice(near)))
        except Exception:
            return args
        for n in args:
            if n in model and rng.random() < 0.6:
                args[n] = model[n]
    return args


def native(h, seed, cases, secs, tag='', near=()):
    t0 = time.monotonic()
    ran = skipped = 0
    with Patched(h.patch, h.natpatch):
        i = 0
        while i < cases and time.monotonic() - t0 < secs:
            rng = random.Random('%s|%s|%d|%s' % (h.name, seed, i, tag))
            random.seed('%s|%d' % (seed, i))
            args = inputs_of(h, rng, near)
            shown = {n: api.short(v) for n, v in args.items()}
            r = run_native(h, args)
            i += 1
            if r == 'skip':
                skipped += 1
                continue
            ran += 1
            if r is not None:
                return dict(status='fail', label=r[0], detail=r[1], case=i - 1, seed=seed, tag=tag, near=list(near), input=shown, cases=ran,
                            wall_s=round(time.monotonic() - t0, 2))
            if not h.doms:
                break
    return dict(status='pass', cases=ran, skipped=skipped, wall_s=round(time.monotonic() - t0, 2))


def replay_case(h, seed, case, tag='', near=()):
    with Patched(h.patch, h.natpatch):
        rng = random.Random('%s|%s|%d|%s' % (h.name, seed, case, tag))
        random.seed('%s|%d' % (seed, case))
        args = inputs_of(h, rng, near)
        return {n: api.short(v) for n, v in args.items()}, run_native(h, args)


def fits(h, inp):
    try:
        return all(d.fits(inp[n]) for n, d in h.doms.items())
    except Exception:
        return False


def replay_input(h, inp):
    """Run a counterexample of the verifier against the real code."""
    with Patched(h.patch, h.natpatch):
        random.seed(1)
        shown = {n: api.short(v) for n, v in inp.items()}
        return shown, run_native(h, inp)


def register_primitives():
    from specs import ref
    I.MODELS[ref.byte_length] = lambda a, k: mk_int(models.byte_len(zi(I.int_term(a[0]))))


def s_state_of(args, kw):
    f = args[0]
    p = I.pfunc_of(f) if not isinstance(f, I.PFunc) else f
    names = sorted({n.id for n in ast.walk(p.node) if isinstance(n, ast.Name)} |
                   {x for n in ast.walk(p.node) if isinstance(n, ast.Nonlocal) for x in n.names})
    out, seen = [], []
    for n in names:
        e = p.env.find(n) if p.env is not None else None
        if e is None:
            continue
        out.append(s_plain(e.vars[n]))
    return PList(out)


def s_plain(v):
    v = I.force(v)
    if isinstance(v, PDict):
        return PList([PList([s_plain(k), s_plain(x)]) for k, x in v.pairs])
    if isinstance(v, PList) and v.concrete:
        return PList([s_plain(x) for x in v.items])
    if isinstance(v, tuple):
        return PList([s_plain(x) for x in v])
    if isinstance(v, PObj):
        return PList([PList([n, s_plain(v.fields[n])]) for n in sorted(v.fields)])
    if v is I.UNBOUND:
        return 'unbound'
    if isinstance(v, (I.PFunc, I.Bound)) or callable(v) and not isinstance(v, type):
        return 'function'
    return v


I.MODELS[api.state_of] = s_state_of
