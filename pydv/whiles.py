"""While loops with a symbolic number of iterations: summarised with an unknown count n; partial correctness (termination is
checked by running the real code)."""
from .core import *
from .ropes import Rope
from . import interp as I


def sym_while(s, env, done):
    from . import loops
    if done or S.extra.get('unroll_while'):
        return False
    key = ('while', id(s))
    if S.extra.get(key):
        return False

    names = loops.assigned_names(s.body)
    form = (id(s), tuple((nm, shape(env, nm)) for nm in sorted(names)))
    if form in S.unsummarised:
        S.extra[key] = True
        return False

    def cond():
        return I.truth(I.ev(s.test, env))

    def step(k):
        I.run(s.body, env)
    n = S.fresh_int('n_while', 0)
    try:
        r = loops.loop(env, step, n, names, s.orelse, cond=cond)
    except loops.NotSummarised:
        S.extra[key] = True
        S.unsummarised.add(form)
        return False
    return True


def shape(env, nm):
    """Enough of a variable's form to expect the same outcome of an attempt to summarise the loop."""
    e = env.find(nm)
    v = e.vars.get(nm) if isinstance(e, I.Env) else None
    if isinstance(v, Rope):
        return tuple(type(g).__name__ for g in v.segs)
    return type(v).__name__


class Invariant:
    """A written loop invariant for `while <name>:`.  entry: obligations for the state before the loop; havoc: put an arbitrary
    state that satisfies the invariant into the environment; keep: obligations for the state after one more iteration."""

    name = None

    def __init__(self, proved_by=None):
        self.proved_by = proved_by          # harness that proves the invariant (then only used here)

    def entry(self, env):
        pass

    def havoc(self, env):
        pass

    def keep(self, env):
        pass

    def lists(self, env):
        """Lists the body may change (given by havoc)."""
        return []

    # helpers
    @staticmethod
    def get(env, nm):
        e = env.find(nm)
        if e is None:
            raise Unsupported('invariant: no variable %s' % nm)
        return I.force(e.vars[nm])

    @staticmethod
    def put(env, nm, v):
        e = env.find(nm)
        (env if e is None else e).vars[nm] = v

    def holds(self, cond, label):
        from . import verify
        if self.proved_by:
            return
        verify.s_lemma([cond if isinstance(cond, bool) else SBool(cond), 'loop invariant: ' + label], {})


def invariant_for(s, env):
    import ast
    for r in S.extra.get('invariants', ()):
        if isinstance(s.test, ast.Name) and s.test.id == r.name:
            return r
    return None


def annotated(s, env, rule):
    """The loop by its written invariant: base case, then one arbitrary iteration (this path ends there) or the exit."""
    from . import loops
    if S.nofork:
        raise NeedFork()
    rule.entry(env)
    names = loops.assigned_names(s.body)
    for nm in names:
        e = env.find(nm)
        if not isinstance(e, I.Env):
            if e is not None:
                raise Unsupported('loop changes a captured variable of a native function')
            continue
        v = e.vars[nm]
        e.vars[nm] = SInt(S.fresh_int(nm)) if I.is_int(v) and not isinstance(v, bool) else I.Poison(nm)
    rule.havoc(env)
    if not S.decide(I.truth(I.ev(s.test, env))):
        I.run(s.orelse, env)
        return
    pre = S.snapshot()[0]
    allowed = [id(l) for l in rule.lists(env)]
    try:
        I.run(s.body, env)
    except I.BreakExc:
        return
    except I.ContinueExc:
        pass
    for loc in loops.changed(pre):
        if loc[0] == 'env' and loc[2] in names or loc[0] == 'list' and id(loc[1]) in allowed or loc[0] == 'body':
            continue
        raise Unsupported('loop body changes more than its invariant says: %s' % (loc[2] or loc[0],))
    if S.extra.get('elemwrites'):
        raise Unsupported('loop body changes items')
    if not rule.proved_by:
        rule.keep(env)
    raise PathAbort()
