"""Written loop invariants for loops whose state pydv cannot infer (verifier level: they speak about the state of the run)."""
import z3
from pydv.core import *
from pydv import interp as I, loops
from pydv.whiles import Invariant


def call(name, *args):
    from specs import p08
    fn = getattr(p08, name)
    return I.call_pfunc(I.pfunc_of(fn), list(args), {})


def is_(a, b):
    r = I.compare('is', a, b)
    return r if isinstance(r, bool) else z3.simplify(r)


class Drawing(Invariant):
    """select_coins, random draw: the coins selected are the first m of the shuffled ones, the others are left; the fee and
    the remainder are those of the selected coins, and do not suffice yet."""
    name = 'unspents'

    def entry(self, env):
        rest, sel = self.get(env, 'unspents'), self.get(env, 'selected_coins')
        self.holds(zi(sel.length()) == 0, 'no coin selected at first')
        S.extra['drawing'] = I.copy_segs(rest)

    def lists(self, env):
        return [self.get(env, 'unspents'), self.get(env, 'selected_coins')]

    def ask(self, env):
        sel = self.get(env, 'selected_coins')
        fee = self.get(env, 'fee')
        need = fee if I.test(self.get(env, 'absolute_fee')) else call('estimate', sel, self.get(env, 'output_size'), fee)
        return need, I.binop('-', I.binop('-', call('total_of', sel), self.get(env, 'target')), need)

    def short(self, env, left):
        c = zb(I.compare('<', self.get(env, 'remaining'), self.get(env, 'min_change')))
        more = zi(left.length()) > 0 if I.test(self.get(env, 'consolidate')) else z3.BoolVal(False)
        return z3.Or(c, more)

    def havoc(self, env):
        order = PList(segs=S.extra['drawing'])
        rest, sel = self.get(env, 'unspents'), self.get(env, 'selected_coins')
        n = zi(order.length())
        m = S.fresh_int('drawn', 0)
        S.assume(m <= n)
        S.extra['drawn'] = m
        if S.decide(m == 0):
            sel.segs, rest.segs = [], I.copy_segs(order)
            return
        sel.segs, rest.segs = loops.list_slice(order, None, m).segs, loops.list_slice(order, m, None).segs
        need, left = self.ask(env)
        self.put(env, 'estimated_fee', need)
        self.put(env, 'remaining', left)
        S.assume(self.short(env, rest))

    def keep(self, env):
        order = PList(segs=S.extra['drawing'])
        n, m = zi(order.length()), S.extra['drawn']
        rest, sel = self.get(env, 'unspents'), self.get(env, 'selected_coins')
        self.holds(z3.And(zi(sel.length()) == m + 1, zi(rest.length()) == n - m - 1), 'one coin more is selected')
        need, left = self.ask(env)
        self.holds(zb(I.compare('==', self.get(env, 'estimated_fee'), need)), 'the fee is that of the selected coins')
        self.holds(zb(I.compare('==', self.get(env, 'remaining'), left)), 'the remainder is that of the selected coins')
        self.holds(self.short(env, rest), 'they do not suffice')
        j = S.fresh_int('j', 0)
        S.assume(j < n)
        loops.note_index(j)
        if S.decide(j <= m):
            self.holds(is_(loops.list_elem(sel, j), loops.list_elem(order, j)), 'the selected coins are the first of the shuffled ones')
        else:
            self.holds(is_(loops.list_elem(rest, z3.simplify(j - m - 1)), loops.list_elem(order, j)), 'the coins left are the others')


class Searching(Invariant):
    """select_coins, branch and bound: every branch to explore is (d, coins, value) with different coins among the first d of the
    sorted ones, worth value after paying for their own size."""
    name = 'branches'

    def entry(self, env):
        for x in self.items(self.get(env, 'branches'), None):
            self.good(env, x)

    def lists(self, env):
        return [self.get(env, 'branches')]

    @staticmethod
    def items(l, first):
        segs = list(l.segs)
        if first is not None:
            if not segs or segs[0] is not first and not (isinstance(segs[0], MapSeg) and segs[0].body is first.body
                                                        and loops.same(segs[0].lo, first.lo) and loops.same(segs[0].hi, first.hi)):
                raise Unsupported('invariant: the branches left are not kept')
            segs = segs[1:]
        out = []
        for s in segs:
            if not isinstance(s, LitSeg):
                raise Unsupported('invariant: unknown branches')
            out += s.items
        return out

    def havoc(self, env):
        branches, order, fee = self.get(env, 'branches'), self.get(env, 'sorted_unspents'), self.get(env, 'fee')

        def unknown(j):
            raise Unsupported('invariant: a second branch is looked at')
        rest = MapSeg(0, S.fresh_int('left', 0), Body(loops.new_k(), None, [], unknown))
        S.extra['branches left'] = rest
        if S.decide(S.fresh_bool('explored')):
            branches.segs = []
            S.extra['branches left'] = None
            return
        n = zi(order.length())
        d, m = S.fresh_int('depth', 0), S.fresh_int('chosen', 0)
        S.assume(z3.And(d <= n, m <= d))
        S.fresh_n += 1
        g = z3.Function('choice!%d' % S.fresh_n, z3.IntSort(), z3.IntSort())
        h = z3.Function('chosen_at!%d' % S.fresh_n, z3.IntSort(), z3.IntSort())

        def pick(j):
            j = zi(j)
            S.fact(z3.Implies(z3.And(0 <= j, j < m), z3.And(0 <= g(j), g(j) < d, h(g(j)) == j)))
            return loops.inst(order.segs[0].body, g(j))
        if len(order.segs) != 1 or not isinstance(order.segs[0], MapSeg) or not loops.same(order.segs[0].lo, 0):
            raise Unsupported('invariant: form of the sorted coins')
        b = Body(loops.new_k(), None, [], pick)
        sel = PList(segs=[MapSeg(0, m, b)])
        branches.segs = [rest, LitSeg([(mk_int(d), sel, call('net_of', sel, fee))])]

    def good(self, env, x):
        order, fee = self.get(env, 'sorted_unspents'), self.get(env, 'fee')
        x = I.force(x)
        d, sel, value = tuple(x.items) if isinstance(x, PList) else x
        n, d, sel = zi(order.length()), zi(I.index_term(I.force(d))), I.force(sel)
        self.holds(z3.And(0 <= d, d <= n), 'depth of a branch')
        self.holds(zi(sel.length()) <= d, 'number of coins of a branch')
        self.holds(zb(I.compare('==', value, call('net_of', sel, fee))), 'value of a branch')
        if S.decide(zi(sel.length()) <= 0):
            return
        i, j = S.fresh_int('i', 0), S.fresh_int('j', 0)
        S.assume(z3.And(i < zi(sel.length()), j < zi(sel.length())))
        a, b = I.force(loops.list_elem(sel, i)), I.force(loops.list_elem(sel, j))
        self.holds(z3.Implies(i != j, z3.Not(zb(is_(a, b)))), 'the coins of a branch are different')
        perms = S.extra.get('perms', ())
        if len(perms) != 1 or not isinstance(a, PObj) or a.home is None:
            raise Unsupported('invariant: coins of a branch')
        perm, inv, top = perms[0]
        loops.perm_injective(a.home[1])
        loops.perm_at(perm, inv, top, a.home[1])
        t = z3.simplify(inv(a.home[1]))
        self.holds(z3.And(0 <= t, t < d), 'the coins of a branch come before its depth')
        self.holds(zb(is_(a, loops.inst(order.segs[0].body, t))), 'the coins of a branch are sorted coins')

    def keep(self, env):
        first = S.extra['branches left']
        for x in self.items(self.get(env, 'branches'), first):
            self.good(env, x)


def zb(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c
