"""Coin selection."""
from pydv.api import harness, check, assume, outcome, raises, same
from pydv.domains import *
from specs import ref, invariants
import math
import bit.transaction as tx
from bit.exceptions import InsufficientFunds
from bit.network.meta import Unspent
from specs.p02 import list_upto

C = ['fee estimate']
KINDS = ('p2pkh', 'p2pkh-uncompressed', 'p2sh', 'np2wkh', 'np2wsh')


def coin(amount, vsize, segwit, name):
    u = Unspent(amount, 1, '', name, 0, 'np2wkh' if segwit else 'p2pkh', vsize)
    return u


def coins_of(cs):
    return [coin(c[0], c[1], c[2], str(j)) for j, c in enumerate(cs)]


def size_of_count(n):
    b = ref.byte_length(n)
    return b if b > 0 else 1


def fee_of(ins, n_in, outs, n_out, fee, segwit):
    """fee rate times: input sizes, output sizes, the two counts, 8 bytes of overhead, half a byte for segwit; rounded up."""
    size = ins + size_of_count(n_in) + outs + size_of_count(n_out) + 8
    if size != int(size):
        return math.ceil(size + (0.5 if segwit else 0)) * fee
    return (size + (1 if segwit else 0)) * fee


def estimate(coins, sizes, fee):
    return fee_of(sum([u.vsize for u in coins]), len(coins), sum(sizes), len(sizes), fee, any([u.segwit for u in coins]))


def total_of(coins):
    return sum([u.amount for u in coins])


def net_of(coins, fee):
    """What the coins are worth after paying for their own size."""
    return sum([u.amount for u in coins]) - sum([u.vsize for u in coins]) * fee


def match_of(coins, target, fee, sizes):
    """What the coins are worth after paying for their own size, and what a match without change needs."""
    return total_of(coins) - sum([u.vsize for u in coins]) * fee, target + (sum(sizes[:-1]) + 9) * fee


def judge(given, target, fee, sizes, min_change, absolute, consolidate):
    before = list(given)
    r = outcome(tx.select_coins, target, fee, sizes, min_change, absolute_fee=absolute, consolidate=consolidate, unspents=given)
    check(len(given) == len(before) and all([given[i] is before[i] for i in range(len(before))]), 'the given coins are not changed')
    if r[0] == 'ok':
        picked, rest = r[1]
        check(len(picked) >= 1, 'some coin is selected')
        where = [[j for j in range(len(given)) if given[j] is u] for u in picked]
        check(all([len(w) == 1 for w in where]), 'only given coins')
        spots = [w[0] for w in where]
        check(all([spots[i] != spots[j] for i in range(len(spots)) for j in range(i)]), 'each coin at most once')
        total = sum([u.amount for u in picked])
        need = fee if absolute else estimate(picked, sizes, fee)
        if consolidate:
            check(len(picked) == len(given), 'consolidation uses every coin')
        if total - target - need == rest and rest >= min_change:
            check(True, 'covers target, fee and remainder')
        else:
            # a change-free match: the inputs pay their own size, the outputs without change and 9 bytes
            check(not absolute and not consolidate and rest == 0, 'covers target, fee and remainder')
            net, base = match_of(picked, target, fee, sizes)
            check(net >= base, 'a change-free match covers target and fee')
            check(net <= base + 182 * fee, 'a change-free match wastes at most one input and output')
    else:
        check(r[1] is InsufficientFunds, 'InsufficientFunds is the only refusal')
        total = sum([u.amount for u in given])
        need = fee if absolute else estimate(given, sizes, fee)
        check(total - target - need < min_change, 'refused only when all coins together cannot cover the need')


def amount(rng):
    return rng.choice((0, 1, rng.randrange(1000), rng.randrange(10000), rng.randrange(100000), rng.randrange(10 ** 9)))


COIN = Tup(Gen(amount, Int(0, None).sym), Int(1, 400), Bool())


def problem(rng):
    n = rng.choice((1, 1, 2, 3, 4, 6, 12))
    cs = [(amount(rng), rng.choice((68, 91, 140, 148, 180, 298, 139.5, rng.randrange(1, 400), rng.randrange(4, 1600) / 4)), rng.random() < 0.5) for _ in range(n)]
    fee = rng.choice((0, 1, 1, 5, 100, rng.randrange(0, 300)))
    sizes = [rng.choice((31, 32, 34, 43)) for _ in range(rng.choice((0, 1, 2, 5)))] + [rng.choice((0, 0, 89, 178)), 34]
    sub = [c for c in cs if rng.random() < 0.6] or cs
    tot = sum(c[0] for c in sub)
    r = rng.random()
    if r < 0.4:
        target = max(0, tot - fee * (sum(c[1] for c in sub) + sum(sizes[:-1]) + 9 + rng.choice((-1, 0, 0, 1, 2, 100, 182, 183))))
    elif r < 0.7:
        target = max(0, tot - fee * (sum(c[1] for c in sub) + sum(sizes) + 10 + rng.choice((-1, 0, 0, 1, 2))) - rng.choice((0, 0, 1, 546)))
    else:
        target = amount(rng)
    mc = rng.choice((0, 0, 1, 546, 1000))
    absolute, consolidate = rng.random() < 0.3, rng.random() < 0.3
    if absolute:
        fee = rng.choice((0, 1, 1000, max(0, tot - target), max(0, tot - target - mc)))
    return (cs, target, fee, sizes, mc, absolute, consolidate)


@harness('P08', p=Gen(problem), symbolic=False, secs=8, bounded='executed with generated coin sets, targets, fees and random choices')
def select_run(p):
    cs, target, fee, sizes, mc, absolute, consolidate = p
    judge(coins_of(cs), target, fee, sizes, mc, absolute, consolidate)


@harness('P08', cs=Lst(COIN, n=1), target=Int(0, None), fee=Int(0, None), sizes=Lst(Int(0, None), lo=1), min_change=Int(0, None),
         absolute=Bool(), consolidate=Bool(), uses=C, bounded='one coin')
def select_one(cs, target, fee, sizes, min_change, absolute, consolidate):
    judge(coins_of(cs), target, fee, sizes, min_change, absolute, consolidate)


@harness('P08', cs=Lst(Tup(Gen(amount, Int(0, None).sym), Int(1, 400), Choice(False)), n=2), target=Int(0, None), fee=Int(0, None),
         sizes=Lst(Int(0, None), n=2), min_change=Int(0, None),
         uses=C, bounded='two coins, branch and bound')
def select_two(cs, target, fee, sizes, min_change):
    judge(coins_of(cs), target, fee, sizes, min_change, False, False)


def crowd(rng):
    n = rng.choice((997, 1000, 1001, 1300))
    cs = [(1000 * rng.randrange(500, 600), 148, False) for _ in range(n)]
    return (cs, rng.choice((5000, 10 ** 6, 10 ** 9)), rng.choice((1, 7)), [34] * rng.choice((1, 2, 3)), rng.choice((0, 546)), rng.random() < 0.2, rng.random() < 0.2)


@harness('P08', p=Gen(crowd), symbolic=False, secs=6, bounded='executed with about a thousand coins')
def many_coins(p):
    cs, target, fee, sizes, mc, absolute, consolidate = p
    judge(coins_of(cs), target, fee, sizes, mc, absolute, consolidate)


UNSPENT = Rec(Unspent, amount=Gen(amount, Int(0, None).sym), confirmations=Int(0, 10), script=Choice(''), txid=Choice(''), txindex=Choice(0),
              type=Choice('p2pkh'), vsize=Int(1, 400), segwit=Bool(), sequence=Int(0, 2 ** 32 - 1))


@harness('P08', given=Lst(UNSPENT, lo=1), target=Int(0, None), fee=Int(0, None), sizes=Lst(Int(0, None), lo=1), min_change=Int(0, None),
         absolute=Bool(), uses=C, extra={'invariants': [invariants.Drawing()]})
def consolidate_all(given, target, fee, sizes, min_change, absolute):
    n = len(given)
    total = sum([u.amount for u in given])
    need = fee if absolute else estimate(given, sizes, fee)
    r = outcome(tx.select_coins, target, fee, sizes, min_change, absolute_fee=absolute, consolidate=True, unspents=given)
    check(len(given) == n, 'the given coins are not changed')
    if total - target - need < min_change:
        check(r == ('raises', InsufficientFunds), 'refused when the coins cannot cover the need')
    else:
        check(r[0] == 'ok', 'not refused when the coins cover the need')
        picked, rest = r[1]
        check(len(picked) == len(given) and sum([u.amount for u in picked]) == total, 'every coin is used')
        check(rest == total - target - need, 'the remainder is what target and fee leave')


# Any number of coins: branch and bound and random draw by their loop invariants (specs/invariants.py).  The coins carry their
# position as a name (select_coins does not look at it), to say which coin a selected one is.
NAMED = Rec(Unspent, amount=Gen(amount, Int(0, None).sym), confirmations=Choice(1), script=Choice(''), txid=Choice(''), txindex=Int(0, 2 ** 32),
            type=Choice('p2pkh'), vsize=Int(1, 400), segwit=Bool(), sequence=Choice(0))
SPOT = Gen(lambda r: r.randrange(8), Int(0, None).sym)
SHOWN = {'invariants': [invariants.Drawing('p08.any_loops'), invariants.Searching('p08.any_loops')]}
ANY = dict(given=Lst(NAMED, lo=1), target=Int(0, None), fee=Int(0, None), sizes=Lst(Int(0, None), lo=1), min_change=Int(0, None))


def only_given_once(given, picked, i, j):
    check(len(picked) >= 1, 'some coin is selected')
    if i < len(picked):
        p = picked[i].txindex
        check(0 <= p and p < len(given) and picked[i] is given[p], 'only given coins')
        if j < len(picked) and i != j:
            check(picked[i] is not picked[j], 'each coin at most once')


def name_coins(given):
    for k, u in enumerate(given):
        u.txindex = k


@harness('P08', i=SPOT, j=SPOT, uses=C, extra={'invariants': [invariants.Drawing()]}, **ANY)
def any_absolute(given, target, fee, sizes, min_change, i, j):
    name_coins(given)
    n = len(given)
    r = outcome(tx.select_coins, target, fee, sizes, min_change, absolute_fee=True, unspents=given)
    check(len(given) == n, 'the given coins are not changed')
    if r[0] == 'ok':
        picked, rest = r[1]
        only_given_once(given, picked, i, j)
        check(total_of(picked) - target - fee == rest and rest >= min_change, 'covers target, fee and remainder')
    else:
        check(r[1] is InsufficientFunds, 'InsufficientFunds is the only refusal')
        check(total_of(given) - target - fee < min_change, 'refused only when all coins together cannot cover the need')


@harness('P08', uses=C, extra={'invariants': [invariants.Drawing(), invariants.Searching()]}, budget=400, **ANY)
def any_loops(given, target, fee, sizes, min_change):
    r = outcome(tx.select_coins, target, fee, sizes, min_change, unspents=given)
    check(r[0] == 'ok' or r[1] is InsufficientFunds, 'InsufficientFunds is the only refusal')


@harness('P08', uses=C + ['loops of select_coins'], extra=SHOWN, budget=400, **ANY)
def any_values(given, target, fee, sizes, min_change):
    r = outcome(tx.select_coins, target, fee, sizes, min_change, unspents=given)
    if r[0] == 'ok':
        picked, rest = r[1]
        need = estimate(picked, sizes, fee)
        if total_of(picked) - target - need == rest and rest >= min_change:
            check(True, 'covers target, fee and remainder')
        else:
            check(rest == 0, 'covers target, fee and remainder')
            net, base = match_of(picked, target, fee, sizes)
            check(net >= base, 'a change-free match covers target and fee')
            check(net <= base + 182 * fee, 'a change-free match wastes at most one input and output')
            check(total_of(picked) >= target, 'a change-free match covers the target')


@harness('P08', i=SPOT, j=SPOT, uses=C + ['loops of select_coins'], extra=SHOWN, budget=400, **ANY)
def any_coins(given, target, fee, sizes, min_change, i, j):
    name_coins(given)
    n = len(given)
    r = outcome(tx.select_coins, target, fee, sizes, min_change, unspents=given)
    check(len(given) == n, 'the given coins are not changed')
    if r[0] == 'ok':
        only_given_once(given, r[1][0], i, j)


@harness('P08', uses=C + ['loops of select_coins'], extra=SHOWN, budget=400, **ANY)
def any_refusal(given, target, fee, sizes, min_change):
    r = outcome(tx.select_coins, target, fee, sizes, min_change, unspents=given)
    if r[0] != 'ok':
        check(r[1] is InsufficientFunds, 'InsufficientFunds is the only refusal')
        check(total_of(given) - target - estimate(given, sizes, fee) < min_change, 'refused only when all coins together cannot cover the need')


@harness('P08', ins=Int(0, 2 ** 40), n_in=Int(0, 2 ** 32), outs=Int(0, 2 ** 40), n_out=Int(0, 2 ** 32), fee=Int(0, None), segwit=Bool())
def fee_estimate(ins, n_in, outs, n_out, fee, segwit):
    check(tx.estimate_tx_fee(ins, n_in, outs, n_out, fee, segwit) == fee_of(ins, n_in, outs, n_out, fee, segwit),
          'fee rate times estimated size')
