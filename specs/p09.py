"""Payments, change and value conservation (and messages, networks) of prepared transactions."""
from decimal import Decimal
from pydv.api import harness, check, assume, outcome, raises, same
from pydv.domains import *
from specs import ref, ec, scene, p08
import random
import bit.transaction as tx
import bit.wallet as wallet
from bit.exceptions import InsufficientFunds
from bit.network.meta import Unspent

UNIT = {'satoshi': 1, 'ubtc': 100, 'mbtc': 100000, 'btc': 100000000}


def message_of(rng):
    r = rng.random()
    if r < 0.4:
        return None, False
    n = rng.choice((1, 2, 40, 75, 76, 79, 80, 81, 159, 160, 161, 255, 256, 300))
    if r < 0.7:
        return bytes(rng.randrange(256) for _ in range(n)), True
    return ''.join(rng.choice('abcdefgh XYZ\u00e9\u20ac\U0001f600') for _ in range(n)), False


def payment(rng):
    net = rng.choice(('main', 'test'))
    comp = rng.random() < 0.8
    n = rng.choice((1, 1, 2, 3, 5, 9))
    coins = scene.coin_data(rng, n, comp)
    total = sum(c[0] for c in coins)
    outs = []
    left = total
    many = rng.random() < 0.03
    for _ in range(rng.choice((0, 1, 1, 2, 3, 6)) if not many else rng.randrange(249, 262)):
        unit = rng.choice(('satoshi', 'satoshi', 'ubtc', 'mbtc', 'btc'))
        sat = rng.choice((rng.randrange(1, max(2, left // 4)), rng.randrange(1, max(2, left)), 1, 546)) if not many else rng.randrange(1, 1000)
        left = max(1, left - sat)
        amount = sat if unit == 'satoshi' else str(Decimal(sat) / UNIT[unit]) if rng.random() < 0.7 else Decimal(sat) / UNIT[unit]
        bad = rng.random() < (0.04 if not many else 0.0005)
        outs.append((scene.some_address(rng, net if not bad else ('test' if net == 'main' else 'main')), sat, amount, unit, bad))
    fee = rng.choice((1, 2, 10, 100))
    absolute = rng.random() < 0.3
    if absolute:
        fee = rng.choice((1, 1000, 10000, max(1, total - sum(o[1] for o in outs))))
    leftover = None if rng.random() < 0.5 else scene.some_address(rng, net if rng.random() < 0.95 else ('test' if net == 'main' else 'main'))
    message, hexed = message_of(rng)
    return dict(net=net, comp=comp, secret=scene.secret(rng), coins=coins, outs=outs, fee=fee, absolute=absolute, leftover=leftover,
                combine=rng.random() < 0.6, message=message, hexed=hexed, rbf=rng.random() < 0.3,
                sequences=[rng.choice((2 ** 32 - 1, 2 ** 32 - 1, 2 ** 32 - 2, 2 ** 32 - 3, 0, 1000)) for _ in coins])


def net_of(script_address):
    s = script_address[0].lower()
    return 'main' if s.startswith('bc1') and ref.segwit_parts(script_address[0]) and not s.startswith('bcrt1') or \
        (ref.b58check_payload(script_address[0]) or b'\xff')[:1] in (b'\x00', b'\x05') else 'test'


def chunks(p):
    if not p['message']:
        return []
    m = p['message'] if p['hexed'] else p['message'].encode('utf-8')
    return [m[i:i + 80] for i in range(0, len(m), 80)]


def message_script(c):
    return b'\x6a' + ref.push_op(len(c)) + c


def no_network():
    return [(wallet, 'NetworkAPI', scene.NoNetwork())]


def options(p):
    return dict(fee=p['fee'], absolute_fee=p['absolute'], leftover=p['leftover'] and p['leftover'][0], combine=p['combine'],
                message=p['message'], message_is_hex=p['hexed'], replace_by_fee=p['rbf'])


def settle(p, key, coins, hexed, coin_table):
    """All promises about one created transaction."""
    t = scene.read_tx(bytes.fromhex(hexed))
    version, ins, outs, lock, seg = t
    spots = [i[0] for i in ins]
    check(version == b'\x01\x00\x00\x00' and lock == bytes(4), 'version and lock time')
    check(len(set(spots)) == len(spots) and all([s in coin_table for s in spots]), 'inputs are given coins, each once')
    if p['combine']:
        check(len(spots) == len(coin_table), 'consolidation spends every coin')
    paid = outs[:len(p['outs'])]
    check(paid == [(o[1], o[0][1]) for o in p['outs']], 'every recipient is paid in full, in order')
    rest = outs[len(p['outs']):]
    change = [o for o in rest if o[0] > 0]
    msgs = [message_script(c) for c in chunks(p)]
    check(len(change) <= 1, 'at most one change output')
    check(rest == change + [(0, m) for m in msgs], 'change, then messages, and nothing else')
    back = p['leftover'][1] if p['leftover'] else None
    if change and back is None:
        legacy, nested = scene.key_scripts(key.public_key)
        back = nested if any([c[3] == 'segwit' for c in p['coins']]) else legacy
    check(all([c[1] == back for c in change]), 'change pays the leftover address')
    total = sum([coin_table[s][0] for s in spots])
    fee = total - sum([o[0] for o in outs])
    check(fee >= 0, 'value is not created')
    sizes = [len(o[0][1]) + 9 for o in p['outs']] + [89 * len(msgs), len(back or b'x' * 25) + 9]
    vs = [{'legacy': 148 if p['comp'] else 180, 'segwit': 91}[coin_table[s][3]] for s in spots]
    seg_in = any([coin_table[s][3] == 'segwit' for s in spots])
    if back is None and seg_in:
        sizes[-1] = 32
    if p['absolute']:
        check(fee == p['fee'], 'the absolute fee is paid exactly')
    elif change:
        one = lambda n: max(1, (n.bit_length() + 7) // 8)
        check(fee == p['fee'] * (sum(vs) + one(len(vs)) + sum(sizes) + one(len(sizes)) + 8 + (1 if seg_in else 0)), 'the fee is the estimate')
    for i, (o, s, q, items) in enumerate(ins):
        a, _, _, kind = coin_table[o]
        want = p['sequences'][[scene.outpoint(c) for c in p['coins']].index(o)]
        if p['rbf'] and want > 0xFFFFFFFD:
            want = 0xFFFFFFFD
        check(q == want.to_bytes(4, 'little'), 'sequence numbers')
        check(scene.spends_ok(t, i, key.public_key, kind, a), 'every input is signed for its coin')
    check(seg == seg_in, 'segwit form exactly when a segwit coin is spent')


@harness(['P09', 'P10', 'P11', 'P13'], p=Gen(payment), symbolic=False, native=True, natpatch=no_network, secs=12,
         bounded='executed payments with generated keys, coins, recipients and options')
def payments(p):
    key = scene.wallet_key(p['net'], p['secret'], p['comp'])
    coins = scene.make_coins(p['coins'], key.public_key, p['sequences'])
    assume(len({scene.outpoint(c) for c in p['coins']}) == len(coins))
    outputs = [(o[0][0], o[2], o[3]) for o in p['outs']]
    asked = list(outputs)
    r = outcome(key.create_transaction, outputs, unspents=list(coins), **options(p))
    check(outputs == asked, 'the request is not changed')
    table = {scene.outpoint(c): c for c in p['coins']}
    if any([o[4] for o in p['outs']]):
        check(r[0] == 'raises' and r[1] in (ValueError, InsufficientFunds), 'no payment to the other network')
    elif r[0] == 'raises':
        crossed = p['leftover'] is not None and net_of(p['leftover']) != p['net']
        short = sum([c[0] for c in p['coins']]) - sum([o[1] for o in p['outs']])
        check(r[1] is InsufficientFunds or crossed and r[1] is ValueError, 'refused only for lack of funds or a foreign leftover address')
        if r[1] is InsufficientFunds:
            # all coins together cannot pay outputs and the largest possible fee
            worst = p['fee'] if p['absolute'] else p['fee'] * (sum([180 for c in coins]) + sum([len(o[0][1]) + 9 for o in p['outs']]) +
                                                               89 * len(chunks(p)) + 60 + 20)
            check(short < worst, 'refused for lack of funds only when the coins are short')
    else:
        if p['leftover'] is not None and net_of(p['leftover']) != p['net']:
            outs = scene.read_tx(bytes.fromhex(r[1]))[2]
            check(len([o for o in outs if o[0] > 0]) == len(p['outs']), 'no change to the other network')
        settle(p, key, coins, r[1], table)


OUT = Tup(Text(lo=1), Int(1, 21 * 10 ** 14), Choice('satoshi'))
COIN = Rec(Unspent, amount=Int(0, 21 * 10 ** 14), confirmations=Int(0, 10), script=Choice(''), txid=Choice(''), txindex=Choice(0),
           type=Choice('p2pkh'), vsize=Int(1, 400), segwit=Bool(), sequence=Int(0, 2 ** 32 - 1))


def addr_gen(rng):
    return scene.some_address(rng, rng.choice(('main', 'main', 'test')))[0] if rng.random() < 0.9 else 'x'


ADDR = Gen(addr_gen, Text(lo=1).sym)
CA = ['address script', 'address network', 'address ref', 'select_coins']


@harness(['P09', 'P10'], coins=Lst(COIN), outs=Lst(Tup(ADDR, Int(1, 21 * 10 ** 14), Choice('satoshi'))), leftover=ADDR, fee=Int(1, 100),
         version=Choice('main', 'test'), combine=Bool(), absolute=Bool(), least=Int(0, 10 ** 5), rbf=Bool(), uses=CA,
         split=['version', 'combine', 'absolute', 'rbf'])
def prepare(coins, outs, leftover, fee, version, combine, absolute, least, rbf):
    n = len(coins)
    r = outcome(tx.sanitize_tx_data, coins, outs, fee, leftover, combine=combine, absolute_fee=absolute, version=version,
                min_change=least, replace_by_fee=rbf)
    back = ref.address_parts(leftover)
    nets = [ref.address_parts(o[0]) for o in outs]
    if n == 0:
        check(r == ('raises', ValueError), 'no coins: refused')
    elif back is None or any([x is None for x in nets]):
        check(r == ('raises', ValueError), 'not an address: refused')
    elif r[0] == 'raises':
        check(r[1] is InsufficientFunds or any([x[0] != version for x in nets]) or back[0] != version, 'refused for a reason')
    else:
        picked, got = r[1]
        check(got[:len(outs)] == [(o[0], o[1]) for o in outs], 'every payment in full and in order')
        extra = got[len(outs):]
        check(len(extra) <= 1, 'at most one change output')
        check(all([x[0] == version for x in nets]), 'no payment to the other network')
        change = 0
        if len(extra) == 1:
            change = extra[0][1]
            check(extra[0][0] == leftover and change > 0, 'change pays the leftover address')
            check(back[0] == version, 'no change to the other network')
        left = sum([u.amount for u in picked]) - sum([o[1] for o in outs]) - change
        check(left >= 0, 'value is not created')
        sizes = [len(x[1]) + 9 for x in nets] + [0, len(back[1]) + 9]
        need = fee if absolute else p08.estimate(picked, sizes, fee)
        if absolute or combine or change > 0:
            check(left == need, 'inputs are the outputs plus the fee')
        elif left != need:
            net, base = p08.match_of(picked, sum([o[1] for o in outs]), fee, sizes)
            check(base <= net and net <= base + 182 * fee, 'without change, no more is left than a change-free match allows')
