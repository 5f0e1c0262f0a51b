"""Multisig: any m signers in any order."""
from pydv.api import harness, check, assume, outcome, raises, same
from pydv.domains import *
from specs import ref, ec, scene
from specs.p09 import no_network
from bit.network.meta import Unspent
import bit.transaction as tx
import bit.wallet as wallet


def contract_of(rng):
    net = rng.choice(('main', 'test'))
    n = rng.choice((1, 2, 2, 3, 3, 3, 4, 5, 7, 15))
    m = rng.choice((1, n, rng.randrange(1, n + 1)))
    if n == 15:
        m = rng.choice((1, 2, 3))
    signers = list(range(n))
    rng.shuffle(signers)
    again = rng.random() < 0.25
    comp = n > 7 or rng.random() < 0.85
    coins = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        kind = 'segwit' if comp and rng.random() < 0.5 else 'legacy'
        coins.append((rng.randrange(10 ** 6, 10 ** 12), scene.txid_text(rng), rng.choice((0, 1, 256)), kind if rng.random() < 0.92 else 'foreign'))
    return dict(net=net, m=m, secrets=[scene.secret(rng) for _ in range(n)], comp=[comp or rng.random() < 0.5 for _ in range(n)],
                signers=signers[:m], again=again, extra=signers[m:m + 1] or signers[:1], coins=coins, how=rng.randrange(4),
                out=scene.some_address(rng, net), fee=rng.choice((1, 10)), offline=rng.random() < 0.3)


def scripts(redeem):
    return (b'\xa9\x14' + ref.hash160(redeem) + b'\x87', b'\xa9\x14' + ref.hash160(b'\x00\x20' + ref.sha256(redeem)) + b'\x87')


def coins_of(d, redeem):
    legacy, nested = scripts(redeem)
    out = []
    for a, t, ix, kind in d['coins']:
        if kind == 'foreign':
            u = Unspent(a, 1, (b'\xa9\x14' + ref.hash160(t.encode()) + b'\x87').hex(), t, ix, 'p2sh')
        else:
            u = Unspent(a, 1, (legacy if kind == 'legacy' else nested).hex(), t, ix, 'p2sh' if kind == 'legacy' else 'np2wsh')
        out.append(u)
    return out


def items_of(t, i, kind, redeem):
    """Stack items of input i, or None when malformed."""
    script, items = t[1][i][1], t[1][i][3]
    if kind == 'segwit':
        return items if script == b'\x22\x00\x20' + ref.sha256(redeem) else None
    return None if items else scene.read_script(script)


def state_ok(t, i, coin, pubs, m, redeem, who):
    """Input i holds exactly the valid signatures of `who` in key order, placeholders, and the redeem script."""
    items = items_of(t, i, coin[3], redeem)
    if items is None or len(items) < 2 or items[0] != b'' or items[-1] != redeem:
        return False
    sigs = [x for x in items[1:-1] if x]
    if items[1:-1] != sigs + [b''] * (len(items) - 2 - len(sigs)) or len(items) - 2 > m or len(sigs) != len(who):
        return False
    if len(sigs) == m and len(items) != m + 2:
        return False
    d = scene.digest(t, i, redeem, coin[0] if coin[3] == 'segwit' else None)
    return all([s[-1:] == b'\x01' and ec.verifies(s[:-1], d, pubs[j]) for s, j in zip(sigs, sorted(who))])


@harness('P14', d=Gen(contract_of), symbolic=False, natpatch=no_network, secs=14, cases=4000,
         bounded='executed signing rounds: up to 15 key holders, generated subsets and orders')
def rounds(d):
    keys = [scene.wallet_key(d['net'], s, c) for s, c in zip(d['secrets'], d['comp'])]
    if d['how'] == 3:
        keys = sorted(keys, key=lambda k: k.public_key)      # a set is taken in sorted order
    pubs = [k.public_key for k in keys]
    assume(len(set(d['secrets'])) == len(pubs) and len({c[1] for c in d['coins']}) == len(d['coins']))
    assume(sum([len(p) + 1 for p in pubs]) + 3 <= 520)
    redeem = ref.redeemscript(pubs, d['m'])
    cls = wallet.MultiSig if d['net'] == 'main' else wallet.MultiSigTestnet
    if d['how'] == 1:
        given = [p.hex() for p in pubs]
    elif d['how'] == 3:
        given = set(pubs)
    else:
        given = pubs
    holders = [cls(k, given, d['m']) for k in keys]
    text, outs = None, None
    who = []
    plan = list(d['signers'])
    if d['again'] and len(plan) > 1:
        plan.insert(2 if len(plan) > 2 else 1, plan[0])
    amount = d['coins'][0][0] // 2
    for step, s in enumerate(plan):
        h = holders[s]
        coins = coins_of(d, redeem)
        if text is None:
            back = h.address
            ask = [(d['out'][0], amount, 'satoshi')]
            if d['offline']:
                doc = cls.prepare_transaction(back, ask, fee=d['fee'], unspents=coins, leftover=back)
                text = h.sign_transaction(doc)
            else:
                text = h.create_transaction(ask, fee=d['fee'], leftover=back, unspents=coins)
        else:
            text = h.sign_transaction(text, unspents=coins)
        if s not in who:
            who.append(s)
        t = scene.read_tx(bytes.fromhex(text))
        outs = outs or t[2]
        check(t[2] == outs and outs[0] == (amount, d['out'][1]), 'outputs unchanged')
        check([i[0] for i in t[1]] == [scene.outpoint(c) for c in d['coins']], 'the inputs are the coins')
        for i, c in enumerate(d['coins']):
            if c[3] == 'foreign':
                check(t[1][i][1] == b'' and not t[1][i][3], 'foreign inputs untouched')
            else:
                check(state_ok(t, i, c, pubs, d['m'], redeem, who), 'valid signatures in key order, placeholders, redeem script')
    if any([c[3] != 'foreign' for c in d['coins']]):
        late = holders[d['extra'][0]]
        check(raises(ValueError, late.sign_transaction, text, unspents=coins_of(d, redeem)), 'a complete input is not signed again')


# ---- one signing step from any intermediate state ----------------------------------------------------

from specs import p12
import bit.format as fmt

C = ['varint', 'read_varint', 'b58encode_check', 'b58decode_check', 'bech32', 'convertbits']
OUTPUT = Tup(Bytes(8), Bytes())


def unlocking(kind, redeem, sigs, pad):
    """(script, witness items) of an input that holds these signatures and as many placeholders as pad says."""
    if kind == 'segwit':
        return b'\x22\x00\x20' + ref.sha256(redeem), [b''] + sigs + [b''] * pad + [redeem]
    return b'\x00' + b''.join([ref.push_op(len(s)) + s for s in sigs]) + b'\x00' * pad + ref.push_op(len(redeem)) + redeem, []


def signing_step(net, secrets, me, m, signed, padded, kind, version, lock, x, outs):
    for s in secrets:
        v = int.from_bytes(s, 'big')
        assume(0 < v and v < ec.N)
    pubs = [ec.pub33(s) for s in secrets]
    n = len(pubs)
    for a in range(n):
        for b in range(a):
            assume(secrets[a] != secrets[b] and pubs[a] != pubs[b])
    key = (wallet.PrivateKey if net == 'main' else wallet.PrivateKeyTestnet)(fmt.bytes_to_wif(secrets[me], net, True))
    holder = (wallet.MultiSig if net == 'main' else wallet.MultiSigTestnet)(key, pubs, m)
    redeem = ref.redeemscript(pubs, m)
    legacy, nested = scripts(redeem)
    coin = Unspent(x[3], 3, (legacy if kind == 'legacy' else nested).hex(), x[0][::-1].hex(), x[1], 'p2sh' if kind == 'legacy' else 'np2wsh')
    base = [(x[0], x[1].to_bytes(4, 'little'), redeem, x[3].to_bytes(8, 'little'), x[2])]
    d = ref.sha256(p12.legacy(version, base, outs, lock, 0) if kind == 'legacy' else p12.bip143(version, base, outs, lock, 0))
    have = [ec.some_signature(secrets[j], d) + b'\x01' if signed[j] else None for j in range(n)]
    count = len([1 for h in have if h is not None])
    script, items = b'', []
    if count:
        script, items = unlocking(kind, redeem, [h for h in have if h is not None], m - count if padded or count > 1 else 0)
    r = outcome(holder.sign_transaction, wired(version, x, script, items, outs, lock), unspents=[coin])
    if count >= m:
        check(r == ('raises', ValueError), 'a complete input is not signed again')
    else:
        have[me] = key.sign(d) + b'\x01'
        now = [h for h in have if h is not None]
        script, items = unlocking(kind, redeem, now, m - len(now) if count else 0)
        check(r == ('ok', wired(version, x, script, items, outs, lock)),
              'the valid signatures in key order, placeholders and redeem script; everything else unchanged')


def wired(version, x, script, items, outs, lock):
    ins = [(x[0], x[1].to_bytes(4, 'little'), script, x[2], items)]
    return (ref.wire_segwit if items else ref.wire_legacy)(version, ins, outs, lock).hex()


STEP = dict(net=Choice('main', 'test'), version=Bytes(4), lock=Bytes(4), x=Tup(Bytes(32), Int(0, 2 ** 32 - 1), Bytes(4), Int(0, 21 * 10 ** 14)), outs=Lst(OUTPUT))


@harness('P14', secrets=Lst(Bytes(32), n=2), me=Choice(0, 1), m=Choice(1, 2), a=Bool(), b=Bool(), padded=Bool(), kind=Choice('legacy', 'segwit'),
         uses=C, sympatch=ec.sympatch, split=['me', 'm', 'kind', 'padded', 'a'], bounded='two key holders, one input; any transaction and any earlier signatures', **STEP)
def step_two(net, secrets, me, m, a, b, padded, kind, version, lock, x, outs):
    assume(a + b <= m)
    signing_step(net, secrets, me, m, [a, b], padded, kind, version, lock, x, outs)


@harness('P14', secrets=Lst(Bytes(32), n=3), me=Choice(0, 1, 2), m=Choice(1, 2, 3), a=Bool(), b=Bool(), c=Bool(), padded=Bool(),
         uses=C, sympatch=ec.sympatch, split=['me', 'm', 'a', 'b', 'c', 'padded'], bounded='three key holders, one segwit input; any transaction and any earlier signatures', **STEP)
def step_three(net, secrets, me, m, a, b, c, padded, version, lock, x, outs):
    assume(a + b + c <= m)
    signing_step(net, secrets, me, m, [a, b, c], padded, 'segwit', version, lock, x, outs)
