"""Wallets query and broadcast through the services of their own network only."""
from pydv.api import harness, check, assume, outcome, raises, same
from pydv.domains import *
from specs import ref, ec, scene
from specs.p20 import Net, patch_net, reset
import bit.format as fmt
import bit.wallet as wallet
import bit.transaction as tx
import bit.network.services as services
from bit.network.meta import Unspent


def purse(rng):
    net = rng.choice(('main', 'test'))
    comp = rng.random() < 0.8
    return dict(net=net, comp=comp, secret=scene.secret(rng), coins=scene.coin_data(rng, rng.choice((1, 2, 3)), False),
                nested=scene.coin_data(rng, rng.choice((0, 1, 2)), False) if comp else [], out=scene.some_address(rng, net), fee=rng.choice((1, 5)),
                how=rng.randrange(6), others=[scene.secret(rng) for _ in range(rng.randrange(3))], online=rng.random() < 0.7)


@harness(['P10', 'P13', 'P20'], d=Gen(purse), patch=patch_net, symbolic=False, secs=5, bounded='executed payments from queried coins')
def spend_online(d):
    key = scene.wallet_key(d['net'], d['secret'], d['comp'])
    assume(len({c[1] for c in d['coins'] + d['nested']}) == len(d['coins']) + len(d['nested']))
    who, multi = key, d['how'] >= 3
    if multi:
        pubs = [key.public_key] + [ec.pub33(s) for s in d['others']]
        assume(len(set(pubs)) == len(pubs))
        who = (wallet.MultiSig if d['net'] == 'main' else wallet.MultiSigTestnet)(key, pubs, 1)
    legacy = tx.address_to_scriptpubkey(who.address).hex()
    here = [Unspent(a, 1, legacy, t, i) for a, t, i, _ in d['coins']]
    there = []
    if who.segwit_address:
        nested = tx.address_to_scriptpubkey(who.segwit_address).hex()
        there = [Unspent(a, 1, nested, t, i) for a, t, i, _ in d['nested']]
    reset(who.address, here, there)
    ask = [(d['out'][0], min([c[0] for c in d['coins']]) // 2, 'satoshi')]
    if d['how'] == 0:
        txid = who.send(ask, fee=d['fee'])
        check(len(Net.sent) == 1 and Net.sent[0][0] == d['net'], 'broadcast once, on the network of the key')
        text = Net.sent[0][1]
        check(txid == ref.dsha256(strip(text))[::-1].hex(), 'the id of the transaction sent')
    elif d['how'] == 1:
        doc = type(key).prepare_transaction(who.address, ask, fee=d['fee'])
        text = key.sign_transaction(doc)
        check(not Net.sent, 'nothing is broadcast')
    elif d['how'] == 4:
        doc = type(who).prepare_transaction(who.address, ask, fee=d['fee'])
        text = who.sign_transaction(doc)
        check(not Net.sent, 'nothing is broadcast')
    elif d['how'] == 5:
        first = who.create_transaction(ask, fee=d['fee'])
        Net.asked = []
        draft = tx.deserialize(first)
        bare = tx.TxObj(draft.version, [tx.TxIn(b'', i.txid, i.txindex, sequence=i.sequence, segwit_input=bool(i.witness) and i.witness != b'\x00')
                                        for i in draft.TxIn], draft.TxOut, draft.locktime)
        text = who.sign_transaction(bare.to_hex())
        check(not Net.sent, 'nothing is broadcast')
        check(scene.read_tx(bytes.fromhex(text))[1:] == scene.read_tx(bytes.fromhex(first))[1:], 'signing a draft of it gives the same transaction')
    else:
        text = who.create_transaction(ask, fee=d['fee'])
        check(not Net.sent, 'nothing is broadcast')
    check(len(Net.asked) > 0 and all([x[0] == d['net'] for x in Net.asked]), 'coins are queried on the network of the key')
    t = scene.read_tx(bytes.fromhex(text))
    table = {scene.outpoint(c): c for c in d['coins'] + (d['nested'] if d['how'] not in (1, 4) and who.segwit_address else [])}
    check(sorted([i[0] for i in t[1]]) == sorted(table), 'the queried coins are spent')
    check(t[2][0] == (ask[0][1], d['out'][1]), 'the payment is made')
    if not multi:
        for i, x in enumerate(t[1]):
            c = table[x[0]]
            check(scene.spends_ok(t, i, key.public_key, 'legacy' if c in d['coins'] else 'segwit', c[0]), 'every input is signed')
    back = tx.address_to_scriptpubkey(who.segwit_address if there and d['how'] not in (1, 4) else who.address)
    check(all([o[1] == back for o in t[2][1:]]) and len(t[2]) <= 2, 'change returns to the sender')


def strip(text):
    v, ins, outs, lock, seg = scene.read_tx(bytes.fromhex(text))
    return v + ref.compact_size(len(ins)) + b''.join([i[0] + ref.compact_size(len(i[1])) + i[1] + i[2] for i in ins]) + \
        ref.compact_size(len(outs)) + b''.join([a.to_bytes(8, 'little') + ref.compact_size(len(s)) + s for a, s in outs]) + lock
