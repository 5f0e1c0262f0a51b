"""Offline prepare-then-sign, and coin dictionaries."""
import json
import random
from pydv.api import harness, check, assume, outcome, raises, same
from pydv.domains import *
from specs import ref, ec, scene
from specs.p09 import payment, options, settle, no_network, ADDR
import bit.transaction as tx
import bit.wallet as wallet
import bit.format as fmt
from bit.network.meta import Unspent, UNSPENT_TYPES

TYPES = sorted(UNSPENT_TYPES)


def offline(rng):
    p = payment(rng)
    p['outs'] = [o for o in p['outs'] if not o[4]]
    p['seed'] = rng.randrange(10 ** 9)
    p['multi'] = rng.random() < 0.3
    p['others'] = [scene.secret(rng) for _ in range(rng.choice((0, 1, 2)))]
    if p['leftover'] is None and p['multi']:
        p['leftover'] = scene.some_address(rng, p['net'])
    return p


@harness('P15', p=Gen(offline), symbolic=False, natpatch=no_network, secs=12, bounded='executed payments, prepared offline and created directly')
def offline_equals_direct(p):
    key = scene.wallet_key(p['net'], p['secret'], p['comp'])
    assume(len({scene.outpoint(c) for c in p['coins']}) == len(p['coins']))
    opts = options(p)
    asked = [(o[0][0], o[2], o[3]) for o in p['outs']]
    seg = any([c[3] == 'segwit' for c in p['coins']])
    who, cls = key, type(key)
    if p['multi']:
        pubs = [key.public_key] + [ec.pub33(s) for s in p['others']]
        assume(len(set(pubs)) == len(pubs))
        cls = wallet.MultiSig if p['net'] == 'main' else wallet.MultiSigTestnet
        who = cls(key, pubs, 1)
        redeem = ref.redeemscript(pubs, 1)
        code = {'legacy': b'\xa9\x14' + ref.hash160(redeem) + b'\x87',
                'segwit': b'\xa9\x14' + ref.hash160(b'\x00\x20' + ref.sha256(redeem)) + b'\x87'}
        make = lambda: [Unspent(a, 1, code[kind].hex(), t, ix, 'p2sh' if kind == 'legacy' else 'np2wsh', sequence=s)
                        for (a, t, ix, kind), s in zip(p['coins'], p['sequences'])]
    else:
        make = lambda: scene.make_coins(p['coins'], key.public_key, p['sequences'])
    address = who.segwit_address if seg else who.address
    random.seed(p['seed'])
    direct = outcome(who.create_transaction, asked, unspents=make(), **opts)
    random.seed(p['seed'])
    doc = outcome(cls.prepare_transaction, address, asked, unspents=make(), **opts)
    check(direct[0] == doc[0], 'prepared exactly when it could be created directly', direct, doc)
    if doc[0] == 'raises':
        check(direct[1] is doc[1], 'the same refusal')
        return
    check(isinstance(doc[1], str), 'a text document')
    d = json.loads(doc[1])
    used = {scene.outpoint(c): c for c in p['coins']}
    t = scene.read_tx(bytes.fromhex(direct[1]))
    check(sorted([(u['txid'], u['txindex'], u['amount']) for u in d['unspents']]) ==
          sorted([(used[i[0]][1], used[i[0]][2], used[i[0]][0]) for i in t[1]]), 'the document carries the selected coins')
    check(len(d['outputs']) == len(t[2]), 'the document carries every output')
    check(who.sign_transaction(doc[1]) == direct[1], 'signing the document gives the transaction created directly')


# a coin of either kind
SAT = 21 * 10 ** 14
ROW = Tup(Int(0, SAT), Int(0, 10 ** 6), HexText(gen_hi=30), HexText(32), Int(0, 2 ** 32 - 1), Bool(), Int(0, 2 ** 32 - 1))


def coins_of(rows):
    return [Unspent(r[0], r[1], r[2], r[3], r[4], 'np2wkh' if r[5] else 'p2pkh', sequence=r[6]) for r in rows]


@harness('P15', net=Choice('main', 'test'), who=Choice('compressed', 'uncompressed', 'multisig'), secret=Bytes(32), other=Bytes(32), rows=Lst(ROW), outs=Lst(Tup(ADDR, Int(1, SAT), Choice('satoshi'))),
         leftover=Maybe(ADDR), fee=Int(1, 100), combine=Bool(), absolute=Bool(), rbf=Bool(), how=Choice('', 'text', 'hex'), text=Text(lo=1, gen_hi=200), raw=Bytes(lo=1, gen_hi=200), seed=Int(0, 10 ** 9),
         uses=['address script', 'address network', 'address ref', 'sanitize', 'sign function', 'b58encode_check', 'b58decode_check'], natpatch=no_network, sympatch=lambda: ec.sympatch() + no_network(),
         split=['net', 'who', 'how', 'rbf'])
def offline_any(net, who, secret, other, rows, outs, leftover, fee, combine, absolute, rbf, how, text, raw, seed):
    v = int.from_bytes(secret, 'big')
    assume(0 < v and v < ec.N and len(rows) > 0)
    cls = wallet.PrivateKey if net == 'main' else wallet.PrivateKeyTestnet
    key = cls(fmt.bytes_to_wif(secret, net, who != 'uncompressed'))
    if who == 'multisig':
        v = int.from_bytes(other, 'big')
        assume(0 < v and v < ec.N)
        assume(ec.pub33(secret) != ec.pub33(other))
        cls = wallet.MultiSig if net == 'main' else wallet.MultiSigTestnet
        key = cls(key, [ec.pub33(secret), ec.pub33(other)], 1)
    assume(who != 'uncompressed' or all([not r[5] for r in rows]))
    address = key.segwit_address if any([r[5] for r in rows]) else key.address
    opts = dict(fee=fee, absolute_fee=absolute, leftover=leftover, combine=combine, replace_by_fee=rbf)
    if how != '':
        opts = dict(opts, message=text if how == 'text' else raw, message_is_hex=how == 'hex')
    random.seed(seed)
    direct = outcome(key.create_transaction, outs, unspents=coins_of(rows), **opts)
    random.seed(seed)
    doc = outcome(cls.prepare_transaction, address, outs, unspents=coins_of(rows), **opts)
    check(direct[0] == doc[0], 'prepared exactly when it could be created directly')
    if direct[0] == 'raises':
        check(direct[1] is doc[1], 'the same refusal')
    else:
        check(key.sign_transaction(doc[1]) == direct[1], 'signing the document gives the transaction created directly')


class Sent:
    """Stands for NetworkAPI: keeps what is broadcast, answers no query."""
    out = []

    @classmethod
    def broadcast_tx(cls, tx_hex):
        cls.out.append(('main', tx_hex))

    @classmethod
    def broadcast_tx_testnet(cls, tx_hex):
        cls.out.append(('test', tx_hex))


def some_id(tx_hex):
    return 'id of ' + tx_hex


def record():
    return [(wallet, 'NetworkAPI', Sent)]


@harness(['P09', 'P11'], net=Choice('main', 'test'), secret=Bytes(32), rows=Lst(ROW), outs=Lst(Tup(ADDR, Int(1, SAT), Choice('satoshi'))),
         leftover=Maybe(ADDR), fee=Int(1, 100), combine=Bool(), absolute=Bool(), rbf=Bool(), how=Choice('', 'text', 'hex'), text=Text(lo=1, gen_hi=200), raw=Bytes(lo=1, gen_hi=200), seed=Int(0, 10 ** 9),
         uses=['address script', 'address network', 'address ref', 'sanitize', 'sign function', 'b58encode_check', 'b58decode_check'], natpatch=record,
         sympatch=lambda: ec.sympatch() + record() + [(wallet, 'calc_txid', some_id)], split=['net', 'how', 'rbf'])
def sending(net, secret, rows, outs, leftover, fee, combine, absolute, rbf, how, text, raw, seed):
    """send() broadcasts exactly the transaction that create_transaction makes of the same arguments."""
    v = int.from_bytes(secret, 'big')
    assume(0 < v and v < ec.N and len(rows) > 0)
    key = (wallet.PrivateKey if net == 'main' else wallet.PrivateKeyTestnet)(fmt.bytes_to_wif(secret, net, True))
    opts = dict(fee=fee, absolute_fee=absolute, leftover=leftover, combine=combine, replace_by_fee=rbf)
    if how != '':
        opts = dict(opts, message=text if how == 'text' else raw, message_is_hex=how == 'hex')
    random.seed(seed)
    direct = outcome(key.create_transaction, outs, unspents=coins_of(rows), **opts)
    Sent.out = []
    random.seed(seed)
    sent = outcome(key.send, outs, unspents=coins_of(rows), **opts)
    check(direct[0] == sent[0], 'sent exactly when it could be created')
    if direct[0] == 'raises':
        check(direct[1] is sent[1] and Sent.out == [], 'the same refusal, nothing is sent')
    else:
        check(Sent.out == [(net, direct[1])], 'broadcast once, on the network of the key: the transaction created of the same arguments')


SEQ = Int(0, 2 ** 32 - 1)


@harness('P15', amount=Int(0, 21 * 10 ** 14), conf=Int(0, 10 ** 7), script=Text(), txid=Text(), index=Int(0, 2 ** 32 - 1),
         kind=Choice(*TYPES), vsize=Int(1, 10 ** 5), own=Bool(), seq=SEQ, rbf=Bool())
def coin_dict(amount, conf, script, txid, index, kind, vsize, own, seq, rbf):
    u = Unspent(amount, conf, script, txid, index, kind, vsize if own else None, sequence=seq)
    if rbf:
        u.opt_in_for_RBF()
    v = Unspent.from_dict(u.to_dict())
    for a, b in ((v.amount, u.amount), (v.confirmations, u.confirmations), (v.script, u.script), (v.txid, u.txid), (v.txindex, u.txindex),
                 (v.type, u.type), (v.vsize, u.vsize), (v.segwit, u.segwit), (v.sequence, u.sequence)):
        check(a == b, 'every field of the coin survives')
    check(v == u, 'the coin read back is equal')
    check(u.amount == amount and u.confirmations == conf and u.script == script and u.txid == txid and u.txindex == index, 'a coin holds its data')


@harness('P15', amount=Int(0, 21 * 10 ** 14), conf=Int(0, 10 ** 7), script=HexText(gen_hi=30), txid=HexText(gen_hi=40), index=Int(0, 2 ** 32 - 1),
         kind=Choice(*TYPES), vsize=Int(1, 10 ** 5), half=Bool(), seq=SEQ, symbolic=False, bounded='generated coins')
def coin_json(amount, conf, script, txid, index, kind, vsize, half, seq):
    u = Unspent(amount, conf, script, txid, index, kind, vsize + 0.25 if half else vsize, sequence=seq)
    v = Unspent.from_dict(json.loads(json.dumps(u.to_dict())))
    check(u.to_dict() == v.to_dict(), 'coins survive the text document')
