"""Signing: only the unlocking data of owned inputs changes, and it is the right one."""
from pydv.api import harness, check, assume, outcome, raises, same
from pydv.domains import *
from specs import ref, ec, scene
from specs.p09 import no_network
import bit.transaction as tx
import bit.wallet as wallet


def blob(rng, n):
    return bytes(rng.randrange(256) for _ in range(n))


def stranger(rng, seg):
    """Unlocking data somebody else put there: (script, witness items)."""
    r = rng.randrange(4)
    if r == 0:
        return b'', []
    if r == 1:
        return blob(rng, rng.choice((1, 107, 108, 252, 253, 300))), []
    return (b'\x16\x00\x14' + blob(rng, 20) if r == 2 else b''), [blob(rng, n) for n in rng.choice(((72, 33), (0, 71, 72, 105), (300,), (1,)))] if seg else []


def draft(rng, counts=(1, 2, 3, 4, 7)):
    net = rng.choice(('main', 'test'))
    comp = rng.random() < 0.8
    coins = scene.coin_data(rng, rng.choice(counts), comp, foreign=0.4)
    seg = rng.random() < 0.7
    # a witness on an input that spends a legacy coin would make the draft itself invalid
    field = [stranger(rng, seg and c[3] != 'legacy') if rng.random() < 0.6 else (b'', []) for c in coins]
    return dict(net=net, comp=comp, secret=scene.secret(rng), coins=coins,
                version=rng.choice((1, 2)).to_bytes(4, 'little'), lock=blob(rng, 4),
                given=[rng.random() < 0.9 for _ in coins],
                field=field,
                sequences=[blob(rng, 4) for _ in coins],
                outs=[(rng.randrange(10 ** 15), blob(rng, rng.choice((0, 22, 25, 34, 253)))) for _ in range(rng.choice((1, 1, 2, 3, 5)))],
                order=rng.randrange(1000), how=rng.randrange(3), dup=rng.random() < 0.1)


def wire(d):
    ins = [(scene.outpoint(c)[:32], scene.outpoint(c)[32:], f[0], s, f[1]) for c, f, s in zip(d['coins'], d['field'], d['sequences'])]
    outs = [(a.to_bytes(8, 'little'), s) for a, s in d['outs']]
    seg = any([f[1] for f in d['field']])
    return (ref.wire_segwit if seg else ref.wire_legacy)(d['version'], ins, outs, d['lock'])


@harness('P13', d=Gen(draft), symbolic=False, natpatch=no_network, secs=10,
         bounded='executed signings of generated transactions with owned, foreign, unsigned and signed inputs')
def sign_drafts(d):
    sign_draft(d)


@harness('P13', d=Gen(lambda rng: draft(rng, (130, 254, 260, 300))), symbolic=False, natpatch=no_network, secs=6,
         bounded='executed signings of transactions with 130 to 300 inputs')
def sign_crowd(d):
    sign_draft(d)


def sign_draft(d):
    key = scene.wallet_key(d['net'], d['secret'], d['comp'])
    assume(len({scene.outpoint(c) for c in d['coins']}) == len(d['coins']))
    coins = scene.make_coins(d['coins'], key.public_key)
    give = [c for c, g in zip(coins, d['given']) if g]
    give = give[d['order'] % (len(give) + 1):] + give[:d['order'] % (len(give) + 1)]
    if d['dup']:
        give = give + give[:1]
    assume(len(give) > 0)
    before = scene.read_tx(wire(d))
    text = wire(d).hex()
    if d['how'] == 0:
        r = key.sign_transaction(text, unspents=give)
    elif d['how'] == 1:
        r = tx.sign_tx(key, tx.deserialize(text), unspents=give)
    else:
        r = key.sign_transaction(text.upper(), unspents=give)
    check(isinstance(r, str), 'hex text')
    after = scene.read_tx(bytes.fromhex(r))
    check(after[0] == before[0] and after[3] == before[3], 'version and lock time unchanged')
    check(after[2] == before[2], 'outputs unchanged')
    check([i[0] for i in after[1]] == [i[0] for i in before[1]], 'outpoints unchanged')
    check([i[2] for i in after[1]] == [i[2] for i in before[1]], 'sequences unchanged')
    for i, c in enumerate(d['coins']):
        if d['given'][i] and c[3] != 'foreign':
            check(scene.spends_ok(after, i, key.public_key, c[3], c[0]), 'owned inputs are unlocked correctly')
        else:
            check(after[1][i][1] == before[1][i][1] and after[1][i][3] == before[1][i][3], 'other inputs keep their unlocking data')


@harness('P13', d=Gen(draft), symbolic=False, natpatch=no_network, secs=3, bounded='executed signings of generated transactions')
def sign_twice(d):
    """Two different keys sign after each other; the first one's inputs stay valid."""
    key = scene.wallet_key(d['net'], d['secret'], d['comp'])
    other = scene.wallet_key(d['net'], ref.sha256(d['secret'])[:31] + b'\x01', True)
    assume(len({scene.outpoint(c) for c in d['coins']}) == len(d['coins']))
    mine = [c if c[3] != 'foreign' else None for c in d['coins']]
    theirs = [(c[0], c[1], c[2], ('legacy', 'segwit')[i % 2]) if c[3] == 'foreign' else None for i, c in enumerate(d['coins'])]
    d = dict(d, field=[(b'', []) for c in d['coins']])
    a = scene.make_coins([c for c in mine if c], key.public_key)
    b = scene.make_coins([c for c in theirs if c], other.public_key)
    assume(len(a) > 0 and len(b) > 0)
    half = key.sign_transaction(wire(d).hex(), unspents=a if d['how'] else a + b)
    done = scene.read_tx(bytes.fromhex(other.sign_transaction(half, unspents=b if d['how'] else a + b)))
    for i, c in enumerate(d['coins']):
        if mine[i]:
            check(scene.spends_ok(done, i, key.public_key, mine[i][3], c[0]), 'the first key\'s inputs stay valid')
        else:
            check(scene.spends_ok(done, i, other.public_key, theirs[i][3], c[0]), 'the second key\'s inputs are unlocked')


# ---- every content, up to two inputs --------------------------------------------------------------

from specs import p12
import bit.format as fmt

C = ['varint', 'read_varint', 'b58encode_check', 'b58decode_check', 'bech32', 'convertbits']
OUTPUT = Tup(Bytes(8), Bytes())
FIELD = Lst(Bytes(gen_hi=80), gen_hi=3)
# txid, index, script, sequence, witness items, amount, script of a foreign coin
INPUT = Tup(Bytes(32), Int(0, 2 ** 32 - 1), Bytes(gen_hi=120), Bytes(4), FIELD, Int(0, 21 * 10 ** 14), Bytes(gen_hi=40))
# legacy and segwit: the key's own coins; foreign: somebody else's; absent: no information about the coin is given
KIND = Choice('legacy', 'segwit', 'foreign', 'absent')


def signed_wire(key, pub, version, lock, ins, kinds, outs):
    """The transaction with the owned inputs unlocked as the standards say."""
    h = ref.hash160(pub)
    code = b'\x76\xa9\x14' + h + b'\x88\xac'
    base = [(x[0], x[1].to_bytes(4, 'little'), code, x[5].to_bytes(8, 'little'), x[3]) for x in ins]
    out, seg = [], False
    for i in range(len(ins)):
        x = ins[i]
        script, items = x[2], x[4]
        if kinds[i] == 'legacy':
            sig = key.sign(ref.sha256(p12.legacy(version, base, outs, lock, i))) + b'\x01'
            script, items = bytes([len(sig)]) + sig + bytes([len(pub)]) + pub, []
        elif kinds[i] == 'segwit':
            sig = key.sign(ref.sha256(p12.bip143(version, base, outs, lock, i))) + b'\x01'
            script, items = b'\x16\x00\x14' + h, [sig, pub]
        seg = seg or len(items) > 0
        out.append((x[0], x[1].to_bytes(4, 'little'), script, x[3], items))
    return (ref.wire_segwit if seg else ref.wire_legacy)(version, out, outs, lock)


def sign_check(key, pub, version, lock, ins, kinds, outs):
    legacy, nested = scene.key_scripts(pub)
    coins = []
    for x, k in zip(ins, kinds):
        assume(k != 'segwit' or len(pub) == 33)
        assume(k != 'legacy' or len(x[4]) == 0)
        assume(x[6] != legacy and x[6] != nested)
        if k != 'absent':
            script = legacy if k == 'legacy' else nested if k == 'segwit' else x[6]
            kind = ('p2pkh' if len(pub) == 33 else 'p2pkh-uncompressed') if k == 'legacy' else 'np2wkh' if k == 'segwit' else 'p2pkh'
            coins.append(Unspent(x[5], 3, script.hex(), x[0][::-1].hex(), x[1], kind))
    wired = [(x[0], x[1].to_bytes(4, 'little'), x[2], x[3], x[4]) for x in ins]
    seg = any([len(x[4]) > 0 for x in ins])
    draft = (ref.wire_segwit if seg else ref.wire_legacy)(version, wired, outs, lock)
    r = key.sign_transaction(draft.hex(), unspents=coins)
    check(r == signed_wire(key, pub, version, lock, ins, kinds, outs).hex(), 'owned inputs unlocked as the standards say, everything else unchanged')


from bit.network.meta import Unspent


@harness('P13', net=Choice('main', 'test'), secret=Bytes(32), comp=Bool(), version=Bytes(4), lock=Bytes(4), x=INPUT, kind=KIND, outs=Lst(OUTPUT),
         uses=C, sympatch=ec.sympatch, bounded='transactions with one input, any contents and any number of outputs')
def sign_one(net, secret, comp, version, lock, x, kind, outs):
    v = int.from_bytes(secret, 'big')
    assume(0 < v and v < ec.N)
    key = (wallet.PrivateKey if net == 'main' else wallet.PrivateKeyTestnet)(fmt.bytes_to_wif(secret, net, comp))
    assume(kind != 'absent')
    sign_check(key, ec.pub33(secret) if comp else ec.pub65(secret), version, lock, [x], [kind], outs)


@harness('P13', net=Choice('main', 'test'), secret=Bytes(32), comp=Bool(), version=Bytes(4), lock=Bytes(4), x=INPUT, y=INPUT, kx=KIND, ky=KIND, outs=Lst(OUTPUT),
         uses=C, sympatch=ec.sympatch, split=['net', 'comp', 'kx'], bounded='transactions with two inputs, any contents and any number of outputs')
def sign_two(net, secret, comp, version, lock, x, y, kx, ky, outs):
    v = int.from_bytes(secret, 'big')
    assume(0 < v and v < ec.N)
    key = (wallet.PrivateKey if net == 'main' else wallet.PrivateKeyTestnet)(fmt.bytes_to_wif(secret, net, comp))
    assume(kx != 'absent' or ky != 'absent')
    assume(x[0] != y[0] or x[1] != y[1])
    sign_check(key, ec.pub33(secret) if comp else ec.pub65(secret), version, lock, [x, y], [kx, ky], outs)
