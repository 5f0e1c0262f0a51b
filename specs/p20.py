"""Wallet balance and coin metadata."""
from pydv.api import harness, check, assume, outcome, raises, same
from pydv.domains import *
from specs import ref, ec
import bit.format as fmt
import bit.wallet as wallet
import bit.network.services as services
from bit.network.meta import Unspent, UNSPENT_TYPES

SIZE = {'unknown': 180, 'p2pkh-uncompressed': 180, 'p2pkh': 148, 'p2sh': 298, 'np2wkh': 91, 'np2wsh': 140, 'p2wkh': 68, 'p2wsh': 105}
SEGWIT = {'unknown': None, 'p2pkh-uncompressed': False, 'p2pkh': False, 'p2sh': False, 'np2wkh': True, 'np2wsh': True, 'p2wkh': True, 'p2wsh': True}


class Net:
    """What the services of each network answer: coins / transactions of one address and of any other."""
    address = ''
    here = []
    other = []
    asked = []
    history = []
    sent = []


def unspent_main(address):
    Net.asked.append(('main', address))
    return list(Net.here) if address == Net.address else list(Net.other)


def unspent_test(address):
    Net.asked.append(('test', address))
    return list(Net.here) if address == Net.address else list(Net.other)


def history_main(address):
    Net.history.append(('main', address))
    return ['a', 'b'] if address == Net.address else ['c']


def history_test(address):
    Net.history.append(('test', address))
    return ['a', 'b'] if address == Net.address else ['c']


def send_main(text):
    Net.sent.append(('main', text))
    return True


def send_test(text):
    Net.sent.append(('test', text))
    return True


def no_answer(x):
    raise ConnectionError('not asked here')


def patch_net():
    api = services.NetworkAPI
    return [(api, 'GET_UNSPENT_MAIN', [unspent_main]), (api, 'GET_UNSPENT_TEST', [unspent_test]),
            (api, 'GET_TRANSACTIONS_MAIN', [history_main]), (api, 'GET_TRANSACTIONS_TEST', [history_test]),
            (api, 'BROADCAST_TX_MAIN', [send_main]), (api, 'BROADCAST_TX_TEST', [send_test])]


def reset(address, here, other):
    Net.address, Net.here, Net.other, Net.asked, Net.history, Net.sent = address, here, other, [], [], []


COIN = Rec(Unspent, amount=Int(0, 21 * 10 ** 14), confirmations=Int(0, 10 ** 6), script=Text(gen_hi=20), txid=Text(gen_hi=20), txindex=Int(0, 100),
           type=Choice('p2pkh', 'np2wsh'), vsize=Int(1, 400), segwit=Bool(), sequence=Int(0, 2 ** 32 - 1))


def facts(u):
    return (u.amount, u.confirmations, u.script, u.txid, u.txindex, u.sequence)


def tagged(us, kind, size):
    return all([u.type == kind and u.segwit == SEGWIT[kind] and u.vsize == size for u in us])


def refreshed(who, here, other, legacy, lsize, nested, nsize, net):
    """Refresh the wallet `who` and check coins, tags and balance."""
    want = [facts(u) for u in here]
    more = [facts(u) for u in other]
    seg = who.segwit_address is not None
    got = who.get_unspents()
    n = len(here)
    if seg:
        check(Net.asked == [(net, who.address), (net, who.segwit_address)], 'both addresses are asked once, on the right network')
        check(len(got) == len(here) + len(other), 'as many coins as reported')
        check([facts(u) for u in got[n:]] == more, 'then the coins of the nested-segwit address')
        check(tagged(got[n:], nested, nsize), 'nested-segwit coins are tagged so')
    else:
        check(Net.asked == [(net, who.address)], 'only the legacy address is asked')
        check(len(got) == len(here), 'as many coins as reported')
    check([facts(u) for u in got[:n]] == want, 'first the coins of the legacy address')
    check(tagged(got[:n], legacy, lsize), 'legacy coins are tagged so')
    total = sum([x[0] for x in want]) + (sum([x[0] for x in more]) if seg else 0)
    check(who.balance == total, 'the balance is the sum of the coins')
    check(who.unspents is got or who.unspents == got, 'the wallet keeps the coins')


def held(secret):
    v = int.from_bytes(secret, 'big')
    assume(0 < v and v < ec.N)


@harness(['P20', 'P10'], secret=Bytes(32), comp=Bool(), net=Choice('main', 'test'), here=Lst(COIN), other=Lst(COIN), old=Lst(COIN),
         patch=patch_net, sympatch=ec.sympatch, uses=['b58encode_check', 'b58decode_check'])
def key_coins(secret, comp, net, here, other, old):
    held(secret)
    cls = wallet.PrivateKey if net == 'main' else wallet.PrivateKeyTestnet
    k = cls(fmt.bytes_to_wif(secret, net, comp))
    k.unspents = old
    k.balance = 7
    assume(k.address != k.segwit_address)
    reset(k.address, here, other)
    refreshed(k, here, other, 'p2pkh' if comp else 'p2pkh-uncompressed', 148 if comp else 180, 'np2wkh', 91, net)


def multi_sizes(m, redeem):
    size = 1 + m * 74 + len(ref.compact_size(len(redeem))) + len(redeem)
    return 36 + len(ref.compact_size(size)) + size + 4, 36 + 40 + (1 + size) / 4


@harness(['P20', 'P10'], secret=Bytes(32), keys=Lst(Bytes(33), n=2), long=Bytes(65), m=Int(1, 4), comp=Bool(), net=Choice('main', 'test'),
         here=Lst(COIN), other=Lst(COIN), old=Lst(COIN),
         patch=patch_net, sympatch=ec.sympatch, uses=['b58encode_check', 'b58decode_check'],
         bounded='four key holders when proved; any coins')
def multisig_coins(secret, keys, long, m, comp, net, here, other, old):
    held(secret)
    cls = wallet.PrivateKey if net == 'main' else wallet.PrivateKeyTestnet
    k = cls(fmt.bytes_to_wif(secret, net, comp))
    pubs = keys + [k.public_key] + ([long] if not comp else [])
    assume(m <= len(pubs))
    ms = (wallet.MultiSig if net == 'main' else wallet.MultiSigTestnet)(k, pubs, m)
    assume(ms.address != ms.segwit_address)
    ms.unspents = old
    ms.balance = 7
    reset(ms.address, here, other)
    legacy, nested = multi_sizes(m, ref.redeemscript(pubs, m))
    refreshed(ms, here, other, 'p2sh', legacy, 'np2wsh', nested, net)


@harness('P20', kind=Choice(*sorted(SIZE), 'strange', ''), again=Choice(*sorted(SIZE), 'strange'), vsize=Int(0, 10 ** 5), extra=Int(0, 10 ** 5), given=Bool(), seq=Int(0, 2 ** 32 - 1))
def coin_tags(kind, again, vsize, extra, given, seq):
    u = Unspent(1, 2, 's', 't', 3, kind, vsize if given else None, sequence=seq)
    k = kind if kind in SIZE else 'unknown'
    check(u.type == k and u.segwit == SEGWIT[k], 'type and segwit flag of a new coin')
    check(u.vsize == (vsize if given and vsize else SIZE[k]), 'size of a new coin')
    r = u.set_type(again, extra)
    a = again if again in SIZE else 'unknown'
    check(r is u, 'the coin itself')
    check(u.type == a and u.segwit == SEGWIT[a] and u.vsize == (extra if extra else SIZE[a]), 'type, segwit flag and size stay consistent')
    check(u.amount == 1 and u.confirmations == 2 and u.script == 's' and u.txid == 't' and u.txindex == 3 and u.sequence == seq, 'nothing else changes')
    u.opt_in_for_RBF()
    check(u.sequence == (0xFFFFFFFD if seq > 0xFFFFFFFD else seq), 'replace-by-fee lowers final sequence numbers only')


@harness(['P20', 'P10'], secret=Bytes(32), comp=Bool(), net=Choice('main', 'test'), patch=patch_net, sympatch=ec.sympatch,
         uses=['b58encode_check', 'b58decode_check'])
def key_history(secret, comp, net):
    held(secret)
    cls = wallet.PrivateKey if net == 'main' else wallet.PrivateKeyTestnet
    k = cls(fmt.bytes_to_wif(secret, net, comp))
    assume(k.address != k.segwit_address)
    reset(k.address, [], [])
    check(k.get_transactions() == (['a', 'b', 'c'] if comp else ['a', 'b']), 'transactions of both addresses')
    check(k.get_transactions() == (['a', 'b', 'c'] if comp else ['a', 'b']), 'the same when asked again')
    check(all([x[0] == net for x in Net.history]), 'asked on the right network')


@harness(['P20', 'P10'], secret=Bytes(32), keys=Lst(Bytes(33), n=2), m=Int(1, 3), comp=Bool(), net=Choice('main', 'test'), patch=patch_net,
         sympatch=ec.sympatch, uses=['b58encode_check', 'b58decode_check'], bounded='three key holders')
def multisig_history(secret, keys, m, comp, net):
    held(secret)
    cls = wallet.PrivateKey if net == 'main' else wallet.PrivateKeyTestnet
    k = cls(fmt.bytes_to_wif(secret, net, comp))
    ms = (wallet.MultiSig if net == 'main' else wallet.MultiSigTestnet)(k, keys + [k.public_key], m)
    assume(ms.address != ms.segwit_address)
    reset(ms.address, [], [])
    seg = ms.segwit_address is not None
    check(ms.get_transactions() == (['a', 'b', 'c'] if seg else ['a', 'b']), 'transactions of both addresses')
    check(ms.get_transactions() == (['a', 'b', 'c'] if seg else ['a', 'b']), 'the same when asked again')
    want = [(net, ms.address), (net, ms.segwit_address)] if seg else [(net, ms.address)]
    check(Net.history == want + want, 'asked for both addresses on the right network')


@harness(['P20', 'P16'], secret=Bytes(32), comp=Bool(), multi=Bool(), net=Choice('main', 'test'), here=Lst(COIN), other=Lst(COIN), patch=patch_net,
         sympatch=ec.sympatch, uses=['b58encode_check', 'b58decode_check'])
def shown_balance(secret, comp, multi, net, here, other):
    held(secret)
    cls = wallet.PrivateKey if net == 'main' else wallet.PrivateKeyTestnet
    who = cls(fmt.bytes_to_wif(secret, net, comp))
    if multi:
        who = (wallet.MultiSig if net == 'main' else wallet.MultiSigTestnet)(who, [who.public_key], 1)
    assume(who.address != who.segwit_address)
    reset(who.address, here, other)
    total = sum([u.amount for u in here]) + (sum([u.amount for u in other]) if who.segwit_address is not None else 0)
    shown = who.get_balance('satoshi')
    check(shown == str(total), 'the balance shown is the sum of the coins')
    check(who.balance_as('satoshi') == shown, 'and shown again')
