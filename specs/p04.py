"""Addresses and multisig redeem scripts."""
from pydv.api import harness, check, assume, outcome, raises, same
from pydv.domains import *
from specs import ref, ec
import bit.base58 as b58
import bit.format as fmt
import bit.wallet as wallet

C = ['b58encode_check']
VERSION = Choice('main', 'test')


def pkh_prefix(version):
    return b'\x6f' if version == 'test' else b'\x00'


def sh_prefix(version):
    return b'\xc4' if version == 'test' else b'\x05'


@harness('P04', key=OneOf(Bytes(33), Bytes(65), Bytes()), version=VERSION, uses=C)
def key_address(key, version):
    r = outcome(fmt.public_key_to_address, key, version)
    if len(key) == 33 or len(key) == 65:
        check(r == ('ok', b58.b58encode_check(pkh_prefix(version) + ref.hash160(key))), 'P2PKH address')
    else:
        check(r == ('raises', ValueError), 'wrong key length')


@harness('P04', key=OneOf(Bytes(33), Bytes()), version=VERSION, uses=C)
def key_segwit_address(key, version):
    r = outcome(fmt.public_key_to_segwit_address, key, version)
    if len(key) == 33:
        check(r == ('ok', b58.b58encode_check(sh_prefix(version) + ref.hash160(b'\x00\x14' + ref.hash160(key)))), 'P2SH-P2WPKH address')
    else:
        check(r == ('raises', ValueError), 'wrong key length')


def redeem_ok(keys, m):
    total = 3
    for k in keys:
        total += 1 + len(k)
    return m >= 1 and m <= len(keys) and all([len(k) == 33 or len(k) == 65 for k in keys]) and total <= 520


def key_list(rng):
    n = rng.choice((0, 1, 2, 3, 7, 8, 14, 15, 15, 16, 17))
    ks = [Bytes(rng.choice((33, 33, 33, 65))).gen(rng) for _ in range(n)]
    if n > 8 and rng.random() < 0.7:
        ks = [Bytes(33).gen(rng) for _ in range(n)]
    if ks and rng.random() < 0.2:
        ks[rng.randrange(n)] = Bytes(rng.choice((0, 1, 32, 34, 64, 66, 75, 76))).gen(rng)
    return ks


KEYS = Gen(key_list, Lst(Bytes()).sym)


@harness('P04', keys=KEYS, m=Int(-3, 20), uses=C)
def redeemscript(keys, m):
    r = outcome(fmt.multisig_to_redeemscript, keys, m)
    if redeem_ok(keys, m):
        check(r == ('ok', ref.redeemscript(keys, m)), 'redeem script')
    else:
        check(r == ('raises', ValueError), 'impossible multisig requests are refused')


@harness('P04', keys=KEYS, m=Int(-3, 20), version=VERSION, uses=['b58encode_check', 'redeemscript'])
def multisig_addresses(keys, m, version):
    s = outcome(fmt.multisig_to_redeemscript, keys, m)
    a = outcome(fmt.multisig_to_address, keys, m, version)
    w = outcome(fmt.multisig_to_segwit_address, keys, m, version)
    if s[0] == 'ok':
        check(a == ('ok', b58.b58encode_check(sh_prefix(version) + ref.hash160(s[1]))), 'P2SH address')
        check(w == ('ok', b58.b58encode_check(sh_prefix(version) + ref.hash160(b'\x00\x20' + ref.sha256(s[1])))), 'P2SH-P2WSH address')
    else:
        check(a == ('raises', ValueError) and w == ('raises', ValueError), 'no address without a script')


@harness('P04', key=Bytes(32), version=VERSION, comp=Bool(), uses=['b58encode_check', 'b58decode_check'], sympatch=ec.sympatch)
def key_properties(key, version, comp):
    v = int.from_bytes(key, 'big')
    assume(0 < v and v < ec.N)
    cls = wallet.PrivateKey if version == 'main' else wallet.PrivateKeyTestnet
    k = cls(fmt.bytes_to_wif(key, version, comp))
    pub = ec.pub33(key) if comp else ec.pub65(key)
    a = b58.b58encode_check(pkh_prefix(version) + ref.hash160(pub))
    w = b58.b58encode_check(sh_prefix(version) + ref.hash160(b'\x00\x14' + ref.hash160(pub))) if comp else None
    check(k.public_key == pub, 'public key')
    check(k.address == a, 'address')
    check(k.segwit_address == w, 'segwit address')
    check(k.address == a and k.segwit_address == w, 'the same when asked again')


def ms_keys(rng):
    n = rng.choice((1, 2, 3, 3, 5, 15))
    return [(ec.pub33 if rng.random() < 0.9 or n > 7 else ec.pub65)(b'\x01' + Bytes(31).gen(rng)) for _ in range(n)]


def ms_keys_sym(name):
    return Lst(OneOf(Bytes(33), Bytes(65)), n=2).sym(name)


@harness('P04', secret=Bytes(32), keys=Gen(ms_keys, ms_keys_sym), pos=Int(0, 2), m=Int(1, 15), version=VERSION, comp=Bool(),
         how=Int(0, 2), uses=['b58encode_check', 'b58decode_check'], sympatch=ec.sympatch,
         bounded='multisig objects: three key holders when proved, up to 16 in the executed cases')
def multisig_properties(secret, keys, pos, m, version, comp, how):
    v = int.from_bytes(secret, 'big')
    assume(0 < v and v < ec.N and m <= len(keys) + 1 and pos <= len(keys))
    kcls = wallet.PrivateKey if version == 'main' else wallet.PrivateKeyTestnet
    k = kcls(fmt.bytes_to_wif(secret, version, comp))
    full = keys[:pos] + [k.public_key] + keys[pos:]
    assume(redeem_ok(full, m))
    given = list(full)
    if how == 1:
        given = [x.hex() for x in full]
    cls = wallet.MultiSig if version == 'main' else wallet.MultiSigTestnet
    ms = cls(k, given, m)
    s = ref.redeemscript(full, m)
    check(ms.redeemscript == s and ms.scriptcode == s, 'redeem script in the given key order')
    check(ms.version == version and ms.public_keys == full and ms.public_key == k.public_key, 'keys and network')
    check(ms.address == b58.b58encode_check(sh_prefix(version) + ref.hash160(s)), 'P2SH address')
    w = b58.b58encode_check(sh_prefix(version) + ref.hash160(b'\x00\x20' + ref.sha256(s)))
    check(ms.segwit_address == (w if all([len(x) == 33 for x in full]) else None), 'segwit address of compressed keys only')
    check(ms.segwit_scriptcode == b'\x00\x20' + ref.sha256(s), 'witness program')


@harness('P04', keys=Gen(ms_keys), version=VERSION, symbolic=False, bounded='generated key sets')
def multisig_set(keys, version):
    kcls = wallet.PrivateKey if version == 'main' else wallet.PrivateKeyTestnet
    k = kcls()
    cls = wallet.MultiSig if version == 'main' else wallet.MultiSigTestnet
    given = set(keys + [k.public_key])
    assume(redeem_ok(sorted(given), 1))
    ms = cls(k, given, 1)
    check(ms.redeemscript == ref.redeemscript(sorted(given), 1), 'sets are taken in sorted order')
    check(raises(ValueError, cls, k, keys, 1), 'a foreign key is refused')
