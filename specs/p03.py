"""Wallet Import Format."""
from pydv.api import harness, check, assume, outcome, raises, same
from pydv.domains import *
from specs import ref, ec
import bit.base58 as b58
import bit.format as fmt
import bit.wallet as wallet

C = ['b58encode_check', 'b58decode_check']


@harness('P03', key=Bytes(32), version=Choice('main', 'test'), comp=Bool(), uses=C)
def wif_roundtrip(key, version, comp):
    w = fmt.bytes_to_wif(key, version, comp)
    check(fmt.wif_to_bytes(w) == (key, comp, version), 'same key, compression and network come back')


@harness('P03', key=Bytes(32), version=Choice('main', 'test'), comp=Bool(), uses=C)
def wif_text(key, version, comp):
    want = (b'\xef' if version == 'test' else b'\x80') + key + (b'\x01' if comp else b'')
    check(fmt.bytes_to_wif(key, version, comp) == b58.b58encode_check(want), 'prefix, key and compression flag are encoded')
    check(fmt.wif_checksum_check(b58.b58encode_check(want)) is True, 'exported keys are valid')


def wif_like(rng):
    key = Bytes(32).gen(rng)
    r = rng.random()
    if r < 0.2:
        key = Bytes().gen(rng)
    p = rng.choice((b'\x80', b'\xef', b'\x80', b'\xef', b'\x00', b'\x05', b'\x6f', b'\xc4', bytes([rng.randrange(256)])))
    s = b58.b58encode_check(p + key + rng.choice((b'', b'\x01', b'\x02')))
    if rng.random() < 0.3:
        i = rng.randrange(len(s))
        s = s[:i] + rng.choice(ref.B58) + s[i + 1:]
    return s


@harness('P03', s=OneOf(Gen(wif_like, Text().sym), Text()), uses=C)
def wif_any(s):
    d = outcome(b58.b58decode_check, s)
    r = outcome(fmt.wif_to_bytes, s)
    valid = d[0] == 'ok' and (d[1][:1] == b'\x80' or d[1][:1] == b'\xef')
    check(outcome(fmt.wif_checksum_check, s) == ('ok', valid), 'validity predicate')
    if not valid:
        check(r == ('raises', ValueError), 'wrong checksum or network byte')
    else:
        check(r[0] == 'ok' and r[1][2] == ('main' if d[1][:1] == b'\x80' else 'test'), 'network of the prefix')


@harness('P03', key=Bytes(32), version=Choice('main', 'test'), comp=Bool(), uses=C, sympatch=ec.sympatch)
def wallet_wif(key, version, comp):
    v = int.from_bytes(key, 'big')
    assume(0 < v and v < ec.N)
    w = fmt.bytes_to_wif(key, version, comp)
    cls = wallet.PrivateKey if version == 'main' else wallet.PrivateKeyTestnet
    k = wallet.wif_to_key(w)
    check(type(k) is cls and k.version == version, 'class of the network')
    check(k.to_bytes() == key and k.is_compressed() == comp and k.to_wif() == w, 'wif_to_key keeps everything')
    k2 = cls(w)
    check(k2.to_bytes() == key and k2.is_compressed() == comp and k2.to_wif() == w, 'import then export')
    check(k2.public_key == (ec.pub33(key) if comp else ec.pub65(key)), 'public key of the secret')
