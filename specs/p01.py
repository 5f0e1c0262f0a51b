"""Base58 and Base58Check."""
from pydv.api import harness, check, assume, outcome, raises, same
from pydv.domains import *
from specs import ref
import bit.base58 as b58
import bit.crypto as crypto

Z = Int(0, 2000)          # number of leading zero bytes (any; bounded only so that the native run ends)


@harness('P01', z=Z, x=Bytes(lo=1, gen_hi=60))
def encode_any(z, x):
    assume(x[0] != 0)
    check(b58.b58encode(bytes(z) + x) == '1' * z + ref.b58_digits(int.from_bytes(x, 'big')), 'base58 digits after one "1" per zero byte')


@harness('P01', z=Z)
def encode_zeros(z):
    check(b58.b58encode(bytes(z)) == '1' * z, 'zero bytes only')


@harness('P01', z=Z, x=Bytes(lo=1, gen_hi=60))
def encode_roundtrip(z, x):
    assume(x[0] != 0)
    b = bytes(z) + x
    check(b58.b58decode(b58.b58encode(b)) == b, 'decode inverts encode')


def b58_text(rng):
    n = rng.choice((1, 2, 3, 10, 33, 34, 51, 52, rng.randrange(1, 120)))
    s = ''.join(rng.choice(ref.B58) for _ in range(n))
    if rng.random() < 0.3:
        i = rng.randrange(n)
        s = s[:i] + rng.choice('0OIl +/\n\u00e91') + s[i + 1:]
    return s


@harness('P01', z=Z, s=OneOf(Text(lo=1), Gen(b58_text, Text(lo=1).sym)))
def decode_any(z, s):
    assume(s[0] != '1')
    t = '1' * z + s
    r = outcome(b58.b58decode, t)
    if all([c in ref.B58_DIGIT for c in s]):
        check(r == ('ok', bytes(z) + ref.minimal_be(ref.b58_value(s))), 'decode is the inverse digit map')
    else:
        check(r == ('raises', ValueError), 'characters outside the alphabet')


@harness('P01', z=Z)
def decode_ones(z):
    r = b58.b58decode('1' * z)
    check(r[:z] == bytes(z) and len(r) >= 1, 'text of ones only decodes to zero bytes')


@harness('P01', b=Bytes())
def encode_check(b):
    check(b58.b58encode_check(b) == b58.b58encode(b + ref.dsha256(b)[:4]), 'payload and checksum are encoded')


def check_text(rng):
    b = Bytes(gen_hi=40).gen(rng)
    s = b58.b58encode_check(b)
    if rng.random() < 0.6 and s:
        i = rng.randrange(len(s))
        s = s[:i] + rng.choice(ref.B58) + s[i + 1:]
    if rng.random() < 0.1:
        s = s[:rng.randrange(len(s) + 1)]
    return s


@harness('P01', s=OneOf(Gen(check_text, Text().sym), Gen(b58_text, Text().sym), Text()), uses=['b58decode'])
def decode_check_any(s):
    d = outcome(b58.b58decode, s)
    r = outcome(b58.b58decode_check, s)
    if d[0] == 'raises':
        check(r == ('raises', ValueError), 'bad characters are refused')
        return
    payload, tail = d[1][:-4], d[1][-4:]
    if tail == ref.dsha256(payload)[:4]:
        check(r == ('ok', payload), 'payload returned for a right checksum')
    else:
        check(r == ('raises', ValueError), 'a wrong checksum is refused')


@harness('P01', z=Z, x=Bytes(lo=1, gen_hi=60), uses=['b58encode pair', 'b58decode pair'])
def check_roundtrip(z, x):
    assume(x[0] != 0)
    b = bytes(z) + x
    check(b58.b58decode_check(b58.b58encode_check(b)) == b, 'decode_check inverts encode_check')


@harness('P01', z=Int(0, 200), symbolic=False, bounded='all-zero payloads of up to 200 bytes, executed (their checksum is not zero)')
def check_roundtrip_zeros(z):
    b = bytes(z)
    check(b58.b58decode_check(b58.b58encode_check(b)) == b, 'decode_check inverts encode_check')


@harness(['P01', 'P03'], key=Bytes(32), main=Bool(), comp=Bool(), chk=Bytes(4), extra={'unroll_while': True})
def wif_length(key, main, comp, chk):
    b = (b'\x80' if main else b'\xef') + key + (b'\x01' if comp else b'') + chk
    check(len(b58.b58encode(b)) == (52 if comp else 51), 'private keys give 52 or 51 characters')
