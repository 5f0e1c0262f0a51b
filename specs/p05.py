"""Output scripts of addresses."""
from pydv.api import harness, check, assume, outcome, raises, same
from pydv.domains import *
from specs import ref
import bit.base32 as b32
import bit.base58 as b58
import bit.format as fmt
import bit.transaction as tx
from specs.p02 import bech_text, list_upto, HRPS

C = ['b58decode_check', 'b58encode_check', 'b58check ref', 'bech32', 'bech32 ref', 'convertbits', 'regroup']


def address_text(rng):
    r = rng.random()
    if r < 0.5:
        n = rng.choice((20, 20, 20, 19, 21, 0, 32, 33))
        p = rng.choice((b'\x00', b'\x6f', b'\x05', b'\xc4', b'\x80', b'\xef', b'\x01', b'', bytes([rng.randrange(256)])))
        s = b58.b58encode_check(p + Bytes(n).gen(rng))
        if rng.random() < 0.2 and s:
            i = rng.randrange(len(s))
            s = s[:i] + rng.choice(ref.B58 + '0OIl ') + s[i + 1:]
        return s
    return bech_text(rng)


ADDRESS = OneOf(Gen(address_text, Text().sym), Text(gen_hi=100))


@harness('P05', s=ADDRESS, uses=C)
def any_text(s):
    want = ref.address_parts(s)
    assume(ref.b58check_payload(s) is None or ref.bech32_parts(s) is None)
    r = outcome(tx.address_to_scriptpubkey, s)
    if want is None:
        check(r == ('raises', ValueError), 'not an address: no script')
    else:
        check(r == ('ok', want[1]), 'standard script of the address')
        check(fmt.get_version(s) == want[0], 'network of the address')


@harness('P05', prefix=Choice(0x00, 0x6f, 0x05, 0xc4), h=Bytes(20), uses=C)
def base58_address(prefix, h):
    s = b58.b58encode_check(bytes([prefix]) + h)
    script = b'\x76\xa9\x14' + h + b'\x88\xac' if prefix in (0x00, 0x6f) else b'\xa9\x14' + h + b'\x87'
    check(tx.address_to_scriptpubkey(s) == script, 'standard script of the hash')
    check(fmt.get_version(s) == ('main' if prefix in (0x00, 0x05) else 'test'), 'network of the prefix')
    check(fmt.address_to_public_key_hash(s) == h, 'hash of the address')


@harness('P05', hrp=Choice(*HRPS), ver=Int(0, 16), prog=Lst(BvInt(8), gen_hi=41))
def program_script(hrp, ver, prog):
    assume(len(prog) <= 40)
    check(fmt.segwit_scriptpubkey(ver, prog) == bytes([0 if ver == 0 else 0x50 + ver, len(prog)]) + bytes(prog), 'witness program script')


@harness('P05', hrp=Choice(*HRPS), ver=BvInt(5), prog=list_upto(BvInt(8), 41), uses=C + ['bech32 text'])
def segwit_address(hrp, ver, prog):
    n = len(prog)
    assume(n >= 2 and n <= 40 and ver <= 16 and (ver != 0 or n == 20 or n == 32))
    s = ref.bech32_text(hrp, [ver] + ref.spread(prog))
    script = bytes([0 if ver == 0 else 0x50 + ver, n]) + bytes(prog)
    for t in (s, s.upper()):
        assume(ref.b58check_payload(t) is None)
        check(tx.address_to_scriptpubkey(t) == script, 'standard script of the witness program')
        check(fmt.get_version(t) == ('main' if hrp == 'bc' else 'test'), 'network of the prefix')
