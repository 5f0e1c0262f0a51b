"""Bech32 segwit addresses (BIP-173)."""
from pydv.api import harness, check, assume, outcome, raises, same
from pydv.domains import *
from specs import ref
import bit.base32 as b32

HRPS = ('bc', 'tb', 'bcrt')


@harness('P02', values=Lst(BvInt(5), gen_hi=90))
def polymod(values):
    check(b32.bech32_polymod(values) == ref.polymod(values), 'BCH checksum of BIP-173')


@harness('P02', hrp=Text(bits=7, n=2))
def hrp_expand(hrp):
    check(b32.bech32_hrp_expand(hrp) == ref.hrp_expand(hrp), 'prefix expansion')


def bech_text(rng):
    """Mostly near-valid bech32 texts."""
    hrp = rng.choice(HRPS + ('b', 'BC', 'tbx', 'x1', '1', '', 'bc1'))
    if rng.random() < 0.6:
        hrp = rng.choice(HRPS)
    n = rng.choice((2, 3, 19, 20, 20, 21, 31, 32, 32, 33, 40, 41, rng.randrange(0, 60)))
    data = [rng.choice((0, 0, 1, 15, 16, 17, 31))] + ref.spread([rng.randrange(256) for _ in range(n)])
    r = rng.random()
    if r < 0.1:
        data.append(rng.randrange(32))
    elif r < 0.2:
        data[-1] ^= rng.choice((1, 2, 4, 8))
    elif r < 0.25:
        data = [rng.randrange(32) for _ in range(rng.randrange(0, 4))]
    s = ref.bech32_text(hrp, data)
    r = rng.random()
    if r < 0.2:
        s = s.upper()
    elif r < 0.4 and s:
        i = rng.randrange(len(s))
        s = s[:i] + rng.choice('qpb1BQ Z\x7f\x80\u212a\u0130io0' + chr(rng.randrange(33, 127))) + s[i + 1:]
    elif r < 0.45 and s:
        i = rng.randrange(len(s))
        s = s[:i] + s[i].upper() + s[i + 1:]
    elif r < 0.5:
        s = s + s[-1:]
    elif r < 0.55:
        s = ref.bech32_text(hrp, [0] + [rng.randrange(32) for _ in range(89 - 7 - len(hrp) + rng.randrange(-1, 3))])
    return s


BECH = OneOf(Text(), Gen(bech_text, Text().sym))


@harness('P02', s=BECH, uses=['polymod'])
def decode_text(s):
    want = ref.bech32_parts(s)
    check(b32.bech32_decode(s) == ((None, None) if want is None else want), 'bech32 text')


def list_upto(elem, hi):
    """Every length 0..hi, each with arbitrary elements."""
    def sym(name):
        from pydv.core import S, PList
        n = S.fresh_int(name + '_n')
        j = 0
        while j < hi and not S.decide(n == j):
            j += 1
        return PList([elem.sym('%s%d' % (name, i)) for i in range(j)])
    return Gen(lambda rng: [elem.gen(rng) for _ in range(rng.randrange(hi + 1))], sym)


@harness('P02', data=list_upto(BvInt(5), 83))
def regroup(data):
    check(b32.convertbits(data, 5, 8, False) == ref.regroup(data), '5-bit values to bytes')


@harness('P02', data=list_upto(BvInt(8), 42))
def spread(data):
    check(b32.convertbits(data, 8, 5) == ref.spread(data), 'bytes to 5-bit values')


@harness('P02', s=BECH, uses=['bech32', 'bech32 ref', 'convertbits', 'regroup'])
def decode_any(s):
    want = ref.segwit_parts(s)
    check(b32.decode(s) == ((None, None) if want is None else want), 'segwit address')


@harness('P02', hrp=Choice(*HRPS), ver=BvInt(5), prog=list_upto(BvInt(8), 42),
         uses=['bech32', 'bech32 text'])
def encode_any(hrp, ver, prog):
    t = ref.bech32_text(hrp, [ver] + ref.spread(prog))
    n = len(prog)
    ok = n >= 2 and n <= 40 and ver <= 16 and (ver != 0 or n == 20 or n == 32)
    got = b32.encode(hrp, ver, prog)
    check(got == (t if ok else None), 'address of a valid program, none for an invalid one')
    if ok:
        check(b32.decode(t) == (ver, prog), 'decodes back')
        check(b32.decode(t.upper()) == (ver, prog), 'upper case is the same address')


@harness('P02', hrp=Choice(*HRPS), data=Lst(BvInt(5), gen_hi=90))
def checksum(hrp, data):
    c = b32.bech32_create_checksum(hrp, data)
    check(c == ref.check_digits(hrp, data), 'checksum digits')
    check(b32.bech32_verify_checksum(hrp, data + c) is True, 'the created checksum verifies')
    check(ref.sum_ok(hrp, data + c), 'the created checksum verifies (reference)')


@harness('P02', hrp=Choice(*HRPS), data=Lst(BvInt(5), gen_hi=90))
def verify(hrp, data):
    check(b32.bech32_verify_checksum(hrp, data) == ref.sum_ok(hrp, data), 'checksum test')


@harness('P02', hrp=Choice(*HRPS), data=Lst(BvInt(5), gen_hi=90), uses=['checksum', 'verify'])
def text_roundtrip(hrp, data):
    assume(len(hrp) + len(data) <= 83)
    t = ref.bech32_text(hrp, data)
    check(b32.bech32_encode(hrp, data) == t, 'bech32 text')
    check(b32.bech32_decode(t) == (hrp, data), 'decodes back')
    check(b32.bech32_decode(t.upper()) == (hrp, data), 'upper case is the same address')
