"""Reference definitions (the specification side): written from the protocol documents, not from bit's code."""
import hashlib


def byte_length(v):
    """Number of bytes of v >= 0 in base 256 without leading zeros (0 for 0).  Primitive of the verifier."""
    n = 0
    while v:
        v >>= 8
        n += 1
    return n


def be_bytes(v, n):
    return v.to_bytes(n, 'big')


def compact_size(v):
    """Bitcoin CompactSize encoding of 0 <= v < 2**64."""
    if v <= 0xfc:
        return bytes([v])
    if v <= 0xffff:
        return bytes([0xfd]) + v.to_bytes(2, 'little')
    if v <= 0xffffffff:
        return bytes([0xfe]) + v.to_bytes(4, 'little')
    return bytes([0xff]) + v.to_bytes(8, 'little')


def push_op(n):
    """Opcode bytes that push the next n bytes (canonical Bitcoin script push of 0 <= n < 2**32 bytes)."""
    if n <= 75:
        return bytes([n])
    if n <= 0xff:
        return bytes([0x4c, n])
    if n <= 0xffff:
        return bytes([0x4d]) + n.to_bytes(2, 'little')
    return bytes([0x4e]) + n.to_bytes(4, 'little')


# ---- hashes -----------------------------------------------------------------------------------

def sha256(b):
    return hashlib.sha256(b).digest()


def dsha256(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


def hash160(b):
    return hashlib.new('ripemd160', hashlib.sha256(b).digest()).digest()


# ---- base58 -----------------------------------------------------------------------------------

B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
B58_DIGIT = {c: i for i, c in enumerate(B58)}


def b58_digits(v):
    """Base-58 digits of v >= 0, most significant first, none for 0."""
    out = ''
    while v:
        out = B58[v % 58] + out
        v = v // 58
    return out


def b58_value(s):
    v = 0
    for c in s:
        v = 58 * v + B58_DIGIT[c]
    return v


def minimal_be(v):
    n = byte_length(v)
    return v.to_bytes(n if n > 0 else 1, 'big')


# ---- scripts ----------------------------------------------------------------------------------

def redeemscript(keys, m):
    return bytes([80 + m]) + b''.join([bytes([len(k)]) + k for k in keys]) + bytes([80 + len(keys), 0xae])


# ---- transactions -----------------------------------------------------------------------------
# input: (txid, index, script, sequence, witness items); output: (amount, script); all fields as wire bytes

def wire_in(i):
    return i[0] + i[1] + compact_size(len(i[2])) + i[2] + i[3]


def wire_out(o):
    return o[0] + compact_size(len(o[1])) + o[1]


def wire_stack(items):
    return compact_size(len(items)) + b''.join([compact_size(len(w)) + w for w in items])


def wire_body(ins, outs):
    return compact_size(len(ins)) + b''.join([wire_in(i) for i in ins]) + compact_size(len(outs)) + b''.join([wire_out(o) for o in outs])


def wire_legacy(version, ins, outs, lock):
    return version + wire_body(ins, outs) + lock


def wire_segwit(version, ins, outs, lock):
    return version + b'\x00\x01' + wire_body(ins, outs) + b''.join([wire_stack(i[4]) for i in ins]) + lock


# ---- bech32 (BIP-173) --------------------------------------------------------------------------

BECH = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l'
BECH_DIGIT = {c: i for i, c in enumerate(BECH)}


def polymod(values):
    c = 1
    for v in values:
        c0 = c >> 25
        c = ((c & 0x1ffffff) << 5) ^ v
        if c0 & 1:
            c ^= 0x3b6a57b2
        if c0 & 2:
            c ^= 0x26508e6d
        if c0 & 4:
            c ^= 0x1ea119fa
        if c0 & 8:
            c ^= 0x3d4233dd
        if c0 & 16:
            c ^= 0x2a1462b3
    return c


def hrp_expand(hrp):
    return [ord(c) >> 5 for c in hrp] + [0] + [ord(c) & 31 for c in hrp]


def bech32_parts(s):
    """(prefix, 5-bit values without checksum) of a valid bech32 text, else None."""
    if not all([33 <= ord(c) and ord(c) <= 126 for c in s]):
        return None
    low = s.lower()
    if s != low and s != s.upper():
        return None
    if len(s) > 90:
        return None
    pos = low.rfind('1')
    if pos < 1 or len(s) - pos - 1 < 6:
        return None
    tail = low[pos + 1:]
    if not all([c in BECH_DIGIT for c in tail]):
        return None
    digits = [BECH_DIGIT[c] for c in tail]
    if not sum_ok(low[:pos], digits):
        return None
    return (low[:pos], digits[:-6])


def regroup(data):
    """The bytes spelled by 5-bit values when the rest is less than 5 zero bits, else None."""
    v = 0
    for d in data:
        v = v << 5 | d
    n = len(data) * 5
    rest = n % 8
    if rest >= 5 or v & ((1 << rest) - 1) != 0:
        return None
    return list((v >> rest).to_bytes(n // 8, 'big'))


def segwit_parts(s):
    """(witness version, program) of a valid segwit address, else None."""
    p = bech32_parts(s)
    if p is None or p[0] not in ('bc', 'tb', 'bcrt') or len(p[1]) == 0 or p[1][0] > 16:
        return None
    prog = regroup(p[1][1:])
    if prog is None or len(prog) < 2 or len(prog) > 40:
        return None
    if p[1][0] == 0 and len(prog) != 20 and len(prog) != 32:
        return None
    return (p[1][0], prog)


def spread(prog):
    """5-bit values of a byte string, padded with zero bits."""
    n = (len(prog) * 8 + 4) // 5
    v = int.from_bytes(bytes(prog), 'big') << (n * 5 - len(prog) * 8)
    return [(v >> (5 * (n - 1 - i))) & 31 for i in range(n)]


def check_digits(hrp, data):
    c = polymod(hrp_expand(hrp) + data + [0, 0, 0, 0, 0, 0]) ^ 1
    return [(c >> (5 * (5 - i))) & 31 for i in range(6)]


def sum_ok(hrp, data):
    return polymod(hrp_expand(hrp) + data) == 1


def bech32_text(hrp, data):
    return hrp + '1' + ''.join([BECH[d] for d in data + check_digits(hrp, data)])


def b58check_payload(s):
    """Payload of a Base58Check text with a right checksum, else None."""
    if not all([c in B58_DIGIT for c in s]):
        return None
    z = len(s) - len(s.lstrip('1'))
    raw = bytes(z) + minimal_be(b58_value(s))
    if raw[-4:] != dsha256(raw[:-4])[:4]:
        return None
    return raw[:-4]


def address_parts(s):
    """(network, output script) of a valid address, else None."""
    p = b58check_payload(s)
    if p is not None:
        if len(p) != 21:
            return None
        if p[:1] == b'\x00' or p[:1] == b'\x6f':
            return ('main' if p[:1] == b'\x00' else 'test', b'\x76\xa9\x14' + p[1:] + b'\x88\xac')
        if p[:1] == b'\x05' or p[:1] == b'\xc4':
            return ('main' if p[:1] == b'\x05' else 'test', b'\xa9\x14' + p[1:] + b'\x87')
        return None
    w = segwit_parts(s)
    if w is None:
        return None
    hrp = bech32_parts(s)[0]
    return ('main' if hrp == 'bc' else 'test', bytes([0 if w[0] == 0 else 0x50 + w[0], len(w[1])]) + bytes(w[1]))
