"""Whole-wallet scenarios, executed natively: keys, coins, outputs, options; and an independent reader for the result."""
from specs import ref, ec
from bit.network.meta import Unspent
import bit.wallet as wallet
import bit.network.services as services

ALL = b'\x01\x00\x00\x00'


def secret(rng):
    r = rng.random()
    if r < 0.1:
        return (rng.choice((1, 2, 255, 256, ec.N - 1, ec.N - 2))).to_bytes(32, 'big')
    if r < 0.2:
        return bytes(rng.randrange(1, 31)).ljust(31, b'\x01') + bytes([rng.randrange(1, 256)])
    return b'\x01' + bytes(rng.randrange(256) for _ in range(31)) if r < 0.3 else rng.randrange(1, ec.N).to_bytes(32, 'big')


def b58check(payload):
    raw = payload + ref.dsha256(payload)[:4]
    z = len(raw) - len(raw.lstrip(b'\x00'))
    return '1' * z + ref.b58_digits(int.from_bytes(raw, 'big'))


def some_address(rng, net):
    """(address, script) of a random recipient."""
    r = rng.randrange(4)
    h = bytes(rng.randrange(256) for _ in range(20))
    if r == 0:
        return b58check((b'\x00' if net == 'main' else b'\x6f') + h), b'\x76\xa9\x14' + h + b'\x88\xac'
    if r == 1:
        return b58check((b'\x05' if net == 'main' else b'\xc4') + h), b'\xa9\x14' + h + b'\x87'
    ver = rng.choice((0, 0, 1, 16))
    n = rng.choice((20, 32)) if ver == 0 else rng.choice((2, 20, 32, 40))
    p = bytes(rng.randrange(256) for _ in range(n))
    hrp = 'bc' if net == 'main' else rng.choice(('tb', 'bcrt'))
    s = ref.bech32_text(hrp, [ver] + ref.spread(list(p)))
    if rng.random() < 0.2:
        s = s.upper()
    return s, bytes([ver + 0x50 if ver else 0, n]) + p


def key_scripts(pub):
    """legacy script, nested segwit script or None"""
    h = ref.hash160(pub)
    legacy = b'\x76\xa9\x14' + h + b'\x88\xac'
    return legacy, b'\xa9\x14' + ref.hash160(b'\x00\x14' + h) + b'\x87' if len(pub) == 33 else None


def txid_text(rng):
    return bytes(rng.randrange(256) for _ in range(32)).hex()


def wallet_key(net, sec, comp):
    cls = wallet.PrivateKey if net == 'main' else wallet.PrivateKeyTestnet
    return cls.from_bytes(sec) if comp else cls(b58check((b'\x80' if net == 'main' else b'\xef') + sec))


def coin_data(rng, n, comp, foreign=0.0, big=False):
    """[(amount, txid, txindex, kind)] kind: legacy, segwit or foreign"""
    out = []
    for _ in range(n):
        kind = 'legacy' if not comp or rng.random() < 0.5 else 'segwit'
        if rng.random() < foreign:
            kind = 'foreign'
        a = rng.choice((10 ** 5, 10 ** 6, rng.randrange(10 ** 4, 10 ** 9), rng.randrange(10 ** 9, 10 ** 14)))
        out.append((a, txid_text(rng), rng.choice((0, 1, 255, 256, 65536, 2 ** 32 - 1)), kind))
    return out


def make_coins(data, pub, sequences=None):
    legacy, seg = key_scripts(pub)
    out = []
    for i, (a, t, ix, kind) in enumerate(data):
        if kind == 'legacy':
            u = Unspent(a, 3, legacy.hex(), t, ix, 'p2pkh' if len(pub) == 33 else 'p2pkh-uncompressed')
        elif kind == 'segwit':
            u = Unspent(a, 3, seg.hex(), t, ix, 'np2wkh')
        else:
            u = Unspent(a, 3, (b'\x76\xa9\x14' + ref.hash160(t.encode()) + b'\x88\xac').hex(), t, ix, 'p2pkh')
        if sequences:
            u.sequence = sequences[i]
        out.append(u)
    return out


class Reader:
    def __init__(self, data):
        self.data, self.pos = data, 0

    def take(self, n):
        if self.pos + n > len(self.data):
            raise ValueError('short')
        self.pos += n
        return self.data[self.pos - n:self.pos]

    def num(self):
        b = self.take(1)[0]
        if b < 0xfd:
            return b
        v = int.from_bytes(self.take({0xfd: 2, 0xfe: 4, 0xff: 8}[b]), 'little')
        if v < {0xfd: 0xfd, 0xfe: 0x10000, 0xff: 0x100000000}[b]:
            raise ValueError('not minimal')
        return v

    def text(self):
        return self.take(self.num())


def read_tx(data):
    """(version, ins, outs, lock, segwit); ins: (txid+index, script, sequence, items), outs: (amount, script).  Strict."""
    r = Reader(data)
    version = r.take(4)
    seg = data[4:6] == b'\x00\x01'
    if seg:
        r.take(2)
    ins = [[r.take(36), r.text(), r.take(4), []] for _ in range(r.num())]
    outs = [(int.from_bytes(r.take(8), 'little'), r.text()) for _ in range(r.num())]
    if seg:
        for i in ins:
            i[3] = [r.text() for _ in range(r.num())]
        if not any(i[3] for i in ins):
            raise ValueError('superfluous witness')
    lock = r.take(4)
    if r.pos != len(data):
        raise ValueError('trailing bytes')
    return version, ins, outs, lock, seg


def read_script(s):
    """Items pushed by a script of pushes only (minimal pushes)."""
    r = Reader(s)
    out = []
    while r.pos < len(s):
        op = r.take(1)[0]
        if op == 0:
            out.append(b'')
        elif op <= 75:
            out.append(r.take(op))
        elif op == 76:
            n = r.take(1)[0]
            if n <= 75:
                raise ValueError('not minimal')
            out.append(r.take(n))
        elif op == 77:
            n = int.from_bytes(r.take(2), 'little')
            if n <= 255:
                raise ValueError('not minimal')
            out.append(r.take(n))
        else:
            raise ValueError('not a push')
    return out


def digest(tx, i, code, amount=None):
    """Double-SHA256 preimage hashed once (coincurve hashes it again)."""
    version, ins, outs, lock, _ = tx
    wire = b''.join(a.to_bytes(8, 'little') + ref.compact_size(len(s)) + s for a, s in outs)
    if amount is not None:
        pre = (version + ref.dsha256(b''.join(x[0] for x in ins)) + ref.dsha256(b''.join(x[2] for x in ins)) + ins[i][0] +
               ref.compact_size(len(code)) + code + amount.to_bytes(8, 'little') + ins[i][2] + ref.dsha256(wire) + lock + ALL)
    else:
        pre = version + ref.compact_size(len(ins))
        for j, x in enumerate(ins):
            pre += x[0] + (ref.compact_size(len(code)) + code if j == i else b'\x00') + x[2]
        pre += ref.compact_size(len(outs)) + wire + lock + ALL
    return ref.sha256(pre)


def outpoint(u):
    return bytes.fromhex(u[1])[::-1] + u[2].to_bytes(4, 'little')


def spends_ok(tx, i, pub, kind, amount):
    """Is input i of tx correctly unlocked by the key for a coin of this kind?"""
    script, items = tx[1][i][1], tx[1][i][3]
    h = ref.hash160(pub)
    code = b'\x76\xa9\x14' + h + b'\x88\xac'
    if kind == 'legacy':
        got = read_script(script)
        if items or len(got) != 2:
            return False
        d = digest(tx, i, code)
    else:
        if script != b'\x16\x00\x14' + h:
            return False
        got = items
        d = digest(tx, i, code, amount)
    return len(got) == 2 and got[1] == pub and got[0][-1:] == b'\x01' and ec.verifies(got[0][:-1], d, pub)


class NoNetwork:
    """Fails loudly if a scenario touches the network."""

    def __getattr__(self, name):
        raise AssertionError('network used: ' + name)


# ---- parts of the contract of transaction preparation ------------------------------------------

def in_satoshi(outs):
    return all([o[2] == 'satoshi' for o in outs])


def all_addresses(outs, leftover):
    return all([ref.address_parts(o[0]) is not None for o in outs]) and ref.address_parts(leftover) is not None


def bare_outputs(outs):
    return [(o[0], o[1]) for o in outs]


def used_coins(coins, rbf):
    return [coin_like(u, rbf) for u in coins]


def coin_like(u, rbf):
    v = Unspent(u.amount, u.confirmations, u.script, u.txid, u.txindex, u.type, u.vsize, sequence=u.sequence)
    if rbf:
        v.sequence = min(u.sequence, 0xFFFFFFFD)
    return v


def joined(a, b):
    return a + b


def message_outputs(message, hexed):
    m = message if hexed else message.encode('utf-8')
    return [(m[i:i + 80], 0) for i in range(0, len(m), 80)]
