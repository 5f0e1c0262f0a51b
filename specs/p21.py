"""Key import and export, and curve points."""
from pydv.api import harness, check, assume, outcome, raises, same
from pydv.domains import *
from specs import ref, ec, scene
import bit.wallet as wallet
import bit.format as fmt
import bit.curve as curve
from bit import wif_to_key

P = 2 ** 256 - 2 ** 32 - 977
NET = Choice('main', 'test')


def cls_of(net):
    return wallet.PrivateKey if net == 'main' else wallet.PrivateKeyTestnet


SECRET = Gen(scene.secret, Bytes(32).sym)


def good(secret):
    v = int.from_bytes(secret, 'big')
    assume(0 < v and v < ec.N)
    return v


def holds(k, secret, net, comp):
    check(type(k) is cls_of(net) and k.version == net, 'a key of the network of its class')
    check(k.to_bytes() == secret and k.to_hex() == secret.hex() and k.to_int() == int.from_bytes(secret, 'big'), 'the same secret in every format')
    check(k.public_key == (ec.pub33(secret) if comp else ec.pub65(secret)) and k.pub_to_hex() == k.public_key.hex(), 'the public key of the secret')
    check(k.is_compressed() == comp, 'compression as imported')


@harness('P21', secret=SECRET, net=NET, how=Int(0, 2), upper=Bool(), sympatch=ec.sympatch)
def import_export(secret, net, how, upper):
    v = good(secret)
    c = cls_of(net)
    if how == 0:
        k = c.from_bytes(secret)
    elif how == 1:
        k = c.from_hex(secret.hex().upper() if upper else secret.hex())
    else:
        k = c.from_int(v)
    holds(k, secret, net, True)


@harness('P21', secret=SECRET, net=NET, sympatch=ec.sympatch)
def der_pem(secret, net):
    good(secret)
    c = cls_of(net)
    k = c.from_bytes(secret)
    holds(c.from_der(k.to_der()), secret, net, True)
    holds(c.from_pem(k.to_pem()), secret, net, True)
    check(k.to_der() == ec.der(secret) and k.to_pem() == ec.pem(secret), 'exports are those of the secret')


@harness('P21', secret=SECRET, net=NET, comp=Bool(), other=NET, sympatch=ec.sympatch, uses=['b58encode_check', 'b58decode_check'])
def wif_keys(secret, net, comp, other):
    good(secret)
    text = fmt.bytes_to_wif(secret, net, comp)
    k = wif_to_key(text)
    holds(k, secret, net, comp)
    check(k.to_wif() == text, 'the same Wallet Import Format')
    m = cls_of(other)(text)
    holds(m, secret, other, comp)
    check(m == k, 'keys with the same secret are equal')


@harness('P21', a=SECRET, b=SECRET, net=NET, sympatch=ec.sympatch)
def key_equality(a, b, net):
    good(a)
    good(b)
    c = cls_of(net)
    check((c.from_bytes(a) == c.from_bytes(b)) == (a == b), 'keys are equal exactly when their secrets are')


@harness('P21', v=OneOf(Choice(0, -1, ec.N, ec.N + 1, 2 ** 256), Int(-3, 2 ** 257)), net=NET, sympatch=ec.sympatch)
def bad_integers(v, net):
    r = outcome(cls_of(net).from_int, v)
    check((r[0] == 'ok') == (0 < v and v < ec.N), 'exactly the integers of the group are keys')


def point_of(rng):
    pub = ec.pub65(scene.secret(rng))
    return (int.from_bytes(pub[1:33], 'big'), int.from_bytes(pub[33:], 'big'))


def point_sym(name):
    return Tup(Int(0, P - 1), Int(1, P - 1)).sym(name)


@harness('P21', p=Gen(point_of, point_sym), comp=Bool())
def points(p, comp):
    x, y = p
    # Number theory: P is a prime of the form 4k + 3, so for a point of the curve y is one of the two square roots
    # that exponentiation by (P + 1) / 4 gives.
    r = pow(x * x * x + 7, (P + 1) // 4, P)
    assume(r == y or r == P - y)
    if comp:
        pub = (b'\x03' if y % 2 else b'\x02') + x.to_bytes(32, 'big')
    else:
        pub = b'\x04' + x.to_bytes(32, 'big') + y.to_bytes(32, 'big')
    got = fmt.public_key_to_coords(pub)
    check(got[0] == x and got[1] == y, 'the point has the encoded x and parity and lies on the curve')
    check(fmt.coords_to_public_key(x, y, comp) == pub, 'encoding the point again gives the same key')
    check(fmt.point_to_public_key(curve.Point(x, y), comp) == pub, 'also from a point')


@harness('P21', secret=SECRET, net=NET, comp=Bool(), symbolic=False, bounded='generated keys')
def key_points(secret, net, comp):
    good(secret)
    k = scene.wallet_key(net, secret, comp)
    p = k.public_point
    check(0 <= p.x and p.x < P and 0 <= p.y and p.y < P and (p.y * p.y - p.x ** 3 - 7) % P == 0, 'a point of the curve')
    full = ec.pub65(secret)
    check(b'\x04' + p.x.to_bytes(32, 'big') + p.y.to_bytes(32, 'big') == full, 'the public point of the secret')
    check(fmt.point_to_public_key(p, comp) == k.public_key, 'encoding the point again gives the same key')
    check(k.public_point == p, 'the same when asked again')
    sig = k.sign(secret)
    check(k.verify(sig, secret) and not k.verify(sig, secret + b'x'), 'signatures verify for the signed data')


@harness('P21', n=Choice(0, 1, 32, 34, 64, 66), data=Bytes(66))
def bad_lengths(n, data):
    check(raises(ValueError, fmt.public_key_to_coords, data[:n]), 'other lengths are refused')
