"""secp256k1 as the library uses it (coincurve), for the verifier: keys, public keys and signatures are functions of their
arguments; natively the real coincurve runs.  Assumptions about coincurve are listed in specs/assume.py."""
import coincurve

N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141


def pub33(secret):
    return coincurve.PrivateKey(secret).public_key.format(True)


def pub65(secret):
    return coincurve.PrivateKey(secret).public_key.format(False)


def signature(secret, data):
    return coincurve.PrivateKey(secret).sign(data)


def verifies(sig, data, pub):
    return coincurve.verify_signature(sig, data, pub)


def some_signature(secret, data):
    """A valid signature (natively coincurve's; for the verifier any)."""
    return coincurve.PrivateKey(secret).sign(data)


def der(secret):
    return coincurve.PrivateKey(secret).to_der()


def undo_der(data):
    return coincurve.PrivateKey.from_der(data).secret


def pem(secret):
    return coincurve.PrivateKey(secret).to_pem()


def undo_pem(data):
    return coincurve.PrivateKey.from_pem(data).secret


def random_secret():
    return coincurve.PrivateKey().secret


def scalar(secret):
    """The 32-byte form of a secret of at most 32 bytes; ValueError unless 0 < secret < group order."""
    v = int.from_bytes(secret, 'big')
    if not 0 < v < N:
        raise ValueError('Secret scalar must be greater than 0 and less than the group order')
    if len(secret) < 32:
        return bytes(32 - len(secret)) + secret
    return secret


class PubKey:
    """Stand-in for coincurve.PublicKey inside the verifier."""

    def __init__(self, secret):
        self._secret = secret

    def format(self, compressed=True):
        return pub33(self._secret) if compressed else pub65(self._secret)

    def verify(self, signature, message):
        return verifies(signature, message, pub33(self._secret))


class Key:
    """Stand-in for coincurve.PrivateKey inside the verifier."""

    def __init__(self, secret=None, context=None):
        self.secret = scalar(secret) if secret is not None else random_secret()
        self.public_key = PubKey(self.secret)

    def sign(self, message):
        return signature(self.secret, message)

    def to_hex(self):
        return self.secret.hex()

    def to_int(self):
        return int.from_bytes(self.secret, 'big')

    def to_der(self):
        return der(self.secret)

    def to_pem(self):
        return pem(self.secret)

    @classmethod
    def from_hex(cls, hexed):
        return cls(bytes.fromhex('0' + hexed if len(hexed) % 2 else hexed))

    @classmethod
    def from_int(cls, num):
        if not 0 < num < N:
            raise ValueError('Secret scalar must be greater than 0 and less than the group order')
        return cls(num.to_bytes(32, 'big'))

    @classmethod
    def from_der(cls, data):
        return cls(undo_der(data))

    @classmethod
    def from_pem(cls, data):
        return cls(undo_pem(data))


def sympatch():
    import bit.wallet as w
    import bit.crypto as c
    import bit.format as f
    import bit.keygen as k
    out = [(m, n, Key) for m in (w, c, k) for n in ('ECPrivateKey',) if n in vars(m)]
    return out
