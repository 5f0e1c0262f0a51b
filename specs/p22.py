"""Key generation."""
import contextlib
import io
import multiprocessing
import time
from pydv.api import harness, check, assume, outcome, raises, same
from pydv.domains import *
from specs import ref, ec, scene
import bit.keygen as keygen
import bit.wallet as wallet
import bit.format as fmt
from bit import wif_to_key

B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def consistent(wif, address):
    k = wif_to_key(wif)
    check(k.address == address, 'importing the shown key gives the shown address')
    check(k.version == 'main', 'a main-network key')


@harness('P22', n=Int(0, 3), sympatch=ec.sympatch, uses=['b58encode_check', 'b58decode_check'])
def plain_pair(n):
    wif, address = keygen.generate_key_address_pair() if n else keygen.generate_matching_address('')
    consistent(wif, address)


class Flag:
    def __init__(self):
        self.on = False

    def is_set(self):
        return self.on

    def set(self):
        self.on = True


class Lock:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Count:
    def __init__(self):
        self.value = 0

    def get_lock(self):
        return Lock()


class Line:
    def __init__(self):
        self.items = []

    def put(self, x, *a):
        self.items.append(x)

    def put_nowait(self, x):
        self.items.append(x)

    def get(self, *a):
        return self.items.pop(0)


def short_prefix(rng):
    return '1' + (rng.choice(B58) if rng.random() < 0.6 else '')


@harness('P22', prefix=Gen(short_prefix), symbolic=False, bounded='generated prefixes of up to two characters')
def worker(prefix):
    queue, match, count = Line(), Flag(), Count()
    assume(prefix[1:] < 'S')             # a second character that occurs often
    keygen.generate_key_address_pairs(prefix, count, match, queue)
    check(match.is_set() and len(queue.items) == 1, 'one pair is delivered')
    secret, address = queue.items[0]
    check(address.startswith(prefix), 'the requested prefix is matched')
    k = wallet.PrivateKey.from_bytes(secret)
    check(k.address == address, 'the secret controls the address')


class Soon(Flag):
    """Set by another worker after so many looks."""

    def __init__(self, looks):
        self.on, self.looks = False, looks

    def is_set(self):
        self.looks -= 1
        return self.on or self.looks < 0


@harness('P22', prefix=Gen(short_prefix, Text().sym), tries=Choice(0, 1, 2), sympatch=ec.sympatch, uses=['b58encode_check', 'b58decode_check'],
         bounded='the first two attempts of a worker (every attempt is alike); any prefix, any secrets')
def worker_any(prefix, tries):
    queue, match, count = Line(), Soon(tries), Count()
    keygen.generate_key_address_pairs(prefix, count, match, queue)
    check(len(queue.items) == (1 if match.on else 0) and count.value <= tries, 'a pair is delivered exactly when the match is announced')
    if match.on:
        secret, address = queue.items[0]
        check(address.startswith(prefix), 'the requested prefix is matched')
        k = wif_to_key(fmt.bytes_to_wif(secret, compressed=True))
        check(k.address == address, 'the secret controls the address')


def wished(rng):
    r = rng.random()
    if r < 0.5:
        return rng.choice(('1', 'A', '1A', '2', 'Q', '1B'))
    s = ''.join(rng.choice(B58) for _ in range(rng.randrange(4)))
    i = rng.randrange(len(s) + 1)
    return s[:i] + rng.choice('0OIl _-+/\u00e9\n') + s[i:]


class Job:
    """Runs the worker in place of a process."""

    def __init__(self, target=None, args=(), kwargs=None, **kw):
        self.target, self.args = target, args
        self.kwargs = kwargs or {}

    def start(self):
        self.target(*self.args, **self.kwargs)

    def join(self, *a):
        pass

    def terminate(self):
        pass


def no_sleep(s):
    pass


def local_processes():
    out = [(time, 'sleep', no_sleep)]
    for name, stub in (('Process', Job), ('Event', Flag), ('Queue', Line), ('Value', lambda *a: Count())):
        out.append((multiprocessing, name, stub))
        if name in vars(keygen):
            out.append((keygen, name, stub))
    if 'sleep' in vars(keygen):
        out.append((keygen, 'sleep', no_sleep))
    return out


def command_line(prefix, cores):
    from bit import cli
    return cli.gen.callback(prefix, str(cores))


@harness('P22', prefix=Gen(wished), cores=Choice('all', 1, 2, 0, -3, 10 ** 6, '2'), shell=Choice(False, False, True), natpatch=local_processes, symbolic=False, secs=6,
         bounded='generated prefixes of up to two characters; worker processes run in place')
def matching(prefix, cores, shell):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = outcome(command_line if shell else keygen.generate_matching_address, prefix, cores)
    if any([c not in B58 for c in prefix]):
        check(r == ('raises', ValueError), 'characters outside the alphabet are refused')
        return
    check(r[0] == 'ok', 'a pair is found')
    shown = out.getvalue()
    words = shown.replace(':', ' ').split()
    wif = [w for w in words if len(w) in (51, 52) and w[0] in 'KL5']
    check(len(wif) == 1, 'one key is shown')
    k = wif_to_key(wif[0])
    want = prefix if prefix.startswith('1') else '1' + prefix
    check(k.address in words, 'the shown key controls the shown address')
    check(k.address.startswith(want), 'the requested prefix is matched')


@harness('P22', prefix=Text())
def bad_prefix(prefix):
    assume(any([c not in B58 for c in prefix]))
    check(raises(ValueError, keygen.generate_matching_address, prefix), 'characters outside the alphabet are refused')
