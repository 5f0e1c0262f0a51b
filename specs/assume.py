"""Assumptions recorded in the evidence: what is taken for granted and not checked by any obligation."""
COMMON = [
    'Python integers are mathematical integers; no byte string or list is longer than 2**63-1 (CPython limit)',
    'values have the documented types (no monkey-patching of built-ins, no other thread)',
    'MemoryError, RecursionError and KeyboardInterrupt are not modelled (wallets of a thousand coins are executed)',
    'partial correctness: termination is not proved (only observed in the executed runs)',
]
HASH = ('SHA-256, double SHA-256, RIPEMD-160 and HASH160 are functions from byte strings to byte strings of their length (nothing else '
        'is assumed of them; no collision freedom)')
CURVE = ('coincurve: the public key, the serialised point and the DER signature are functions of their arguments; signatures are '
         'deterministic (RFC 6979), 8 to 72 bytes and start with 0x30; verification accepts exactly what sign made for that key and digest')
ONEKEY = 'a signature that verifies for one key and digest does not verify for a different public key'
JSON = ('json.dumps/json.loads: exact round trip of dictionaries, lists, text, integers, booleans and None; floats are reals; '
        'equal documents have equal texts')
RANDOM = ('random: every draw is any value the call can give (proofs hold for all outcomes); after the same random.seed the same calls '
          'give the same draws')
SORT = 'sorted() and shuffle() give a permutation of their argument; sums and counts over a permutation are those of the original'
DISJOINT = 'no text is both a Base58Check string with a valid checksum and a valid Bech32 string of the prefixes bc, tb, bcrt'
DECIMAL = 'decimal arithmetic within the context precision is exact rational arithmetic; str, quantize and normalize follow the standard library'
REAL = 'binary floating point 0.5 and int/float comparisons in estimate_tx_fee are exact (sizes below 2**40)'
HTTP = ('requests: a reply is a status code, a body and the JSON value of the body; raise_for_status raises HTTPError exactly for 400 to '
        '599; requests may raise any of its ConnectionError and Timeout exceptions')
TIME = 'time.time() gives any real number; it is not assumed to be monotonic'
ADDR = 'DER signatures and scripts are compared as byte strings; interpretation by the Bitcoin network is by the cited BIPs, written out in specs/ref.py'
SELECT = 'select_coins has no state of its own besides the random module (assumed; the rest of its contract is proved, see P08)'
PER = {
    'P01': [HASH], 'P02': [], 'P03': [HASH, CURVE], 'P04': [HASH, CURVE],
    'P05': [HASH, DISJOINT], 'P06': [], 'P07': [HASH],
    'P08': [REAL, RANDOM, SORT, 'sizes of coins are whole numbers in the proofs (the quarters of nested multisig coins are executed)'],
    'P09': [SELECT, RANDOM, REAL, DISJOINT, HASH],
    'P10': [SELECT, RANDOM, HASH, DISJOINT, HTTP],
    'P11': [SELECT, RANDOM, HASH],
    'P12': [HASH],
    'P13': [HASH, CURVE, ADDR],
    'P14': [HASH, CURVE, ONEKEY, ADDR],
    'P15': [SELECT, RANDOM, JSON, HASH, CURVE, 'sign_tx has no hidden inputs: it is a function of key, transaction and coins'],
    'P16': [DECIMAL],
    'P17': [TIME],
    'P18': [HTTP],
    'P19': [HTTP, JSON, 'amounts printed by a node as floats are exact up to the total supply of 21 million bitcoin'],
    'P20': [HASH, CURVE],
    'P21': [CURVE, 'p = 2**256 - 2**32 - 977 is prime: a**((p+1)/4) is a square root of every square (checked as the lemma in specs/ec.py)',
            'PEM/DER reading and writing by coincurve are exact inverses'],
    'P22': [HASH, CURVE, 'the secrets drawn by coincurve are any secrets in the group range', 'worker processes run the function they are given'],
}
