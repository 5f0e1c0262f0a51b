"""Texts for MANIFEST.json."""
T = ('contract-based deductive verification: pydv translates the current Python source of /repo to verification conditions, callee by '
     'contract, and z3 discharges every obligation')
TECH_DEFAULT = T
W = ' Named bounded parts stand in where a function is out of the verifier\'s reach and are never counted as proved.'
TECH = {
    'P08': T + ', with written loop invariants for branch and bound and the random draw',
    'P13': T + ' (one and two inputs, any contents); longer input lists are a labelled bounded check by execution of the same specification',
    'P14': T + ' (one signing step from any earlier state, two and three key holders); more key holders are a labelled bounded check by execution of the same specification',
    'P22': T + '; the search for a prefix is a labelled bounded check by execution of the same specification',
}
NOTE_DEFAULT = 'Obligations are generated from the current source of /repo and discharged by z3 for all inputs in the stated domain.' + W
NOTE = {
    'P01': 'Every byte string and every text of any length: proved. Bounded: all-zero payloads (their round trip depends on the concrete hash) are executed.',
    'P02': 'Every text, version and program: proved, the checksum as a function equal to a written-out BIP-173 one, GF(32) linearity included.',
    'P03': 'All secrets, flags, networks and all candidate texts: proved over the Base58Check contracts (proved in P01).',
    'P04': 'All keys, all key lists of any length and all m: proved. Bounded: the address properties of a multisig object for three key holders (proved) and up to 16 (executed).',
    'P05': 'All texts: proved over the Base58Check and Bech32 contracts (proved in P01, P02).',
    'P06': 'All integers, byte strings and continuations: proved.',
    'P07': 'All transactions of any shape: proved, serialisation against a written-out wire format, parsing as its inverse.',
    'P08': 'Proved for any number of coins, any targets, fees, sizes and random choices, in every mode; the loops of branch and bound and of the random draw by written invariants (specs/invariants.py). Fractional coin sizes (multisig) and wallets of a thousand coins are also executed.',
    'P09': 'sanitize_tx_data and construct_outputs: proved for any coins, outputs, messages and options over the contract of select_coins (see P08). Bounded: create_transaction end to end is executed. send() is proved to broadcast what create_transaction makes.',
    'P10': 'Network checks, node switch, pushes: proved. Bounded: multisig coins with four key holders (proved), spending end to end (executed).',
    'P11': 'Messages of any length, text or bytes: proved. Bounded: chunk_data for the sizes 1, 40 and 80 (any data; 80 is the size used).',
    'P12': 'All transactions, any number of inputs and outputs, any selection of inputs: proved against written-out BIP-143 and legacy preimages.',
    'P13': 'Proved for transactions with one and two inputs (any contents, any number of outputs), both labelled bounded. Longer input lists (up to 300), drafts and repeated signing are executed.',
    'P14': 'One signing step from any earlier state is proved for two and three key holders (labelled bounded); histories of up to 15 key holders are executed.',
    'P15': 'Proved for any coins, outputs, messages and options with the selection and signing as deterministic functions (contracts). Bounded: whole runs are executed.',
    'P16': 'All amounts as int, text or Decimal, all units, fiat rates as any positive decimal: proved. Amounts as floats are executed.',
    'P17': 'One call from any cache state, clock and service outcome is proved, for fees and rates, hence every history by induction; whole histories are executed.',
    'P18': 'Failover for any list of services and outcomes: proved. Bounded: calling order for three services; adapter failures in the first three requests.',
    'P19': 'Balances, histories, pushes and single coins for replies of any contents: proved; coin lists up to 999 items per reply (Bitcore 99) proved, labelled bounded. Longer paging is executed. Replies of a node over RPC with any number of coins: proved.',
    'P20': 'Any coins, any earlier state: proved for single keys; multisig with three and four key holders labelled bounded.',
    'P21': 'All secrets and points: proved over the stated coincurve behaviour.',
    'P22': 'Plain pairs for all secrets and refusal of bad prefixes: proved. Bounded: the first two attempts of a worker are proved (any prefix and secrets), the whole search and the process pool executed with generated prefixes.',
}
NA = {}
NOTES = 'See DESIGN.md. No hooks in /repo: the source is read, not instrumented; 13 fix: commits are listed in KNOWN_FINDINGS.txt.'
