#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe_at=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d['anchors']['state'] = state
    if observe_at: d['anchors']['observe_at'] = observe_at
    P.append(d)

p('P01', 'Base58Check encoding is exact, lossless and rejects bad checksums',
  'Encoding a byte string in Base58 yields one leading "1" per leading zero byte followed by the base-58 digits of its big-endian value, and decoding a non-trivial encoding gives back the original bytes. Base58Check appends the first four bytes of the double SHA-256 of the payload; decoding returns the payload exactly when the last four decoded bytes are that checksum of the rest and otherwise raises ValueError, as does any character outside the alphabet.',
  ['inputs'], 'all byte strings (with at least one non-zero byte for the lossless part) and all character strings, of any length',
  'The guarantee is over an infinite set of byte strings and strings; tests compare a handful of vectors and never exercise leading zeros, length or digit boundaries in combination.',
  ['bit/base58.py', 'bit/utils.py', 'bit/crypto.py'],
  [('b58encode/b58decode', 'bit/base58.py'), ('b58encode_check/b58decode_check', 'bit/base58.py'), ('int_to_unknown_bytes', 'bit/utils.py'), ('double_sha256_checksum', 'bit/crypto.py')])

p('P02', 'Bech32 segwit addresses follow BIP-173 in both directions',
  'Decoding accepts a string exactly when BIP-173 says it is a valid segwit address for the prefixes bc, tb or bcrt (single case, printable, at most 90 characters, valid checksum, zero padding, witness version 0 to 16, program of 2 to 40 bytes and 20 or 32 bytes for version 0) and then returns its version and program. Encoding a valid version and program gives the lower-case address that decodes back to exactly them, and gives no address for an invalid one; the checksum is the BIP-173 BCH code.',
  ['inputs'], 'all strings of any length, all witness versions, all witness programs',
  'A checksum, padding, case or length rule that is wrong for one class of strings passes every fixed vector; acceptance must be right for every one of the 128^90 candidate strings.',
  ['bit/base32.py', 'bit/constants.py'],
  [('bech32_polymod/hrp_expand/create/verify', 'bit/base32.py'), ('bech32_encode/bech32_decode', 'bit/base32.py'), ('convertbits', 'bit/base32.py'), ('encode/decode', 'bit/base32.py')])

p('P03', 'Private keys survive Wallet Import Format unchanged',
  'Exporting any 32-byte private key to Wallet Import Format and importing it again returns the same 32 bytes, the same compression flag and the same network, whatever those bytes are. Strings whose checksum or network byte is wrong are rejected with ValueError, and the validity predicate answers True exactly for strings with a correct checksum and a main or test private-key prefix.',
  ['inputs'], 'all 32-byte secrets, both compression flags, both networks, all candidate strings',
  'Confusions such as a secret ending in the compression marker byte occur only for particular secrets that tests do not contain.',
  ['bit/format.py', 'bit/base58.py', 'bit/wallet.py'],
  [('bytes_to_wif', 'bit/format.py'), ('wif_to_bytes', 'bit/format.py'), ('wif_checksum_check', 'bit/format.py'), ('wif_to_key / to_wif', 'bit/wallet.py')])

p('P04', 'Derived addresses and multisig redeem scripts are the standard ones',
  'The address of a 33- or 65-byte public key is Base58Check of the network prefix and HASH160 of the key, its nested-segwit address (33-byte keys only) is Base58Check of the script prefix and HASH160 of the version-0 key-hash program, and other key lengths raise ValueError. An m-of-n redeem script is OP_m, the pushed keys in the given order, OP_n, OP_CHECKMULTISIG, its P2SH and nested-segwit addresses hash exactly that script, and a request with m below 1 or above n, a wrongly sized key or a script above 520 bytes raises ValueError.',
  ['inputs'], 'all public keys, all key lists of any length, all m, both networks',
  'Tests pin a few keys; order, push opcodes, limits and prefixes must be right for every key list, and money sent to a wrong address is lost.',
  ['bit/format.py', 'bit/crypto.py', 'bit/wallet.py'],
  [('public_key_to_address', 'bit/format.py'), ('public_key_to_segwit_address', 'bit/format.py'), ('multisig_to_redeemscript', 'bit/format.py'), ('multisig_to_address', 'bit/format.py'), ('multisig_to_segwit_address', 'bit/format.py'), ('address properties', 'bit/wallet.py')])

p('P05', 'An output script pays exactly its address; other strings are rejected',
  'For every valid Base58 P2PKH or P2SH address and every valid segwit address, the generated output script is the standard script paying that hash or witness program and nothing else, and the address is classified as belonging to the network of its prefix. Every string that is not a valid address of either network (wrong checksum, unknown prefix, payload that is not 20 bytes, invalid witness program) raises ValueError and never yields a script.',
  ['inputs'], 'all strings',
  'The set of near-miss strings (valid checksum but wrong length, valid Bech32 but invalid witness program) is infinite and untested.',
  ['bit/transaction.py', 'bit/format.py', 'bit/base32.py', 'bit/base58.py'],
  [('address_to_scriptpubkey', 'bit/transaction.py'), ('segwit_scriptpubkey', 'bit/format.py'), ('get_version', 'bit/format.py'), ('address_to_public_key_hash', 'bit/format.py')])

p('P06', 'Wire integers, script pushes and hex helpers are canonical and invertible',
  'Every count up to 2^64-1 is encoded as the shortest Bitcoin CompactSize and reading that encoding from the front of any byte stream returns the count and exactly the remaining bytes; length-prefixed strings are read back the same way. A script push of any length uses the minimal Bitcoin push opcode form, integers convert to the fewest bytes holding them, hex and bytes convert both ways without loss, and byte-order reversal of hex is its own inverse.',
  ['inputs'], 'all integers in range, all byte strings, all continuations of the stream',
  'Encodings change form at 75/76, 252/253, 255/256, 65535/65536 and 2^32 boundaries; every value on either side must be right, not the few sampled.',
  ['bit/utils.py'],
  [('int_to_varint/read_var_int', 'bit/utils.py'), ('script_push', 'bit/utils.py'), ('int_to_unknown_bytes', 'bit/utils.py'), ('read_var_string/read_bytes/read_as_int/read_segwit_string', 'bit/utils.py'), ('hex helpers', 'bit/utils.py')])

p('P07', 'Transactions serialize in Bitcoin wire format and parse back identically',
  'For every transaction, with any number of inputs, outputs and witness items (other than none and exactly one output, whose bytes read as the segwit marker and flag), serialization is the standard wire format (segwit marker, flag and one witness stack per input exactly when some input has a witness) and parsing the bytes or their hex yields the same version, inputs, outputs, witnesses and lock time, which serialize to the same bytes again. The transaction id is the reversed double SHA-256 of the serialization without witness data.',
  ['inputs'], 'all transactions: any number and size of inputs, outputs, scripts and witness stacks',
  'Round trips must hold for counts and script lengths on both sides of every size boundary and any mix of segwit and legacy inputs; tests hold a few fixed transactions.',
  ['bit/transaction.py', 'bit/utils.py'],
  [('TxIn/TxOut/TxObj.__bytes__', 'bit/transaction.py'), ('deserialize', 'bit/transaction.py'), ('TxObj.is_segwit', 'bit/transaction.py'), ('calc_txid', 'bit/transaction.py')])

p('P08', 'Coin selection uses only given coins, once each, and covers target plus fee',
  'Whatever the unspents, target, fee and random choices, coin selection returns a selection in which each given unspent appears at most once and no other coin appears. The selected amount equals the target plus the fee (the fee rate times the estimated size of the transaction, or the given absolute fee) plus the reported remainder, which is never negative nor below the requested minimum change; only a change-free match found for a fee rate may instead report a zero remainder, and then the coins cover, at the fee rate, the target, their own size, all outputs but the change and nine bytes of overhead, and exceed that by at most the cost of one further input and output. With consolidation every unspent is used, and when the coins cannot cover the need InsufficientFunds is raised instead of an under-funded selection.',
  ['inputs', 'schedules'], 'all lists of unspents, targets, fee rates, output sizes, modes, and all outcomes of the random choices',
  'The search is randomized and recursive: a wrong sum, a duplicate or an underpaid fee shows only for particular coin sets and random draws.',
  ['bit/transaction.py'],
  [('select_coins', 'bit/transaction.py'), ('branch_and_bound', 'bit/transaction.py'), ('estimate_tx_fee', 'bit/transaction.py')])

p('P09', 'Every requested payment is made in full and change returns to the sender',
  'A prepared transaction pays each requested recipient exactly the requested amount in the requested order, adds at most one change output paying the leftover address, adds no other value-bearing output, and the selected inputs equal the sum of all outputs plus the fee, so value is neither created nor lost. An empty set of unspents raises ValueError.',
  ['inputs', 'schedules'], 'all output lists, amounts, currencies, unspent sets, fee settings and random selections',
  'Conservation must hold for every combination of outputs, fees and selected coins including the no-change edge; tests check a few totals.',
  ['bit/transaction.py', 'bit/wallet.py'],
  [('sanitize_tx_data', 'bit/transaction.py'), ('construct_outputs', 'bit/transaction.py'), ('create_transaction', 'bit/wallet.py')])

p('P10', 'Mainnet and testnet are never mixed',
  'A transaction is never prepared that spends from one network and pays, or returns change, to an address of the other: such a request raises ValueError whatever the position of the offending address. Main-network keys query and broadcast only through main-network services and their addresses carry main-network prefixes, and likewise for testnet.',
  ['inputs', 'configurations'], 'all output lists with addresses of any supported format, both networks, all key and multisig classes',
  'An address format or an output position that escapes the check loses funds; tests try one address per case.',
  ['bit/transaction.py', 'bit/format.py', 'bit/wallet.py', 'bit/network/services.py'],
  [('sanitize_tx_data network check', 'bit/transaction.py'), ('get_version', 'bit/format.py'), ('PrivateKey/PrivateKeyTestnet/MultiSig/MultiSigTestnet network calls', 'bit/wallet.py')])

p('P11', 'Messages are stored whole as standard OP_RETURN outputs after the payments',
  'A message of any length is split into consecutive chunks of at most 80 bytes whose concatenation is the message (UTF-8 encoded text, or the given bytes), each stored in order in its own zero-value output after all payment and change outputs. Each such output script is OP_RETURN followed by one minimal push of exactly the chunk.',
  ['inputs'], 'all messages of any length, text or raw bytes',
  'Chunk boundaries and push encodings go wrong only for particular lengths such as 75/76 or multiples of 80.',
  ['bit/transaction.py', 'bit/utils.py'],
  [('sanitize_tx_data message split', 'bit/transaction.py'), ('chunk_data', 'bit/utils.py'), ('construct_outputs', 'bit/transaction.py')])

p('P12', 'Signed digests are the BIP-143 and legacy SIGHASH_ALL digests',
  'For every transaction and every selection of inputs, the digest handed to the signer for a segwit input is the BIP-143 preimage hash and for any other input the original SIGHASH_ALL preimage hash, computed for that very input, in the requested order. Any other hash type is refused with ValueError.',
  ['inputs'], 'all transactions with any number of inputs and outputs, all input selections and segwit flags',
  'A field omitted or taken from a neighbouring input changes the digest only for multi-input or unusual transactions and makes every resulting signature invalid.',
  ['bit/transaction.py'],
  [('calculate_preimages', 'bit/transaction.py')])

p('P13', 'Signing changes only the unlocking data of owned inputs, and does so correctly',
  'Signing with a single key fills, for every input whose unspent that key can spend, exactly the standard unlocking data (legacy: signature and public key pushes in the script; nested segwit: the program push in the script and signature and key in the witness) with a signature over that input\'s digest. Every other input, and the version, outputs, sequences, outpoints and lock time, come out byte-for-byte unchanged, and the result is a well-formed transaction.',
  ['inputs', 'histories'], 'all transactions mixing owned, foreign, segwit and legacy inputs in any order, signed by any keys in any order',
  'Batching, mixed input kinds and partially signed transactions form a combinatorial space tests barely touch.',
  ['bit/transaction.py', 'bit/wallet.py'],
  [('sign_tx', 'bit/transaction.py'), ('create_new_transaction', 'bit/transaction.py'), ('can_sign_unspent / scriptcode', 'bit/wallet.py')])

p('P14', 'Multisig transactions complete with any m signers in any order',
  'Whichever m of the n key holders sign, and in whatever order, each step keeps the valid signatures already present, and the final input holds a leading empty item, the m valid signatures in redeem-script key order and the redeem script, in a well-formed script (P2SH) or witness stack (nested segwit). A partially signed input holds only valid signatures plus placeholders, and signing an already complete input is refused.',
  ['inputs', 'histories'], 'all key sets, m, signer subsets and signing orders, legacy and segwit',
  'The number of signer orders grows factorially and the placeholder bookkeeping depends on the history of earlier signers.',
  ['bit/transaction.py', 'bit/utils.py', 'bit/wallet.py'],
  [('sign_tx multisig branch', 'bit/transaction.py'), ('get_signatures_from_script', 'bit/utils.py'), ('MultiSig', 'bit/wallet.py')])

p('P15', 'Offline prepare-then-sign equals creating the transaction directly',
  'A payment prepared for an address without the private key is a text document that carries all selected coins and outputs, and signing that document with the key yields the same transaction that direct creation yields from the same coins and outputs. Coin data written to a dictionary and read back is unchanged.',
  ['inputs'], 'all unspents of every type, outputs, fees and options',
  'A field dropped in the hand-over (sequence, size, type, amount) matters only for particular coins and options.',
  ['bit/wallet.py', 'bit/network/meta.py', 'bit/transaction.py'],
  [('prepare_transaction/sign_transaction', 'bit/wallet.py'), ('Unspent.to_dict/from_dict', 'bit/network/meta.py'), ('create_new_transaction', 'bit/transaction.py')])

p('P16', 'Amount conversions between currency units are exact',
  'Converting an amount in satoshi, microbitcoin, millibitcoin or bitcoin to satoshi multiplies by exactly 1, 100, 100 000 or 100 000 000 and truncates to a whole satoshi, converting back rounds down to the unit\'s precision and never shows more than is owned, and amounts representable in the unit round-trip exactly. Fiat conversion uses the current rate in the same way, and the results do not depend on any earlier call into the library.',
  ['inputs', 'histories'], 'all amounts within the 21 million bitcoin supply given as int, str or Decimal, all units, all earlier call histories',
  'Rounding faults show only for particular amounts, and global arithmetic settings changed by an unrelated call only after it ran.',
  ['bit/network/rates.py', 'bit/constants.py', 'bit/utils.py', 'bit/network/services.py'],
  [('currency_to_satoshi', 'bit/network/rates.py'), ('satoshi_to_currency', 'bit/network/rates.py'), ('Decimal', 'bit/utils.py'), ('RPCHost.get_balance', 'bit/network/services.py')])

p('P17', 'Cached rates and fees are never older than the cache time',
  'A cached exchange rate or recommended fee is returned only if it was fetched no longer ago than the configured cache time and otherwise a new value is fetched and remembered, separately for each currency and each fee speed. When the fee service fails the last fetched fee, or the documented default when there was none, is returned and no failed fetch counts as an update.',
  ['histories', 'fault_sequences'], 'all sequences of calls, clock readings, cache-time settings and service successes or failures',
  'Staleness depends on the whole history of calls, times and failures; tests make two calls.',
  ['bit/network/rates.py', 'bit/network/fees.py'],
  [('currency_to_satoshi_local_cache', 'bit/network/rates.py'), ('get_fee_local_cache', 'bit/network/fees.py')],
  state=[dict(name='cached value and fetch time', meaning='last fetched value per currency / fee speed', where='closure variables in bit/network/rates.py and bit/network/fees.py')])

p('P18', 'A query falls over to the next service until one answers',
  'For every pattern of service failures, each query tries the configured services of its network in order, skips those that fail with a connection error, timeout or excess-history error, returns the first answer, and raises ConnectionError only when all fail; broadcasting additionally skips services that reject and succeeds as soon as one accepts. Every web service reports a non-success reply as one of those skippable errors or as its documented empty answer, and connecting to a node replaces the services of that network only.',
  ['fault_sequences', 'configurations'], 'all combinations of service outcomes and reply status codes, both networks, before and after connecting to a node',
  'With five services and several failure kinds there are thousands of patterns; tests cover all-fail only.',
  ['bit/network/services.py', 'bit/network/rates.py'],
  [('NetworkAPI', 'bit/network/services.py'), ('RatesAPI', 'bit/network/rates.py'), ('connect_to_node', 'bit/network/services.py')])

p('P19', 'Every service adapter reports exactly the coins and balance in the reply',
  'For every well-formed reply, an adapter returns one coin per listed unspent output with its exact satoshi value, transaction id, output index, script and confirmation count (0 when unconfirmed), and balances in satoshi, following pages until all items are collected without loss or duplication. Requests carry the queried address or id unchanged to the endpoint of the right network.',
  ['inputs'], 'all well-formed replies: any number of items and pages, any values',
  'Replies vary in page count, confirmation state and amounts; recorded examples cover one shape each and network tests do not run offline.',
  ['bit/network/services.py'],
  [('BlockchairAPI/BlockstreamAPI/BitcoreAPI/BlockchainAPI/SmartbitAPI', 'bit/network/services.py'), ('RPCHost/RPCMethod', 'bit/network/services.py')])

p('P20', 'A wallet balance is the sum of its coins, and coin metadata stays consistent',
  'After refreshing, a key\'s or multisig\'s coins are exactly those the network reports for its legacy address followed by those for its nested-segwit address (if any), each tagged with the type, segwit flag and size estimate of the address it belongs to, and the balance is the sum of their amounts. Coin type changes always keep type, segwit flag and size consistent, and opting in to replace-by-fee lowers a final sequence number to 0xFFFFFFFD and leaves lower ones alone.',
  ['inputs', 'histories'], 'all sets of reported coins, all key kinds, all sequence numbers and repeated refreshes',
  'Stale or duplicated coins appear only after repeated refreshes, and wrong size estimates or flags only for particular key kinds.',
  ['bit/wallet.py', 'bit/network/meta.py', 'bit/transaction.py'],
  [('get_unspents/get_balance', 'bit/wallet.py'), ('Unspent', 'bit/network/meta.py'), ('opt_in_for_RBF', 'bit/network/meta.py')])

p('P21', 'Keys import, export and expand to curve points without loss',
  'A key imported from bytes, hex, integer, DER or PEM of any valid secret holds that secret, reports the public key of that secret, exports the same secret in every format and belongs to the network of its class. The public point of any valid compressed or uncompressed public key lies on secp256k1 with the encoded x and the encoded parity, and encoding the point again gives the same key.',
  ['inputs'], 'all secrets in the group range, all valid public keys in both encodings',
  'Parity selection and fixed-width encoding fail only for particular points, e.g. coordinates with leading zero bytes.',
  ['bit/wallet.py', 'bit/format.py', 'bit/curve.py'],
  [('BaseKey/PrivateKey import and export', 'bit/wallet.py'), ('public_key_to_coords/coords_to_public_key', 'bit/format.py'), ('x_to_y', 'bit/curve.py')])

p('P22', 'A generated key controls the address it is shown with',
  'Every key and address pair produced by the generator, with or without a requested prefix, is consistent: importing the shown private key gives a key whose address is exactly the shown address, and a requested prefix is matched by it. Prefixes containing characters outside the Base58 alphabet are refused with ValueError.',
  ['inputs', 'schedules'], 'all generated secrets, all prefixes, any number of worker processes',
  'The pair is random and excluded from test coverage; an inconsistent export loses every coin sent to the shown address.',
  ['bit/keygen.py', 'bit/format.py', 'bit/cli.py'],
  [('generate_key_address_pair', 'bit/keygen.py'), ('generate_matching_address', 'bit/keygen.py'), ('generate_key_address_pairs', 'bit/keygen.py')])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for d in P:
        assert len(d['title']) <= 80, d['id']
        f.write(json.dumps(d) + '\n')
