"""Messages stored in OP_RETURN outputs, and the outputs of a transaction in general."""
from pydv.api import harness, check, assume, outcome, raises, same
from pydv.domains import *
from specs import ref, scene
import bit.transaction as tx
import bit.utils as utils
from bit.network.meta import Unspent
from specs.p09 import ADDR, COIN, CA


@harness('P11', data=Bytes(gen_hi=400), size=Choice(1, 40, 80), bounded='chunk sizes 1, 40 and 80; any message')
def chunked(data, size):
    got = list(utils.chunk_data(data, size))
    check(b''.join(got) == data, 'the chunks spell the message')
    check(all([1 <= len(c) and len(c) <= size for c in got]), 'no chunk is empty or too long')
    check(len(got) == (len(data) + size - 1) // size, 'as few chunks as possible')


@harness('P11', coins=Lst(COIN, lo=1), outs=Lst(Tup(ADDR, Int(1, 21 * 10 ** 14), Choice('satoshi'))), leftover=ADDR, fee=Int(1, 100),
         version=Choice('main', 'test'), raw=Bytes(lo=1, gen_hi=400), text=Text(lo=1, gen_hi=300), hexed=Bool(), uses=CA)
def messages(coins, outs, leftover, fee, version, raw, text, hexed):
    bare = outcome(tx.sanitize_tx_data, coins, outs, fee, leftover, combine=True, absolute_fee=True, version=version,
                   message=raw if hexed else text, message_is_hex=hexed)
    assume(bare[0] == 'ok')
    got = bare[1][1]
    full = raw if hexed else text.encode('utf-8')
    n = len(got)
    m = (len(full) + 79) // 80
    check(n >= m + len(outs) and n <= m + len(outs) + 1, 'payments, at most one change output, then the messages')
    tail = got[n - m:]
    check(b''.join([x[0] for x in tail]) == full, 'the chunks spell the message')
    check(all([x[1] == 0 and 1 <= len(x[0]) and len(x[0]) <= 80 for x in tail]), 'chunks of at most 80 bytes, without value')
    check(all([x[1] > 0 for x in got[:n - m]]), 'after all payments and change')


@harness(['P09', 'P11'], outs=Lst(Tup(ADDR, Int(1, 21 * 10 ** 14))), msgs=Lst(Bytes(lo=1, hi=80)), hexed=Bool(), uses=CA + ['varint'])
def built_outputs(outs, msgs, hexed):
    want = [ref.address_parts(o[0]) for o in outs]
    assume(all([w is not None for w in want]))
    got = tx.construct_outputs(outs + [(m.hex() if hexed else m, 0) for m in msgs])
    check(len(got) == len(outs) + len(msgs), 'one output each')
    paid = got[:len(outs)]
    check([o.amount for o in paid] == [o[1].to_bytes(8, 'little') for o in outs], 'amounts')
    check([o.script_pubkey for o in paid] == [w[1] for w in want], 'scripts of the addresses')
    stored = got[len(outs):]
    check(all([o.amount == bytes(8) for o in stored]), 'messages carry no value')
    check([o.script_pubkey for o in stored] == [b'\x6a' + ref.push_op(len(m)) + m for m in msgs], 'OP_RETURN and one minimal push')
    check([bytes(o) for o in got] == [o.amount + ref.compact_size(len(o.script_pubkey)) + o.script_pubkey for o in got], 'wire form')


@harness(['P05', 'P09'], s=ADDR, amount=Int(1, 21 * 10 ** 14), uses=CA)
def bad_recipient(s, amount):
    assume(ref.address_parts(s) is None)
    check(raises(ValueError, tx.construct_outputs, [(s, amount)]), 'no output for something that is not an address')
