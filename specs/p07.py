"""Transaction wire format."""
from pydv.api import harness, check, assume, outcome, raises, same
from pydv.domains import *
from specs import ref
import bit.transaction as tx

C = ['varint', 'read_varint']
ITEMS = Lst(Bytes(gen_hi=80), gen_hi=4)
LEGACY = Tup(Bytes(32), Bytes(4), Bytes(), Bytes(4))
SEGWIT = Tup(Bytes(32), Bytes(4), Bytes(), Bytes(4), ITEMS)
OUTPUT = Tup(Bytes(8), Bytes())


def build(version, ins, outs, lock):
    return tx.TxObj(version, ins, [tx.TxOut(o[0], o[1]) for o in outs], lock)


def legacy_in(x):
    return tx.TxIn(x[2], x[0], x[1], sequence=x[3])


def segwit_in(x):
    return tx.TxIn(x[2], x[0], x[1], sequence=x[3], witness=ref.wire_stack(x[4]))


@harness('P07', version=Bytes(4), ins=Lst(LEGACY), outs=Lst(OUTPUT), lock=Bytes(4), uses=C)
def legacy_bytes(version, ins, outs, lock):
    t = build(version, [legacy_in(x) for x in ins], outs, lock)
    w = ref.wire_legacy(version, ins, outs, lock)
    check(bytes(t) == w, 'wire format without witness')
    check(t.legacy_repr() == w, 'serialization without witness data')
    check(t.to_hex() == w.hex(), 'hex form')


@harness('P07', version=Bytes(4), ins=Lst(LEGACY), outs=Lst(OUTPUT), lock=Bytes(4), hexed=Bool(), uses=C)
def legacy_parse(version, ins, outs, lock, hexed):
    if not ins:
        ins = []
        assume(len(outs) != 1)      # no input and one output: BIP144 reads these bytes as marker and flag
    if not outs:
        outs = []
    w = ref.wire_legacy(version, ins, outs, lock)
    t = tx.deserialize(w.hex() if hexed else w)
    check(t.version == version and t.locktime == lock, 'version and lock time')
    check(len(t.TxIn) == len(ins) and len(t.TxOut) == len(outs), 'counts')
    check([(i.txid, i.txindex, i.script_sig, i.sequence) for i in t.TxIn] == [(x[0], x[1], x[2], x[3]) for x in ins], 'inputs')
    check([i.script_sig_len for i in t.TxIn] == [ref.compact_size(len(x[2])) for x in ins], 'script lengths')
    check(all([not i.witness for i in t.TxIn]), 'no witness')
    check([(o.amount, o.script_pubkey) for o in t.TxOut] == [(o[0], o[1]) for o in outs], 'outputs')
    check(bytes(t) == w, 'serializes to the same bytes again')


@harness('P07', version=Bytes(4), ins=Lst(SEGWIT, lo=1), outs=Lst(OUTPUT), lock=Bytes(4), uses=C)
def segwit_bytes(version, ins, outs, lock):
    t = build(version, [segwit_in(x) for x in ins], outs, lock)
    check(bytes(t) == ref.wire_segwit(version, ins, outs, lock), 'wire format with witness')
    check(t.legacy_repr() == ref.wire_legacy(version, ins, outs, lock), 'serialization without witness data')


@harness('P07', version=Bytes(4), ins=Lst(SEGWIT, lo=1), outs=Lst(OUTPUT), lock=Bytes(4), hexed=Bool(), uses=C)
def segwit_parse(version, ins, outs, lock, hexed):
    w = ref.wire_segwit(version, ins, outs, lock)
    t = tx.deserialize(w.hex() if hexed else w)
    check(t.version == version and t.locktime == lock, 'version and lock time')
    check(len(t.TxIn) == len(ins) and len(t.TxOut) == len(outs), 'counts')
    check([(i.txid, i.txindex, i.script_sig, i.sequence) for i in t.TxIn] == [(x[0], x[1], x[2], x[3]) for x in ins], 'inputs')
    check([i.witness for i in t.TxIn] == [ref.wire_stack(x[4]) for x in ins], 'witness stacks')
    check([(o.amount, o.script_pubkey) for o in t.TxOut] == [(o[0], o[1]) for o in outs], 'outputs')
    check(bytes(t) == w, 'serializes to the same bytes again')


@harness('P07', version=Bytes(4), ins=Lst(Tup(Bytes(32), Bytes(4), Bytes(), Bytes(4), ITEMS, Bool()), lo=1), outs=Lst(OUTPUT), lock=Bytes(4), uses=C)
def mixed_bytes(version, ins, outs, lock):
    """Inputs without witness inside a segwit transaction get an empty stack."""
    t = build(version, [segwit_in(x) if x[5] else legacy_in(x) for x in ins], outs, lock)
    if any([x[5] for x in ins]):
        w = ref.wire_segwit(version, [(x[0], x[1], x[2], x[3], x[4] if x[5] else []) for x in ins], outs, lock)
    else:
        w = ref.wire_legacy(version, ins, outs, lock)
    check(bytes(t) == w, 'marker, flag and one stack per input exactly when some input has a witness')


@harness('P07', version=Bytes(4), ins=Lst(SEGWIT, lo=1), outs=Lst(OUTPUT), lock=Bytes(4), seg=Bool(), uses=C)
def txid(version, ins, outs, lock, seg):
    w = ref.wire_legacy(version, ins, outs, lock)
    full = ref.wire_segwit(version, ins, outs, lock) if seg else w
    check(tx.calc_txid(full.hex()) == ref.dsha256(w)[::-1].hex(), 'transaction id')
    check(tx.TxObj.is_segwit(full) == seg and tx.TxObj.is_segwit(full.hex()) == seg, 'segwit detection')
