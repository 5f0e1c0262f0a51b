"""Digests handed to the signer."""
from pydv.api import harness, check, assume, outcome, raises, same
from pydv.domains import *
from specs import ref
import bit.transaction as tx

ALL = b'\x01\x00\x00\x00'
INPUT = Tup(Bytes(32), Bytes(4), Bytes(), Bytes(8), Bytes(4), Bool())       # txid, index, script code, amount, sequence, segwit
OUTPUT = Tup(Bytes(8), Bytes())

PICK = Gen(lambda rng: rng.randrange(0, 4), Int(0, None).sym)


def bip143(version, ins, outs, lock, i):
    prevouts = ref.dsha256(b''.join([x[0] + x[1] for x in ins]))
    seqs = ref.dsha256(b''.join([x[4] for x in ins]))
    outputs = ref.dsha256(b''.join([ref.wire_out(o) for o in outs]))
    t = ins[i]
    return version + prevouts + seqs + t[0] + t[1] + ref.compact_size(len(t[2])) + t[2] + t[3] + t[4] + outputs + lock + ALL


def legacy(version, ins, outs, lock, i):
    blank = [x[0] + x[1] + b'\x00' + x[4] for x in ins]
    t = ins[i]
    own = t[0] + t[1] + ref.compact_size(len(t[2])) + t[2] + t[4]
    return version + ref.compact_size(len(ins)) + b''.join(blank[:i]) + own + b''.join(blank[i + 1:]) \
        + ref.compact_size(len(outs)) + b''.join([ref.wire_out(o) for o in outs]) + lock + ALL


def make_in(x):
    t = tx.TxIn(x[2], x[0], x[1], sequence=x[4], segwit_input=x[5])
    if x[5]:
        t.script_sig = x[2] + x[3]          # the amount follows the script code of a segwit input
    return t


@harness('P12', version=Bytes(4), lock=Bytes(4), ins=Lst(INPUT, lo=1), outs=Lst(OUTPUT), sel=Lst(PICK), uses=['varint'])
def digests(version, lock, ins, outs, sel):
    n = len(ins)
    assume(all([i < n for i in sel]))
    obj = tx.TxObj(version, [make_in(x) for x in ins], [tx.TxOut(o[0], o[1]) for o in outs], lock)
    got = tx.calculate_preimages(obj, [[i, ALL, ins[i][5]] for i in sel])
    want = [ref.sha256(bip143(version, ins, outs, lock, i) if ins[i][5] else legacy(version, ins, outs, lock, i)) for i in sel]
    check(got == want, 'the digest of every selected input, in the requested order')


@harness('P12', version=Bytes(4), lock=Bytes(4), ins=Lst(INPUT, lo=1), outs=Lst(OUTPUT), i=PICK, kind=OneOf(Bytes(), Bytes(4)), seg=Bool(),
         uses=['varint'])
def other_types(version, lock, ins, outs, i, kind, seg):
    assume(kind != ALL and i < len(ins))
    obj = tx.TxObj(version, [make_in(x) for x in ins], [tx.TxOut(o[0], o[1]) for o in outs], lock)
    check(raises(ValueError, tx.calculate_preimages, obj, [[i, kind, seg]]), 'other hash types are refused')
