"""Wire integers, pushes and hex."""
from pydv.api import harness, check, assume, outcome, raises, same
from pydv.domains import *
from specs import ref
import bit.utils as u


@harness('P06', v=Int(0, 2 ** 64 - 1))
def varint_encode(v):
    check(u.int_to_varint(v) == ref.compact_size(v), 'int_to_varint is CompactSize')


@harness('P06', v=Int(2 ** 64, None))
def varint_too_big(v):
    check(outcome(u.int_to_varint, v)[0] == 'raises', 'values of 2**64 and more are refused')


@harness('P06', v=Int(0, 2 ** 64 - 1), rest=Bytes())
def varint_roundtrip(v, rest):
    check(u.read_var_int(u.int_to_varint(v) + rest) == (v, rest), 'read_var_int inverts int_to_varint')


@harness('P06', v=Int(0, 2 ** 32 - 1))
def push_encode(v):
    check(u.script_push(v) == ref.push_op(v), 'script_push is the canonical push')


@harness('P06', data=Bytes(), rest=Bytes())
def var_string(data, rest):
    check(u.read_var_string(u.int_to_varint(len(data)) + data + rest) == (data, rest), 'read_var_string')


@harness('P06', data=Bytes(), rest=Bytes())
def segwit_string(data, rest):
    w = u.int_to_varint(len(data)) + data
    check(u.read_segwit_string(w + rest) == (w, rest), 'read_segwit_string')


@harness('P06', data=Bytes(), n=Int(0, None))
def split_bytes(data, n):
    assume(n <= len(data))
    a, b = u.read_bytes(data, n)
    check(a + b == data and len(a) == n, 'read_bytes splits')


@harness('P06', b=Bytes())
def hex_roundtrip(b):
    h = u.bytes_to_hex(b)
    check(len(h) == 2 * len(b), 'two digits per byte')
    check(u.hex_to_bytes(h) == b, 'hex_to_bytes inverts bytes_to_hex')
    check(u.hex_to_bytes(u.bytes_to_hex(b, upper=True)) == b, 'upper-case hex too')


@harness('P06', b=Bytes())
def hex_is_lower(b):
    check(u.bytes_to_hex(b) == b.hex(), 'bytes_to_hex')
    check(u.bytes_to_hex(b, True) == b.hex().upper(), 'bytes_to_hex upper')
    check(u.flip_hex_byte_order(b.hex()) == b[::-1].hex(), 'flip_hex_byte_order')


@harness('P06', v=Int(0, None))
def int_hex_roundtrip(v):
    check(u.hex_to_int(u.int_to_hex(v)) == v, 'hex_to_int inverts int_to_hex')
    check(u.hex_to_int(u.int_to_hex(v, upper=True)) == v, 'hex_to_int inverts int_to_hex (upper)')


@harness('P06', v=Int(0, None))
def unknown_bytes(v):
    n = ref.byte_length(v)
    n = n if n > 0 else 1
    check(u.int_to_unknown_bytes(v) == v.to_bytes(n, 'big'), 'minimal big-endian bytes')
    check(u.int_to_unknown_bytes(v, 'little') == v.to_bytes(n, 'little'), 'minimal little-endian bytes')
    check(int.from_bytes(u.int_to_unknown_bytes(v), 'big') == v, 'value kept')


@harness('P06', b=Bytes(), size=Choice(1, 2, 20, 40, 75, 80, 220, 520))
def chunks(b, size):
    cs = list(u.chunk_data(b, size))
    check(b''.join(cs) == b, 'chunks concatenate to the data')
    check(all([0 < len(c) and len(c) <= size for c in cs]), 'chunk sizes')
    check(all([len(c) == size for c in cs[:-1]]), 'only the last chunk may be short')
