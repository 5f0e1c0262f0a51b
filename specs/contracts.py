"""Contracts used at call sites: callers are verified against these, and the named harnesses prove the bodies."""
import z3
from pydv.api import contract
from pydv.core import *
from pydv.ropes import *
from pydv import interp as I, models as M, loops
import bit.base58 as b58
import bit.format as fmt

f_v58 = z3.Function('b58_valid', B, z3.BoolSort())
f_d58 = z3.Function('b58_bytes', B, B)
f_vchk = z3.Function('b58check_valid', B, z3.BoolSort())
f_dchk = z3.Function('b58check_payload', B, B)
f_echk = z3.Function('b58check_text', B, B)
f_lenchk = z3.Function('b58check_text_len', B, z3.IntSort())


def uf_rope(f, kind, arg, n=None):
    """f(arg) as a rope; provably equal arguments give the same rope."""
    if n is None:
        r = M.uf_bytes(f, None, arg)
    else:
        r = M.uf_bytes(f, n, arg)
    if kind == 'str':
        s = r.segs[0]
        return mk('str', [Sl(Atom(s.a.t, s.a.n, 'str', ('charset', b58.BASE58_ALPHABET)), 0, s.hi)])
    return r


def uf_pred(f, arg):
    return f(rope_term(arg))


def text_arg(x):
    x = I.force(x)
    if not (isinstance(x, str) or isinstance(x, Rope) and x.kind == 'str'):
        raise Unsupported('contract: text expected')
    return x


def b58decode_model(args, kw):
    s = text_arg(args[0])
    if not S.decide(uf_pred(f_v58, s)):
        I.raise_py(ValueError, 'invalid base58')
    r = uf_rope(f_d58, 'bytes', s)
    S.fact(zi(rope_len(r)) >= 1)
    return r


contract('b58decode', lambda: [b58.b58decode], b58decode_model, ['p01.decode_any', 'p01.decode_ones'],
         'a function of the text; ValueError is its only exception; at least one byte')


def b58enc_check_model(args, kw):
    b = I.force(args[0])
    if isinstance(b, bytes):
        return I.call_pfunc(I.pfunc_of(b58.b58encode_check), [b], {})
    if not (isinstance(b, Rope) and b.kind == 'bytes'):
        raise Unsupported('contract: bytes expected')
    n = rope_len(b)
    r = uf_rope(f_echk, 'str', b)
    ln = zi(rope_len(r))
    S.fact(ln >= 1)
    if isinstance(n, int) and n in (33, 34) and isinstance(b.segs[0], Lit) and b.segs[0].d[:1] in (b'\x80', b'\xef'):
        S.fact(ln == (51 if n == 33 else 52))
    S.extra.setdefault('b58texts', []).append((r, b))
    return r


contract('b58encode_check', lambda: [b58.b58encode_check], b58enc_check_model,
         ['p01.encode_check', 'p01.encode_any', 'p01.encode_zeros', 'p01.wif_length'],
         'a function of the payload; 33/34-byte payloads with a private-key prefix give 51/52 characters')


def b58dec_check_model(args, kw):
    s = text_arg(args[0])
    if isinstance(s, str):
        return I.call_pfunc(I.pfunc_of(b58.b58decode_check), [s], {})
    for r, b in S.extra.get('b58texts', []):
        if rope_same(r, s):
            return b
    if not S.decide(uf_pred(f_vchk, s)):
        I.raise_py(ValueError, 'bad base58check')
    return uf_rope(f_dchk, 'bytes', s)


contract('b58decode_check', lambda: [b58.b58decode_check], b58dec_check_model,
         ['p01.decode_check_any', 'p01.check_roundtrip', 'p01.check_roundtrip_zeros'],
         'a function of the text; ValueError is its only exception; inverts b58encode_check')

f_e58 = z3.Function('b58_text', B, B)


def nontrivial(b):
    """Some byte of b is provably not zero."""
    for s in b.segs:
        if isinstance(s, Lit):
            if any(s.d):
                return True
            continue
        if isinstance(s, Rp) and not any(s.u):
            continue
        n = seg_len(s)
        return S.provable(zi(n) >= 1) and S.provable(as_int_term(seg_elem(s, 0)) != 0)
    return False


def b58encode_pair(args, kw):
    b = I.force(args[0])
    if not isinstance(b, Rope) or not nontrivial(b):
        return I.call_pfunc(I.pfunc_of(b58.b58encode), list(args), kw)
    r = uf_rope(f_e58, 'str', b)
    S.extra.setdefault('b58plain', []).append((r, b))
    return r


def b58decode_pair(args, kw):
    s = text_arg(args[0])
    for r, b in S.extra.get('b58plain', []):
        if rope_same(r, s):
            return b
    return b58decode_model(args, kw)


contract('b58encode pair', lambda: [b58.b58encode], b58encode_pair, ['p01.encode_any'], 'a function of the bytes')
contract('b58decode pair', lambda: [b58.b58decode], b58decode_pair, ['p01.encode_roundtrip', 'p01.decode_any', 'p01.decode_ones'],
         'inverts b58encode for byte strings with a non-zero byte')

# ---- coincurve inside the verifier ------------------------------------------------------------

import coincurve
import coincurve.ecdsa
from specs import ec

f_pub33 = z3.Function('pub33', B, B)
f_pub65 = z3.Function('pub65', B, B)
f_sig = z3.Function('signature', B, B, B)
f_ver = z3.Function('verifies', B, B, B, z3.BoolSort())
f_der = z3.Function('der', B, B)
f_pem = z3.Function('pem', B, B)


def bts(x):
    x = I.force(x)
    if not isinstance(x, (bytes, Rope)):
        raise Unsupported('bytes expected')
    return x


def m_pub33(a, k):
    r = M.uf_bytes(f_pub33, 33, bts(a[0]))
    if isinstance(r, Rope):
        S.fact(z3.Or(at_term(r.segs[0].a, 0) == 2, at_term(r.segs[0].a, 0) == 3))
    return r


def m_pub65(a, k):
    r = M.uf_bytes(f_pub65, 65, bts(a[0]))
    S.fact(at_term(r.segs[0].a, 0) == 4)
    return r


def provably(c):
    return c if isinstance(c, bool) else S.provable(c)


def m_sig(a, k):
    for x, y, r in S.extra.get('sigs', []):
        if rope_same(x, bts(a[0])) and (rope_same(y, bts(a[1])) or provably(rope_eq(y, bts(a[1])))):
            return r
    r = M.uf_bytes(f_sig, None, bts(a[0]), bts(a[1]))
    n = rope_len(r)
    S.fact(z3.And(n >= 8, n <= 72))
    S.extra.setdefault('sigs', []).append((bts(a[0]), bts(a[1]), r))
    return r


f_isder = z3.Function('is_der', B, z3.BoolSort())


def der_cond(x):
    """Is x the DER form of a signature?  A sequence of two integers: the first byte is 0x30 and there are at least eight bytes."""
    x = bts(x)
    n = rope_len(x)
    if isinstance(n, int) and n < 8 or isinstance(x, bytes) and x[:1] != b'\x30' or provably(zi(n) < 8):
        return False
    first = I.getitem(x, 0)
    c = I.compare('==', first, 0x30)
    c = c.t if isinstance(c, SBool) else c
    if provably(z3.Not(c) if not isinstance(c, bool) else not c):
        return False
    b = f_isder(rope_term(x))
    S.fact(z3.Implies(b, zi(n) >= 8))
    return b


def m_der_to_cdata(a, k):
    if not S.decide(der_cond(a[0])):
        I.raise_py(ValueError, 'The DER-encoded signature could not be parsed.')
    return Opaque(S.fresh_v('cdata'))


def same_bytes(x, y):
    return rope_same(x, y) or provably(rope_eq(x, y))


def m_verify(a, k):
    sig, data, pub = bts(a[0]), bts(a[1]), bts(a[2])
    if not S.decide(der_cond(sig)):
        I.raise_py(ValueError, 'The DER-encoded signature could not be parsed.')
    for x, secret, d in S.extra.get('valid', []):
        if rope_same(x, sig) and same_bytes(d, data):
            # a valid signature of one key is not one of another key
            own = [m_pub33([secret], {}), m_pub65([secret], {})]
            if any(rope_same(pub, o) for o in own) or any(provably(rope_eq(pub, o)) for o in own):
                return True
            if all(provably(I.zneg(rope_eq(pub, o))) for o in own):
                return False
    return mk_bool(f_ver(rope_term(sig), rope_term(data), rope_term(pub)))


def m_some_signature(a, k):
    """Any signature by the holder of the secret."""
    r = atom('bytes', 'sig')
    n = rope_len(r)
    S.fact(z3.And(n >= 8, n <= 72, at_term(r.segs[0].a, 0) == 0x30))
    S.fact(f_isder(rope_term(r)))
    S.extra.setdefault('valid', []).append((r, bts(a[0]), bts(a[1])))
    return r


def m_undo(f):
    def model(a, k):
        x = bts(a[0])
        for sec, out in S.extra.get(f.name(), []):
            if rope_same(out, x):
                return sec
        raise Unsupported('decoding of arbitrary key files')
    return model


def m_do(f):
    def model(a, k):
        x = bts(a[0])
        r = M.uf_bytes(f, None, x)
        S.extra.setdefault(f.name(), []).append((x, r))
        return r
    return model


I.MODELS[ec.pub33] = m_pub33
I.MODELS[ec.pub65] = m_pub65
I.MODELS[ec.signature] = m_sig
I.MODELS[ec.some_signature] = m_some_signature
I.MODELS[coincurve.verify_signature] = m_verify
I.MODELS[coincurve.ecdsa.der_to_cdata] = m_der_to_cdata
I.MODELS[ec.der] = m_do(f_der)
I.MODELS[ec.pem] = m_do(f_pem)
I.MODELS[ec.undo_der] = m_undo(f_der)
I.MODELS[ec.undo_pem] = m_undo(f_pem)


def m_random_secret(a, k):
    r = atom('bytes', 'secret', n=32)
    v = zi(rope_int(r))
    S.fact(z3.And(v > 0, v < ec.N))
    return r


I.MODELS[ec.random_secret] = m_random_secret

# ---- multisig scripts -------------------------------------------------------------------------

def keys_term(keys, m):
    k = keys.segs
    return k


def redeem_model(args, kw):
    """The script or ValueError, the same for the same request."""
    keys, m = I.force(args[0]), args[1]
    for (k2, m2, out) in S.memo.get('redeem', []):
        if k2 is keys and loops.same_val(m2, m):
            if out is None:
                I.raise_py(ValueError, 'multisig')
            return out
    out = None
    if S.decide(S.fresh_bool('redeem_ok')):
        out = atom('bytes', 'redeem')
        n = rope_len(out)
        S.fact(z3.And(n >= 37, n <= 520))
    S.memo.setdefault('redeem', []).append((keys, m, out))
    if out is None:
        I.raise_py(ValueError, 'multisig')
    return out


contract('redeemscript', lambda: [fmt.multisig_to_redeemscript], redeem_model, ['p04.redeemscript'],
         'a function of keys and m: the script of 37 to 520 bytes, or ValueError')

# ---- CompactSize ------------------------------------------------------------------------------
import bit.utils as bu
from specs import ref

f_cs = z3.Function('compact_size', z3.IntSort(), B)


def cs_len(v):
    return z3.If(v <= 252, z3.IntVal(1), z3.If(v <= 0xffff, z3.IntVal(3), z3.If(v <= 0xffffffff, z3.IntVal(5), z3.IntVal(9))))


def varint_model(fn):
    def model(args, kw):
        v = I.int_term(I.force(args[0]))
        if isinstance(v, int):
            return I.from_native(ref.compact_size(v)) if 0 <= v < 2 ** 64 else I.call_pfunc(I.pfunc_of(fn), list(args), kw)
        if not S.decide(z3.And(v >= 0, v < 2 ** 64)):
            return I.call_pfunc(I.pfunc_of(fn), list(args), kw)
        c = M.pin(v, 0, 2 ** 64 - 1) if False else None
        t = f_cs(v)
        n = z3.simplify(cs_len(v))
        S.fact(f_len(t) == n)
        a = Atom(t, f_len(t), 'bytes')
        S.fact(z3.And(f_len(t) >= 1, f_len(t) <= 9))
        S.fact(at_term(a, 0) == z3.If(v <= 252, v, z3.If(v <= 0xffff, z3.IntVal(253), z3.If(v <= 0xffffffff, z3.IntVal(254), z3.IntVal(255)))))
        return mk('bytes', [Sl(a, 0, f_len(t))])
    return model


def read_varint_model(args, kw):
    r = I.force(args[0])
    if isinstance(r, Rope):
        segs = list(r.segs)
        while segs:
            s = segs[0]
            if isinstance(s, Jn):
                if S.decide(zi(s.lo) >= zi(s.hi)):
                    segs.pop(0)
                    continue
                segs[0:1] = list(segs_of(loops.inst(s.body, s.lo))) + [Jn(norm(zi(s.lo) + 1), s.hi, s.body)]
                continue
            if isinstance(s, It):
                segs[0:1] = list(segs_of(s.a if S.decide(s.c) else s.b))
                continue
            if isinstance(s, Sl) and s.a.t.decl().eq(f_cs) and same(s.lo, 0) and same(s.hi, s.a.n) and not s.rev:
                return (mk_int(s.a.t.arg(0)), mk(r.kind, segs[1:]))
            break
        r = mk(r.kind, segs)
    return I.call_pfunc(I.pfunc_of(bu.read_var_int), [r], {})


contract('varint', lambda: [bu.int_to_varint, ref.compact_size], varint_model(ref.compact_size), ['p06.varint_encode', 'p06.varint_too_big'],
         'the CompactSize bytes of the number: 1, 3, 5 or 9 of them')
contract('read_varint', lambda: [bu.read_var_int], read_varint_model, ['p06.varint_roundtrip'],
         'reads back a CompactSize at the front of a stream; executed as written on any other stream')

# ---- functions of a list ---------------------------------------------------------------------
import bit.base32 as b32


def snapshot_list(l):
    return PList(segs=I.copy_segs(l), kind=l.kind)


def all_elems(l, pred):
    """pred(value) -> z3 Bool, provable for every element of the list."""
    for s in l.segs:
        if isinstance(s, LitSeg):
            for x in s.items:
                c = pred(x)
                if not (c if isinstance(c, bool) else S.provable(c)):
                    return False
        elif not loops.prove_forall(s.lo, s.hi, lambda j: pred(loops.inst(s.body, j))):
            return False
    return True


def list_function(name, l, make):
    """The same result for provably equal lists."""
    for (l2, out) in S.memo.get(name, []):
        try:
            c = loops.deep_eq(l, l2)
        except Unsupported:
            continue
        if c is True or not isinstance(c, bool) and S.provable(c):
            return out
    out = make()
    S.memo.setdefault(name, []).append((snapshot_list(l), out))
    return out


def five_bits(x):
    x = I.force(x)
    if isinstance(x, SBv):
        return x.w <= 5 or z3.ULT(x.t, 32)
    t = I.int_term(x)
    return 0 <= t < 32 if isinstance(t, int) else z3.And(t >= 0, t < 32)


def polymod_model(args, kw):
    l = I.force(args[0])
    if not isinstance(l, PList) or l.concrete:
        return I.call_pfunc(I.pfunc_of(ref.polymod), list(args), kw)
    if not all_elems(l, five_bits):
        raise Unsupported('checksum of values that are not known to have five bits')

    def make():
        t = S.fresh_int('polymod')
        S.fact(z3.And(t >= 0, t < 2 ** 30))
        return mk_int(t)
    return list_function('polymod', l, make)


contract('polymod', lambda: [b32.bech32_polymod, ref.polymod], polymod_model, ['p02.polymod'],
         'a function of the list of 5-bit values, below 2**30')


def list_len(l):
    n = z3.IntVal(0)
    for s in l.segs:
        n = n + (len(s.items) if isinstance(s, LitSeg) else zi(s.hi) - zi(s.lo))
    return norm(n)


def regroup_of(l):
    def make():
        if S.decide(S.fresh_bool('badgroup')):
            return None
        from pydv.domains import Lst, Int
        out = Lst(Int(0, 255)).sym('program')
        S.fact(zi(list_len(out)) == zi(list_len(l)) * 5 / 8)
        return out
    out = list_function('regroup', l, make)
    return None if out is None else snapshot_list(out)


def convertbits_model(args, kw):
    def body():
        return I.call_pfunc(I.pfunc_of(b32.convertbits), list(args), kw)
    a = [I.force(x) for x in args]
    pad = kw.get('pad', a[3] if len(a) > 3 else True)
    if not isinstance(a[0], PList) or a[0].concrete or a[1:3] != [5, 8] or pad is not False:
        return body()
    if not (S.provable(zi(list_len(a[0])) <= 83) and all_elems(a[0], five_bits)):
        return body()
    return regroup_of(a[0])


def regroup_model(args, kw):
    l = I.force(args[0])
    if not isinstance(l, PList) or l.concrete or not (S.provable(zi(list_len(l)) <= 83) and all_elems(l, five_bits)):
        return I.call_pfunc(I.pfunc_of(ref.regroup), list(args), kw)
    return regroup_of(l)


contract('convertbits', lambda: [b32.convertbits], convertbits_model, ['p02.regroup'],
         'up to 83 five-bit values without padding: None or 5n/8 bytes, a function of the values')
contract('regroup', lambda: [ref.regroup], regroup_model, ['p02.regroup'], 'the same function as convertbits')


def bech32_parts_of(s):
    """bech32_decode as a function of the text: None or (prefix, list of 5-bit values)."""
    from pydv.domains import Lst, Int
    for (s2, out) in S.memo.get('bech32', []):
        if rope_same(s, s2):
            break
    else:
        out = None
        if S.decide(uf_pred(f_bech, s)):
            hrp = uf_rope(f_hrp, 'raw', s)
            hrp = mk('str', [Sl(Atom(hrp.segs[0].a.t, hrp.segs[0].a.n, 'str', None), 0, hrp.segs[0].hi)])
            data = Lst(Int(0, 31)).sym('bechdata')
            n, m = zi(list_len(data)), zi(rope_len(hrp))
            S.fact(z3.And(m >= 1, n >= 0, n + m <= 83))
            out = (hrp, data)
        S.memo.setdefault('bech32', []).append((s, out))
    return None if out is None else (out[0], snapshot_list(out[1]))


f_bech = z3.Function('bech32_valid', B, z3.BoolSort())
f_hrp = z3.Function('bech32_prefix', B, B)


def bech32_decode_model(args, kw):
    s = text_arg(args[0])
    if isinstance(s, str):
        return I.call_pfunc(I.pfunc_of(b32.bech32_decode), [s], {})
    if known_base58(s):
        return (None, None)
    for text, hrp, data in S.extra.get('bechtexts', []):
        if rope_same(text, s):
            return (hrp, snapshot_list(data))
    r = bech32_parts_of(s)
    return (None, None) if r is None else r


def known_base58(s):
    """Texts made by b58encode_check: taken not to be bech32 texts (assumption)."""
    return any(rope_same(r, s) for r, b in S.extra.get('b58texts', []))


def bech32_ref_model(args, kw):
    s = text_arg(args[0])
    if isinstance(s, str):
        return I.call_pfunc(I.pfunc_of(ref.bech32_parts), [s], {})
    return None if known_base58(s) else bech32_parts_of(s)


contract('bech32', lambda: [b32.bech32_decode], bech32_decode_model, ['p02.decode_text'],
         'a function of the text: (None, None), or a prefix and 5-bit values, at most 83 together')
contract('bech32 ref', lambda: [ref.bech32_parts], bech32_ref_model, ['p02.decode_text'], 'the same function')


HRPS = ('bc', 'tb', 'bcrt')


def check_digits_model(fn):
    def model(args, kw):
        hrp, l = I.force(args[0]), I.force(args[1])
        if hrp not in HRPS or not isinstance(l, PList) or not all_elems(l, five_bits):
            return I.call_pfunc(I.pfunc_of(fn), list(args), kw)

        def make():
            return PList([SBv(S.fresh_bv(5, 'checkdigit')) for _ in range(6)])
        return snapshot_list(list_function('check_digits ' + hrp, l, make))
    return model


def sum_ok_model(fn):
    def model(args, kw):
        hrp, l = I.force(args[0]), I.force(args[1])
        if hrp not in HRPS or not isinstance(l, PList) or not all_elems(l, five_bits):
            return I.call_pfunc(I.pfunc_of(fn), list(args), kw)
        for (l2, out) in S.memo.get('check_digits ' + hrp, []):
            c = loops.deep_eq(l, PList(segs=I.copy_segs(l2) + I.copy_segs(out)))
            if c is True or not isinstance(c, bool) and S.provable(c):
                return True
        return list_function('sum_ok ' + hrp, l, lambda: S.decide(S.fresh_bool('sum_ok')))
    return model


contract('checksum', lambda: [b32.bech32_create_checksum, ref.check_digits], check_digits_model(ref.check_digits), ['p02.checksum'],
         'six 5-bit values, a function of prefix (bc, tb, bcrt) and values')
contract('verify', lambda: [b32.bech32_verify_checksum, ref.sum_ok], sum_ok_model(ref.sum_ok), ['p02.checksum', 'p02.verify'],
         'true for values followed by their checksum; a function of prefix and values')


def bech32_text_model(fn):
    def model(args, kw):
        hrp, l = I.force(args[0]), I.force(args[1])
        if hrp not in HRPS or not isinstance(l, PList) or not all_elems(l, five_bits) \
                or not S.provable(zi(list_len(l)) + len(hrp) <= 83):
            return I.call_pfunc(I.pfunc_of(fn), list(args), kw)

        def make():
            t = S.fresh_b('bech32text')
            n = norm(zi(list_len(l)) + len(hrp) + 7)
            r = mk('str', [Sl(Atom(t, n, 'str', ('ascii',)), 0, n)])
            up = M.f_up(t)
            ru = mk('str', [Sl(Atom(up, n, 'str', None), 0, n)])
            S.fact(f_len(up) == zi(n))
            S.extra['bechtexts'] = S.extra.get('bechtexts', []) + [(r, hrp, snapshot_list(l)), (ru, hrp, snapshot_list(l))]
            return r
        return list_function('bech32_text ' + hrp, l, make)
    return model


contract('bech32 text', lambda: [b32.bech32_encode, ref.bech32_text], bech32_text_model(ref.bech32_text), ['p02.text_roundtrip'],
         'a function of the prefix (bc, tb, bcrt) and values, 7 characters longer than both; decoding it (or its upper case) gives them back')


def b58check_ref_model(args, kw):
    s = text_arg(args[0])
    if isinstance(s, str):
        return I.call_pfunc(I.pfunc_of(ref.b58check_payload), [s], {})
    for r, b in S.extra.get('b58texts', []):
        if rope_same(r, s):
            return b
    if not S.decide(uf_pred(f_vchk, s)):
        return None
    return uf_rope(f_dchk, 'bytes', s)


contract('b58check ref', lambda: [ref.b58check_payload], b58check_ref_model,
         ['p01.decode_check_any', 'p01.decode_any', 'p01.decode_ones'], 'the same function as b58decode_check, None for ValueError')


f_fee = z3.Function('fee_estimate', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.BoolSort(), z3.IntSort())


def fee_model(args, kw):
    names = ('in_size', 'n_in', 'out_size', 'n_out', 'satoshis', 'segwit')
    a = dict(zip(names, args), **kw)
    seg = I.test(a.get('segwit', False))
    ts = [zi(I.index_term(a[n])) for n in names[:5]]
    t = f_fee(*(ts + [z3.BoolVal(seg)]))
    S.fact(z3.Implies(z3.And(*[x >= 0 for x in ts]), t >= 0))
    return mk_int(t)


def fee_targets():
    import bit.transaction as tx
    from specs import p08
    return [tx.estimate_tx_fee, p08.fee_of]


contract('fee estimate', fee_targets, fee_model, ['p08.fee_estimate'],
         'estimate_tx_fee is the fee-rate formula (sizes up to 2**40; a function of its arguments)')


# ---- addresses ---------------------------------------------------------------------------------

f_aok = z3.Function('address_valid', B, z3.BoolSort())
f_amain = z3.Function('address_main', B, z3.BoolSort())
f_ascript = z3.Function('address_script', B, B)
f_anet = z3.Function('address_net', B, z3.IntSort())


def address_known(s):
    """(network, script) of a valid address, else None: a function of the text."""
    if S.decide(uf_pred(f_aok, s)):
        main = S.decide(uf_pred(f_amain, s))
        r = uf_rope(f_ascript, 'bytes', s)
        S.fact(z3.And(zi(rope_len(r)) >= 4, zi(rope_len(r)) <= 42))
        return ('main' if main else 'test', r)
    return None


def script_model(args, kw):
    s = text_arg(args[0])
    if isinstance(s, str):
        import bit.transaction as tx
        return I.call_pfunc(I.pfunc_of(tx.address_to_scriptpubkey), [s], {})
    r = address_known(s)
    if r is None:
        I.raise_py(ValueError, 'not an address')
    return r[1]


def network_model(args, kw):
    s = text_arg(args[0])
    if isinstance(s, str):
        return I.call_pfunc(I.pfunc_of(fmt.get_version), [s], {})
    r = address_known(s)
    if r is not None:
        return r[0]
    # not an address: still a function of the text
    t = f_anet(rope_term(s))
    if S.decide(t == 0):
        return 'main'
    if S.decide(t == 1):
        return 'test'
    I.raise_py(ValueError, 'unknown prefix')


def address_ref_model(args, kw):
    s = text_arg(args[0])
    if isinstance(s, str):
        return I.call_pfunc(I.pfunc_of(ref.address_parts), [s], {})
    return address_known(s)


def script_targets():
    import bit.transaction as tx
    return [tx.address_to_scriptpubkey]


contract('address script', script_targets, script_model, ['p05.any_text'],
         'the script of a valid address (4 to 42 bytes), ValueError for any other text')
contract('address network', lambda: [fmt.get_version], network_model, ['p05.any_text'],
         'the network of a valid address; a function of the text or ValueError otherwise')
contract('address ref', lambda: [ref.address_parts], address_ref_model, ['p05.any_text'], 'the same functions')


# ---- coin selection ----------------------------------------------------------------------------

def repeated(name, parts, make):
    """make(), or what it gave for provably equal parts before (a function without hidden inputs)."""
    known = S.memo.setdefault('calls ' + name, [])
    for p, out in known:
        if len(p) == len(parts) and all([certain(loops.deep_eq(x, y)) for x, y in zip(p, parts)]):
            return out
    out = make()
    S.memo['calls ' + name] = known + [(parts, out)]
    return out


def certain(c):
    return c if isinstance(c, bool) else S.provable(zb(c))


def frozen(v):
    """A copy that later writes to v do not reach."""
    v = I.force(v)
    if isinstance(v, PObj):
        return PObj(v.cls, {n: frozen(x) for n, x in v.fields.items()})
    if isinstance(v, tuple):
        return tuple(frozen(x) for x in v)
    if isinstance(v, PList):
        segs = []
        for g in v.segs:
            if isinstance(g, LitSeg):
                segs.append(LitSeg([frozen(x) for x in g.items]))
            elif g.body.maker is not None:
                segs.append(MapSeg(g.lo, g.hi, Body(g.body.k, None, g.body.facts, maker=g.body.maker)))
            else:
                segs.append(MapSeg(g.lo, g.hi, Body(g.body.k, frozen(loops.body_value(g.body)), g.body.facts)))
        return PList(segs=segs, kind=v.kind)
    return v


def select_model(args, kw):
    """Either refused, or distinct given coins that cover target, fee and remainder, or a change-free match."""
    a = dict(zip(('target', 'fee', 'output_size', 'min_change'), args), **kw)
    state = M.draw_state()
    if state is None:
        return pick_coins(args, kw)

    def make():
        try:
            return 'ok', pick_coins(args, kw)
        except I.PyExc as e:
            return 'raises', e
    names = sorted(a)
    kind, r = repeated('select_coins ' + ' '.join(names), [state] + [frozen(a[n]) for n in names], make)
    if kind == 'raises':
        raise r
    return r


def pick_coins(args, kw):
    from bit.exceptions import InsufficientFunds
    from specs import p08
    a = dict(zip(('target', 'fee', 'output_size', 'min_change'), args), **kw)
    given = I.force(a['unspents'])
    if S.decide(S.fresh_bool('insufficient')):
        I.raise_py(InsufficientFunds, 'insufficient')
    segs = [x for x in given.segs if not (isinstance(x, LitSeg) and not x.items)]
    if len(segs) != 1 or not isinstance(segs[0], MapSeg):
        raise Unsupported('contract: coin list')
    absolute, consolidate = I.truth(a.get('absolute_fee', False)), I.truth(a.get('consolidate', False))
    target, fee, sizes, least = (I.force(a[x]) for x in ('target', 'fee', 'output_size', 'min_change'))
    n, m = zi(list_len(given)), S.fresh_int('picked_n')
    S.assume(z3.And(1 <= m, m <= n))
    absolute = absolute if isinstance(absolute, bool) else S.decide(absolute)
    consolidate = consolidate if isinstance(consolidate, bool) else S.decide(consolidate)
    if consolidate:
        S.assume(m == n)
    idx = z3.Function(S.fresh_name('pick'), z3.IntSort(), z3.IntSort())
    inv = z3.Function(S.fresh_name('unpick'), z3.IntSort(), z3.IntSort())
    src = segs[0]

    def maker(j):
        t = idx(zi(j))
        S.fact(z3.And(t >= 0, t < n, inv(t) == zi(j)))
        return loops.inst(src.body, norm(t + zi(src.lo)))
    body = Body(loops.new_k(), None, [], maker)
    body.distinct = True
    picked = PList(segs=[MapSeg(0, m, body)])
    total = zi(I.int_term(call_spec(p08.total_of, picked)))
    rest = S.fresh_int('rest')
    if not absolute and not consolidate and S.decide(S.fresh_bool('change_free')):
        S.assume(rest == 0)
        net, base = (zi(I.int_term(x)) for x in call_spec(p08.match_of, picked, target, fee, sizes))
        S.assume(z3.And(net >= base, net <= base + 182 * zi(I.int_term(fee))))
        S.assume(total >= zi(I.int_term(target)))
    else:
        need = zi(I.int_term(fee if absolute else call_spec(p08.estimate, picked, sizes, fee)))
        S.assume(z3.And(rest == total - zi(I.int_term(target)) - need, rest >= zi(I.int_term(least))))
    return (picked, mk_int(rest))


def call_spec(f, *args):
    return I.call_pfunc(I.pfunc_of(f), list(args), {})


def select_targets():
    import bit.transaction as tx
    return [tx.select_coins]


contract('loops of select_coins', lambda: [], None, ['p08.any_loops'],
         'the invariants of branch and bound and of the random draw (specs/invariants.py) hold for any number of coins')
contract('select_coins', select_targets, select_model,
         ['p08.consolidate_all', 'p08.any_absolute', 'p08.any_loops', 'p08.any_values', 'p08.any_coins', 'p08.any_refusal', 'p08.select_run'],
         'InsufficientFunds, or distinct given coins worth target + remainder + fee, both not negative, or a change-free match')


# ---- a prepared payment ------------------------------------------------------------------------

def sanitize_model(args, kw):
    """Refused, or distinct given coins (marked replaceable on request) and the payments, at most one change output and the
    messages; the same arguments after the same seed give the same."""
    import inspect
    import bit.transaction as tx
    a = inspect.signature(tx.sanitize_tx_data).bind(*args, **kw).arguments
    names = sorted(a)
    parts = [frozen(a[n]) for n in names]
    state = M.draw_state()

    def make():
        from bit.exceptions import InsufficientFunds
        if S.decide(S.fresh_bool('refused')):
            return 'raises', I.PyExc(ValueError, ('refused',))
        if S.decide(S.fresh_bool('short')):
            return 'raises', I.PyExc(InsufficientFunds, ('short',))
        return 'ok', prepared(a)
    kind, r = repeated('sanitize ' + ' '.join(names), [state] + parts, make) if state is not None else make()
    if kind == 'raises':
        raise r
    coins, outs = r
    given = I.force(a['unspents'])
    given.segs = list(frozen(coins).segs)
    return (given, frozen(outs))


def prepared(a):
    from specs import scene
    given, outs, leftover = frozen(a['unspents']), frozen(a['outputs']), I.force(a['leftover'])
    n, m = zi(list_len(given)), S.fresh_int('used_n')
    segs = [x for x in given.segs if not (isinstance(x, LitSeg) and not x.items)]
    if len(segs) != 1 or not isinstance(segs[0], MapSeg):
        raise Unsupported('contract: coin list')
    S.assume(z3.And(1 <= m, m <= n))
    if not certain(call_spec(scene.in_satoshi, outs)):
        raise Unsupported('contract: amounts in satoshi')
    ok = call_spec(scene.all_addresses, outs, leftover)
    S.assume(zb(I.truth(ok)))
    idx = z3.Function(S.fresh_name('use'), z3.IntSort(), z3.IntSort())
    inv = z3.Function(S.fresh_name('unuse'), z3.IntSort(), z3.IntSort())
    src = segs[0]

    def maker(j):
        t = idx(zi(j))
        S.fact(z3.And(t >= 0, t < n, inv(t) == zi(j)))
        return loops.inst(src.body, norm(t + zi(src.lo)))
    body = Body(loops.new_k(), None, [], maker)
    body.distinct = True
    picked = PList(segs=[MapSeg(0, m, body)])
    rbf = I.truth(a.get('replace_by_fee', False))
    rbf = rbf if isinstance(rbf, bool) else S.decide(rbf)
    picked = call_spec(scene.used_coins, picked, rbf)
    got = call_spec(scene.bare_outputs, outs)
    if S.decide(S.fresh_bool('change')):
        got = call_spec(scene.joined, got, PList([(leftover, SInt(S.fresh_int('change', 1, 21 * 10 ** 14)))]))
    msg = I.force(a.get('message'))
    if msg is not None and I.test(msg):
        hexed = I.truth(a.get('message_is_hex', False))
        hexed = hexed if isinstance(hexed, bool) else S.decide(hexed)
        got = call_spec(scene.joined, got, call_spec(scene.message_outputs, msg, hexed))
    return picked, got


def sanitize_targets():
    import bit.transaction as tx
    return [tx.sanitize_tx_data]


contract('sanitize', sanitize_targets, sanitize_model, ['p09.prepare', 'p11.messages', 'p11.chunked'],
         'ValueError, InsufficientFunds, or distinct given coins and the payments in satoshi, at most one change output to the leftover '
         'address, the messages in chunks; the same arguments and random draws give the same result')


# ---- signing, for callers that only pass it through ----------------------------------------------

def sign_function(args, kw):
    """A text determined by the key, the transaction and the coins."""
    import inspect
    import bit.transaction as tx
    parts = inspect.signature(tx.sign_tx).bind(*args, **kw).arguments
    names = sorted(parts)
    return repeated('sign_tx ' + ' '.join(names), [parts[n] if isinstance(parts[n], PObj) and hasattr(parts[n].cls, 'sign') else frozen(parts[n]) for n in names],
                    lambda: atom('str', 'signed'))


def sign_targets():
    import bit.transaction as tx
    return [tx.sign_tx]


contract('sign function', sign_targets, sign_function, ['p13.sign_one'],
         'a text determined by the key, the transaction and the coins (no hidden inputs: signatures are deterministic)')


# ---- replies of web services -------------------------------------------------------------------
from specs import web

I.MODELS[web.btc_text] = lambda a, k: M.real_text(z3.ToReal(zi(I.int_term(a[0]))) / 10 ** 8)
I.MODELS[web.hex_number] = lambda a, k: M.opaque_text(a[0])
