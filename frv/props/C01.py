"""C01: packet values round-trip."""
from .pktspec import *
def jobs(): return write_jobs() + read_jobs()[:15] + [vwrite(t) for t in VT] + [vread(t) for t in VT] + pair_jobs() + [mwrite(t) for t in MT] + [mread(t) for t in MT]
def lemmas():
    """what the write contracts append is what the read contracts take back; inductions step by step"""
    out = []
    A, Z = z3.Const('before', SEQ), z3.Const('after', SEQ)
    for n in (1, 2, 4, 8):
        x = z3.BitVec(f'x{n}', 8*n); B = z3.Concat(A, be(x, n), Z)
        for i in range(n): out.append((f'{n}-byte value: byte {i} is found where it was put', [], B[z3.Length(A) + i] == z3.Extract(8*(n-1-i)+7, 8*(n-1-i), x)))
        bs = [z3.BitVec(f'b{i}', 8) for i in range(n)]
        out.append((f'{n}-byte value: reading gives back the value', [b == z3.Extract(8*(n-1-i)+7, 8*(n-1-i), x) for i, b in enumerate(bs)], (z3.Concat(*bs) if n > 1 else bs[0]) == x))
    v8, v32 = z3.BitVec('v8', 8), z3.BitVec('v32', 32)
    out.append(('one-byte enums survive the widening', [], z3.Extract(7, 0, z3.ZeroExt(24, v8)) == v8))
    b = z3.Bool('flag'); w = z3.If(b, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
    out.append(('booleans survive', [], (w != 0) == b))
    s = z3.Const('s', SEQ); ls = z3.Length(s); B = z3.Concat(A, s, Z)
    out.append(('a string is found behind its length', [], sub(B, z3.Length(A), ls) == s))
    L = z3.Int('n'); x = z3.BitVec('xl', 32)
    out.append(('a length below 2^32 survives', [L >= 0, L < 2**32, x == z3.Int2BV(L, 32)], z3.BV2Int(x) == L))
    # fixed-size elements: E = ENC(v,n); element j of it is v[j] (induction on n); DEC of it is v (induction on k)
    for t, (_, m) in VT.items():
        if t == 'string': continue
        v = z3.Const('v_' + t, z3.SeqSort(z3.BitVecSort(8*m))); n, j, k, o = z3.Ints('n j k o'); E = z3.Const('E_' + t, SEQ)
        x = z3.BitVec('e', 8*m); el = lambda q, i: be_at(q, i, m)
        for i in range(m):
            byt = z3.Extract(8*(m-1-i)+7, 8*(m-1-i), x)
            out.append((f'{t}s: a new element leaves the bytes of earlier ones alone ({i})', [z3.Length(E) == m*n, j >= 0, j < n], z3.Concat(E, be(x, m))[m*j + i] == E[m*j + i]))
            out.append((f'{t}s: the new element is the last ({i})', [z3.Length(E) == m*n, n >= 0], z3.Concat(E, be(x, m))[m*n + i] == byt))
            out.append((f'{t}s: found inside the packet ({i})', [z3.Length(E) == m*n, j >= 0, j < n], z3.Concat(A, E, Z)[z3.Length(A) + m*j + i] == E[m*j + i]))
        B = z3.Const('B', SEQ); N = z3.Length(v)
        out.append((f'{t}s: nothing decoded before the first', [k == 0], decv(t, B, o, k) == sub(v, 0, k)))
        out.append((f'{t}s: one more element decoded', [k >= 0, k < N, decv(t, B, o, k) == sub(v, 0, k), el(B, z3.simplify(o + m*k)) == v[k]], decv(t, B, o, z3.simplify(k+1)) == sub(v, 0, k+1)))
    # strings: element k starts where the elements before it end
    v = z3.Const('v_str', STRS); k, o, p = z3.Ints('k o p'); B = z3.Const('B', SEQ); E, R = z3.Const('E', SEQ), z3.Const('R', SEQ); x = v[k]; lx = z3.Length(x)
    enc = z3.Concat(be32(lx), x)
    for i in range(4): out.append((f'strings: length byte {i} of element k', [B == z3.Concat(A, E, be32(lx), x, R), p == z3.Length(A) + z3.Length(E)], B[p + i] == z3.Extract(8*(3-i)+7, 8*(3-i), int2bv(lx, 32))))
    out.append(('strings: bytes of element k', [B == z3.Concat(A, E, be32(lx), x, R), p == z3.Length(A) + z3.Length(E)], sub(B, p + 4, lx) == x))
    out.append(('strings: none decoded before the first', [k == 0], z3.And(OFFS(B, o, k) == o, DECS(B, o, k) == sub(v, 0, k))))
    hyp = [k >= 0, k < z3.Length(v), lx < 2**32, OFFS(B, o, k) == p, p == o + z3.Length(ENCS(v, k)), DECS(B, o, k) == sub(v, 0, k), u32_at(B, p) == lx, sub(B, p + 4, lx) == x]
    out.append(('strings: one more decoded', hyp, DECS(B, o, z3.simplify(k+1)) == sub(v, 0, k+1)))
    out.append(('strings: where it ends', hyp, OFFS(B, o, z3.simplify(k+1)) == o + z3.Length(ENCS(v, z3.simplify(k+1)))))
    return out
