"""C18: Base64::encode implements RFC 4648."""
from ..sym import *
from ..spec import Rec
from ..contract import *
I_ = z3.IntSort()
def ch(v):
    """alphabet character of a 6 bit value (8 bit wide term)"""
    return z3.If(z3.ULT(v, 26), v + 65, z3.If(z3.ULT(v, 52), v + 71, z3.If(z3.ULT(v, 62), v - 4, z3.If(v == 62, z3.BitVecVal(43, 8), z3.BitVecVal(47, 8)))))
def grp(a, b, c):
    x = z3.Concat(a, b, c)
    return [z3.Unit(ch(z3.ZeroExt(2, z3.Extract(h, h-5, x)))) for h in (23, 17, 11, 5)]
Z8 = z3.BitVecVal(0, 8)
# encoding of the first n bytes, n a multiple of 3
B64P = Rec('B64P', [SEQ, I_], SEQ, body=lambda s, n: z3.If(n <= 0, z3.Empty(SEQ), z3.Concat(B64P(s, z3.simplify(n-3)), *grp(s[z3.simplify(n-3)], s[z3.simplify(n-2)], s[z3.simplify(n-1)]))), depth=1)
def post(o, n, a, r, k):
    s = o.str(a[1]); L = z3.Length(s); m = L - L % 3; out = n.str(a[0])
    t1 = grp(s[m], Z8, Z8); t2 = grp(s[m], s[m+1], Z8); eq = z3.Unit(z3.BitVecVal(61, 8))
    return [('complete groups encode as in RFC 4648', z3.Implies(L % 3 == 0, out == B64P(s, m))),
            ('one trailing byte encodes to two characters and ==', z3.Implies(L % 3 == 1, out == z3.Concat(B64P(s, m), t1[0], t1[1], eq, eq))),
            ('two trailing bytes encode to three characters and =', z3.Implies(L % 3 == 2, out == z3.Concat(B64P(s, m), t2[0], t2[1], t2[2], eq)))]
def jobs():
    ctx = {}
    def setup(ex, st):
        p = fresh_str(ex, st, 'input'); ctx['s'] = ex.str(st, p)
        return [raw_str(ex, st), p]
    def cands(l):
        out = []
        for v in l.ints(mod=True):
            out.append((f'{v} is a multiple of 3', lambda S, v=v: v.int(S) % 3 == 0))
            out.append((f'{v} within the input', lambda S, v=v: z3.And(v.int(S) >= 0, v.int(S) <= z3.Length(ctx['s']))))
            for q in l.strs(mod=True):
                out.append((f'{q} is the encoding of the first {v} bytes', lambda S, v=v, q=q: q.seq(S) == B64P(ctx['s'], v.int(S))))
        return out
    return [Job('encode', r'fr::Base64::encode\(string const&\)', setup, post, modifies=lambda v, a: [a[0]], loops={'*': {'cands': cands}})]
