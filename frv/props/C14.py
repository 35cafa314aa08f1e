"""C14: url_encode / url_decode."""
from ..sym import *
from ..spec import Rec
from ..contract import *
from .. import lib
I_ = z3.IntSort()
def B(x): return z3.BitVecVal(x if isinstance(x, int) else ord(x), 8)
def between(c, a, b): return z3.And(z3.UGE(c, ord(a)), z3.ULE(c, ord(b)))
def hexdig(v): return z3.If(z3.ULT(v, 10), v + 48, v + 55)
def unres(c): return z3.Or(between(c, '0', '9'), between(c, 'a', 'z'), between(c, 'A', 'Z'), *[c == B(x) for x in "-_.!~*'()"])
def nib(c, h): return z3.ZeroExt(4, z3.Extract(h, h-3, c))
# encoding of the bytes of s from position a on
def _enc(s, a):
    c = s[a]; r = ENC(s, z3.simplify(a+1))
    return z3.If(a >= z3.Length(s), z3.Empty(SEQ),
           z3.If(unres(c), z3.Concat(z3.Unit(c), r), z3.If(c == B(' '), z3.Concat(lit('+'), r), z3.Concat(lit('%'), z3.Unit(hexdig(nib(c, 7))), z3.Unit(hexdig(nib(c, 3))), r))))
ENC = Rec('ENC', [SEQ, I_], SEQ, body=_enc, depth=1)
def ishex(c): return z3.Or(between(c, '0', '9'), between(c, 'a', 'f'), between(c, 'A', 'F'))
def hexval(c): return z3.If(z3.ULE(c, ord('9')), c - 48, z3.If(z3.ULE(c, ord('F')), c - 55, c - 87))
def _dec(s, a):
    c = s[a]; L = z3.Length(s); h, l = s[z3.simplify(a+1)], s[z3.simplify(a+2)]
    return z3.If(a >= L, z3.Empty(SEQ),
           z3.If(z3.And(c == B('%'), a + 2 < L, ishex(h), ishex(l)), z3.Concat(z3.Unit(hexval(h)*16 + hexval(l)), DEC(s, z3.simplify(a+3))),
           z3.Concat(z3.Unit(z3.If(c == B('+'), B(' '), c)), DEC(s, z3.simplify(a+1)))))
DEC = Rec('UDEC', [SEQ, I_], SEQ, body=_dec, depth=1)

def cands(ctx, F):
    def g(l):
        out = []
        s = ctx['s']; whole = F(s, z3.IntVal(0))
        for q in l.strs(mod=True):
            for v in l.ints(mod=True):
                out.append((f'{q} followed by the result for the rest from {v} is the result', lambda S, v=v, q=q: z3.Concat(q.seq(S), F(s, v.int(S))) == whole))
            for p in l.ptrs(mod=True):
                def h(S, p=p, q=q):
                    v = p.val(S)
                    return None if not isinstance(v, Ptr) or v.idx is None or isinstance(v.idx, tuple) else z3.Concat(q.seq(S), F(s, iv(v.idx))) == whole
                out.append((f'{q} followed by the result for the rest from {p} is the result', h))
        return out
    return g
def job(name, fn, F):
    ctx = {}
    def setup(ex, st):
        p = fresh_str(ex, st, 'str'); ctx['s'] = ex.str(st, p); return [raw_str(ex, st), p]
    def post(o, n, a, r, k): return [(f'returns the specified {name}ing', n.str(a[0]) == F(o.str(a[1]), z3.IntVal(0)))]
    return Job(name, fn, setup, post, modifies=lambda v, a: [a[0]], loops={'*': {'cands': cands(ctx, F)}})
def lemma_roundtrip():
    """url_decode(url_encode(s)) == s, by induction on the number of bytes left in s"""
    s, T = z3.Const('s_', SEQ), z3.Const('T_', SEQ); a, j = z3.Int('a_'), z3.Int('j_'); L, N = z3.Length(s), z3.Length(T)
    suf = lambda q, i: z3.Extract(q, i, z3.Length(q) - i)
    dom = [a >= 0, a <= L, j >= 0, j <= N, suf(T, j) == ENC(s, a)]
    goal = DEC(T, j) == suf(s, a)
    c = s[a]
    out = [('empty rest', dom + [a == L], goal)]
    for nm, cond, e in (('unreserved', unres(c), [c]), ('space', c == B(' '), [B('+')]), ('escaped', z3.And(z3.Not(unres(c)), c != B(' ')), [B('%'), hexdig(nib(c, 7)), hexdig(nib(c, 3))])):
        k = len(e)
        # what the hypothesis suf(T,j) == e(c) ++ ENC(s,a+1) says about T, position by position (proved first), then the step
        base = dom + [a < L, cond]
        pos = [z3.And(j + i < N, T[j+i] == x) for i, x in enumerate(e)] + [suf(T, j+k) == ENC(s, a+1)]
        for i, p in enumerate(pos): out.append((f'{nm}: position {i}', base + [suf(T, j) == z3.Concat(*[z3.Unit(x) for x in e], ENC(s, a+1))], p))
        ih = z3.Implies(suf(T, j+k) == ENC(s, a+1), DEC(T, j+k) == suf(s, a+1))
        out.append((f'{nm}: step', [a >= 0, a < L, j >= 0, cond] + pos + [ih], goal))
    return out
def jobs():
    return [job('url_encode', r'fr::Http::url_encode\(string const&\)', ENC), job('url_decode', r'fr::Http::url_decode\(string const&\)', DEC)]
def lemmas(): return [('decoding undoes encoding: ' + n, p, g) for n, p, g in lemma_roundtrip()]
