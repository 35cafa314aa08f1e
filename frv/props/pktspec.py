"""Contracts of fr::Packet's primitive operations, shared by the packet properties."""
import re
from ..sym import *
from ..spec import Rec
from ..contract import *
from .. import lib
I0 = z3.IntVal(0)
OOR = 'std::out_of_range'
def buf(v, p): return v.f(p, 'Packet', 'buffer')
def ix(v, p): return v.f(p, 'Packet', 'buffer_read_index').int()
def inv(v, p): return z3.And(ix(v, p) >= 4, ix(v, p) <= z3.Length(buf(v, p)))
def left(v, p): return z3.Length(buf(v, p)) - ix(v, p)
def be(x, n):
    """n big-endian bytes of a bit-vector"""
    return z3.Concat(*[z3.Unit(z3.Extract(8*(n-1-i)+7, 8*(n-1-i), x)) for i in range(n)]) if n > 1 else z3.Unit(x)
def be_at(s, i, n):
    """the n-byte big-endian number at position i of s, as a bit-vector"""
    return z3.Concat(*[s[z3.simplify(i + k)] for k in range(n)]) if n > 1 else s[i]
def u32_at(s, i): return z3.BV2Int(be_at(s, i, 4))
def be32(n):
    """big-endian encoding of an integer term modulo 2^32"""
    return be(int2bv(n, 32), 4)
def fbuf(v, p): return v.fld(p, 'Packet', 'buffer')
def fix(v, p): return v.fld(p, 'Packet', 'buffer_read_index')
SC = {  # name: (C++ parameter type as demangled, width in memory, width on the wire)
 'bool': ('bool', 8, 1), 'uint8_t': ('unsigned char', 8, 1), 'uint16_t': ('unsigned short', 16, 2), 'uint32_t': ('unsigned int', 32, 4), 'uint64_t': ('unsigned long', 64, 8),
 'int16_t': ('short', 16, 2), 'int32_t': ('int', 32, 4), 'int64_t': ('long', 64, 8), 'float': ('float', 32, 4), 'double': ('double', 64, 8)}
EN = {'enum over uint8_t': ('InstE8', 8), 'enum class over uint32_t': ('InstE32', 32), 'enum over int32_t': ('InstI32', 32)}
P = r'fr::Packet::'
def pk(ex, st): return sym_obj(ex, st, 'Packet', 'pkt', intmode=('buffer_read_index',))
def pre(v, a): return [('the read position lies within the contents', inv(v, a[0]))]
def isthis(ex, a, r): return isinstance(r, Ptr) and r.obj == a[0].obj and r.off == a[0].off
def wpost(enc):
    def f(o, n, a, r, k):
        return [('appends exactly the canonical encoding', buf(n, a[0]) == z3.Concat(buf(o, a[0]), enc(o, a))), ('returns the packet', isthis(None, a, r))]
    return f
def wmod(v, a): return [fbuf(v, a[0])]
def scal(w):
    def f(o, a):
        x = a[1]
        if isinstance(x, Bo): return z3.If(x.z, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        b = x.bv()
        return b if b.size() == w else z3.Extract(w-1, 0, b) if b.size() > w else z3.ZeroExt(w - b.size(), b)
    return f
def rpost_scalar(w, n_, zx=None):
    """value exactly n_ bytes at the position; out_of_range iff fewer remain"""
    def f(o, n, a, r, k):
        B, i = buf(o, a[0]), ix(o, a[0])
        if k == 'ret':
            g = be_at(B, i, n_)
            v = n.bv(a[1], w) if n_ < 4 or zx else n.int(a[1], w)
            if n_ >= 4 and not zx: g = z3.BV2Int(g)
            if zx and n_*8 > w: return [('all its bytes were there', left(o, a[0]) >= n_), ('the position moves past exactly its bytes', ix(n, a[0]) == i + n_), ('the value is the low bits of the encoded number', n.bv(a[1], w) == z3.Extract(w-1, 0, g))]
            return [('all its bytes were there', left(o, a[0]) >= n_), ('the position moves past exactly its bytes', ix(n, a[0]) == i + n_), ('the value is the encoded one', v == g), ('returns the packet', isthis(None, a, r))]
        return [('out_of_range only when bytes are missing', left(o, a[0]) < n_), ('the position is not moved', ix(n, a[0]) == i)]
    return f
def rmod(w):
    return lambda v, a: [fix(v, a[0]), ('int', a[1], w)]
def put_scalar(name):
    t, w, n = SC[name]
    def setup(ex, st):
        p = pk(ex, st)
        if name == 'bool': return [p, Bo(z3.Bool(fresh_name('var')))]
        return [p, sym_int(ex, st, w, 'var') if w < 64 else IV(64, b=z3.BitVec(fresh_name('var'), 64))]
    return setup
def get_scalar(w):
    def setup(ex, st):
        p = pk(ex, st); return [p, Ptr(ex.new_obj(st, w//8, 'out'), 0)]
    return setup
def write_jobs():
    out = []
    for nm, (t, w, n) in SC.items():
        f = scal(w)
        out.append(Job(f'<< {nm}', P + rf'operator<<\({t}\)', put_scalar(nm), wpost(lambda o, a, f=f, n=n: be(f(o, a), n)), pre=pre, modifies=wmod))
    for nm, (t, w) in EN.items():
        def setup(ex, st, w=w): return [pk(ex, st), sym_int(ex, st, w, 'var')]
        f = scal(w)
        def e(o, a, f=f, w=w, t=t):
            x = f(o, a); return be(x if w == 32 else z3.ZeroExt(32 - w, x), 4)
        out.append(Job(f'<< {nm}', rf'fr::Packet& fr::Packet::operator<<<{t}, \(void\*\)0>\({t}\)', setup, wpost(e), pre=pre, modifies=wmod))
    out.append(Job('<< string', P + r'operator<<\(string const&\)', lambda ex, st: [pk(ex, st), fresh_str(ex, st, 'var')], wpost(lambda o, a: z3.Concat(be32(z3.Length(o.str(a[1]))), o.str(a[1]))), pre=pre, modifies=wmod))
    def cset(ex, st):
        p = pk(ex, st); L = z3.Int(fresh_name('len')); st.assume(z3.And(L >= 1, L <= 2**32)); q, s = sym_buf(ex, st, L, 'cstr')
        st.assume(z3.And(lib.CSTR(s) == z3.Extract(s, I0, z3.simplify(L - 1)), z3.Length(lib.CSTR(s)) == L - 1))      # what it means to be terminated
        return [p, q]
    def cenc(o, a):
        s = o.st.mem[a[1].obj][0][1].s; t = z3.Extract(s, I0, z3.simplify(z3.Length(s) - 1))
        return z3.Concat(be32(z3.Length(s) - 1), t)
    out.append(Job('<< C string', P + r'operator<<\(char const\*\)', cset, wpost(cenc), pre=pre, modifies=wmod))
    def rawset(ex, st):
        p = pk(ex, st); L = z3.Int(fresh_name('datasz')); st.assume(z3.And(L >= 0, L <= SYMLEN)); q, s = sym_buf(ex, st, L, 'data'); return [p, q, II(L)]
    out.append(Job('add_raw', P + r'add_raw\(char const\*, unsigned long\)', rawset, lambda o, n, a, r, k: [('appends exactly the block', buf(n, a[0]) == z3.Concat(buf(o, a[0]), o.st.mem[a[1].obj][0][1].s))], pre=pre, modifies=wmod))
    return out
def read_jobs():
    out = []
    for nm, (t, w, n) in SC.items():
        out.append(Job(f'>> {nm}', P + rf'operator>>\({t}&\)', get_scalar(w), rpost_scalar(w, n), pre=pre, modifies=rmod(w), throws=(OOR,)))
    for nm, (t, w) in EN.items():
        out.append(Job(f'>> {nm}', rf'fr::Packet& fr::Packet::operator>><{t}, \(void\*\)0>\({t}&\)', get_scalar(w), rpost_scalar(w, 4, True), pre=pre, modifies=rmod(w), throws=(OOR,), contracts=contracts('>> uint32_t')))
    out.append(Job('>> string', P + r'operator>>\(string&\)', lambda ex, st: [pk(ex, st), fresh_str(ex, st, 'out')], rpost_string, pre=pre, modifies=lambda v, a: [fix(v, a[0]), a[1]], throws=(OOR,), contracts=contracts('>> uint32_t')))
    def rawset(ex, st):
        p = pk(ex, st); n = sym_int(ex, st, 64, 'datasz', 'int'); L = z3.Int(fresh_name('room')); st.assume(z3.And(L >= 0, L <= SYMLEN)); q, s = sym_buf(ex, st, L, 'data')
        # room for the block whenever it can be extracted at all
        st.assume(z3.Implies(n.int() <= z3.Length(buf(View(ex, st), p)), L == n.int())); return [p, q, n]
    def rawpost(o, n, a, r, k):
        B, i, m = buf(o, a[0]), ix(o, a[0]), a[2].int()
        if k == 'ret':
            return [('all its bytes were there', left(o, a[0]) >= m), ('the position moves past exactly its bytes', ix(n, a[0]) == i + m), ('the block is exactly the unread bytes', n.st.mem[a[1].obj][0][1].s == sub(B, i, m))]
        return [('out_of_range only when bytes are missing', left(o, a[0]) < m), ('the position is not moved', ix(n, a[0]) == i)]
    out.append(Job('extract_raw', P + r'extract_raw\(char\*, unsigned long\)', rawset, rawpost, pre=pre, modifies=lambda v, a: [fix(v, a[0]), a[1]], throws=(OOR,)))
    def asset(ex, st): return [pk(ex, st), sym_int(ex, st, 64, 'required', 'int')]
    out.append(Job('assert_bytes_remaining', P + r'assert_bytes_remaining\(unsigned long\) const', asset, lambda o, n, a, r, k: [('passes exactly when that many bytes are left', (left(o, a[0]) >= a[1].int()) == (k == 'ret'))], pre=pre, throws=(OOR,)))
    return out
def rpost_string(o, n, a, r, k):
    B, i = buf(o, a[0]), ix(o, a[0]); m = u32_at(B, i)
    if k == 'ret':
        return [('all its bytes were there', z3.And(left(o, a[0]) >= 4, left(o, a[0]) >= 4 + m)), ('the position moves past exactly its bytes', ix(n, a[0]) == i + 4 + m), ('the string is exactly the encoded bytes', n.str(a[1]) == sub(B, i + 4, m)), ('returns the packet', isthis(None, a, r))]
    return [('out_of_range only when bytes are missing', z3.Or(left(o, a[0]) < 4, left(o, a[0]) < 4 + m)), ('the position is at most where the bytes of the string would begin', z3.And(ix(n, a[0]) >= i, z3.Or(ix(n, a[0]) == i, z3.And(left(o, a[0]) >= 4, ix(n, a[0]) == i + 4))))]
def contracts(*names):
    """contracts of the primitive operations for use at calls"""
    out = []
    for j in ALL():
        if j.name in names: out.append(Contract(NORM[j.name], j.post, j.pre, j.modifies, ret=('arg', 0), throws=j.throws))
    return out
NORM = {'>> uint32_t': 'fr::Packet::operator>>(unsigned int&)', '<< uint32_t': 'fr::Packet::operator<<(unsigned int)', '>> string': 'fr::Packet::operator>>(string&)', '<< string': 'fr::Packet::operator<<(string const&)',
  '>> uint8_t': 'fr::Packet::operator>>(unsigned char&)', '<< uint8_t': 'fr::Packet::operator<<(unsigned char)'}
_all = []
def ALL():
    if not _all:
        t, w, n = SC['uint32_t']
        _all.append(Job('>> uint32_t', '', None, rpost_scalar(w, n), pre=pre, modifies=rmod(w), throws=(OOR,)))
        _all.append(Job('>> uint8_t', '', None, rpost_scalar(8, 1), pre=pre, modifies=rmod(8), throws=(OOR,)))
        _all.append(Job('>> string', '', None, rpost_string, pre=pre, modifies=lambda v, a: [fix(v, a[0]), a[1]], throws=(OOR,)))
        for j in write_jobs(): _all.append(j)
    return _all

# ------------------------------------------------------------------ containers
# what k elements decode to, starting at position off of the bytes b: a sequence of values, and where they end
def dec_fixed(n, name):
    """elements of n bytes, kept as their wire bytes"""
    S = z3.SeqSort(z3.BitVecSort(8*n))
    def body(b, off, k): return z3.If(k <= 0, z3.Empty(S), z3.Concat(r(b, off, z3.simplify(k-1)), z3.Unit(be_at(b, z3.simplify(off + n*(k-1)), n))))
    r = Rec('DEC_' + name, [SEQ, z3.IntSort(), z3.IntSort()], S, body=body, length=lambda b, off, k: z3.If(k <= 0, I0, k), depth=1)
    def ebody(v, k): return z3.If(k <= 0, z3.Empty(SEQ), z3.Concat(e(v, z3.simplify(k-1)), be(v[z3.simplify(k-1)], n)))
    e = Rec('ENC_' + name, [S, z3.IntSort()], SEQ, body=ebody, length=lambda v, k: z3.If(k <= 0, I0, n*k), depth=1)
    return r, e
DECV = {}; ENCV = {}
for _n, _w in (('uint8_t', 1), ('uint32_t', 4), ('uint64_t', 8)): DECV[_n], ENCV[_n] = dec_fixed(_w, _n)
def _off(b, o, k): p = OFFS(b, o, z3.simplify(k-1)); return z3.If(k <= 0, o, p + 4 + u32_at(b, p))
OFFS = Rec('OFFS', [SEQ, z3.IntSort(), z3.IntSort()], z3.IntSort(), body=_off, depth=1)
def _decs(b, o, k): p = OFFS(b, o, z3.simplify(k-1)); return z3.If(k <= 0, z3.Empty(STRS), z3.Concat(DECS(b, o, z3.simplify(k-1)), z3.Unit(sub(b, p + 4, u32_at(b, p)))))
DECS = Rec('DECS', [SEQ, z3.IntSort(), z3.IntSort()], STRS, body=_decs, length=lambda b, o, k: z3.If(k <= 0, I0, k), depth=1)
def _encs(v, k): x = v[z3.simplify(k-1)]; return z3.If(k <= 0, z3.Empty(SEQ), z3.Concat(ENCS(v, z3.simplify(k-1)), be32(z3.Length(x)), x))
ENCS = Rec('ENCS', [STRS, z3.IntSort()], SEQ, body=_encs, depth=1)
VT = {'uint8_t': ('unsigned char', 1), 'uint32_t': ('unsigned int', 4), 'uint64_t': ('unsigned long', 8), 'string': ('string', 0)}
def encv(t, v, k): return ENCS(v, k) if t == 'string' else ENCV[t](v, k)
def decv(t, b, o, k): return DECS(b, o, k) if t == 'string' else DECV[t](b, o, k)
def offv(t, b, o, k): return OFFS(b, o, k) if t == 'string' else o + VT[t][1]*k
def vec_obj(ex, st, t, h):
    p = Ptr(ex.new_obj(st, 24, h), 0); k = lib.elk(VT[t][0]); q = z3.Const(fresh_name(h), z3.SeqSort(k[2])); st.assume(z3.Length(q) <= SYMLEN)
    ex.setc(st, p.obj, 0, 24, Vec(q, k[0], k[1])); return p
def idxs(l):
    """positions a loop may be at: integer locals and indices of pointers into sequences"""
    out = []
    for v in l.ints(mod=True): out.append((str(v), lambda S, v=v: v.int(S)))
    for p in l.ptrs(mod=True):
        def h(S, p=p):
            v = p.val(S)
            return None if not isinstance(v, Ptr) or v.idx is None or isinstance(v.idx, tuple) else iv(v.idx)
        out.append((str(p), h))
    return out
def vwrite(t):
    ct = VT[t][0]; ctx = {}
    def setup(ex, st):
        p = pk(ex, st); q = vec_obj(ex, st, t, 'vec'); ctx['B'] = buf(View(ex, st), p); ctx['v'] = View(ex, st).vec(q); return [p, q]
    def cands(l):
        out = []
        for q in l.strs(mod=True):
            for n, f in idxs(l):
                def g(S, q=q, f=f):
                    k = f(S); v = ctx['v']
                    return None if k is None else q.seq(S) == z3.Concat(ctx['B'], be32(z3.Length(v)), encv(t, v, k))
                out.append((f'{q} holds the encoding of the elements before {n}', g))
        return out
    return Job(f'<< vector of {t}', rf'fr::Packet& fr::Packet::operator<<<{ct}>\(vector<{ct}> const&\)', setup, wpost(lambda o, a: z3.Concat(be32(z3.Length(o.vec(a[1]))), encv(t, o.vec(a[1]), z3.Length(o.vec(a[1]))))),
       pre=pre, modifies=wmod, loops={'*': {'cands': cands}}, contracts=contracts('<< uint32_t') + (contracts('<< string') if t == 'string' else []))
def vread(t):
    ct = VT[t][0]; ctx = {}
    def setup(ex, st):
        p = pk(ex, st); v = View(ex, st); ctx['B'] = buf(v, p); ctx['i'] = ix(v, p); return [p, vec_obj(ex, st, t, 'vec')]
    def cands(l):
        out = []
        o = ctx['i'] + 4
        for n, f in idxs(l):
            for q in l.vecs(mod=True):
                out.append((f'{q} holds the elements before {n}', lambda S, q=q, f=f: (lambda k: None if k is None else q.seq(S) == decv(t, ctx['B'], o, k))(f(S))))
            for w in l.ints(mod=True):
                out.append((f'{w} is where the elements before {n} end', lambda S, w=w, f=f: (lambda k: None if k is None else w.int(S) == offv(t, ctx['B'], o, k))(f(S))))
        for w in l.ints(mod=True): out.append((f'{w} within the contents', lambda S, w=w: w.int(S) <= z3.Length(ctx['B'])))
        return out
    def post(o, n, a, r, k):
        B, i = buf(o, a[0]), ix(o, a[0]); m = u32_at(B, i)
        if k == 'ret':
            e = offv(t, B, i + 4, m)
            return [('all its bytes were there', z3.And(left(o, a[0]) >= 4, e <= z3.Length(B))), ('the position moves past exactly its bytes', ix(n, a[0]) == e), ('the elements are exactly the encoded ones', n.vec(a[1]) == decv(t, B, i + 4, m)), ('returns the packet', isthis(None, a, r))]
        j = slen(n.vec(a[1])) if t == 'string' else m
        j1 = z3.simplify(j - 1)
        short = [('out_of_range only when bytes are missing', z3.Or(left(o, a[0]) < 4, left(o, a[0]) < 4 + VT[t][1]*m))] if t != 'string' else [('out_of_range only when bytes of the length or of an element are missing', z3.Or(left(o, a[0]) < 4, z3.And(j >= 1, j <= m, offv(t, B, i + 4, j1) <= z3.Length(B), z3.Or(offv(t, B, i + 4, j1) + 4 > z3.Length(B), offv(t, B, i + 4, j) > z3.Length(B)))))]
        return short + [('the position stays inside the data', inv(n, a[0]))]
    return Job(f'>> vector of {t}', rf'fr::Packet& fr::Packet::operator>><{ct}>\(vector<{ct}>&\)', setup, post, pre=pre, modifies=lambda v, a: [fix(v, a[0]), a[1]], throws=(OOR,), loops={'*': {'cands': cands}}, contracts=contracts('>> uint32_t') + (contracts('>> string') if t == 'string' else []))

# ------------------------------------------------------------------ pairs
PT = {'pair of uint8_t and string': ('unsigned char, string', 8), 'pair of string and uint32_t': ('string, unsigned int', 32)}
def pair_jobs():
    out = []
    for nm, (ct, w) in PT.items():
        first = ct.startswith('string'); so = 0 if first else 8; io = 32 if first else 0; n_ = w//8; prim = 'uint32_t' if first else 'uint8_t'
        def setup(ex, st, so=so, io=io, w=w):
            p = pk(ex, st); q = Ptr(ex.new_obj(st, 40, 'pair'), 0); sym_str(ex, st, Ptr(q.obj, so), 'str'); ex.setc(st, q.obj, io, w//8, sym_int(ex, st, w, 'num')); return [p, q]
        def enc(o, a, so=so, io=io, w=w, first=first, n_=n_):
            x = o.str(Ptr(a[1].obj, so)); i = be(o.bv(Ptr(a[1].obj, io), w), n_); s_ = [be32(z3.Length(x)), x]
            return z3.Concat(*(s_ + [i] if first else [i] + s_))
        out.append(Job('<< ' + nm, rf'fr::Packet& fr::Packet::operator<<<{ct}>\(pair<{ct}> const&\)', setup, wpost(enc), pre=pre, modifies=wmod, contracts=contracts('<< string', '<< ' + prim)))
        def post(o, n, a, r, k, so=so, io=io, w=w, first=first, n_=n_):
            B, i = buf(o, a[0]), ix(o, a[0]); si = i if first else i + n_; m = u32_at(B, z3.simplify(si)); ni = i + 4 + m if first else i; e = i + n_ + 4 + m
            if k == 'ret':
                return [('all its bytes were there', z3.And(left(o, a[0]) >= n_ + 4, e <= z3.Length(B))), ('the position moves past exactly its bytes', ix(n, a[0]) == e), ('the string is exactly the encoded bytes', n.str(Ptr(a[1].obj, so)) == sub(B, z3.simplify(si + 4), m)), ('the number is the encoded one', n.bv(Ptr(a[1].obj, io), w) == be_at(B, ni, n_)), ('returns the packet', isthis(None, a, r))]
            return [('out_of_range only when bytes are missing', z3.Or(left(o, a[0]) < n_ + 4, e > z3.Length(B))), ('the position stays inside the data', inv(n, a[0]))]
        out.append(Job('>> ' + nm, rf'fr::Packet& fr::Packet::operator>><{ct}>\(pair<{ct}>&\)', setup, post, pre=pre, modifies=lambda v, a, so=so, io=io, w=w: [fix(v, a[0]), Ptr(a[1].obj, so), ('int', Ptr(a[1].obj, io), w)], throws=(OOR,), contracts=contracts('>> string', '>> ' + prim)))
    return out

# ------------------------------------------------------------------ maps of strings
from ..lib import Pair, pfst, psnd
PAIRS = z3.SeqSort(Pair)
def _encm(q, k): e = q[z3.simplify(k-1)]; return z3.If(k <= 0, z3.Empty(SEQ), z3.Concat(ENCM(q, z3.simplify(k-1)), be32(z3.Length(pfst(e))), pfst(e), be32(z3.Length(psnd(e))), psnd(e)))
ENCM = Rec('ENCM', [PAIRS, z3.IntSort()], SEQ, body=_encm, depth=1)
BA = z3.ArraySort(SEQ, z3.BoolSort()); SA = z3.ArraySort(SEQ, SEQ)
def mkey(b, p): return sub(b, p + 4, u32_at(b, p))
def mval(b, p): q = z3.simplify(p + 4) + u32_at(b, p); return sub(b, q + 4, u32_at(b, q)), q
def _offm(b, o, k): p = OFFM(b, o, z3.simplify(k-1)); v, q = mval(b, p); return z3.If(k <= 0, o, q + 4 + u32_at(b, q))
OFFM = Rec('OFFM', [SEQ, z3.IntSort(), z3.IntSort()], z3.IntSort(), body=_offm, depth=1)
def _domm(d, b, o, k): p = OFFM(b, o, z3.simplify(k-1)); return z3.If(k <= 0, d, z3.Store(DOMM(d, b, o, z3.simplify(k-1)), mkey(b, p), True))
DOMM = Rec('DOMM', [BA, SEQ, z3.IntSort(), z3.IntSort()], BA, body=_domm, depth=1)
def _valm(d, w, b, o, k):
    k1 = z3.simplify(k-1); p = OFFM(b, o, k1); x = mkey(b, p); w1 = VALM(d, w, b, o, k1)
    return z3.If(k <= 0, w, z3.If(z3.Select(DOMM(d, b, o, k1), x), w1, z3.Store(w1, x, mval(b, p)[0])))
VALM = Rec('VALM', [BA, SA, SEQ, z3.IntSort(), z3.IntSort()], SA, body=_valm, depth=1)
def map_obj(ex, st, ty):
    p = Ptr(ex.new_obj(st, 56 if ty.startswith('un') else 48, 'map'), 0); sym_map(ex, st, p, ty, 'map'); return p
def mwrite(ty):
    ctx = {}; T = re.escape(ty)
    def setup(ex, st):
        p = pk(ex, st); q = map_obj(ex, st, ty); ctx['B'] = buf(View(ex, st), p); ctx['q'] = View(ex, st).map(q).ord; return [p, q]
    def cands(l):
        out = []
        for q in l.strs(mod=True):
            for n, f in idxs(l):
                def g(S, q=q, f=f):
                    k = f(S)
                    return None if k is None else q.seq(S) == z3.Concat(ctx['B'], be32(z3.Length(ctx['q'])), ENCM(ctx['q'], k))
                out.append((f'{q} holds the encoding of the entries before {n}', g))
        return out
    return Job(f'<< {ty}', rf'fr::Packet& fr::Packet::operator<<<string, string>\({T} const&\)', setup, wpost(lambda o, a: z3.Concat(be32(z3.Length(o.map(a[1]).ord)), ENCM(o.map(a[1]).ord, z3.Length(o.map(a[1]).ord)))),
       pre=pre, modifies=wmod, loops={'*': {'cands': cands}}, contracts=contracts('<< uint32_t', '<< string'))
def mread(ty):
    ctx = {}; T = re.escape(ty)
    def setup(ex, st):
        p = pk(ex, st); v = View(ex, st); ctx['B'] = buf(v, p); ctx['i'] = ix(v, p); q = map_obj(ex, st, ty); ctx['m'] = v.map(q); return [p, q]
    def cands(l):
        out = []; o = ctx['i'] + 4; B = ctx['B']; m0 = ctx['m']
        for n, f in idxs(l):
            for q in l.maps(mod=True):
                out.append((f'keys of {q} are those before {n}', lambda S, q=q, f=f: (lambda k: None if k is None else q.val(S).dom == DOMM(m0.dom, B, o, k))(f(S))))
                out.append((f'values of {q} are those before {n}', lambda S, q=q, f=f: (lambda k: None if k is None else q.val(S).val == VALM(m0.dom, m0.val, B, o, k))(f(S))))
            for w in l.ints(mod=True):
                out.append((f'{w} is where the entries before {n} end', lambda S, w=w, f=f: (lambda k: None if k is None else w.int(S) == OFFM(B, o, k))(f(S))))
        for w in l.ints(mod=True): out.append((f'{w} within the contents', lambda S, w=w: w.int(S) <= z3.Length(ctx['B'])))
        return out
    def post(o, n, a, r, k):
        B, i = buf(o, a[0]), ix(o, a[0]); m = u32_at(B, i); m0 = o.map(a[1]); m1 = n.map(a[1])
        if k == 'ret':
            e = OFFM(B, i + 4, m)
            return [('all its bytes were there', z3.And(left(o, a[0]) >= 4, e <= z3.Length(B))), ('the position moves past exactly its bytes', ix(n, a[0]) == e), ('the keys are the encoded ones besides those already there', m1.dom == DOMM(m0.dom, B, i + 4, m)), ('the values are the encoded ones, the first of a key', m1.val == VALM(m0.dom, m0.val, B, i + 4, m)), ('returns the packet', isthis(None, a, r))]
        return [('the position stays inside the data', inv(n, a[0]))]
    return Job(f'>> {ty}', rf'fr::Packet& fr::Packet::operator>><string, string>\({T}&\)', setup, post, pre=pre, modifies=lambda v, a: [fix(v, a[0]), a[1]], throws=(OOR,), loops={'*': {'cands': cands}}, contracts=contracts('>> uint32_t', '>> string'))
MT = ('map<string, string>', 'unordered_map<string, string>')
