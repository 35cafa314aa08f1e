"""Assumed contracts (models) of the C++ standard library, the compiler runtime and simple libc functions.
Every model used in a run is listed in the evidence as an assumption."""
import re
import z3
from .sym import *
from .spec import Rec
from .llir import I8, I32, I64, PTR

MODELS = []
def m(*rxs):
    def d(f):
        for r in rxs: MODELS.append((re.compile(r), f))
        return f
    return d
S = r'string'
NEXT = object()      # model does not apply: inline the body

# ------------------------------------------------------------------ spec level functions shared by code models and contracts
I_ = z3.IntSort()
def _low(c): return z3.If(z3.And(z3.UGE(c, 65), z3.ULE(c, 90)), c + 32, c)
LOWER = Rec('LOWER', [SEQ], SEQ, length=lambda s: slen(s))
def lower(s):
    c = as_const(s)
    if c is not None: return lit(c.lower())
    return LOWER(s)
DEC = Rec('DEC', [I_], SEQ, facts=lambda n: [z3.Length(DEC(n)) >= 1, z3.Length(DEC(n)) <= 20, z3.Implies(n >= 0, z3.And(STOK('u', 10)(DEC(n)) == 0, STOV('u', 10)(DEC(n)) == n))])
def dec(n):
    c = conc_int(n)
    if c is not None: return lit(str(c))
    return DEC(n)
_sto = {}
def STOK(kind, base):
    """outcome of the conversion: 0 converted, 1 no digits (invalid_argument), 2 out of range"""
    n = f'STOK_{kind}{base}'
    if n not in _sto: _sto[n] = z3.Function(n, SEQ, I_); UFRANGE[n] = (0, 2)
    return _sto[n]
def STOV(kind, base):
    n = f'STOV_{kind}{base}'
    if n not in _sto:
        _sto[n] = z3.Function(n, SEQ, I_); UFRANGE[n] = (0, NPOS) if kind == 'u' else (0, (1 << 32)-1)
    return _sto[n]
NF = {}
def FNOT(chars):
    """first position >= p whose byte is not in chars, -1 if none"""
    chars = bytes(sorted(set(chars))); n = 'FNOT_' + chars.hex()
    if n not in NF:
        ins = lambda c: z3.Or([c == b for b in chars])
        NF[n] = Rec(n, [SEQ, I_], I_, rng=(-1, MAXLEN), depth=1, facts=lambda s, p: (lambda r: [z3.Implies(r >= 0, z3.And(r >= p, r < z3.Length(s), z3.Not(ins(s[r])))),
              z3.Implies(z3.And(r > p, p >= 0), ins(s[p])), z3.Implies(z3.And(r < 0, p >= 0, p < z3.Length(s)), ins(s[p])), z3.Implies(z3.And(p >= 0, p < z3.Length(s), z3.Not(ins(s[p]))), r == p)])(NF[n](s, p)))
    return NF[n]
def FOF(chars):
    chars = bytes(sorted(set(chars))); n = 'FOF_' + chars.hex()
    if n not in NF:
        ins = lambda c: z3.Or([c == b for b in chars])
        NF[n] = Rec(n, [SEQ, I_], I_, rng=(-1, MAXLEN), depth=1, facts=lambda s, p: (lambda r: [z3.Implies(r >= 0, z3.And(r >= p, r < z3.Length(s), ins(s[r]))),
              z3.Implies(z3.And(r > p, p >= 0), z3.Not(ins(s[p]))), z3.Implies(z3.And(r < 0, p >= 0, p < z3.Length(s)), z3.Not(ins(s[p])))])(NF[n](s, p)))
    return NF[n]
def FIND(w):
    """first position >= p at which the constant w occurs, -1 if none"""
    if len(w) == 1: return FOF(w)
    n = 'FIND_' + w.hex()
    if n not in NF:
        at = lambda s, i: z3.And([s[simp(i+j)] == c for j, c in enumerate(w)])
        NF[n] = Rec(n, [SEQ, I_], I_, rng=(-1, MAXLEN), depth=1, facts=lambda s, p: (lambda r: [z3.Implies(r >= 0, z3.And(r >= p, r + len(w) <= z3.Length(s), at(s, r))),
              z3.Implies(z3.And(p >= 0, p + len(w) <= z3.Length(s), at(s, p)), r == p)])(NF[n](s, p)))
    return NF[n]
LASTOF = {}
def FLAST(ch):
    n = f'FLAST_{ch:02x}'
    if n not in NF:
        NF[n] = Rec(n, [SEQ], I_, rng=(-1, MAXLEN), depth=1, facts=lambda s: (lambda r: [z3.Implies(r >= 0, z3.And(r < z3.Length(s), s[r] == ch, z3.Not(z3.Contains(sub(s, r+1, z3.Length(s)-r-1), lit(bytes([ch])))))),
              z3.Implies(r < 0, z3.Not(z3.Contains(s, lit(bytes([ch])))))])(NF[n](s)))
    return NF[n]
def RFIND(w):
    """last position at which the constant w occurs, -1 if none"""
    n = 'RFIND_' + w.hex()
    if n not in NF:
        at = lambda s, i: z3.And([s[simp(i+j)] == c for j, c in enumerate(w)])
        NF[n] = Rec(n, [SEQ], I_, rng=(-1, MAXLEN), depth=1, facts=lambda s: (lambda r: [z3.Implies(r >= 0, z3.And(r + len(w) <= z3.Length(s), at(s, r))), z3.Implies(z3.And(z3.Length(s) >= len(w), at(s, z3.Length(s) - len(w))), r == z3.Length(s) - len(w))])(NF[n](s)))
    return NF[n]
CSTR = Rec('CSTR', [SEQ], SEQ, depth=1, facts=lambda s: [z3.Length(CSTR(s)) <= z3.Length(s), z3.PrefixOf(CSTR(s), s), z3.Implies(z3.Not(z3.Contains(s, lit(b'\0'))), CSTR(s) == s)])
SEQLT = z3.Function('SEQLT', SEQ, SEQ, z3.BoolSort())

# ------------------------------------------------------------------ helpers
def fork(ex, st, cond):
    """(state where cond, state where not cond); None when infeasible"""
    if isinstance(cond, bool): return (st, None) if cond else (None, st)
    t = f = None
    for s2, b in ex.branch(st, Bo(cond)):
        if b: t = s2
        else: f = s2
    return t, f
def out(st, v=None): return [(st, 'ret', v)]
def thr(st, ty): return [(st, 'throw', Throw_(ty))]
def Throw_(ty):
    from .exec import Throw
    return Throw(ty)
def fact(ex, st, b): st.assume(b)

NONUL = set()      # constants assumed to contain no NUL
def flat(q): return [y for x in q.children() for y in flat(x)] if q.decl().kind() == z3.Z3_OP_SEQ_CONCAT else [q]
def cstr(ex, st, p):
    """content of the C string at p"""
    if not isinstance(p, Ptr) or p.null: ex.oblige(st, False, 'null C string'); return lit(b'')
    p = ex.elem(st, p)
    c = ex.cells(st, p.obj).get(p.off); l = c[1] if c else None
    if p.idx is None and not isinstance(l, (Str, Buf)):
        b = ex.byte_at(ex.cells(st, p.obj), p.off)
        if b is not None and b.conc and b.c == 0: return lit(b'')
    if p.idx is None or not isinstance(l, (Str, Buf)): raise Unsupported('C string from scalars')
    q = l.s if conc_int(p.idx) == 0 else sub(l.s, p.idx, slen(l.s) - p.idx)
    b = as_const(l.s)
    i = conc_int(p.idx)
    if b is not None and i is not None: return lit(b[i:].split(b'\0')[0])
    if i is not None:
        acc = []
        for x in flat(q):
            if conc_int(simp(slen(x))) == 0: continue
            c2 = as_const(x)
            if c2 is not None:
                if 0 in c2: return cat(*acc, lit(c2.split(b'\0')[0])) if acc else lit(c2.split(b'\0')[0])
                acc.append(x)
            elif x.decl().arity() == 0 and x.decl().name() in NONUL: acc.append(x)
            else: break
    if isinstance(l, Str): 
        return CSTR(q)
    r = CSTR(q)
    ex.oblige(st, slen(r) < slen(q), 'C string is terminated inside its buffer')
    return r
def strlenfact(st, q): return st

def put_str(ex, st, p, q):
    if not isinstance(p, Ptr) or p.null: raise Unsupported('string destination')
    ex.set_leaf(st, p, Str(q))
def toolong(ex, st, n):
    """split off the length_error outcome of growing a string to n bytes"""
    lo, hi = rng(simp(iv(n)))
    if hi is not None and hi <= MAXLEN: return st, None
    return fork(ex, st, iv(n) <= MAXLEN)

def newstr(ex, st, p, q): put_str(ex, st, p, q); return None
def snapshot(ex, st, q):
    o = ex.new_obj(st, 32, 'snap'); st.mem[o] = {0: (32, Str(q))}; return Ptr(o, 0)
def chars(ex, st, p):
    """pointer whose (obj,off) directly holds the string"""
    if p.idx is None: return p
    r = snapshot(ex, st, ex.str(st, p)); ex.snap_of = {**ex.snap_of, r.obj: p}; return r     # read only copy of a string inside a container
def byte(v): return v.bv()
def u(v): return v.int() if isinstance(v, IV) else iv(0)

# ------------------------------------------------------------------ std::string
@m(r'string::basic_string\(\)', r'string::basic_string\(allocator<char> const&\)')
def s_ctor0(ex, st, a, mm, I): return newstr(ex, st, a[0], lit(b''))
@m(r'string::basic_string\(string const&\)', r'string::operator=\(string const&\)', r'string::assign\(string const&\)', r'string::basic_string\(string const&, allocator<char> const&\)')
def s_copy(ex, st, a, mm, I):
    put_str(ex, st, a[0], ex.str(st, a[1])); return a[0]
@m(r'string::basic_string\(string&&\)', r'string::operator=\(string&&\)', r'string::assign\(string&&\)')
def s_move(ex, st, a, mm, I):
    q = ex.str(st, a[1])
    if isinstance(a[0], Ptr) and a[0].key() == a[1].key() and a[0].idx is None and a[1].idx is None: return a[0]
    put_str(ex, st, a[1], lit(b'')) if a[1].idx is None or True else None
    put_str(ex, st, a[0], q); return a[0]
@m(r'string::basic_string(?:<.*>)?\(char const\*(?: const&)?(?:, allocator<char> const&)?\)', r'string::operator=\(char const\*\)', r'string::assign\(char const\*\)')
def s_cstr(ex, st, a, mm, I): put_str(ex, st, a[0], cstr(ex, st, a[1])); return a[0]
@m(r'string::basic_string\(char const\*, unsigned long(?: const&)?(?:, allocator<char> const&)?\)', r'string::assign\(char const\*, unsigned long\)')
def s_bytes(ex, st, a, mm, I): put_str(ex, st, a[0], ex.read_seq(st, a[1], num(a[2]), 'string from bytes')); return a[0]
@m(r'string::basic_string\(unsigned long(?: const&)?, char(?: const&)?(?:, allocator<char> const&)?\)', r'string::assign\(unsigned long, char\)')
def s_fill(ex, st, a, mm, I): put_str(ex, st, a[0], REP(num(a[1]), a[2])); return a[0]
@m(r'string::basic_string\(string const&, unsigned long(?:, unsigned long)?\)')
def s_sub(ex, st, a, mm, I): return substr(ex, st, a[0], ex.str(st, a[1]), u(a[2]), u(a[3]) if len(a) > 3 else z3.IntVal(NPOS))
@m(r'string::basic_string<.*normal_iterator.*>\(.*\)', r'string::basic_string<char(?: const)?\*.*>\(char(?: const)?\*, char(?: const)?\*.*\)')
def s_range(ex, st, a, mm, I):
    n = pdiff(ex, st, a[2], a[1]); put_str(ex, st, a[0], ex.read_seq(st, a[1], n, 'string from range')); return a[0]
@m(r'string::~basic_string\(\)')
def s_dtor(ex, st, a, mm, I): return None
@m(r'string::operator=\(char\)')
def s_setc(ex, st, a, mm, I): put_str(ex, st, a[0], z3.Unit(byte(a[1]))); return a[0]
@m(r'string::(?:size|length)\(\) const')
def s_size(ex, st, a, mm, I): return II(simp(slen(ex.str(st, a[0]))), 64)
@m(r'string::(?:capacity|max_size)\(\) const')
def s_cap(ex, st, a, mm, I): raise Unsupported('capacity')
@m(r'string::empty\(\) const')
def s_empty(ex, st, a, mm, I): return Bo(simp(slen(ex.str(st, a[0])) == 0))
@m(r'string::(?:c_str|data)\(\)(?: const)?', r'string::(?:c?begin)\(\)(?: const)?')
def s_data(ex, st, a, mm, I):
    p = chars(ex, st, a[0]); ex.leaf(st, p, Str); return Ptr(p.obj, p.off, 0, 1, 0)
@m(r'string::c?end\(\)(?: const)?')
def s_end(ex, st, a, mm, I):
    p = chars(ex, st, a[0]); n = simp(slen(ex.str(st, p))); c = conc_int(n)
    return Ptr(p.obj, p.off, n if c is None else c, 1, 0)
@m(r'string::operator\[\]\(unsigned long\)(?: const)?')
def s_idx(ex, st, a, mm, I):
    p = chars(ex, st, a[0]); i = num(a[1]); n = slen(ex.str(st, p))
    ex.oblige(st, iv(i) <= n, 'string index inside the string')
    return Ptr(p.obj, p.off, i, 1, 0)
@m(r'string::at\(unsigned long\)(?: const)?')
def s_at(ex, st, a, mm, I):
    p = chars(ex, st, a[0]); i = num(a[1]); n = slen(ex.str(st, p))
    t, f = fork(ex, st, iv(i) < n); r = []
    if t: r += out(t, Ptr(p.obj, p.off, i, 1, 0))
    if f: r += thr(f, 'std::out_of_range')
    return r
@m(r'string::front\(\)(?: const)?')
def s_front(ex, st, a, mm, I):
    p = chars(ex, st, a[0]); ex.oblige(st, slen(ex.str(st, p)) > 0, 'front() of a non-empty string'); return Ptr(p.obj, p.off, 0, 1, 0)
@m(r'string::back\(\)(?: const)?')
def s_back(ex, st, a, mm, I):
    p = chars(ex, st, a[0]); n = slen(ex.str(st, p)); ex.oblige(st, n > 0, 'back() of a non-empty string'); return Ptr(p.obj, p.off, simp(n-1), 1, 0)
@m(r'string::pop_back\(\)')
def s_popb(ex, st, a, mm, I):
    q = ex.str(st, a[0]); n = slen(q); ex.oblige(st, n > 0, 'pop_back() of a non-empty string'); put_str(ex, st, a[0], sub(q, 0, n-1))
@m(r'string::clear\(\)')
def s_clear(ex, st, a, mm, I): put_str(ex, st, a[0], lit(b''))
@m(r'string::(?:reserve|shrink_to_fit)\((?:unsigned long)?\)')
def s_reserve(ex, st, a, mm, I):
    if len(a) < 2: return None
    t, f = toolong(ex, st, u(a[1])); r = []
    if t: r += out(t)
    if f: r += thr(f, 'std::length_error')
    return r
def app(ex, st, p, q):
    put_str(ex, st, p, cat(ex.str(st, p), q)); return p
@m(r'string::(?:append|operator\+=)\(string const&\)')
def s_app(ex, st, a, mm, I): return app(ex, st, a[0], ex.str(st, a[1]))
@m(r'string::(?:append|operator\+=)\(char const\*\)')
def s_appc(ex, st, a, mm, I): return app(ex, st, a[0], cstr(ex, st, a[1]))
@m(r'string::append\(char const\*, unsigned long\)')
def s_appn(ex, st, a, mm, I): return app(ex, st, a[0], ex.read_seq(st, a[1], num(a[2]), 'append'))
@m(r'string::append\(unsigned long, char\)')
def s_appf(ex, st, a, mm, I): return app(ex, st, a[0], REP(num(a[1]), a[2]))
@m(r'string::append\(string const&, unsigned long, unsigned long\)')
def s_apps(ex, st, a, mm, I):
    q = ex.str(st, a[1]); r = []
    o = ex.new_obj(st, 32, 't'); st.mem[o] = {}
    for s2, k, v in substr(ex, st, Ptr(o, 0), q, u(a[2]), u(a[3])):
        if k == 'ret': r.append((s2, 'ret', app(ex, s2, a[0], ex.str(s2, Ptr(o, 0)))))
        else: r.append((s2, k, v))
    return r
@m(r'string& string::append<.*>\(.*\)')
def s_appr(ex, st, a, mm, I): return app(ex, st, a[0], ex.read_seq(st, a[1], pdiff(ex, st, a[2], a[1]), 'append range'))
@m(r'string::operator\+=\(char\)')
def s_appch(ex, st, a, mm, I): return app(ex, st, a[0], z3.Unit(byte(a[1])))
@m(r'string::push_back\(char\)')
def s_push(ex, st, a, mm, I): app(ex, st, a[0], z3.Unit(byte(a[1]))); return None
@m(r'string::swap\(string&\)')
def s_swap(ex, st, a, mm, I):
    x, y = ex.str(st, a[0]), ex.str(st, a[1]); put_str(ex, st, a[0], y); put_str(ex, st, a[1], x)
def REP(n, ch):
    c = conc_int(n)
    if c is not None and c <= 256: return cat(lit(b''), *[z3.Unit(byte(ch))]*c)
    q = z3.Const(fresh_name('rep'), SEQ)
    raise_facts.append((q, n, ch)); return q
raise_facts = []
ZERO = Rec('ZEROS', [I_], SEQ, length=lambda n: z3.If(n > 0, n, 0), depth=2)
# ------------------------------------------------------------------ input streams over a string: the leaf at ISS is what is left to read
ISS, ISG = 16, 8
@m(r'basic_istringstream<.*>::basic_istringstream\(string const&(?:, _Ios_Openmode)?\)')
def iss_ctor(ex, st, a, mm, I): ex.setc(st, a[0].obj, a[0].off + ISS, 32, Str(ex.str(st, a[1]))); ex.setc(st, a[0].obj, a[0].off + ISG, 8, K(64, 0)); return None
@m(r'basic_istringstream<.*>::~basic_istringstream\(\)')
def iss_dtor(ex, st, a, mm, I): return None
@m(r'istream::read\(char\*, long\)')
def is_read(ex, st, a, mm, I):
    p = Ptr(a[0].obj, a[0].off + ISS); rest = ex.str(st, p); L = slen(rest); n = iv(num(a[2])); outs = []
    def take(t, k, whole):
        q = rest if whole else sub(rest, 0, k)
        ex.write_seq(t, a[1], q, k, 'read from stream'); ex.setc(t, p.obj, p.off, 32, Str(lit(b'') if whole else sub(rest, k, L - k))); ex.setc(t, p.obj, a[0].off + ISG, 8, II(simp(k)))
        return out(t, a[0])
    ex.oblige(st, n < 1 << 63, 'read from stream: not a negative amount')
    full, short_ = fork(ex, st, L >= n)
    if full: outs += take(full, n, False)
    if short_: outs += take(short_, L, True)
    return outs
@m(r'istream::gcount\(\) const')
def is_gcount(ex, st, a, mm, I): return ex.load(st, Ptr(a[0].obj, a[0].off + ISG), I64)
@m(r'string::resize\(unsigned long(?:, char)?\)')
def s_resize(ex, st, a, mm, I):
    q = ex.str(st, a[0]); n = num(a[1]); L = slen(q); r = []
    t, f = fork(ex, st, iv(n) <= MAXLEN)
    if f: r += thr(f, 'std::length_error')
    if not t: return r
    st = t
    t, f = fork(ex, st, iv(n) <= L)
    if t:
        put_str(ex, t, a[0], lit(b'') if conc_int(n) == 0 else q if ex.entails(t, iv(n) == L) else sub(q, 0, n)); r += out(t)
    if f:
        if len(a) > 2 and not (a[2].conc and a[2].c == 0): raise Unsupported('resize with a fill character')
        d = simp(iv(n) - L)
        put_str(ex, f, a[0], cat(q, ZERO(d) if conc_int(d) is None or conc_int(d) > 64 else lit(b'\0'*conc_int(d)))); r += out(f)
    return r
def plen(ex, st, p):
    """length of a piece, using what the path says about extractions"""
    if p.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
        b, a, n = p.children()
        if ex.entails(st, z3.And(a >= 0, n >= 0, a + n <= slen(b))): return n
    return slen(p)
def nsub(ex, st, q, a, n):
    """sub(q, a, n) for a range inside q, pushed into the pieces of a concatenation and through nested extractions"""
    ps = flatten(q); a, n = simp(iv(a)), simp(iv(n))
    if len(ps) == 1:
        if q.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
            b, i, m_ = q.children()
            if ex.entails(st, z3.And(i >= 0, i + m_ <= slen(b), a + n <= m_)): return nsub(ex, st, b, simp(i + a), n)
        return sub(q, a, n)
    if len(ps) > 6 or not any(p.decl().kind() == z3.Z3_OP_SEQ_EXTRACT for p in ps): return sub(q, a, n)
    at = [z3.IntVal(0)]
    for p in ps: at.append(simp(at[-1] + plen(ex, st, p)))
    e = simp(a + n)
    def where(x):      # index of the piece which holds boundary x
        for k in range(len(ps)):
            if ex.entails(st, x <= at[k+1]): return k
            if not ex.entails(st, x >= at[k+1]): return None
        return None
    i, j = where(a), where(e)
    if i is None or j is None: return sub(q, a, n)
    out = []
    for k in range(i, j+1):
        lo = a - at[k] if k == i else iv(0); hi = e - at[k] if k == j else at[k+1] - at[k]
        lo, hi = simp(lo), simp(hi); w = simp(hi - lo)
        if conc_int(w) == 0: continue
        if conc_int(lo) == 0 and simp(hi - (at[k+1] - at[k])).eq(z3.IntVal(0)): out.append(ps[k])
        else: out.append(nsub(ex, st, ps[k], lo, w))
    return cat(*out) if out else z3.Empty(q.sort())
def substr(ex, st, dst, q, pos, n):
    L = slen(q); r = []
    t, f = fork(ex, st, pos <= L)
    if f: r += thr(f, 'std::out_of_range')
    if t:
        cn = conc_int(n)
        if conc_int(pos) == 0 and (cn is not None and cn > MAXLEN or ex.entails(t, n >= L)): v = q
        elif cn is not None and cn > MAXLEN or ex.entails(t, pos + n >= L): v = sub(q, pos, L - pos)
        elif ex.entails(t, pos + n <= L): v = sub(q, pos, n)
        else: v = sub(q, pos, z3.If(n < L - pos, n, L - pos))
        c = as_const(q)
        if c is not None and conc_int(pos) is not None and cn is not None: v = lit(c[conc_int(pos):][:cn])
        put_str(ex, t, dst, v); r += out(t)
    return r
@m(r'string::substr\(unsigned long, unsigned long\) const')
def s_substr(ex, st, a, mm, I): return substr(ex, st, a[0], ex.str(st, a[1]), u(a[2]), u(a[3]))
@m(r'string::erase\(unsigned long, unsigned long\)')
def s_erase(ex, st, a, mm, I):
    q = ex.str(st, a[0]); pos = u(a[1]); n = u(a[2]); L = slen(q); r = []
    t, f = fork(ex, st, pos <= L)
    if f: r += thr(f, 'std::out_of_range')
    if t:
        cn = conc_int(n)
        if cn is not None and cn > MAXLEN or ex.entails(t, pos + n >= L): v = lit(b'') if conc_int(pos) == 0 else sub(q, 0, pos)
        else:
            e = pos + n if ex.entails(t, pos + n <= L) else z3.If(n < L - pos, pos + n, L)
            e = simp(e)
            v = nsub(ex, st, q, e, L - e) if conc_int(pos) == 0 else cat(nsub(ex, st, q, iv(0), pos), nsub(ex, st, q, e, L - e))
        put_str(ex, t, a[0], v); r += out(t, a[0])
    return r
@m(r'string::erase\(__gnu_cxx::__normal_iterator<char const\*, string>, __gnu_cxx::__normal_iterator<char const\*, string>\)')
def s_eraser(ex, st, a, mm, I):
    q = ex.str(st, a[0]); i, j = iv(a[1].idx), iv(a[2].idx); L = slen(q)
    ex.oblige(st, z3.And(i >= 0, i <= j, j <= L), 'erase range inside the string')
    put_str(ex, st, a[0], cat(sub(q, 0, i), sub(q, j, L - j))); return Ptr(a[1].obj, a[1].off, a[1].idx, 1, 0)
@m(r'string::insert\(unsigned long, (string const&|char const\*)\)')
def s_insert(ex, st, a, mm, I):
    q = ex.str(st, a[0]); pos = u(a[1]); L = slen(q); r = []
    w = ex.str(st, a[2]) if mm.group(1).startswith('string') else cstr(ex, st, a[2])
    t, f = fork(ex, st, pos <= L)
    if f: r += thr(f, 'std::out_of_range')
    if t: put_str(ex, t, a[0], cat(w, q) if conc_int(pos) == 0 else cat(sub(q, 0, pos), w, sub(q, pos, L-pos))); r += out(t, a[0])
    return r
def found(ex, st, idx, facts=()):
    """fork a search result (Int, -1 = not found)"""
    t, f = fork(ex, st, idx >= 0); r = []
    if t:
        for x in facts: t.assume(x)
        r += out(t, II(idx, 64))
    if f: r += out(f, K(64, NPOS))
    return r
def do_find(ex, st, q, w, pos):
    wc = as_const(w); qc = as_const(q); pc = conc_int(pos)
    if wc is not None and qc is not None and pc is not None: return out(st, K(64, qc.find(wc, pc) if pc <= len(qc) else -1))
    if pc is not None and pc > MAXLEN: return out(st, K(64, NPOS))
    if wc:
        f = FIND(wc); pos = simp(iv(pos)); idx = f(q, pos)
        for x in REC_facts(f, q, pos): st.assume(x)
        return found(ex, st, idx)
    idx = z3.IndexOf(q, w, iv(pos))
    n = slen(w)
    return found(ex, st, idx, [idx >= iv(pos), idx + n <= slen(q), sub(q, idx, n) == w])
@m(r'string::find\((char|char const\*|string const&), unsigned long\) const')
def s_find(ex, st, a, mm, I):
    q = ex.str(st, a[0]); k = mm.group(1)
    w = z3.Unit(byte(a[1])) if k == 'char' else cstr(ex, st, a[1]) if k == 'char const*' else ex.str(st, a[1])
    return do_find(ex, st, q, w, u(a[2]))
@m(r'string::find\(char const\*, unsigned long, unsigned long\) const')
def s_findn(ex, st, a, mm, I): return do_find(ex, st, ex.str(st, a[0]), ex.read_seq(st, a[1], num(a[3]), 'find'), u(a[2]))
def charset(ex, st, v, k):
    if k == 'char':
        if not v.conc: raise Unsupported('search for a symbolic character set')
        return bytes([v.c])
    b = as_const(cstr(ex, st, v) if k == 'char const*' else ex.str(st, v))
    if b is None: raise Unsupported('search for a symbolic character set')
    return bytes(sorted(set(b)))
@m(r'string::find_first_not_of\((char|char const\*|string const&), unsigned long\) const')
def s_ffno(ex, st, a, mm, I):
    q = ex.str(st, a[0]); pos = u(a[2]); f = FNOT(charset(ex, st, a[1], mm.group(1)))
    idx = f(q, pos)
    for x in REC_facts(f, q, pos): st.assume(x)
    return found(ex, st, idx)
@m(r'string::find_first_of\((char|char const\*|string const&), unsigned long\) const')
def s_ffo(ex, st, a, mm, I):
    q = ex.str(st, a[0]); pos = u(a[2]); cs = charset(ex, st, a[1], mm.group(1))
    if len(cs) == 1: return do_find(ex, st, q, lit(cs), pos)
    f = FOF(cs)
    for x in REC_facts(f, q, pos): st.assume(x)
    return found(ex, st, f(q, pos))
@m(r'string::(?:find_last_of|rfind)\(char, unsigned long\) const')
def s_flo(ex, st, a, mm, I):
    if not (a[1].conc and a[2].conc and a[2].c == NPOS): raise Unsupported('find_last_of')
    q = ex.str(st, a[0]); f = FLAST(a[1].c)
    for x in REC_facts(f, q): st.assume(x)
    return found(ex, st, f(q))
@m(r'string::(?:find_last_of)\(char const\*, unsigned long\) const')
def s_flo2(ex, st, a, mm, I):
    b = as_const(cstr(ex, st, a[1]))
    if b is None or len(b) != 1: raise Unsupported('find_last_of')
    return s_flo(ex, st, [a[0], K(8, b[0]), a[2]], mm, I)
@m(r'string::rfind\(char const\*, unsigned long\) const')
def s_rfind0(ex, st, a, mm, I):
    q = ex.str(st, a[0]); w = cstr(ex, st, a[1])
    if a[2].conc and a[2].c == 0: return out(st, II(z3.If(z3.PrefixOf(w, q), z3.IntVal(0), z3.IntVal(NPOS)), 64))
    wc = as_const(w)
    if not wc or not (a[2].conc and a[2].c == NPOS): raise Unsupported('rfind')
    f = RFIND(wc)
    for x in REC_facts(f, q): st.assume(x)
    return found(ex, st, f(q))
def REC_facts(r, *args): return r.facts(*args) if r.facts else []
@m(r'string::compare\(unsigned long, unsigned long, (char const\*|string const&)\) const')
def s_cmp3(ex, st, a, mm, I):
    q = ex.str(st, a[0]); pos = u(a[1]); n = u(a[2]); w = cstr(ex, st, a[3]) if mm.group(1)[0] == 'c' else ex.str(st, a[3]); L = slen(q); r = []
    t, f = fork(ex, st, pos <= L)
    if f: r += thr(f, 'std::out_of_range')
    if t:
        if ex.entails(t, pos + n <= L): part = sub(q, pos, n)
        elif ex.entails(t, pos + n >= L): part = sub(q, pos, L - pos)
        else: part = sub(q, pos, z3.If(n < L - pos, n, L - pos))
        r += out(t, cmpres(part, w))
    return r
@m(r'string::compare\((char const\*|string const&)\) const')
def s_cmp1(ex, st, a, mm, I):
    return cmpres(ex.str(st, a[0]), cstr(ex, st, a[1]) if mm.group(1)[0] == 'c' else ex.str(st, a[1]))
def cmpres(x, y):
    """result of a comparison: only its sign is specified"""
    return IB(z3.If(x == y, z3.BitVecVal(0, 32), z3.If(SEQLT(x, y), z3.BitVecVal(-1, 32), z3.BitVecVal(1, 32))))
@m(r'bool operator(==|!=)<char, char_traits<char>>\((string const&|char const\*), (string const&|char const\*)\)')
def s_eq(ex, st, a, mm, I):
    x = ex.str(st, a[0]) if mm.group(2)[0] == 's' else cstr(ex, st, a[0]); y = ex.str(st, a[1]) if mm.group(3)[0] == 's' else cstr(ex, st, a[1])
    e = seq_eq(x, y)
    return Bo(e if mm.group(1) == '==' else z3.Not(e))
def seq_eq(x, y):
    cx, cy = as_const(x), as_const(y)
    if cx is not None and cy is not None: return z3.BoolVal(cx == cy)
    for a, b in ((cx, y), (cy, x)):
        if a is not None:
            f = flatten(b)
            if all(z.decl().kind() == z3.Z3_OP_SEQ_UNIT for z in f):
                return z3.And([z.arg(0) == c for z, c in zip(f, a)]) if len(f) == len(a) else z3.BoolVal(False)
    return x == y
@m(r'bool operator(<|>|<=|>=)<char, char_traits<char>>\(string const&, string const&\)')
def s_lt(ex, st, a, mm, I): raise Unsupported('string order')
@m(r'string operator\+<char, char_traits<char>>\((.*?), (.*?)\)')
def s_plus(ex, st, a, mm, I):
    def g(v, t): return z3.Unit(byte(v)) if t == 'char' else cstr(ex, st, v) if t.startswith('char const') else ex.str(st, v)
    x, y = g(a[1], mm.group(1)), g(a[2], mm.group(2))
    if mm.group(1) == 'string&&': put_str(ex, st, a[1], lit(b''))
    elif mm.group(2) == 'string&&': put_str(ex, st, a[2], lit(b''))
    put_str(ex, st, a[0], cat(x, y))
@m(r'to_string\((int|long|unsigned int|unsigned long|long long|unsigned long long|unsigned|unsigned short)\)')
def s_tostr(ex, st, a, mm, I):
    v = a[1]
    if mm.group(1).startswith('unsigned'): q = dec(simp(v.int()))
    elif v.conc: q = lit(str(v.sc()))
    else:
        x = v.sint(); lo, hi = rng(x)
        if ex.entails(st, x >= 0): q = dec(x)
        else: q = z3.If(x >= 0, DEC(x), z3.Concat(lit(b'-'), DEC(-x)))
    put_str(ex, st, a[0], q)
@m(r'(?:__cxx11::)?(stoi|stol|stoll|stoul|stoull)\(string const&, unsigned long\*, int\)')
def s_sto(ex, st, a, mm, I):
    q = ex.str(st, a[0])
    if not (isinstance(a[1], Ptr) and a[1].null or isinstance(a[1], IV) and a[1].conc and a[1].c == 0): raise Unsupported('sto* with an end position')
    if not a[2].conc: raise Unsupported('sto* base')
    w = 32 if mm.group(1) == 'stoi' else 64
    kind = 'u' if mm.group(1).startswith('stou') else 'i' if w == 32 else 'l'
    ok = STOK(kind, a[2].c)(q); r = []
    t, f = fork(ex, st, ok == 0)
    if t: v = STOV(kind, a[2].c)(q); t.assume(z3.And(v >= 0, v < (1 << w))); r += out(t, IV(w, i=v))
    if f:
        f.assume(z3.And(ok >= 0, ok <= 2))
        g, h = fork(ex, f, ok == 1)
        if g: r += thr(g, 'std::invalid_argument')
        if h: r += thr(h, 'std::out_of_range')
    return r
def num(v):
    """python int or Int term"""
    if isinstance(v, IV): return v.c if v.conc else simp(v.int())
    raise Unsupported('number')
def pdiff(ex, st, b, a):
    if isinstance(a, IV) or isinstance(b, IV) or a.null or a.obj != b.obj: raise Unsupported('pointer range')
    b = ex.elem(st, b); a = ex.elem(st, a)
    if a.idx is None and b.idx is None: return b.off - a.off
    d = simp(iv(b.idx or 0) - iv(a.idx or 0)); ex.oblige(st, d >= 0, 'range is ordered')
    c = conc_int(d); return d if c is None else c
# streams: only written to for logging
@m(r'basic_ostream<.*', r'.*operator<< ?<.*basic_ostream.*', r'ostream::.*')
def ostr(ex, st, a, mm, I): return a[0] if a else None

@m(r'.* transform<__gnu_cxx::__normal_iterator<char\*, string>, __gnu_cxx::__normal_iterator<char\*, string>, int \(\*\)\(int\).*')
def transform(ex, st, a, mm, I):
    b, e, d, f = a[:4]
    if not (isinstance(f, FnP) and f.name in ('tolower', 'toupper')): return NEXT
    if f.name != 'tolower': return NEXT
    so = ex.snap_of; org = [so.get(x.obj) for x in (b, e, d)]
    same = b.key() == e.key() == d.key() or None not in org and all(o.key() == org[0].key() and o.sub == org[0].sub and iv(o.idx if not isinstance(o.idx, tuple) else o.idx[1]).eq(iv(org[0].idx if not isinstance(org[0].idx, tuple) else org[0].idx[1])) for o in org)
    if not (same and conc_int(b.idx) == 0 and conc_int(d.idx) == 0): return NEXT
    p = org[0] or Ptr(b.obj, b.off); q = ex.str(st, p)
    if org[0] is not None and not all(ex.str(st, Ptr(x.obj, 0)).eq(q) for x in (b, e, d)): return NEXT
    if not ex.entails(st, iv(e.idx) == slen(q)): return NEXT
    put_str(ex, st, p, lower(q)); return e

# ------------------------------------------------------------------ std::vector
ELK = {'string': ('str', 32, SEQ), 'pair<string, string>': ('pair', 64, Pair), 'unsigned int': ('i32', 4, z3.BitVecSort(32)), 'int': ('i32', 4, z3.BitVecSort(32)),
       'unsigned char': ('i8', 1, BYTE), 'char': ('i8', 1, BYTE), 'signed char': ('i8', 1, BYTE), 'unsigned long': ('i64', 8, z3.BitVecSort(64)), 'unsigned short': ('i16', 2, z3.BitVecSort(16))}
V = r'vector<(.*?)>::'
def elk(n):
    if n in ELK: return ELK[n]
    raise Unsupported('vector of ' + n)
def vec(ex, st, p): return ex.leaf(st, p, Vec, 'vector')
@m(V + r'vector\(\)')
def v_ctor(ex, st, a, mm, I):
    k = elk(mm.group(1)); ex.setc(st, a[0].obj, a[0].off, 24, Vec(z3.Empty(z3.SeqSort(k[2])), k[0], k[1]))
@m(V + r'vector\(vector<.*>&&\)', V + r'operator=\(vector<.*>&&\)')
def v_move(ex, st, a, mm, I):
    v = vec(ex, st, a[1]); ex.set_leaf(st, a[0], v); ex.set_leaf(st, a[1], Vec(z3.Empty(v.s.sort()), v.el, v.es)); return a[0]
@m(V + r'vector\(vector<.*> const&\)', V + r'operator=\(vector<.*> const&\)')
def v_copy(ex, st, a, mm, I): ex.set_leaf(st, a[0], vec(ex, st, a[1])); return a[0]
@m(V + r'~vector\(\)')
def v_dtor(ex, st, a, mm, I): return None
@m(V + r'size\(\) const')
def v_size(ex, st, a, mm, I): return II(simp(slen(vec(ex, st, a[0]).s)), 64)
@m(V + r'empty\(\) const')
def v_empty(ex, st, a, mm, I): return Bo(simp(slen(vec(ex, st, a[0]).s) == 0))
@m(V + r'c?begin\(\)(?: const)?', V + r'data\(\)(?: const)?')
def v_begin(ex, st, a, mm, I): v = vec(ex, st, a[0]); return Ptr(a[0].obj, a[0].off, 0, v.es, 0)
@m(V + r'c?end\(\)(?: const)?')
def v_end(ex, st, a, mm, I):
    v = vec(ex, st, a[0]); n = simp(slen(v.s)); c = conc_int(n); return Ptr(a[0].obj, a[0].off, n if c is None else c, v.es, 0)
@m(V + r'operator\[\]\(unsigned long\)(?: const)?')
def v_idx(ex, st, a, mm, I):
    v = vec(ex, st, a[0]); i = num(a[1]); ex.oblige(st, iv(i) < slen(v.s), 'vector index inside the vector'); return Ptr(a[0].obj, a[0].off, i, v.es, 0)
@m(V + r'at\(unsigned long\)(?: const)?')
def v_at(ex, st, a, mm, I):
    v = vec(ex, st, a[0]); i = num(a[1]); t, f = fork(ex, st, iv(i) < slen(v.s)); r = []
    if t: r += out(t, Ptr(a[0].obj, a[0].off, i, v.es, 0))
    if f: r += thr(f, 'std::out_of_range')
    return r
@m(V + r'back\(\)(?: const)?')
def v_back(ex, st, a, mm, I):
    v = vec(ex, st, a[0]); n = slen(v.s); ex.oblige(st, n > 0, 'back() of a non-empty vector'); i = simp(n-1); c = conc_int(i)
    return Ptr(a[0].obj, a[0].off, i if c is None else c, v.es, 0)
@m(V + r'front\(\)(?: const)?')
def v_front(ex, st, a, mm, I):
    v = vec(ex, st, a[0]); ex.oblige(st, slen(v.s) > 0, 'front() of a non-empty vector'); return Ptr(a[0].obj, a[0].off, 0, v.es, 0)
@m(V + r'clear\(\)')
def v_clear(ex, st, a, mm, I): v = vec(ex, st, a[0]); ex.set_leaf(st, a[0], Vec(z3.Empty(v.s.sort()), v.el, v.es))
@m(V + r'(?:reserve|shrink_to_fit)\((?:unsigned long)?\)')
def v_reserve(ex, st, a, mm, I):
    if len(a) < 2: return None
    v = vec(ex, st, a[0]); lim = ((1 << 63)-1)//v.es
    t, f = fork(ex, st, u(a[1]) <= lim); r = []
    if t:
        t.gh = dict(t.gh); t.gh['reserved'] = t.gh.get('reserved', ()) + ((u(a[1]), v.es),)
        r += out(t)
    if f: r += thr(f, 'std::length_error')
    return r
def vpush(ex, st, p, e):
    v = vec(ex, st, p); ex.set_leaf(st, p, Vec(cat(v.s, z3.Unit(e)), v.el, v.es)); n = slen(v.s)
    return Ptr(p.obj, p.off, simp(n), v.es, 0)
@m(r'(?:void|.*&) vector<(.*?)>::emplace_back<(.*)>\((.*)\)', r'vector<(.*?)>::push_back\(()(.*)\)')
def v_emplace(ex, st, a, mm, I):
    k = elk(mm.group(1)); args = a[1:]
    if k[0] == 'str':
        if not args: e = lit(b'')
        elif 'string' in mm.group(3) :
            e = ex.str(st, args[0])
            if '&&' in mm.group(3): put_str(ex, st, args[0], lit(b''))
        elif len(args) == 1: e = cstr(ex, st, args[0])
        else: raise Unsupported('emplace_back of string')
    elif k[0] == 'pair':
        if len(args) == 1:
            p0 = args[0]; e = mkPair(ex.str(st, p0), ex.str(st, ex.padd(p0, 32)))
            if '&&' in mm.group(3): put_str(ex, st, p0, lit(b'')); put_str(ex, st, ex.padd(p0, 32), lit(b''))
        else:
            e = mkPair(ex.str(st, args[0]), ex.str(st, args[1]))
            ts = mm.group(3).split(', ')
            for p0, t in zip(args, ts):
                if t.endswith('&&'): put_str(ex, st, p0, lit(b''))
    elif isinstance(k[0], tuple): e = k[0][3](ex, st, args, mm.group(3))
    else:
        w = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64}[k[0]]
        if not args: e = z3.BitVecVal(0, w)
        else:
            from .llir import Ty
            e = ex.load(st, args[0], Ty('int', w)).bv()
    return vpush(ex, st, a[0], e)
@m(V + r'pop_back\(\)')
def v_pop(ex, st, a, mm, I):
    v = vec(ex, st, a[0]); n = slen(v.s); ex.oblige(st, n > 0, 'pop_back() of a non-empty vector'); ex.set_leaf(st, a[0], Vec(sub(v.s, 0, n-1), v.el, v.es))

# ------------------------------------------------------------------ maps and sets (iterators: ('key',k), ordinal, null = end)
MP = r'(?:unordered_map|map)<(.*?)>::'
def mapkinds(n):
    """'string, X' -> (key kind, value kind, key offset of value, element size)"""
    k, v = [x.strip() for x in n.split(',', 1)] if ',' in n else (n, None)
    return k, v
def mp(ex, st, p):
    l = ex.leaf(st, p, Map, 'map'); return l
def mkmap(k, v, size):
    ks = {'string': ('str', SEQ)}.get(k)
    if ks is None:
        if k in ('int', 'unsigned int') or k.startswith('fr::'): ks = ('i32', z3.BitVecSort(32))
        elif k == 'unsigned long': ks = ('u64', z3.IntSort())
        else: raise Unsupported('map key ' + k)
    if v is None: vs = (None, None)
    elif v == 'string': vs = ('str', SEQ)
    elif v in ('int', 'unsigned int') or (v.startswith('fr::') and v.split('::')[-1] in ('Scheme', 'TransferEncoding', 'RequestType', 'RequestStatus')): vs = ('i32', z3.BitVecSort(32))
    elif v in EXTRA_VAL: vs = (EXTRA_VAL[v], EXTRA_VAL[v][1])
    else: raise Unsupported('map value ' + v)
    dom = z3.K(ks[1], z3.BoolVal(False))
    val = None if vs[0] is None else z3.K(ks[1], default(vs[1]))
    osort = PAIRS if ks[0] == 'str' and vs[0] == 'str' else z3.SeqSort(ks[1])
    return Map(dom, val, z3.Empty(osort), ks[0], vs[0], None, size)
EXTRA_VAL = {}
def default(sort):
    if sort == SEQ: return z3.Empty(SEQ)
    if isinstance(sort, z3.BitVecSortRef): return z3.BitVecVal(0, sort.size())
    return z3.Const('default_' + str(sort), sort)
@m(r'(unordered_map|map)<(.*?)>::(?:unordered_map|map)\(\)')
def mp_ctor(ex, st, a, mm, I):
    k, v = mapkinds(mm.group(2)); sz = 56 if mm.group(1)[0] == 'u' else 48
    ex.setc(st, a[0].obj, a[0].off, sz, mkmap(k, v, sz))
@m(r'(unordered_set|set)<(.*?)>::(?:unordered_set|set)\(\)')
def set_ctor(ex, st, a, mm, I):
    sz = 56 if mm.group(1)[0] == 'u' else 48
    ex.setc(st, a[0].obj, a[0].off, sz, mkmap(mm.group(2), None, sz))
@m(r'(unordered_map|map)<(.*?)>::(?:unordered_map|map)\(initializer_list<.*>.*\)')
def mp_init(ex, st, a, mm, I):
    k, v = mapkinds(mm.group(2)); sz = 56 if mm.group(1)[0] == 'u' else 48
    l = mkmap(k, v, sz)
    if l.kk != 'str' or not a[2].conc: raise Unsupported('map initialiser')
    es = 64 if l.vk == 'str' else 40
    conc = {}
    p = a[1]
    for i in range(a[2].c):
        q = Ptr(p.obj, p.off + i*es)
        key = as_const(ex.str(st, q))
        if key is None: raise Unsupported('map initialiser key')
        if l.vk == 'str': val = ex.str(st, Ptr(q.obj, q.off+32))
        else: val = ex.load(st, Ptr(q.obj, q.off+32), I32).bv()
        conc.setdefault(key, val)
    for key, val in conc.items():
        if len(conc) <= 64:
            l.dom = z3.Store(l.dom, lit(key), True); l.val = z3.Store(l.val, lit(key), val)
    l.conc = conc
    if len(conc) > 64: l.dom = z3.Const('dom_tab', l.dom.sort()); l.val = z3.Const('val_tab', l.val.sort())
    es2 = [mkPair(lit(k2), v2) for k2, v2 in conc.items()] if l.vk == 'str' else [lit(k2) for k2 in conc]
    us = [z3.Unit(e) for e in es2]
    l.ord = z3.Concat(*us) if len(us) > 1 else us[0] if us else l.ord
    ex.setc(st, a[0].obj, a[0].off, sz, l)
@m(r'(?:unordered_map|map|set|unordered_set)<.*?>::~(?:unordered_map|map|set|unordered_set)\(\)')
def mp_dtor(ex, st, a, mm, I): return None
@m(r'(?:unordered_map|map|set|unordered_set)<.*>::operator=\((.*) const&\)', r'(?:unordered_map|map|set|unordered_set)<.*>::(?:unordered_map|map|set)\((.*) const&\)')
def mp_copy(ex, st, a, mm, I): ex.set_leaf(st, a[0], mp(ex, st, a[1])); return a[0]
@m(r'(?:unordered_map|map|set|unordered_set)<.*?>::(?:c?begin)\(\)(?: const)?')
def mp_begin(ex, st, a, mm, I): l = mp(ex, st, a[0]); return Ptr(a[0].obj, a[0].off, 0, 1 << 40, 0)
@m(r'(?:unordered_map|map|set|unordered_set)<.*?>::(?:c?end)\(\)(?: const)?')
def mp_end(ex, st, a, mm, I): return NULL
@m(r'(?:unordered_map|map|set|unordered_set)<.*?>::size\(\) const')
def mp_size(ex, st, a, mm, I): return II(simp(slen(mp(ex, st, a[0]).ord)), 64)
@m(r'(?:unordered_map|map|set|unordered_set)<.*?>::empty\(\) const')
def mp_empty(ex, st, a, mm, I): return Bo(simp(slen(mp(ex, st, a[0]).ord) == 0))
@m(r'(?:unordered_map|map|set|unordered_set)<.*?>::clear\(\)')
def mp_clear(ex, st, a, mm, I):
    l = mp(ex, st, a[0]); ks = l.dom.sort().domain()
    ex.set_leaf(st, a[0], l.upd(dom=z3.K(ks, z3.BoolVal(False)), ord=z3.Empty(l.ord.sort()), conc=None))
def key_arg(ex, st, l, p):
    if l.kk == 'str': return ex.str(st, p)
    if l.kk == 'i32': return ex.load(st, p, I32).bv()
    return ex.load(st, p, I64).int()
def indom(ex, l, k):
    if l.conc is not None:
        kc = as_const(k) if l.kk == 'str' else None
        if kc is not None: return z3.BoolVal(kc in l.conc)
        return z3.Or([k == lit(c) for c in sorted(l.conc)])
    return z3.Select(l.dom, k)
def split_key(ex, st, p, k):
    l = mp(ex, st, p)
    t, f = fork(ex, st, simp(indom(ex, l, k)))
    if t: t.assume(slen(l.ord) > 0) if l.conc is None else None
    return l, t, f
ES = 1 << 40
@m(r'(?:unordered_map|map|set|unordered_set)<.*?>::find\(.*\)(?: const)?')
def mp_find(ex, st, a, mm, I):
    k = key_arg(ex, st, mp(ex, st, a[0]), a[1]); l, t, f = split_key(ex, st, a[0], k); r = []
    if t: r += out(t, Ptr(a[0].obj, a[0].off, ('key', k), ES, 0))
    if f: r += out(f, NULL)
    return r
@m(r'(?:unordered_map|map|set|unordered_set)<.*?>::count\(.*\) const')
def mp_count(ex, st, a, mm, I):
    k = key_arg(ex, st, mp(ex, st, a[0]), a[1]); l, t, f = split_key(ex, st, a[0], k); r = []
    if t: r += out(t, K(64, 1))
    if f: r += out(f, K(64, 0))
    return r
def voff(l): return {'str': 32, 'i32': 4}.get(l.kk, 8) if not (l.kk == 'i32' and l.vk == 'str') else 8
def mp_put(ex, st, p, l, k, v):
    """insert an absent key"""
    o = z3.Const(fresh_name('ord'), l.ord.sort()); st.assume(z3.Length(o) == slen(l.ord) + 1)
    ex.set_leaf(st, p, l.upd(dom=z3.Store(l.dom, k, True), val=None if l.val is None else z3.Store(l.val, k, v), ord=o, conc=None))
@m(r'(?:unordered_map|map)<.*?>::operator\[\]\((.*)\)')
def mp_idx(ex, st, a, mm, I):
    l0 = mp(ex, st, a[0]); k = key_arg(ex, st, l0, a[1])
    if mm.group(1).endswith('&&') and l0.kk == 'str': put_str(ex, st, a[1], lit(b''))
    l, t, f = split_key(ex, st, a[0], k); r = []
    q = Ptr(a[0].obj, a[0].off, ('key', k), ES, voff(l))
    if t: r += out(t, q)
    if f:
        mp_put(ex, f, a[0], l, k, default(l.val.sort().range())); r += out(f, q)
    return r
@m(r'(?:unordered_map|map)<.*?>::at\(.*\)(?: const)?')
def mp_at(ex, st, a, mm, I):
    k = key_arg(ex, st, mp(ex, st, a[0]), a[1]); l, t, f = split_key(ex, st, a[0], k); r = []
    if t: r += out(t, Ptr(a[0].obj, a[0].off, ('key', k), ES, voff(l)))
    if f: r += thr(f, 'std::out_of_range')
    return r
from .sym import Agg
@m(r'pair<.*> (?:unordered_map|map)<(.*?)>::(emplace|insert)<(.*)>\((.*)\)')
def mp_emplace(ex, st, a, mm, I):
    l0 = mp(ex, st, a[0]); args = a[1:]
    if l0.kk != 'str' or l0.vk not in ('str', 'i32'):
        if l0.kk == 'u64': return emplace_u64(ex, st, a, mm, I)
        raise Unsupported('emplace')
    if len(args) == 1:
        kp = args[0]; vp = ex.padd(args[0], 32); rv = [mm.group(4).endswith('&&')]*2
    else:
        kp, vp = args; ts = re.split(r', (?![^<]*>)', mm.group(4)); rv = [t.endswith('&&') for t in ts]
    ts0 = mm.group(3)
    def sv(p, i):
        t = re.split(r', (?![^<]*>)', ts0)
        if len(args) == 2 and 'char' in t[min(i, len(t)-1)]: return cstr(ex, st, p)
        return ex.str(st, p)
    k = sv(kp, 0); v = sv(vp, 1) if l0.vk == 'str' else ex.load(st, vp, I32).bv()
    l, t, f = split_key(ex, st, a[0], k); r = []
    it = Ptr(a[0].obj, a[0].off, ('key', k), ES, 0)
    if t: r += out(t, Agg([it, K(8, 0)]))     # libstdc++ may or may not consume the arguments: they must not be used afterwards
    if f:
        mp_put(ex, f, a[0], l, k, v)
        r += out(f, Agg([it, K(8, 1)]))
    for s2, _, _ in r:
        for p, x in ((kp, rv[0]), (vp, rv[-1])):
            if x and (p is kp or l0.vk == 'str'):
                try: ex.set_leaf(s2, p, Str(z3.Const(fresh_name('moved'), SEQ)))
                except Unsupported: pass
    return r
def emplace_u64(ex, st, a, mm, I):
    l0 = mp(ex, st, a[0])
    if not isinstance(l0.vk, tuple) or len(a) != 3 or not re.match(r'unsigned long(?: const)?&?, ', mm.group(3)): raise Unsupported('emplace')
    k = key_arg(ex, st, l0, a[1]); v = l0.vk[3](ex, st, a[2]); l, t, f = split_key(ex, st, a[0], k); it = Ptr(a[0].obj, a[0].off, ('key', k), ES, 0); r = []
    if t: r += out(t, Agg([it, K(8, 0)]))
    if f: mp_put(ex, f, a[0], l, k, v); r += out(f, Agg([it, K(8, 1)]))
    return r
@m(r'pair<.*> set<(.*?)>::(?:emplace|insert)(?:<.*>)?\(.*\)')
def set_emplace(ex, st, a, mm, I):
    l0 = mp(ex, st, a[0]); k = key_arg(ex, st, l0, a[1]); l, t, f = split_key(ex, st, a[0], k); r = []
    it = Ptr(a[0].obj, a[0].off, ('key', k), ES, 0)
    if t: r += out(t, Agg([it, K(8, 0)]))
    if f: mp_put(ex, f, a[0], l, k, None); r += out(f, Agg([it, K(8, 1)]))
    return r
@m(r'(?:unordered_map|map|set)<.*?>::erase\((?!.*iterator).*\)')
def mp_erasek(ex, st, a, mm, I):
    l0 = mp(ex, st, a[0]); k = key_arg(ex, st, l0, a[1]); l, t, f = split_key(ex, st, a[0], k); r = []
    if t: mp_del(ex, t, a[0], l, k); r += out(t, K(64, 1))
    if f: r += out(f, K(64, 0))
    return r
def mp_del(ex, st, p, l, k):
    o = z3.Const(fresh_name('ord'), l.ord.sort()); st.assume(z3.Length(o) == slen(l.ord) - 1)
    ex.set_leaf(st, p, l.upd(dom=z3.Store(l.dom, k, False), ord=o, conc=None))
@m(r'(?:unordered_map|map|set)<.*?>::erase\(.*iterator.*\)')
def mp_erasei(ex, st, a, mm, I):
    it = a[1]
    if isinstance(it, Ptr) and not it.null and isinstance(it.idx, tuple):
        l = mp(ex, st, a[0]); mp_del(ex, st, a[0], l, it.idx[1])
        return NULL if False else Ptr(a[0].obj, a[0].off, fresh_int('it', 0, MAXLEN), ES, 0)
    if isinstance(it, Ptr) and it.null: ex.oblige(st, False, 'erase(end())'); return NULL
    raise Unsupported('erase of an iterator')
IT = r'(?:_Node_(?:const_)?iterator|_Rb_tree_(?:const_)?iterator)<.*>::'
@m(IT + r'operator(?:->|\*)\(\) const')
def it_deref(ex, st, a, mm, I):
    p = ex.load(st, a[0], PTR)
    if isinstance(p, Ptr) and p.null: ex.oblige(st, False, 'dereference of end()')
    if isinstance(p, Ptr) and p.idx is not None and not isinstance(p.idx, tuple):
        l = ex.cells(st, p.obj).get(p.off)
        if l and isinstance(l[1], Map): ex.oblige(st, z3.And(iv(p.idx) >= 0, iv(p.idx) < slen(l[1].ord)), 'map iterator is dereferenceable'); map_ord_facts(ex, st, l[1], p.idx)
    return p
def map_ord_facts(ex, st, l, i):
    e = ex.seq_nth(l.ord, i)
    if l.conc is not None: return
    k = pfst(e) if l.kk == 'str' and l.vk == 'str' else e
    st.assume(z3.Select(l.dom, k))
    if l.kk == 'str' and l.vk == 'str': st.assume(z3.Select(l.val, k) == psnd(e))
@m(IT + r'operator\+\+\((int)?\)')
def it_inc(ex, st, a, mm, I):
    p = ex.load(st, a[0], PTR)
    if not isinstance(p, Ptr) or p.null or isinstance(p.idx, tuple): raise Unsupported('iterator increment')
    i = p.idx + 1
    q = Ptr(p.obj, p.off, i if isinstance(i, int) else simp(i), p.esz, p.sub)
    l = ex.cells(st, p.obj)[p.off][1]
    n = conc_int(slen(l.ord))
    if n is not None and isinstance(i, int) and i == n: q = NULL
    ex.store(st, a[0], q, PTR)
    return p if mm.group(1) else a[0]

# ------------------------------------------------------------------ memory
@m(r'llvm\.mem(?:cpy|move)\..*', r'mem(?:cpy|move)')
def memcpy(ex, st, a, mm, I):
    d, s, n = a[0], a[1], num(a[2])
    if isinstance(n, int):
        if n == 0: return d
        if isinstance(d, Ptr) and isinstance(s, Ptr) and d.idx is None and s.idx is None and not d.null and not s.null:
            fs, fd = ex.find_leaf(st, s), ex.find_leaf(st, d)
            if not (fs and isinstance(fs[1], Buf)) and not (fd and isinstance(fd[1], Buf)):
                copy_cells(ex, st, d, s, n); return d
    q = ex.read_seq(st, s, n, 'memcpy source')
    ex.write_seq(st, d, q, n, 'memcpy destination')
    return d
def copy_cells(ex, st, d, s, n):
    sz = st.osz.get(s.obj)
    if sz is not None: ex.oblige(st, s.off + n <= sz, 'memcpy inside the source object')
    sz = st.osz.get(d.obj)
    if sz is not None: ex.oblige(st, d.off + n <= sz, 'memcpy inside the destination object')
    src = ex.cells(st, s.obj); items = []
    for o, e in src.items():
        if o == 'z': continue
        if s.off <= o and o + (e[0] or 1) <= s.off + n: items.append((o - s.off, e))
        elif o < s.off + n and s.off < o + (e[0] or 1): raise Unsupported('memcpy splits a cell')
    covered = set()
    for o, e in items: covered |= set(range(o, o + (e[0] or 1)))
    zs = [i for i in range(n) if i not in covered and any(lo <= s.off + i < hi for lo, hi in src.get('z', ()))]
    # clear destination range
    c = dict(ex.cells(st, d.obj))
    for o in list(c):
        if o == 'z':
            c['z'] = tuple(r for lo, hi in c['z'] for r in ((lo, min(hi, d.off)), (max(lo, d.off+n), hi)) if r[0] < r[1]); continue
        e = c[o]
        if d.off <= o and o + (e[0] or 1) <= d.off + n: del c[o]
        elif o < d.off + n and d.off < o + (e[0] or 1): raise Unsupported('memcpy splits a destination cell')
    for o, e in items:
        if isinstance(e[1], Leaf) and not isinstance(e[1], (Buf, Opq)): raise Unsupported('memcpy of ' + e[1].kind)
        c[d.off + o] = e
    if zs:
        z = c.get('z', ())
        i = 0
        while i < len(zs):
            j = i
            while j+1 < len(zs) and zs[j+1] == zs[j]+1: j += 1
            z += ((d.off + zs[i], d.off + zs[j] + 1),); i = j+1
        c['z'] = z
    st.mem[d.obj] = c
@m(r'llvm\.memset\..*', r'memset')
def memset(ex, st, a, mm, I):
    d, v, n = a[0], a[1], num(a[2])
    d0 = d
    if isinstance(d, Ptr): d = ex.elem(st, d)
    if d.idx is not None:
        if not (v.conc): raise Unsupported('memset')
        q = ZERO(n) if v.c == 0 and (not isinstance(n, int) or n > 64) else REP(n, K(8, v.c & 255))
        ex.write_seq(st, d, q, n, 'memset'); return d0
    if not isinstance(n, int) or not v.conc: raise Unsupported('memset')
    sz = st.osz.get(d.obj)
    if sz is not None: ex.oblige(st, d.off + n <= sz, 'memset inside the object')
    c = dict(ex.cells(st, d.obj))
    for o in list(c):
        if o == 'z': continue
        e = c[o]
        if d.off <= o and o + (e[0] or 1) <= d.off + n: del c[o]
        elif o < d.off + n and d.off < o + (e[0] or 1): raise Unsupported('memset splits a cell')
    if v.c == 0: c['z'] = c.get('z', ()) + ((d.off, d.off + n),)
    else:
        for i in range(n): c[d.off + i] = (1, K(8, v.c & 255))
    st.mem[d.obj] = c
    return d0
@m(r'strnlen')
def strnlen(ex, st, a, mm, I): n = a[1].int(); l = slen(cstr(ex, st, a[0])); return II(simp(z3.If(l <= n, l, n)), 64)
@m(r'strlen')
def strlen(ex, st, a, mm, I): return II(slen(cstr(ex, st, a[0])), 64)
@m(r'strcpy')
def strcpy(ex, st, a, mm, I):
    q = cat(cstr(ex, st, a[1]), lit(b'\0')); ex.write_seq(st, a[0], q, simp(slen(q)), 'strcpy'); return a[0]
@m(r'operator new\(unsigned long\)')
def opnew(ex, st, a, mm, I):
    o = ex.new_obj(st, a[0].c if a[0].conc else None, 'heap'); return Ptr(o, 0)
@m(r'operator delete\(void\*(?:, unsigned long)?\)')
def opdel(ex, st, a, mm, I): return None
# ------------------------------------------------------------------ integers
@m(r'htonl|ntohl|htons|ntohs|llvm\.bswap\.i(?:16|32|64)|htobe64|be64toh|__bswap_(?:16|32|64)')
def bswap(ex, st, a, mm, I):
    w = a[0].w
    bs = ex.iv_bytes(a[0], w//8)
    return ex.bytes_iv(bs[::-1])
@m(r'toupper|tolower')
def tocase(ex, st, a, mm, I):
    v = a[0]; lo, hi, d = (97, 122, -32) if mm.group(0) == 'toupper' else (65, 90, 32)
    if v.conc: return K(32, v.c + d if lo <= v.c <= hi else v.c)
    x = v.bv()
    return IB(z3.If(z3.And(x >= lo, x <= hi), x + d, x))
@m(r'isxdigit')
def isx(ex, st, a, mm, I):
    x = a[0].bv(); return IB(z3.If(z3.Or(z3.And(x >= 48, x <= 57), z3.And(x >= 65, x <= 70), z3.And(x >= 97, x <= 102)), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))
@m(r'isdigit')
def isd(ex, st, a, mm, I):
    x = a[0].bv(); return IB(z3.If(z3.And(x >= 48, x <= 57), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))
# ------------------------------------------------------------------ runtime
@m(r'__cxa_allocate_exception')
def cxa_alloc(ex, st, a, mm, I):
    o = ex.new_obj(st, None, 'exc'); return Ptr(o, 0)
@m(r'__cxa_free_exception|__cxa_end_catch|__cxa_atexit|__clang_call_terminate|llvm\.(?:lifetime|dbg|assume|experimental).*')
def cxa_nop(ex, st, a, mm, I):
    if mm.group(0) == '__clang_call_terminate': ex.oblige(st, False, 'std::terminate reached')
    return K(32, 0)
@m(r'__cxa_begin_catch')
def cxa_begin(ex, st, a, mm, I): return a[0]
@m(r'__cxa_rethrow')
def cxa_re(ex, st, a, mm, I): return [(st, 'throw', st.exc)]
@m(r'__cxa_throw')
def cxa_throw(ex, st, a, mm, I):
    from .exec import Throw
    ti = a[1]
    n = ex.m.dem.get(ti.obj[1], ti.obj[1]).replace('typeinfo for ', '')
    return [(st, 'throw', Throw(n, a[0]))]
@m(r'__dynamic_cast')
def dyncast(ex, st, a, mm, I):
    """cast of an object whose exact class is known, within single inheritance"""
    p = a[0]
    if not isinstance(p, Ptr): raise Unsupported('dynamic_cast')
    if p.null: return NULL
    e = ex.cells(st, p.obj).get(p.off)
    vt = e[1] if e else None
    if not isinstance(vt, Ptr) or not isinstance(vt.obj, tuple) or not vt.obj[1].startswith('_ZTV'): raise Unsupported('dynamic_cast of an object of unknown class')
    ti = '_ZTI' + vt.obj[1][4:]; want = a[2].obj[1]
    return p if ti == want or want in ex.bases(ti) else NULL
@m(r'__cxa_bad_cast')
def cxa_bc(ex, st, a, mm, I): return thr(st, 'std::bad_cast')
@m(r'(?:invalid_argument|logic_error|runtime_error|out_of_range|length_error|exception|domain_error|range_error|overflow_error|system_error)::~?\w+\(.*\)')
def exc_ctor(ex, st, a, mm, I): return None
@m(r'(?:exception|logic_error|runtime_error)::what\(\) const')
def exc_what(ex, st, a, mm, I): o = ex.new_obj(st, 8, 'what'); st.mem[o] = {0: (1, Buf(lit(b'\0'), 1))}; return Ptr(o, 0, 0, 1, 0)
@m(r'llvm\.eh\.typeid\.for.*')
def eh_typeid(ex, st, a, mm, I): return K(32, ex.selector(('glob', a[0].obj[1])))
@m(r'llvm\.trap|abort|terminate\(\)|__cxa_pure_virtual')
def trap(ex, st, a, mm, I): ex.oblige(st, False, 'abnormal termination'); return []
@m(r'__throw_(\w+)\(.*\)')
def stdthrow(ex, st, a, mm, I): return thr(st, 'std::' + mm.group(1))
# function-local statics: initialised by the first call
@m(r'__cxa_guard_acquire')
def guard_acq(ex, st, a, mm, I):
    g = a[0].obj[1]
    if st.gh.get(('guard', g)): return K(32, 0)
    return K(32, 1)
@m(r'__cxa_guard_release')
def guard_rel(ex, st, a, mm, I):
    g = a[0].obj[1]
    st.gh = dict(st.gh); st.gh[('guard', g)] = True
    ex.store(st, Ptr(('g', g), 0), K(8, 1), I8)
    # remember the contents of the guarded variable: nothing may change it afterwards (checked at function exit)
    v = '_Z' + g[4:] if g.startswith('_ZGV') else None
    o = ('g', v)
    if v in ex.m.glob_src: st.gh[('static', v)] = dict(ex.cells(st, o))
    return None
@m(r'__cxa_guard_abort')
def guard_ab(ex, st, a, mm, I): return None
@m(r'llvm\.threadlocal\.address.*')
def tls(ex, st, a, mm, I): return a[0]
@m(r'numeric_limits<unsigned short>::max\(\)')
def nlus(ex, st, a, mm, I): return K(16, 65535)
@m(r'numeric_limits<unsigned (int|long)>::max\(\)')
def nlui(ex, st, a, mm, I): return K(32, (1 << 32)-1) if mm.group(1) == 'int' else K(64, NPOS)

def install(ex):
    ex.models = MODELS
