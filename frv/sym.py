"""Symbolic values: machine integers in two interchangeable representations (bit-vector / unsigned mathematical
integer), pointers, and abstract leaves (strings, vectors, maps)."""
import z3

class Unsupported(Exception): pass

BYTE = z3.BitVecSort(8)
SEQ = z3.SeqSort(BYTE)
STRS = z3.SeqSort(SEQ)
Pair, mkPair, (pfst, psnd) = z3.TupleSort('PairSS', [SEQ, SEQ])
PAIRS = z3.SeqSort(Pair)
NPOS = (1 << 64) - 1
MAXLEN = (1 << 62)      # longest possible string (max_size)
SYMLEN = (1 << 47)      # no object that exists is larger than the address space

_cnt = [0]
def fresh_name(h):
    _cnt[0] += 1
    return f'{h}!{_cnt[0]}'

RANGE = {}          # Int const name -> (lo, hi)
def fresh_int(h, lo=0, hi=NPOS):
    n = fresh_name(h); RANGE[n] = (lo, hi)
    return z3.Int(n)

def range_fact(x):
    n = x.decl().name(); lo, hi = RANGE[n]
    return z3.And(x >= lo, x <= hi)

UFRANGE = {}        # UF name -> (lo,hi)
_rc = {}
def rng(e):
    """interval of an Int term (None = unbounded)"""
    k = e.get_id()
    r = _rc.get(k)
    if r is not None and r[0].eq(e): return r[1]
    v = _rng(e); _rc[k] = (e, v); return v
def _rng(e):
    if z3.is_int_value(e): v = e.as_long(); return (v, v)
    d = e.decl(); k = d.kind()
    if k == z3.Z3_OP_UNINTERPRETED:
        if e.num_args() == 0: return RANGE.get(d.name(), (None, None))
        return UFRANGE.get(d.name(), (None, None))
    if k == z3.Z3_OP_SEQ_LENGTH: return (0, MAXLEN)
    if k == z3.Z3_OP_SEQ_INDEX: return (-1, MAXLEN)
    if k == z3.Z3_OP_BV2INT: return (0, (1 << e.arg(0).size()) - 1)
    if k == z3.Z3_OP_ADD:
        lo = hi = 0
        for c in e.children():
            a, b = rng(c)
            lo = None if lo is None or a is None else lo + a
            hi = None if hi is None or b is None else hi + b
        return (lo, hi)
    if k == z3.Z3_OP_SUB:
        a = rng(e.arg(0)); b = rng(e.arg(1))
        return (None if a[0] is None or b[1] is None else a[0]-b[1], None if a[1] is None or b[0] is None else a[1]-b[0])
    if k == z3.Z3_OP_MUL and e.num_args() == 2 and z3.is_int_value(e.arg(0)):
        c = e.arg(0).as_long(); a, b = rng(e.arg(1))
        if c >= 0: return (None if a is None else a*c, None if b is None else b*c)
        return (None if b is None else b*c, None if a is None else a*c)
    if k == z3.Z3_OP_ITE:
        a = rng(e.arg(1)); b = rng(e.arg(2))
        return (None if a[0] is None or b[0] is None else min(a[0], b[0]), None if a[1] is None or b[1] is None else max(a[1], b[1]))
    if k == z3.Z3_OP_MOD and z3.is_int_value(e.arg(1)): return (0, e.arg(1).as_long()-1)
    if k == z3.Z3_OP_IDIV and z3.is_int_value(e.arg(1)):
        c = e.arg(1).as_long(); a, b = rng(e.arg(0))
        if c > 0: return (None if a is None else a//c, None if b is None else b//c)
    return (None, None)

class IV:
    """integer value of width w: c = concrete python int, b = bit-vector term, i = Int term (unsigned value), z = Bool (w==1)"""
    __slots__ = ('w', 'c', 'b', 'i', 'p')
    def __init__(s, w, c=None, b=None, i=None, p=None): s.w = w; s.c = c; s.b = b; s.i = i; s.p = p
    @property
    def conc(s): return s.c is not None
    def bv(s):
        if s.b is None:
            if s.c is not None: s.b = z3.BitVecVal(s.c, s.w)
            else: s.b = int2bv(s.i, s.w)
        return s.b
    def int(s):
        if s.i is None:
            if s.c is not None: s.i = z3.IntVal(s.c)
            else: s.i = bv2int(s.b)
        return s.i
    def isint(s): return s.c is None and s.b is None
    def sint(s):
        """signed value as Int"""
        if s.c is not None: return z3.IntVal(s.c - (1 << s.w) if s.c >> (s.w-1) else s.c)
        x = s.int(); lo, hi = rng(x)
        if hi is not None and hi < (1 << (s.w-1)): return x
        return z3.If(x >= (1 << (s.w-1)), x - (1 << s.w), x)
    def sc(s): return s.c - (1 << s.w) if s.c >> (s.w-1) else s.c
    def __repr__(s): return f'<i{s.w} {s.c if s.c is not None else (s.i if s.b is None else s.b)}>'

def K(w, c): return IV(w, c=c & ((1 << w)-1))
def IB(e, w=None):
    """from bv term"""
    if z3.is_bv_value(e): return K(e.size(), e.as_long())
    return IV(e.size(), b=e)
def II(e, w=64):
    if isinstance(e, int): return K(w, e)
    if z3.is_int_value(e): return K(w, e.as_long())
    return IV(w, i=e)

_fold = {}
def fold_nth(e):
    """undo the simplifier's case split of s[i] into nth_i (in range) and nth_u (out of range)"""
    st = [e]
    while st:
        x = st[-1]; k = x.get_id()
        if k in _fold: st.pop(); continue
        ch = x.children() if z3.is_app(x) else []
        todo = [c for c in ch if c.get_id() not in _fold]
        if todo: st += todo; continue
        st.pop()
        nc = [_fold[c.get_id()][1] for c in ch]; nm = x.decl().name() if z3.is_app(x) and ch else ''
        if nm in ('seq.nth_i', 'seq.nth_u'): r = nc[0][nc[1]]
        elif ch and x.decl().kind() == z3.Z3_OP_ITE and nc[1].eq(nc[2]): r = nc[1]
        elif all(a.eq(b) for a, b in zip(ch, nc)): r = x
        else: r = x.decl()(*nc)
        _fold[k] = (x, r)
    return _fold[e.get_id()][1]
def zs(e): return fold_nth(z3.simplify(e))
_simp = {}
_plain = {}      # terms without the integer value of a composite bit-vector
def simp(e):
    """z3.simplify that leaves the integer value of a composite bit-vector in one piece"""
    if not z3.is_expr(e): return e
    subs = []; seen = set(); st = [e]; new = []
    while st:
        x = st.pop(); k = x.get_id()
        if k in seen or k in _plain: continue
        seen.add(k); new.append(x)
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_BV2INT:
                a = zs(x.arg(0))
                if a.decl().kind() in (z3.Z3_OP_CONCAT, z3.Z3_OP_EXTRACT) and a.size() > 8 and z3.is_expr(a):
                    y = z3.BV2Int(a)
                    c = _simp.get(y.get_id())
                    if c is None: c = (z3.Int(f'prot!{len(_simp)}'), y); _simp[y.get_id()] = c
                    subs.append((x, c[0], y)); continue
            st += x.children()
    if not subs:
        for x in new: _plain[x.get_id()] = x
        return zs(e)
    r = zs(z3.substitute(e, *[(a, b) for a, b, _ in subs]))
    return z3.substitute(r, *[(b, y) for _, b, y in subs])
def int2bv(i, w):
    while True:
        if z3.is_int_value(i): return z3.BitVecVal(i.as_long(), w)
        k = i.decl().kind()
        if k == z3.Z3_OP_MOD and z3.is_int_value(i.arg(1)) and i.arg(1).as_long() % (1 << w) == 0: i = i.arg(0); continue
        if k == z3.Z3_OP_BV2INT:
            b = i.arg(0); n = b.size()
            return b if n == w else z3.Extract(w-1, 0, b) if n > w else z3.ZeroExt(w-n, b)
        if k in (z3.Z3_OP_ITE, z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL):
            j = simp(modn(i, 1 << w))
            if not j.eq(i) and j.decl().kind() != k: i = j; continue
            return z3.Int2BV(j, w)
        return z3.Int2BV(i, w)
def modn(e, M):
    """a simpler term congruent to e modulo M"""
    if z3.is_int_value(e):
        c = e.as_long() % M
        return z3.IntVal(c - M if c > M//2 else c)
    k = e.decl().kind()
    if k == z3.Z3_OP_MOD and z3.is_int_value(e.arg(1)) and e.arg(1).as_long() % M == 0: return modn(e.arg(0), M)
    if k == z3.Z3_OP_ADD: return z3.Sum([modn(c, M) for c in e.children()])
    if k == z3.Z3_OP_SUB and e.num_args() == 2: return modn(e.arg(0), M) - modn(e.arg(1), M)
    if k == z3.Z3_OP_MUL and e.num_args() == 2 and z3.is_int_value(e.arg(0)): return modn(e.arg(0), M)*modn(e.arg(1), M)
    if k == z3.Z3_OP_ITE:
        x, y = modn(e.arg(1), M), modn(e.arg(2), M); d = simp(x - y)
        if z3.is_int_value(d) and d.as_long() % M == 0: return x
        return z3.If(e.arg(0), x, y)
    return e
def bv2int(b):
    b = zs(b)
    return _b2i(b)
def _b2i(b):
    if z3.is_bv_value(b): return z3.IntVal(b.as_long())
    d = b.decl().kind()
    if d == z3.Z3_OP_ZERO_EXT: return _b2i(b.arg(0))
    if d == z3.Z3_OP_CONCAT and z3.is_bv_value(b.arg(0)) and b.arg(0).as_long() == 0:
        rest = b.children()[1:]
        return _b2i(rest[0] if len(rest) == 1 else z3.Concat(*rest))
    if d == z3.Z3_OP_INT2BV:
        x = b.arg(0); lo, hi = rng(x); m = 1 << b.size()
        if lo is not None and hi is not None and lo >= 0 and hi < m: return x
        return x % m
    if d == z3.Z3_OP_ITE: return z3.If(b.arg(0), _b2i(b.arg(1)), _b2i(b.arg(2)))
    return z3.BV2Int(b)

class Bo:
    """i1"""
    __slots__ = ('c', 'z')
    w = 1
    def __init__(s, v):
        if isinstance(v, bool): s.c = v; s.z = None
        else:
            v = simp(v) if not z3.is_const(v) else v
            if z3.is_true(v): s.c = True; s.z = None
            elif z3.is_false(v): s.c = False; s.z = None
            else: s.c = None; s.z = v
    def e(s): return s.z if s.c is None else z3.BoolVal(s.c)
    def __repr__(s): return f'<i1 {s.c if s.c is not None else s.z}>'

class Ptr:
    """obj=None: null.  idx None: byte `off` inside obj.  otherwise element idx (python int, Int term, or ('key',t)) of the leaf at (obj,off),
    element size esz, sub = byte offset inside the element"""
    __slots__ = ('obj', 'off', 'idx', 'esz', 'sub')
    def __init__(s, obj, off=0, idx=None, esz=1, sub=0): s.obj = obj; s.off = off; s.idx = idx; s.esz = esz; s.sub = sub
    @property
    def null(s): return s.obj is None
    def key(s): return (s.obj, s.off)
    def __repr__(s):
        if s.null: return '<null>'
        return f'<ptr {s.obj}+{s.off}' + (f'[{s.idx}]*{s.esz}+{s.sub}' if s.idx is not None else '') + '>'
NULL = Ptr(None)

class FnP:
    __slots__ = ('name',)
    def __init__(s, n): s.name = n
class VSlot:
    """slot of the virtual table of an object whose dynamic type is only known to implement iface"""
    __slots__ = ('iface', 'slot')
    def __init__(s, i, n): s.iface = i; s.slot = n

class Leaf:
    """abstract object stored in memory at an offset"""
    kind = '?'
class Str(Leaf):
    """std::string; s = Seq of bytes"""
    kind = 'str'
    __slots__ = ('s',)
    def __init__(s, e): s.s = e
    size = 32
class Buf(Leaf):
    """byte array of fixed size n (Int term or int); content s"""
    kind = 'buf'
    __slots__ = ('s', 'n', 'size')
    def __init__(s, e, n, size=None): s.s = e; s.n = n; s.size = size if size is not None else (n if isinstance(n, int) else None)
class Vec(Leaf):
    kind = 'vec'
    size = 24
    __slots__ = ('s', 'el', 'es')
    def __init__(s, e, el, es): s.s = e; s.el = el; s.es = es     # el: element descriptor name
class Map(Leaf):
    kind = 'map'
    __slots__ = ('dom', 'val', 'ord', 'kk', 'vk', 'conc', 'size', 'es')
    def __init__(s, dom, val, ord_, kk, vk, conc=None, size=56): s.dom = dom; s.val = val; s.ord = ord_; s.kk = kk; s.vk = vk; s.conc = conc; s.size = size
    def upd(s, **k):
        m = Map(s.dom, s.val, s.ord, s.kk, s.vk, s.conc, s.size)
        for a, b in k.items(): setattr(m, a, b)
        return m
class Opq(Leaf):
    kind = 'opq'
    __slots__ = ('size', 'tag', 'd')
    def __init__(s, size, tag, d=None): s.size = size; s.tag = tag; s.d = d
class VTab:
    """vptr cell value for an object of unknown dynamic type implementing iface"""
    __slots__ = ('iface',)
    def __init__(s, i): s.iface = i
class Agg:
    __slots__ = ('v',)
    def __init__(s, v): s.v = v

def lit(b):
    if isinstance(b, str): b = b.encode('latin1')
    us = [z3.Unit(z3.BitVecVal(c, 8)) for c in b]
    if not us: return z3.Empty(SEQ)
    return us[0] if len(us) == 1 else z3.Concat(*us)

def as_const(e):
    """bytes if the Seq term is a literal"""
    k = e.decl().kind()
    if k == z3.Z3_OP_SEQ_EMPTY: return b''
    if k == z3.Z3_OP_SEQ_UNIT: return bytes([e.arg(0).as_long()]) if z3.is_bv_value(e.arg(0)) else None
    if k == z3.Z3_OP_SEQ_CONCAT:
        out = b''
        for c in e.children():
            x = as_const(c)
            if x is None: return None
            out += x
        return out
    return None

def cat(*xs):
    """normalised concatenation"""
    flat = []
    for x in xs:
        if x.decl().kind() == z3.Z3_OP_SEQ_CONCAT: flat += flatten(x)
        elif x.decl().kind() == z3.Z3_OP_SEQ_EMPTY: pass
        else: flat.append(x)
    if not flat: return z3.Empty(xs[0].sort())
    return flat[0] if len(flat) == 1 else z3.Concat(*flat)
def flatten(x):
    if x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        o = []
        for c in x.children(): o += flatten(c)
        return o
    if x.decl().kind() == z3.Z3_OP_SEQ_EMPTY: return []
    return [x]

def slen(e):
    """length, pushed through concatenations and literals"""
    k = e.decl().kind()
    if k == z3.Z3_OP_SEQ_EMPTY: return z3.IntVal(0)
    if k == z3.Z3_OP_SEQ_UNIT: return z3.IntVal(1)
    if k == z3.Z3_OP_SEQ_CONCAT:
        n = 0; t = []
        for c in flatten(e):
            l = slen(c)
            if z3.is_int_value(l): n += l.as_long()
            else: t.append(l)
        if not t: return z3.IntVal(n)
        r = t[0] if len(t) == 1 else z3.Sum(t)
        return r + n if n else r
    f = LEN_OF.get(e.decl().name()) if k == z3.Z3_OP_UNINTERPRETED and e.num_args() else None
    if f: return f(*e.children())
    return z3.Length(e)
LEN_OF = {}     # UF name -> python function giving the length of its value

def iv(x): return x if z3.is_expr(x) else z3.IntVal(x)
def sub(e, a, n): return z3.Extract(e, iv(a), iv(n))
def conc_int(x):
    if isinstance(x, int): return x
    x = simp(x)
    return x.as_long() if z3.is_int_value(x) else None

def table(conc, k, default=None):
    """value of key k (known to be present unless a default is given) in a constant table {bytes: term}"""
    ks = sorted(conc); r = conc[ks[-1]] if default is None else default
    for c in reversed(ks if default is not None else ks[:-1]): r = z3.If(k == lit(c), conc[c], r)
    return r
