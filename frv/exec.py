"""Path-wise symbolic execution of LLVM IR functions with contracts for callees and inferred loop invariants.
Produces proof obligations; never executes anything."""
import time, re
import z3
from .llir import *
from .sym import *
from . import absq

class Ob:
    """one proof obligation: path |- goal"""
    __slots__ = ('name', 'fn', 'path', 'goal', 'kind', 'tainted', 'status', 'by', 'secs', 'model', 'specs', 'hints', 'cex')
    def __init__(s, name, fn, path, goal, kind, tainted):
        s.name = name; s.fn = fn; s.path = path; s.goal = goal; s.kind = kind; s.tainted = tainted
        s.status = None; s.by = None; s.secs = 0.0; s.model = None; s.hints = (); s.cex = None

class State:
    __slots__ = ('mem', 'path', 'gh', 'tainted', 'exc', 'osz', 'trace', 'unk')
    def __init__(s):
        s.mem = {}; s.path = []; s.gh = {}; s.tainted = False; s.exc = None; s.osz = {}; s.trace = (); s.unk = False
    def copy(s):
        t = State(); t.mem = dict(s.mem); t.path = list(s.path); t.gh = dict(s.gh); t.tainted = s.tainted; t.exc = s.exc
        t.osz = s.osz; t.trace = s.trace; t.unk = s.unk
        return t
    def assume(s, b):
        if isinstance(b, bool):
            if b: return s
            b = z3.BoolVal(False)
        if z3.is_true(b): return s
        s.path.append(b); return s

class Throw:
    __slots__ = ('ty', 'obj', 'msg')
    def __init__(s, ty, obj=None): s.ty = ty; s.obj = obj

STD_BASES = {'std::out_of_range': ['std::logic_error', 'std::exception'], 'std::invalid_argument': ['std::logic_error', 'std::exception'],
  'std::logic_error': ['std::exception'], 'std::length_error': ['std::logic_error', 'std::exception'], 'std::domain_error': ['std::logic_error', 'std::exception'],
  'std::runtime_error': ['std::exception'], 'std::bad_cast': ['std::exception'], 'std::bad_alloc': ['std::exception'], 'std::system_error': ['std::runtime_error', 'std::exception'],
  'std::exception': [], 'std::range_error': ['std::runtime_error', 'std::exception'], 'std::overflow_error': ['std::runtime_error', 'std::exception']}

class Ex:
    def __init__(s, mod, di=None, contracts=None):
        s.m = mod; s.di = di or DI(mod); s.contracts = contracts or {}
        s.obs = []; s.quiet = 0; s.models = []; s.mcache = {}
        s.solver = z3.Solver(); s.solver.set('timeout', 150); s.stack = []
        s.absq = absq.Stack(300); s.nabs = 0; s.nslow = 0
        s.base = {}; s.base_osz = {}
        s.nobj = 0; s.depth = 0; s.fnstack = []; s.ninst = 0; s.nfeas = 0; s.tfeas = 0.0
        s.loopcfg = {}       # fn norm -> cfg
        s.used_models = {}; s.used_contracts = {}; s.inlined = {}
        s.cur = None         # contract under verification
        s.axioms = []
        s.max_paths = 4000; s.deadline = None
        s.inv_log = []; s.hist = {}
        from . import lib, net
        lib.install(s)

    # ---------------------------------------------------------------- solver
    def _sync(s, path):
        st = s.stack; n = 0
        while n < len(st) and n < len(path) and st[n] is path[n]: n += 1
        if n < len(st): s.solver.pop(len(st)-n); del st[n:]
        for b in path[n:]:
            s.solver.push(); s.solver.add(b); st.append(b)
    snap_of = {}
    def sat(s, st, *extra):
        """'unsat' | 'sat' | 'unknown' for path + extra"""
        t = time.time(); s.nfeas += 1
        if s.deadline and t > s.deadline: raise Unsupported('time budget for symbolic execution exhausted')
        if s.asat(st, extra) == 'unsat': s.tfeas += time.time()-t; s.nabs += 1; return 'unsat'
        if s.nslow > 60 and s.nfeas % 16: r = 'unknown'    # sequence reasoning is not paying off here: go by the abstraction
        else:
            s._sync(st.path)
            s.solver.push()
            for e in extra: s.solver.add(e)
            try: r = str(s.solver.check())
            except z3.Z3Exception: r = 'unknown'
            s.solver.pop()
            s.nslow += 1 if r == 'unknown' else -1 if r == 'unsat' and s.nslow > 0 else 0
        s.tfeas += time.time()-t
        return r
    def asat(s, st, extra): return s.absq.check(st.path, extra)
    def feasible(s, st, *extra): return s.sat(st, *extra) != 'unsat'
    def entails(s, st, b):
        if isinstance(b, bool): return b
        if z3.is_true(b): return True
        return s.sat(st, z3.Not(b)) == 'unsat'

    # ---------------------------------------------------------------- obligations
    def oblige(s, st, goal, name, kind='safety'):
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        if not s.quiet:
            s.obs.append(Ob(name, s.fnstack[0] if s.fnstack else '', list(st.path), goal, kind, st.tainted))
        st.assume(goal)

    # ---------------------------------------------------------------- memory
    def new_obj(s, st, size=None, tag='o'):
        s.nobj += 1; o = f'{tag}{s.nobj}'
        st.mem[o] = {}; st.osz[o] = size
        return o
    def cells(s, st, obj):
        c = st.mem.get(obj)
        if c is None:
            if isinstance(obj, tuple) and obj[0] == 'g': return s.ensure_global(st, obj[1])
            raise Unsupported(f'access to dead or unknown object {obj}')
        return c
    def setc(s, st, obj, off, size, val):
        if isinstance(obj, str) and obj in s.snap_of: raise Unsupported('write through the begin() of a string inside a container')
        c = s.cells(st, obj)
        c = dict(c)
        lo, hi = off, off + (size or 1)
        for o in list(c):
            if o == 'z': continue
            sz = c[o][0]
            if o == off and sz == size: continue
            if o < hi and lo < o + (sz or 1):
                ov = c[o][1]
                if o >= lo and o+(sz or 1) <= hi: del c[o]; continue
                if isinstance(ov, IV) and isinstance(val, IV):
                    # partial overlap of scalars: split into bytes
                    del c[o]
                    bs = s.iv_bytes(ov, sz)
                    for i, b in enumerate(bs):
                        if not (lo <= o+i < hi): c[o+i] = (1, b)
                    continue
                raise Unsupported(f'store overlapping a {ov.kind if isinstance(ov, Leaf) else "cell"}')
        c[off] = (size, val)
        st.mem[obj] = c
    def iv_bytes(s, v, n):
        """little-endian list of byte IVs"""
        if isinstance(v, Bo): v = IB(z3.If(v.e(), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))) if v.c is None else K(8, int(v.c))
        if v.conc: return [K(8, (v.c >> (8*i)) & 255) for i in range(n)]
        b = v.bv()
        if b.size() < 8*n: b = z3.ZeroExt(8*n - b.size(), b)
        return [IB(simp(z3.Extract(8*i+7, 8*i, b))) for i in range(n)]
    def bytes_iv(s, bs):
        if all(b.conc for b in bs): return K(8*len(bs), sum(b.c << (8*i) for i, b in enumerate(bs)))
        if len(bs) == 1: return bs[0]
        return IB(simp(z3.Concat(*[b.bv() for b in reversed(bs)])))
    def find_leaf(s, st, p):
        """leaf covering a direct pointer: (cell offset, leaf) or None"""
        c = s.cells(st, p.obj)
        e = c.get(p.off)
        if e is not None and isinstance(e[1], Leaf): return p.off, e[1]
        for o, e in c.items():
            if o == 'z': continue
            if isinstance(e[1], Buf) and o <= p.off and (e[1].size is None or p.off < o + e[1].size): return o, e[1]
            if isinstance(e[1], Vec) and isinstance(e[1].el, tuple) and e[1].el[0] == 'arr' and o <= p.off < o + e[0]: return o, e[1]
        return None
    def elem(s, st, p):
        """turn a direct pointer into a byte buffer into an element pointer"""
        if p.idx is not None: return p
        if p.null: return p
        f = s.find_leaf(st, p)
        if f and isinstance(f[1], Buf): return Ptr(p.obj, f[0], p.off - f[0], 1, 0)
        if f and isinstance(f[1], Vec) and isinstance(f[1].el, tuple) and f[1].el[0] == 'arr': return Ptr(p.obj, f[0], (p.off - f[0])//f[1].es, f[1].es, (p.off - f[0]) % f[1].es)
        return p
    def leaf(s, st, p, cls=None, what='object'):
        """the leaf object a pointer designates (direct, or a component of a container element)"""
        if not isinstance(p, Ptr) or p.null: raise Unsupported(f'null {what}')
        if p.idx is None:
            c = s.cells(st, p.obj).get(p.off)
            if c is None or not isinstance(c[1], Leaf): raise Unsupported(f'no {what} at {p}')
            l = c[1]
        else:
            l = s.elem_get(st, p)
        if cls and not isinstance(l, cls): raise Unsupported(f'{what}: expected {cls.__name__} got {type(l).__name__}')
        return l
    def set_leaf(s, st, p, l):
        if p.idx is None:
            s.setc(st, p.obj, p.off, l.size, l)
        else: s.elem_set(st, p, l)
    def str(s, st, p):
        q = s.leaf(st, p, Str, 'string').s
        if p.idx is not None and z3.is_app(q) and (q.decl().kind() in (z3.Z3_OP_SEQ_NTH, z3.Z3_OP_SELECT, z3.Z3_OP_DT_ACCESSOR) or q.decl().name() in ('pfst', 'psnd', 'project0', 'project1')):
            b = z3.Length(q) <= MAXLEN      # an element which is a string
            if not any(x.eq(b) for x in st.path if not isinstance(x, bool)): st.assume(b)
        return q
    def set_str(s, st, p, e): s.set_leaf(st, p, Str(e))

    # element kinds: name -> (sort, size, [(off, kind)])
    ELS = {}
    def elem_get(s, st, p):
        """value (IV/Ptr/Str) of the component of a container element"""
        c = s.cells(st, p.obj).get(p.off)
        if c is None: raise Unsupported('no container')
        l = c[1]
        if isinstance(l, Vec):
            i = iv(p.idx)
            s.oblige(st, z3.And(i >= 0, i < slen(l.s)), 'element index inside the vector')
            e = s.seq_nth(l.s, p.idx)
            if isinstance(l.el, tuple) and len(l.el) > 4: l.el[4](s, st, i, e)
            return s.el_component(e, l.el, p.sub)
        if isinstance(l, Map):
            if isinstance(p.idx, tuple) and isinstance(l.vk, tuple) and len(l.vk) > 4: l.vk[4](s, st, l, p.idx[1])
            if isinstance(p.idx, tuple): k = p.idx[1]; v = None if l.val is None else s.map_val(l, k)
            else:
                i = iv(p.idx)
                s.oblige(st, z3.And(i >= 0, i < slen(l.ord)), 'map iterator inside the map')
                e = s.seq_nth(l.ord, p.idx)
                if l.vk is None: k = e; v = None
                elif l.vk == 'str' and l.kk == 'str': k = pfst(e); v = psnd(e)
                elif l.kk == 'str': k = e; v = s.map_val(l, k)
                else: raise Unsupported('map iteration kind')
            koff = 0; voff = 32 if l.kk == 'str' else 8
            if l.kk == 'i32' : voff = 4
            if p.sub == 0: return s.wrap_key(l.kk, k)
            if l.vk == 'str' and p.sub == voff: return Str(v)
            if l.vk == 'i32' and p.sub == voff: return IB(v)
            if isinstance(l.vk, tuple) and p.sub >= voff: return s.el_component(v, l.vk, p.sub - voff)
            raise Unsupported(f'map component {p.sub}')
        raise Unsupported(f'element of {type(l).__name__}')
    def map_val(s, l, k):
        if l.conc is not None:
            kc = as_const(k) if l.kk == 'str' else None
            if kc is not None and kc in l.conc: return l.conc[kc]
            if kc is None: return table(l.conc, k)
        return z3.Select(l.val, k)
    def wrap_key(s, kk, k):
        if kk == 'str': return Str(k)
        if kk == 'i32': return IB(k)
        return II(k, 64)
    def seq_nth(s, e, i):
        if isinstance(i, int):
            parts = flatten(e); j = i
            for q in parts:
                if q.decl().kind() == z3.Z3_OP_SEQ_UNIT:
                    if j == 0: return q.arg(0)
                    j -= 1
                else: break
        parts = flatten(e)
        if len(parts) > 1 and parts[-1].decl().kind() == z3.Z3_OP_SEQ_UNIT:
            n = simp(slen(e) - 1 - iv(i))
            if z3.is_int_value(n) and n.as_long() == 0: return parts[-1].arg(0)
        k = s.seq_at(parts, i)
        if k is not None:
            q = parts[k]
            if q.decl().kind() == z3.Z3_OP_SEQ_UNIT: return q.arg(0)
            if q.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and k == len(parts)-1: return q.arg(0)[q.arg(1)]
        return e[iv(i)]
    def seq_at(s, parts, i):
        """the piece which begins exactly at index i"""
        if len(parts) < 2: return None
        at = z3.IntVal(0)
        for k, q in enumerate(parts):
            if simp(iv(i) - at).eq(z3.IntVal(0)): return k
            at = simp(at + slen(q))
        return None
    def el_component(s, e, el, sub):
        if el == 'str': return Str(e) if sub == 0 else s._bad(el, sub)
        if el == 'pair':
            if sub == 0: return Str(pfst(e))
            if sub == 32: return Str(psnd(e))
            return s._bad(el, sub)
        if el in ('i8', 'i16', 'i32', 'i64'): return IB(e)
        if isinstance(el, tuple):      # ('tup', sort, [(off, kind, accessor)], ctor)
            for off, kind, acc in el[2]:
                if off == sub:
                    v = acc(e)
                    if kind == 'ptr': return II(v, 64)
                    if kind == 'i32': return II(v, 32)
                    if kind == 'fn': return v
            return s._bad(el, sub)
        return s._bad(el, sub)
    def _bad(s, el, sub): raise Unsupported(f'component {sub} of element {el}')
    def elem_set(s, st, p, v):
        c = s.cells(st, p.obj).get(p.off); l = c[1]
        if isinstance(l, Vec):
            i = iv(p.idx)
            s.oblige(st, z3.And(i >= 0, i < slen(l.s)), 'element index inside the vector')
            old = s.seq_nth(l.s, p.idx)
            if l.el == 'str': ne = v.s
            elif l.el == 'pair': ne = mkPair(v.s, psnd(old)) if p.sub == 0 else mkPair(pfst(old), v.s)
            elif l.el in ('i8', 'i16', 'i32', 'i64'): ne = v.bv()
            else: raise Unsupported('vector element store')
            s.setc(st, p.obj, p.off, c[0], Vec(s.seq_upd(l.s, i, ne), l.el, l.es)); return
        if isinstance(l, Map) and isinstance(p.idx, tuple):
            k = p.idx[1]
            if p.sub == 0: raise Unsupported('store to a map key')
            if l.vk == 'str':
                s.setc(st, p.obj, p.off, c[0], l.upd(val=z3.Store(l.val, k, v.s), ord=z3.Const(fresh_name('ord'), l.ord.sort()), conc=None)); return
            if isinstance(l.vk, tuple) and p.sub >= 8 and l.kk == 'u64':
                old = z3.Select(l.val, k); fs = [acc(old) for _, _, acc in l.vk[2]]; hit = [i for i, (o, kd, _) in enumerate(l.vk[2]) if o == p.sub - 8]
                if hit:
                    if len(l.vk) > 4: l.vk[4](s, st, l, k)
                    w = s.p2i(v) if isinstance(v, Ptr) else v
                    fs[hit[0]] = iv(w.c) if w.conc else w.int(); s.setc(st, p.obj, p.off, c[0], l.upd(val=z3.Store(l.val, k, l.vk[1].constructor(0)(*fs)))); return
        raise Unsupported('element store')
    def seq_upd(s, q, i, e):
        # last element of a concatenation with a unit
        parts = flatten(q)
        if parts and parts[-1].decl().kind() == z3.Z3_OP_SEQ_UNIT:
            n = simp(slen(q) - 1 - i)
            if z3.is_int_value(n) and n.as_long() == 0: return cat(*parts[:-1], z3.Unit(e))
        k = s.seq_at(parts, i)
        if k is not None and parts[k].decl().kind() == z3.Z3_OP_SEQ_UNIT: return cat(*parts[:k], z3.Unit(e), *parts[k+1:])
        if k is not None and k == len(parts)-1 and parts[k].decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
            b, a, n = parts[k].children(); return cat(*parts[:k], z3.Unit(e), sub(b, simp(a+1), simp(n-1)))
        n = slen(q)
        return cat(sub(q, 0, i), z3.Unit(e), sub(q, i+1, n-i-1))

    def load(s, st, p, ty):
        n = s.m.size(ty)
        if isinstance(p, IV): raise Unsupported('load through integer')
        if p.null: s.oblige(st, False, 'null pointer dereference'); return s.fresh(ty)
        if p.idx is None:
            c = s.cells(st, p.obj)
            e = c.get(p.off)
            if e is not None and isinstance(e[1], VTab): return VSlot(e[1].iface, 0)
            if e is not None and not isinstance(e[1], Leaf) and e[0] == n: return s.conv(e[1], ty)
            if e is None or isinstance(e[1], Leaf) or (isinstance(e[1], IV)):
                f = s.find_leaf(st, p)
                if f and isinstance(s.elem(st, p), Ptr) and s.elem(st, p).idx is not None: return s.load(st, s.elem(st, p), ty)
                if e is not None and isinstance(e[1], Leaf): raise Unsupported(f'raw load from {e[1].kind} at {p}')
            # compose from bytes
            bs = []
            for i in range(n):
                b = s.byte_at(c, p.off+i)
                if b is None: break
                bs.append(b)
            if len(bs) == n:
                v = s.bytes_iv(bs)
                return s.conv(v, ty)
            if e is not None: raise Unsupported(f'load of size {n} from cell of size {e[0]}')
            v = s.fresh(ty)      # uninitialised / unknown memory: any value
            s.setc(st, p.obj, p.off, n, v)
            return v
        c = s.cells(st, p.obj).get(p.off)
        l = c[1] if c else None
        if isinstance(l, (Str, Buf)):
            if p.esz != 1: raise Unsupported('typed element of bytes')
            q = l.s; L = slen(q); i = iv(p.idx)
            if n == 1:
                if isinstance(l, Str):
                    s.oblige(st, z3.And(i >= 0, i <= L), 'character index inside the string')
                    if s.entails(st, i < L): return s.conv(IB(s.nthb(q, p.idx)), ty)
                    if s.entails(st, i == L): return s.conv(K(8, 0), ty)
                    return s.conv(IB(z3.If(i < L, s.nthb(q, p.idx), z3.BitVecVal(0, 8))), ty)
                s.oblige(st, z3.And(i >= 0, i < L), 'index inside the buffer')
                return s.conv(IB(s.nthb(q, p.idx)), ty)
            s.oblige(st, z3.And(i >= 0, i + n <= L), 'read inside the buffer')
            return s.conv(s.bytes_iv([IB(s.nthb(q, i+k if k else p.idx)) for k in range(n)]), ty)
        if isinstance(l, (Vec, Map)):
            v = s.elem_get(st, p)
            if isinstance(v, Leaf): raise Unsupported('raw load of a container component')
            return s.conv(v, ty)
        if c is not None or True:
            return s.arr_load(st, p, ty)
    def nthb(s, q, i):
        cb = as_const(q)
        if cb is not None and not isinstance(i, int):
            i2 = conc_int(i)
            if i2 is not None and i2 < len(cb): return z3.BitVecVal(cb[i2], 8)
            if 0 < len(cb) <= 300:
                i = simp(i); r = z3.BitVecVal(cb[-1], 8)
                b = i.arg(0) if i.decl().kind() == z3.Z3_OP_BV2INT else None
                for k in range(len(cb)-2, -1, -1):
                    if b is not None and k >= 1 << b.size(): continue
                    r = z3.If(b == k if b is not None else i == k, z3.BitVecVal(cb[k], 8), r)
                return r
            return q[iv(i)]
        if isinstance(i, int): return s.seq_nth(q, i)
        return q[i]
    def byte_at(s, c, o):
        e = c.get(o)
        if e is not None and isinstance(e[1], (IV, Bo)) :
            return s.iv_bytes(e[1], e[0])[0]
        for q, e in c.items():
            if q == 'z': continue
            if q < o < q + (e[0] or 0):
                if isinstance(e[1], (IV, Bo)): return s.iv_bytes(e[1], e[0])[o-q]
                if isinstance(e[1], Ptr) and e[1].null: return K(8, 0)
                return None
            if q == o:
                if isinstance(e[1], Ptr) and e[1].null: return K(8, 0)
                return None
        for lo, hi in c.get('z', ()):
            if lo <= o < hi: return K(8, 0)
        return None
    def arr_load(s, st, p, ty):
        """symbolic index into an array of scalar cells"""
        n = s.m.size(ty); size = st.osz.get(p.obj)
        cnt = s.arr_count(st, p)
        i = iv(p.idx)
        s.oblige(st, z3.And(i >= 0, i < cnt), 'array index in bounds')
        vals = [s.load(st, Ptr(p.obj, p.off + k*p.esz + p.sub), ty) for k in range(cnt)]
        if cnt > 64: raise Unsupported('large symbolic array access')
        if isinstance(vals[0], (IV, Bo)):
            r = None
            if any(isinstance(v, Ptr) for v in vals): raise Unsupported('array of pointers')
            useint = all(v.b is None for v in vals) and n >= 4
            r = vals[-1].int() if useint else vals[-1].bv()
            for k in range(cnt-2, -1, -1):
                r = z3.If(i == k, vals[k].int() if useint else vals[k].bv(), r)
            return II(r, 8*n) if useint else IB(simp(r))
        raise Unsupported('array of pointers')
    def arr_count(s, st, p):
        size = st.osz.get(p.obj)
        if size is None: raise Unsupported('symbolic index into an object of unknown size')
        return (size - p.off) // p.esz
    def conv(s, v, ty):
        """reinterpret a loaded value at type ty"""
        if ty.k == 'ptr':
            if isinstance(v, IV) and v.p is not None: return v.p
            if isinstance(v, IV) and v.conc and v.c == 0: return NULL
            return v
        if ty.k == 'int' and ty.n == 1:
            if isinstance(v, Bo): return v
            if v.conc: return Bo(bool(v.c & 1))
            if v.isint(): return Bo(v.i % 2 == 1)
            return Bo(z3.Extract(0, 0, v.bv()) == 1)
        if ty.k in ('int', 'float', 'double'):
            if isinstance(v, Bo): return IB(z3.If(v.e(), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))) if v.c is None else K(8, int(v.c))
            if isinstance(v, Ptr): return s.p2i(v)
            return v
        return v
    def store(s, st, p, v, ty):
        n = s.m.size(ty)
        if isinstance(p, IV): raise Unsupported('store through integer')
        if p.null: s.oblige(st, False, 'null pointer write'); return
        if isinstance(v, Bo):
            v = K(8, int(v.c)) if v.c is not None else IB(z3.If(v.z, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
        if p.idx is None:
            f = s.find_leaf(st, p)
            if f:
                if isinstance(f[1], Buf): return s.store(st, s.elem(st, p), v, ty)
                if f[1].kind != 'opq': raise Unsupported(f'raw store into {f[1].kind}')
            if isinstance(v, Agg): raise Unsupported('aggregate store')
            s.setc(st, p.obj, p.off, n, v); return
        c = s.cells(st, p.obj).get(p.off); l = c[1] if c else None
        if isinstance(l, (Str, Buf)):
            q = l.s; i = iv(p.idx); L = slen(q)
            bs = s.iv_bytes(v, n)
            if n == 1 and isinstance(l, Str) and v.conc and v.c == 0:
                s.oblige(st, z3.And(i >= 0, i <= L), 'write inside the string')
                if s.entails(st, i == L): return
            s.oblige(st, z3.And(i >= 0, i + n <= L), 'write inside the buffer')
            if n == 1: nq = s.seq_upd(q, i, bs[0].bv())
            else: nq = cat(sub(q, 0, i), *[z3.Unit(b.bv()) for b in bs], sub(q, i+n, L-i-n))
            nl = Str(nq) if isinstance(l, Str) else Buf(nq, l.n, l.size)
            s.setc(st, p.obj, p.off, c[0], nl); return
        if isinstance(l, (Vec, Map)): s.elem_set(st, p, v); return
        cnt = s.arr_count(st, p); i = iv(p.idx)
        s.oblige(st, z3.And(i >= 0, i < cnt), 'array index in bounds (write)')
        if cnt > 64: raise Unsupported('large symbolic array store')
        for k in range(cnt):
            q = Ptr(p.obj, p.off + k*p.esz + p.sub)
            o = s.load(st, q, ty)
            if isinstance(v, Ptr) or isinstance(o, Ptr): raise Unsupported('symbolic store of pointers')
            s.setc(st, q.obj, q.off, n, IB(z3.If(i == k, v.bv(), o.bv())))
    def fresh(s, ty, h='u'):
        if ty.k == 'int':
            if ty.n == 1: return Bo(z3.Bool(fresh_name(h)))
            if ty.n >= 64: return IV(ty.n, i=fresh_int(h, 0, (1 << ty.n)-1))
            return IV(ty.n, b=z3.BitVec(fresh_name(h), ty.n))
        if ty.k == 'float': return IV(32, b=z3.BitVec(fresh_name(h), 32))
        if ty.k == 'double': return IV(64, b=z3.BitVec(fresh_name(h), 64))
        if ty.k == 'ptr': return IV(64, i=fresh_int(h, 0, NPOS))
        raise Unsupported(f'fresh {ty}')
    def fresh_in(s, st, ty, h='u'):
        v = s.fresh(ty, h)
        if isinstance(v, IV) and v.i is not None and v.b is None: st.assume(range_fact(v.i))
        return v
    def p2i(s, p):
        if isinstance(p, IV): return p
        if p.null: return K(64, 0)
        n = 'addr_' + str(p.obj); RANGE[n] = (4096, 1 << 47)
        a = z3.Int(n) + p.off
        if p.idx is not None:
            if isinstance(p.idx, tuple): raise Unsupported('address of a map element')
            a = a + iv(p.idx)*p.esz + p.sub
        return IV(64, i=a, p=p)

    # bytes
    def read_seq(s, st, p, n, what='read'):
        """n bytes at p as a Seq (n: int or Int term)"""
        cn = conc_int(n)
        if cn == 0: return z3.Empty(SEQ)
        if not isinstance(p, Ptr) or p.null:
            s.oblige(st, iv(n) == 0, f'{what}: null or invalid pointer'); return z3.Empty(SEQ)
        p = s.elem(st, p)
        if p.idx is None:
            if cn is None: raise Unsupported('symbolic length access to scalars')
            return cat(*[z3.Unit(s.load(st, Ptr(p.obj, p.off+i), I8).bv()) for i in range(cn)])
        c = s.cells(st, p.obj).get(p.off); l = c[1] if c else None
        if not isinstance(l, (Str, Buf)): raise Unsupported('byte access to container')
        i = iv(p.idx); L = slen(l.s)
        s.oblige(st, z3.And(i >= 0, iv(n) >= 0, i + n <= L) if cn is None else z3.And(i >= 0, i + cn <= L), f'{what}: inside the source buffer')
        if conc_int(i) == 0:
            d = simp(L - n)
            if z3.is_int_value(d) and d.as_long() == 0: return l.s
            if s.entails(st, L == n): return l.s
        return sub(l.s, i, n)
    def write_seq(s, st, p, q, n, what='write'):
        cn = conc_int(n)
        if cn == 0: return
        if not isinstance(p, Ptr) or p.null:
            s.oblige(st, iv(n) == 0, f'{what}: null or invalid pointer'); return
        p = s.elem(st, p)
        if p.idx is None:
            if cn is None: raise Unsupported('symbolic length write to scalars')
            c = s.cells(st, p.obj)
            bs = [IB(simp(s.seq_nth(q, i))) for i in range(cn)]
            e = c.get(p.off)
            if cn in (1, 2, 4, 8): s.setc(st, p.obj, p.off, cn, s.bytes_iv(bs))
            else:
                for i, b in enumerate(bs): s.setc(st, p.obj, p.off+i, 1, b)
            return
        c = s.cells(st, p.obj).get(p.off); l = c[1] if c else None
        if isinstance(l, Vec):
            if cn is None or p.sub or l.el != f'i{8*cn}': raise Unsupported('byte write to vector')
            s.elem_set(st, p, s.bytes_iv([IB(simp(s.seq_nth(q, i))) for i in range(cn)])); return
        if not isinstance(l, (Str, Buf)):
            if cn is None: raise Unsupported('write')
            for i in range(cn): s.store(st, s.padd(p, i), IB(s.seq_nth(q, i)), I8)
            return
        i = iv(p.idx); L = slen(l.s)
        s.oblige(st, z3.And(i >= 0, iv(n) >= 0, i + n <= L), f'{what}: inside the destination buffer')
        if conc_int(i) == 0 and s.entails(st, L == n): nq = q
        else: nq = cat(sub(l.s, 0, i), q, sub(l.s, i+n, L-i-n))
        s.setc(st, p.obj, p.off, c[0], Str(nq) if isinstance(l, Str) else Buf(nq, l.n, l.size))
    def padd(s, p, d):
        """pointer plus byte distance (int or Int term)"""
        if isinstance(p, IV) or p.null: raise Unsupported('arithmetic on a null or integer pointer')
        cd = conc_int(d)
        if p.idx is None:
            if cd is not None: return Ptr(p.obj, p.off + cd)
            raise Unsupported('symbolic offset from a direct pointer')
        if isinstance(p.idx, tuple):
            if cd is None: raise Unsupported('symbolic offset in map element')
            return Ptr(p.obj, p.off, p.idx, p.esz, p.sub + cd)
        if cd is not None:
            t = p.sub + cd; k = t // p.esz
            idx = p.idx + k if k else p.idx
            if z3.is_expr(idx): idx = simp(idx)
            return Ptr(p.obj, p.off, idx, p.esz, t - k*p.esz)
        if p.esz == 1: return Ptr(p.obj, p.off, simp(iv(p.idx) + d), 1, 0)
        raise Unsupported('symbolic byte offset in elements')

    # ---------------------------------------------------------------- globals
    def ensure_global(s, st, name):
        name = s.m.alias.get(name, name)
        o = ('g', name)
        if o in st.mem: return st.mem[o]
        if name in s.base: st.mem[o] = s.base[name]; st.osz[o] = s.base_osz.get(name); return st.mem[o]
        if name not in s.m.glob_src: raise Unsupported('global ' + name)
        t, v, const = s.m.glob(name)
        try: st.osz[o] = s.m.size(t)
        except TypeError: st.osz[o] = None
        st.mem[o] = {}
        cells = {}
        if v is None or (not const and name not in s.m_ctor_globals() and not name.startswith('_ZGV') and t.k == 'int' and not name.startswith('_ZZ') and not s.initing):
            pass                    # external or mutable scalar: unknown value
        else: s.init_cells(st, cells, 0, t, v)
        st.mem[o] = cells
        s.base[name] = cells; s.base_osz[name] = st.osz[o]
        return cells
    initing = False
    def m_ctor_globals(s): return s._ctorg
    _ctorg = frozenset()
    def init_cells(s, st, cells, off, t, v):
        if v[0] in ('zero',): cells['z'] = cells.get('z', ()) + ((off, off + s.m.size(t)),); return
        if v[0] == 'undef': return
        if v[0] == 'cstr':
            cells[off] = (len(v[1]), Buf(lit(v[1]), len(v[1]))); return
        if t.k == 'struct':
            for i, (et, ev) in enumerate(v[1]): s.init_cells(st, cells, off + s.m.field_off(t, i), et, ev)
            return
        if t.k in ('arr', 'vec'):
            es = s.m.size(t.el)
            for i, (et, ev) in enumerate(v[1]): s.init_cells(st, cells, off + i*es, et, ev)
            return
        x = s.cval(st, t, v)
        if isinstance(x, Bo): x = K(8, int(x.c))
        cells[off] = (s.m.size(t), x)
    def run_ctors(s):
        """execute the static initialisers of the module concretely to obtain the initial contents of its globals"""
        src = s.m.glob_src.get('llvm.global_ctors')
        s.initing = True
        names = re.findall(r'ptr @([\w.$]+)', src) if src else []
        st = State(); s.quiet += 1
        errs = []
        for n in names:
            f = s.m.fn(n)
            # call each __cxx_global_var_init separately so that one unsupported initialiser does not lose the others
            for b in f.order:
                for ins in f.blocks[b]:
                    if ins.op == 'call' and ins.a[0][0] == 'glob':
                        try:
                            r = s.call_name(st.copy(), ins.a[0][1], [], None)
                            if len(r) == 1 and r[0][1] == 'ret': st = r[0][0]
                            else: errs.append(ins.a[0][1])
                        except Unsupported as e: errs.append(f'{ins.a[0][1]}: {e}')
        for o, c in st.mem.items():
            if isinstance(o, tuple) and o[0] == 'g': s.base[o[1]] = c; s.base_osz[o[1]] = st.osz.get(o)
        s.base_heap = {o: c for o, c in st.mem.items() if not isinstance(o, tuple)}
        s.quiet -= 1; s.initing = False
        s.ctor_errs = errs

    # ---------------------------------------------------------------- values
    def cval(s, st, ty, v):
        k = v[0]
        if k == 'int':
            if ty.k == 'int' and ty.n == 1: return Bo(bool(v[1] & 1))
            return K(ty.n if ty.k == 'int' else (32 if ty.k == 'float' else 64), v[1])
        if k == 'null': return NULL
        if k == 'zero':
            if ty.k == 'ptr': return NULL
            if ty.k == 'int': return Bo(False) if ty.n == 1 else K(ty.n, 0)
            return Agg([s.cval(st, e, ('zero',)) for e in (ty.el if ty.k == 'struct' else [ty.el]*ty.n)])
        if k == 'glob':
            n = s.m.alias.get(v[1], v[1])
            if n in s.m.fn_src or n in s.m.decls: return FnP(n)
            return Ptr(('g', n), 0)
        if k == 'undef':
            if ty.k == 'struct': return Agg([s.cval(st, e, v) for e in ty.el])
            if ty.k == 'ptr': return NULL
            return s.fresh(ty)
        if k == 'agg': return Agg([s.cval(st, t, x) for t, x in v[1]])
        if k == 'cgep':
            ops = [(t, s.cval(st, t, x)) for t, x in v[2]]
            return s.gep(st, v[1], ops[0][1], ops[1:])
        if k == 'ccast':
            x = s.cval(st, v[2], v[3])
            if v[1] in ('bitcast', 'addrspacecast'): return x
            if v[1] == 'ptrtoint': return s.p2i(x)
            if v[1] == 'inttoptr': return x.p if x.p is not None else x
        raise Unsupported(f'constant {v}')
    def val(s, st, env, ty, v):
        if v[0] == 'loc':
            try: return env[v[1]]
            except KeyError: raise Unsupported('undefined register ' + v[1])
        return s.cval(st, ty, v)

    def gep(s, st, bt, p, ops):
        if isinstance(p, VSlot):
            k = ops[-1][1]
            return VSlot(p.iface, p.slot + k.c)
        if isinstance(p, IV):
            if p.p is not None: p = p.p
            else: raise Unsupported('gep on integer pointer')
        t = bt; first = True
        for ty, ix in ops:
            if first:
                es = s.m.size(t) if t.k != 'opaque' else 1; first = False
            elif t.k == 'struct':
                p = s.padd(p, s.m.field_off(t, ix.c)) ; t = t.el[ix.c]; continue
            elif t.k in ('arr', 'vec'):
                N = t.n; t = t.el; es = s.m.size(t)
                if not ix.conc:
                    p = s.arr_elem(st, p, ix, es, N); continue
            else: raise Unsupported('gep type')
            if ix.conc:
                d = ix.sc()*es
                if d:
                    if p.null: raise Unsupported('null pointer arithmetic')
                    p = s.padd(p, d)
                elif p.idx is None and not p.null and t.k != 'opaque':
                    q = s.elem(st, p)
                    if q.idx is not None and q.esz > 1: p = q
                continue
            x = ix.sint()
            p = s.elem(st, p)
            if p.idx is None:
                p = s.arr_elem(st, p, ix, es, None); continue
            if p.esz == es: p = Ptr(p.obj, p.off, simp(iv(p.idx) + x), es, p.sub)
            elif es % p.esz == 0: p = Ptr(p.obj, p.off, simp(iv(p.idx) + x*(es//p.esz)), p.esz, p.sub)
            else: raise Unsupported('gep stride')
        return p
    def arr_elem(s, st, p, ix, es, N):
        q = s.elem(st, p)
        if q.idx is not None:
            if q.esz == es: return Ptr(q.obj, q.off, simp(iv(q.idx) + ix.sint()), es, q.sub)
            raise Unsupported('array stride')
        return Ptr(p.obj, p.off, ix.sint(), es, 0)

    # ---------------------------------------------------------------- integer arithmetic
    def nowrap(s, st, e, w):
        """reduce Int expression e modulo 2^w, without the modulus when it provably does not wrap"""
        e = simp(e)
        if z3.is_int_value(e): return e
        lo, hi = rng(e); M = 1 << w
        if lo is not None and hi is not None and lo >= 0 and hi < M: return e
        if s.entails(st, z3.And(e >= 0, e < M)): return e
        if hi is not None and hi < M and lo is not None and lo >= -M: return z3.If(e < 0, e + M, e)
        if lo is not None and lo >= 0 and hi is not None and hi < 2*M: return z3.If(e >= M, e - M, e)
        if lo is not None and lo >= -M and hi is not None and hi < 2*M: return z3.If(e < 0, e + M, z3.If(e >= M, e - M, e))
        return e % M
    bvsimp = staticmethod(simp)      # a job over bit-vector circuits only keeps the terms as the code builds them
    def binop(s, st, op, a, b, w):
        if isinstance(a, Bo) or isinstance(b, Bo):
            if op == 'and': return Bo(z3.And(a.e(), b.e()))
            if op == 'or': return Bo(z3.Or(a.e(), b.e()))
            if op in ('xor', 'add', 'sub'):
                if b.c is True: return Bo(z3.Not(a.e()))
                return Bo(z3.Xor(a.e(), b.e()))
            raise Unsupported('i1 ' + op)
        if isinstance(a, Ptr): a = s.p2i(a)
        if isinstance(b, Ptr): b = s.p2i(b)
        M = 1 << w
        if a.conc and b.conc:
            x, y = a.c, b.c
            if op in ('udiv', 'urem', 'sdiv', 'srem') and y == 0: s.oblige(st, False, 'division by zero'); return K(w, 0)
            if op in ('shl', 'lshr', 'ashr') and y >= w: s.oblige(st, False, 'shift amount'); return K(w, 0)
            if op == 'sdiv': sx, sy = a.sc(), b.sc(); r = abs(sx)//abs(sy); r = r if (sx < 0) == (sy < 0) else -r
            elif op == 'srem': sx, sy = a.sc(), b.sc(); r = abs(sx) % abs(sy); r = -r if sx < 0 else r
            else:
                r = {'add': lambda: x+y, 'sub': lambda: x-y, 'mul': lambda: x*y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
                 'shl': lambda: x << y, 'lshr': lambda: x >> y, 'ashr': lambda: a.sc() >> y, 'udiv': lambda: x//y, 'urem': lambda: x % y}[op]()
            return K(w, r)
        if op == 'sub' and a.p is not None and b.p is not None and a.p.obj == b.p.obj and a.p.off == b.p.off:
            pa, pb = a.p, b.p
            d = (iv(pa.idx or 0) - iv(pb.idx or 0))*pa.esz + pa.sub - pb.sub
            return II(s.nowrap(st, d, w), w)
        ints = a.isint() or b.isint() or w >= 64
        if op in ('add', 'sub', 'mul'):
            if ints:
                x, y = a.int(), b.int()
                if op == 'add' and b.conc and b.c >> (w-1): return II(s.nowrap(st, x - (M - b.c), w), w)
                if op == 'mul' and not (a.conc or b.conc): raise Unsupported('nonlinear multiplication')
                return II(s.nowrap(st, x+y if op == 'add' else x-y if op == 'sub' else x*y, w), w)
            x, y = a.bv(), b.bv()
            return IB((s.bvsimp)(x+y if op == 'add' else x-y if op == 'sub' else x*y))
        if op in ('udiv', 'urem'):
            if not b.conc: s.oblige(st, b.int() != 0, 'division by zero')
            elif b.c == 0: s.oblige(st, False, 'division by zero'); return K(w, 0)
            if ints:
                x, y = a.int(), b.int()
                return II(simp(x / y if op == 'udiv' else x % y), w)
            return IB(z3.UDiv(a.bv(), b.bv()) if op == 'udiv' else z3.URem(a.bv(), b.bv()))
        if op in ('sdiv', 'srem'):
            if not b.conc: raise Unsupported('signed division by a symbolic value')
            if ints:
                x = a.sint(); y = b.sc()
                if not s.entails(st, x >= 0) or y <= 0: 
                    if y <= 0: raise Unsupported('signed division')
                    q = z3.If(x >= 0, x / y, -((-x) / y))
                    r = q if op == 'sdiv' else x - q*y
                    return II(simp(z3.If(r < 0, r + M, r)), w)
                return II(simp(x / y if op == 'sdiv' else x % y), w)
            return IB(a.bv() / b.bv() if op == 'sdiv' else z3.SRem(a.bv(), b.bv()))
        if op in ('and', 'or', 'xor'):
            if b.conc or a.conc:
                k, x = (b, a) if b.conc else (a, b)
                if op == 'and':
                    if k.c == 0: return K(w, 0)
                    if k.c == M-1: return x
                    if x.isint() and (k.c & (k.c+1)) == 0: return II(simp(x.int() % (k.c+1)), w)
                elif k.c == 0: return x
            return IB(s.bvsimp({'and': a.bv() & b.bv(), 'or': a.bv() | b.bv(), 'xor': a.bv() ^ b.bv()}[op]))
        if op in ('shl', 'lshr', 'ashr'):
            if b.conc:
                if b.c >= w: s.oblige(st, False, 'shift amount'); return K(w, 0)
                if a.isint():
                    if op == 'lshr': return II(simp(a.int() / (1 << b.c)), w)
                    if op == 'shl': return II(s.nowrap(st, a.int() * (1 << b.c), w), w)
            else:
                s.oblige(st, b.int() < w, 'shift amount')
            x, y = a.bv(), b.bv()
            return IB(s.bvsimp(x << y if op == 'shl' else z3.LShR(x, y) if op == 'lshr' else x >> y))
        raise Unsupported(op)
    def icmp(s, st, pr, ty, a, b):
        if ty.k == 'ptr' or isinstance(a, Ptr) or isinstance(b, Ptr): return s.pcmp(st, pr, a, b)
        if isinstance(a, Bo):
            e = {'eq': a.e() == b.e(), 'ne': a.e() != b.e()}.get(pr)
            if e is None: raise Unsupported('i1 compare')
            return Bo(e)
        w = ty.n
        if a.conc and b.conc:
            x, y, sx, sy = a.c, b.c, a.sc(), b.sc()
            return Bo({'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y, 'slt': sx < sy, 'sle': sx <= sy, 'sgt': sx > sy, 'sge': sx >= sy}[pr])
        if a.isint() or b.isint() or w >= 64:
            if pr[0] == 's': x, y = a.sint(), b.sint()
            else: x, y = a.int(), b.int()
            return Bo({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pr if pr in ('eq', 'ne') else pr[1:]])
        x, y = a.bv(), b.bv()
        return Bo({'eq': x == y, 'ne': x != y, 'ult': z3.ULT(x, y), 'ule': z3.ULE(x, y), 'ugt': z3.UGT(x, y), 'uge': z3.UGE(x, y),
                   'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[pr])
    def pcmp(s, st, pr, a, b):
        if isinstance(a, FnP) or isinstance(b, FnP):
            an = isinstance(a, Ptr) and a.null or isinstance(a, IV) and a.conc and a.c == 0
            bn = isinstance(b, Ptr) and b.null or isinstance(b, IV) and b.conc and b.c == 0
            if an or bn: r = False
            elif isinstance(a, FnP) and isinstance(b, FnP): r = a.name == b.name
            else: raise Unsupported('function pointer compare')
            return Bo(r if pr == 'eq' else not r)
        if isinstance(a, IV) and a.p is not None: a = a.p
        if isinstance(b, IV) and b.p is not None: b = b.p
        if isinstance(a, IV) or isinstance(b, IV):
            x = s.p2i(a); y = s.p2i(b)
            return s.icmp(st, pr, I64, x, y)
        if pr in ('eq', 'ne'):
            if a.null and b.null: r = z3.BoolVal(True)
            elif a.null or b.null:
                p = b if a.null else a
                r = s.nullcond(st, p)
            elif a.key() == b.key() and (a.idx is None) == (b.idx is None):
                if a.idx is None: r = z3.BoolVal(True)
                elif isinstance(a.idx, tuple) or isinstance(b.idx, tuple):
                    if isinstance(a.idx, tuple) and isinstance(b.idx, tuple): r = a.idx[1] == b.idx[1]
                    else: raise Unsupported('map iterator compare')
                else: r = z3.And(iv(a.idx) == iv(b.idx), a.sub == b.sub)
            elif a.obj == b.obj and a.idx is None and b.idx is None: r = z3.BoolVal(a.off == b.off)
            elif a.obj == b.obj and s.elem(st, a).idx is not None and s.elem(st, b).idx is not None and (a.idx is None or b.idx is None): return s.pcmp(st, pr, s.elem(st, a), s.elem(st, b))
            elif a.obj != b.obj: r = z3.BoolVal(False)
            else: raise Unsupported('pointer compare')
            return Bo(r if pr == 'eq' else z3.Not(r))
        if a.key() == b.key() and a.idx is not None and b.idx is not None:
            x = iv(a.idx)*a.esz + a.sub; y = iv(b.idx)*b.esz + b.sub
            return Bo({'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pr[1:]])
        if a.obj == b.obj and a.idx is None and b.idx is None:
            return Bo({'lt': a.off < b.off, 'le': a.off <= b.off, 'gt': a.off > b.off, 'ge': a.off >= b.off}[pr[1:]])
        raise Unsupported('pointer order')
    def nullcond(s, st, p):
        """condition under which a pointer designates 'null' (end of a map / list), else False"""
        if p.idx is None: return z3.BoolVal(False)
        c = s.cells(st, p.obj).get(p.off)
        l = c[1] if c else None
        if isinstance(l, Map):
            if isinstance(p.idx, tuple): return z3.BoolVal(False)
            return iv(p.idx) == slen(l.ord)
        if isinstance(l, Opq) and l.tag == 'list': return iv(p.idx) == l.d['n']
        return z3.BoolVal(False)

    # ---------------------------------------------------------------- control
    def branch(s, st, c):
        """[(state, bool)] for an i1 value"""
        if c.c is not None: return [(st, c.c)]
        z = c.z; out = []
        t = st.copy(); t.assume(z)
        rt = s.sat(st, z)
        if rt == 'unsat':
            st.assume(z3.Not(z)); return [(st, False)]
        rf = s.sat(st, z3.Not(z))
        if rf == 'unsat':
            st.assume(z); return [(st, True)]
        f = st; f.assume(z3.Not(z))
        if rt == 'unknown': t.unk = True
        if rf == 'unknown': f.unk = True
        return [(t, True), (f, False)]

    def cfg(s, f):
        c = getattr(f, '_cfg', None)
        if c: return c
        succ = {}
        for b in f.order:
            i = f.blocks[b][-1]
            if i.op == 'br': succ[b] = [i.a[1]] if i.a[0] is None else [i.a[1], i.a[2]]
            elif i.op == 'switch': succ[b] = [i.a[2]] + [x for _, x in i.a[3]]
            elif i.op == 'invoke': succ[b] = [i.a[2], i.a[3]]
            else: succ[b] = []
        pred = {b: [] for b in f.order}
        for b, ss in succ.items():
            for x in ss: pred[x].append(b)
        back = []; color = {}
        stack = [(f.entry, iter(succ[f.entry]))]; color[f.entry] = 1
        while stack:
            b, it = stack[-1]
            for x in it:
                if color.get(x, 0) == 0: color[x] = 1; stack.append((x, iter(succ[x]))); break
                elif color[x] == 1: back.append((b, x))
            else: color[b] = 2; stack.pop()
        loops = {}
        for t, h in back:
            body = loops.setdefault(h, {h}); work = [t]
            while work:
                x = work.pop()
                if x in body: continue
                body.add(x); work += pred[x]
        # order of loops = textual order
        idx = {h: i for i, h in enumerate([b for b in f.order if b in loops])}
        f._cfg = (succ, loops, idx)
        return f._cfg

    def run_fn(s, st, name, args):
        """execute function body; returns [(state, 'ret'|'throw', value)]"""
        f = s.m.fn(name)
        if s.depth > 60: raise Unsupported('call depth')
        s.depth += 1; s.fnstack.append(name)
        try:
            env = {}
            for (t, n, at), a in zip(f.params, args): env[n] = a
            before = None
            fr = {'f': f, 'allocas': []}
            items = s.region(fr, [(st, env, f.entry, None)], None, None)
            out = []
            for it in items:
                st2 = it[1]
                for o in fr['allocas']: st2.mem.pop(o, None)
                out.append((st2, it[0], it[2]))
            return out
        finally:
            s.depth -= 1; s.fnstack.pop()

    def region(s, fr, work, loop, rec):
        """run a worklist of (state, env, block, prev). loop=(header, body): stop at edges back to header / out of body.
        returns [('ret', st, v) | ('throw', st, exc) | ('back', st, env, prev) | ('exit', st, env, blk, prev)]"""
        f = fr['f']; succ, loops, _ = s.cfg(f)
        out = []
        raw = loop[0] if loop else None
        work = [w + (raw is not None,) for w in work]
        while work:
            st, env, blk, prev, start = work.pop()
            if not start:
                if loop:
                    if blk == loop[0]: out.append(('back', st, env, prev)); continue
                    if blk not in loop[1]: out.append(('exit', st, env, blk, prev)); continue
                if blk in loops and prev not in loops[blk]:
                    for it in s.do_loop(fr, st, env, blk, prev, loops[blk]):
                        if it[0] == 'exit': work.append((it[1], it[2], it[3], it[4], False))
                        else: out.append(it)
                    continue
            if len(out) + len(work) > s.max_paths: raise Unsupported('too many paths')
            s.block(fr, st, env, blk, prev, work, out, loop, rec)
        return out

    def block(s, fr, st, env, blk, prev, work, out, loop, rec):
        f = fr['f']
        insts = f.blocks[blk]
        s.insts(fr, st, env, blk, prev, 0, work, out, loop, rec)

    def note_exit(s, loop, rec, c, targets, blk):
        if not loop or rec is None: return
        outs = [t not in loop[1] for t in targets]
        if any(outs) and not all(outs):
            # a conditional exit of the loop
            if c is not None:     # a counter comes out the same way on every path through an iteration
                b = rec.setdefault('br', {}).setdefault(blk, set()); b.add(c); rec['conc'] = any(len(x) == 1 for x in rec['br'].values())
            else: rec['sym'] = True; rec.setdefault('br', {}).setdefault(blk, set()).update((None, 'sym')); rec['conc'] = any(len(x) == 1 for x in rec['br'].values())

    def insts(s, fr, st, env, blk, prev, ip, work, out, loop, rec):
        f = fr['f']; insts = f.blocks[blk]; n = len(insts)
        owned = False
        while ip < n:
            I = insts[ip]; op = I.op; s.ninst += 1
            if op == 'alloca':
                if I.a is not None: 
                    k = s.val(st, env, I.a[0], I.a[1])
                    if not k.conc: raise Unsupported('variable length alloca')
                    sz = s.m.size(I.ty)*k.c
                else: sz = s.m.size(I.ty) if I.ty.k != 'opaque' else None
                o = s.new_obj(st, sz, 'a'); fr['allocas'].append(o)
                if I.ty.k == 'arr' and I.ty.el.k == 'int' and I.ty.el.n == 8 and I.ty.n >= 16:
                    q = z3.Const(fresh_name('buf'), SEQ); st.assume(z3.Length(q) == I.ty.n)
                    st.mem[o] = {0: (sz, Buf(q, I.ty.n))}
                fr.setdefault('names', {})[o] = (I.res, I.ty)
                env = dict(env) if not owned else env; owned = True
                env[I.res] = Ptr(o, 0)
            elif op == 'load':
                p = s.val(st, env, PTR, I.a)
                if isinstance(p, IV) and p.p is not None: p = p.p
                if isinstance(p, VSlot): v = ('vfn', p)
                else:
                    v = s.load_v(st, p, I.ty)
                if isinstance(v, list):      # forked
                    for st2, v2 in v:
                        e2 = dict(env); e2[I.res] = v2
                        s.insts(fr, st2, e2, blk, prev, ip+1, work, out, loop, rec)
                    return
                if not owned: env = dict(env); owned = True
                env[I.res] = v
            elif op == 'store':
                v = s.val(st, env, I.a[0], I.a[1]); p = s.val(st, env, PTR, I.a[2])
                if isinstance(p, IV) and p.p is not None: p = p.p
                s.store(st, p, v, I.a[0])
            elif op == 'getelementptr':
                bt, ops = I.a
                vs = [(t, s.val(st, env, t, x)) for t, x in ops]
                if not owned: env = dict(env); owned = True
                env[I.res] = s.gep(st, bt, vs[0][1], vs[1:])
            elif op in ('call', 'invoke'):
                fnv, args = I.a[0], I.a[1]
                av = []
                for t, x, at in args:
                    v = s.val(st, env, t, x)
                    if 'byval' in at: v = s.copy_obj(st, v, at['byval'])
                    av.append(v)
                fn = ('glob', fnv[1]) if fnv[0] == 'glob' else env[fnv[1]] if fnv[0] == 'loc' else None
                res = s.call(st, fn, av, I)
                if op == 'call' and len(res) == 1 and res[0][1] == 'ret':
                    st = res[0][0]
                    if I.res is not None:
                        if not owned: env = dict(env); owned = True
                        env[I.res] = res[0][2]
                    ip += 1; continue
                for st2, kind, v in res:
                    if kind == 'ret':
                        e2 = dict(env)
                        if I.res is not None: e2[I.res] = v
                        if op == 'call': s.insts(fr, st2, e2, blk, prev, ip+1, work, out, loop, rec)
                        else: work.append((st2, e2, I.a[2], blk, False))
                    elif kind == 'throw':
                        if op == 'call': out.append(('throw', st2, v))
                        else:
                            st2.exc = v; work.append((st2, dict(env), I.a[3], blk, False))
                return
            elif op == 'br':
                if I.a[0] is None: work.append((st, env, I.a[1], blk, False)); return
                c = s.val(st, env, I1, I.a[0])
                if I.a[0][0] == 'loc': s.note_exit(loop, rec, c.c, [I.a[1], I.a[2]], blk)
                for st2, b in s.branch(st, c): work.append((st2, env, I.a[1] if b else I.a[2], blk, False))
                return
            elif op == 'switch':
                t, c, d, cs = I.a; v = s.val(st, env, t, c)
                s.note_exit(loop, rec, v.c if v.conc else None, [d] + [x for _, x in cs], blk)
                if v.conc:
                    for k, x in cs:
                        if (k & ((1 << t.n)-1)) == v.c: work.append((st, env, x, blk, False)); return
                    work.append((st, env, d, blk, False)); return
                rest = st
                for k, x in cs:
                    eq = s.icmp(rest, 'eq', t, v, K(t.n, k))
                    br = s.branch(rest, eq); rest = None
                    for st2, b in br:
                        if b: work.append((st2, env, x, blk, False))
                        else: rest = st2
                    if rest is None: break
                if rest is not None: work.append((rest, env, d, blk, False))
                return
            elif op == 'ret':
                out.append(('ret', st, None if I.a is None else s.val(st, env, I.ty, I.a))); return
            elif op == 'unreachable':
                s.oblige(st, False, 'unreachable code reached'); return
            elif op == 'resume':
                out.append(('throw', st, st.exc)); return
            elif op == 'landingpad':
                if not owned: env = dict(env); owned = True
                cl, cs = I.a
                sel = 0
                for i, (k, v) in enumerate(cs):
                    if k == 'catch' and s.catches(v, st.exc.ty): sel = s.selector(v); break
                env[I.res] = Agg([st.exc.obj or NULL, K(32, sel)])
            elif op == 'extractvalue':
                v = s.val(st, env, I.a[0], I.a[1])
                for k in I.a[2]: v = v.v[k]
                if not owned: env = dict(env); owned = True
                env[I.res] = v
            elif op == 'insertvalue':
                v = s.val(st, env, I.a[0], I.a[1]); x = s.val(st, env, I.a[2], I.a[3])
                if len(I.a[4]) != 1: raise Unsupported('nested insertvalue')
                l = list(v.v); l[I.a[4][0]] = x
                if not owned: env = dict(env); owned = True
                env[I.res] = Agg(l)
            elif op == 'phi':
                # evaluate all phis of the block simultaneously
                vals = []
                while insts[ip].op == 'phi':
                    J = insts[ip]
                    for v, b in J.a:
                        if b == prev: vals.append((J.res, s.val(st, env, J.ty, v))); break
                    else: raise Unsupported('phi')
                    ip += 1
                if not owned: env = dict(env); owned = True
                for r, v in vals: env[r] = v
                continue
            elif op == 'icmp':
                a = s.val(st, env, I.a[1], I.a[2]); b = s.val(st, env, I.a[1], I.a[3])
                if not owned: env = dict(env); owned = True
                env[I.res] = s.icmp(st, I.a[0], I.a[1], a, b)
            elif op in ('add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor'):
                a = s.val(st, env, I.ty, I.a[0]); b = s.val(st, env, I.ty, I.a[1])
                if not owned: env = dict(env); owned = True
                env[I.res] = s.binop(st, op, a, b, I.ty.n)
            elif op in ('trunc','zext','sext','ptrtoint','inttoptr','bitcast','sitofp','uitofp','fptosi','fptoui','fpext','fptrunc'):
                a = s.val(st, env, I.a[0], I.a[1])
                if not owned: env = dict(env); owned = True
                env[I.res] = s.cast(st, op, I.a[0], a, I.ty)
            elif op == 'select':
                c = s.val(st, env, I1, I.a[0]); a = s.val(st, env, I.ty, I.a[1]); b = s.val(st, env, I.ty, I.a[2])
                br = s.branch(st, c)
                for st2, t in br[1:]:
                    e2 = dict(env); e2[I.res] = a if t else b
                    s.insts(fr, st2, e2, blk, prev, ip+1, work, out, loop, rec)
                st = br[0][0]
                if not owned: env = dict(env); owned = True
                env[I.res] = a if br[0][1] else b
            elif op == 'freeze' or op == 'fence':
                raise Unsupported(op)
            else: raise Unsupported('instruction ' + op)
            ip += 1
    def load_v(s, st, p, ty):
        if isinstance(p, Ptr) and p.idx is not None and not isinstance(p.idx, tuple):
            c = s.cells(st, p.obj).get(p.off)
            if c and isinstance(c[1], Opq) and c[1].tag == 'list':
                return c[1].d['load'](s, st, p, ty)
        return s.load(st, p, ty)
    def cast(s, st, op, t1, a, t2):
        if op in ('bitcast',):
            return a
        if op == 'ptrtoint':
            return s.p2i(a) if not isinstance(a, IV) else a
        if op == 'inttoptr':
            if isinstance(a, IV) and a.p is not None: return a.p
            return NULL if a.conc and a.c == 0 else a
        if op in ('sitofp','uitofp','fptosi','fptoui','fpext','fptrunc'): raise Unsupported('floating point conversion')
        w = t2.n
        if isinstance(a, Bo):
            if op == 'zext': return K(w, int(a.c)) if a.c is not None else IB(z3.If(a.z, z3.BitVecVal(1, w), z3.BitVecVal(0, w)))
            if op == 'sext': return K(w, -int(a.c)) if a.c is not None else IB(z3.If(a.z, z3.BitVecVal(-1, w), z3.BitVecVal(0, w)))
        if isinstance(a, Ptr): a = s.p2i(a)
        if op == 'trunc':
            if a.conc: return Bo(bool(a.c & 1)) if w == 1 else K(w, a.c)
            if w == 1: return Bo(a.int() % 2 == 1) if a.isint() else Bo(z3.Extract(0, 0, a.bv()) == 1)
            if a.isint():
                lo, hi = rng(a.i)
                if lo is not None and lo >= 0 and hi is not None and hi < (1 << w): return II(a.i, w)
                if s.entails(st, z3.And(a.i >= 0, a.i < (1 << w))): return II(a.i, w)
                return II(a.i % (1 << w), w)
            return IB(simp(z3.Extract(w-1, 0, a.bv())))
        if op == 'zext':
            if a.conc: return K(w, a.c)
            if a.isint(): return II(a.i, w)
            r = IB(z3.ZeroExt(w - a.w, a.bv()))
            r.i = None
            return r
        if op == 'sext':
            if a.conc: return K(w, a.sc())
            if a.isint():
                x = a.i; h = 1 << (a.w-1)
                lo, hi = rng(x)
                if (hi is not None and hi < h) or s.entails(st, x < h): return II(x, w)
                return II(z3.If(x >= h, x + ((1 << w) - (1 << a.w)), x), w)
            b = simp(a.bv())
            if s.topzero(b): return IB(z3.ZeroExt(w - a.w, b))
            return IB(z3.SignExt(w - a.w, b))
        raise Unsupported(op)
    def topzero(s, b):
        d = b.decl().kind()
        if d == z3.Z3_OP_CONCAT and z3.is_bv_value(b.arg(0)): return (b.arg(0).as_long() >> (b.arg(0).size()-1)) == 0
        if d == z3.Z3_OP_ZERO_EXT: return True
        if d == z3.Z3_OP_BAND: return any(z3.is_bv_value(c) and c.as_long() >> (b.size()-1) == 0 for c in b.children())
        return False
    def copy_obj(s, st, p, ty):
        if p.idx is not None: raise Unsupported('byval element')
        sz = s.m.size(ty); o = s.new_obj(st, sz, 'bv')
        c = s.cells(st, p.obj); d = {}
        for q, e in c.items():
            if q == 'z': d['z'] = tuple((lo-p.off, hi-p.off) for lo, hi in e)
            elif p.off <= q < p.off+sz: d[q-p.off] = e
        st.mem[o] = d
        return Ptr(o, 0)

    # exceptions
    def tyname(s, v):
        if v[0] == 'null' or v[0] == 'zero': return None
        d = s.m.dem.get(v[1], v[1])
        return d.replace('typeinfo for ', '')
    def catches(s, v, ty):
        t = s.tyname(v)
        return t is None or t == ty or t in STD_BASES.get(ty, ())
    def selector(s, v):
        t = s.tyname(v)
        s._sel = getattr(s, '_sel', {})
        return s._sel.setdefault(t, len(s._sel)+1)

    # ---------------------------------------------------------------- calls
    def call(s, st, fn, args, I):
        if isinstance(fn, tuple) and fn[0] == 'glob': return s.call_name(st, fn[1], args, I)
        if isinstance(fn, FnP): return s.call_name(st, fn.name, args, I)
        if isinstance(fn, tuple) and fn[0] == 'vfn': return s.call_virtual(st, fn[1], args, I)
        if isinstance(fn, IV): raise Unsupported('call through an unknown pointer')
        raise Unsupported(f'call target {fn}')
    def call_virtual(s, st, vs, args, I):
        nm = s.vmethod(vs.iface, vs.slot)
        key = f'virtual {vs.iface}::{nm}'
        c = s.contracts.get(key)
        if c is None: raise Unsupported('no interface contract for ' + key)
        s.used_contracts[key] = s.used_contracts.get(key, 0)+1
        return c.apply(s, st, args, I)
    def vmethod(s, iface, slot):
        """method name at a virtual table slot, from the virtual table of the interface class itself"""
        for n, d in s.m.dem.items():
            if d == 'vtable for ' + iface and n in s.m.glob_src:
                t, v, _ = s.m.glob(n)
                ents = v[1][0][1][1]
                e = ents[slot+2][1]
                if e[0] != 'glob': raise Unsupported('vtable entry')
                d2 = s.m.norm[e[1]]
                if '__cxa_pure_virtual' in d2:
                    # take the name from a derived class
                    for n2, d3 in s.m.dem.items():
                        if d3.startswith('vtable for fr::') and n2 != n and n2 in s.m.glob_src:
                            try: e2 = s.m.glob(n2)[1][1][0][1][1]
                            except Exception: continue
                            if slot+2 < len(e2) and e2[slot+2][1][0] == 'glob' and s.derives(d3[11:], iface):
                                q = s.m.norm[e2[slot+2][1][1]]
                                if 'pure_virtual' not in q: return q[:q.index('(')].split('::')[-1]
                    raise Unsupported('pure virtual')
                return d2[:d2.index('(')].split('::')[-1]
        raise Unsupported('vtable of ' + iface)
    def bases(s, ti):
        """typeinfo names of all base classes, from the run-time type information in the IR"""
        src = s.m.glob_src.get(ti)
        if src is None: return set()
        import re
        b = set(re.findall(r'@(_ZTI[\w.$]+)', src.split('=', 1)[-1])) - {ti}; out = set(b)
        for x in b: out |= s.bases(x)
        return out
    def derives(s, cls, base):
        r = {d: n for n, d in s.m.dem.items() if d.startswith('typeinfo for ')}
        a, b = r.get('typeinfo for ' + cls), r.get('typeinfo for ' + base)
        return a is not None and b in s.bases(a)
    def call_name(s, st, name, args, I):
        name = s.m.alias.get(name, name)
        norm = s.m.norm.get(name, name)
        c = s.contracts.get(norm)
        if c is not None and c.usable(s):
            s.used_contracts[norm] = s.used_contracts.get(norm, 0)+1
            return c.apply(s, st, args, I)
        mdl = s.mcache.get(name, 0)
        if mdl == 0:
            mdl = None
            for rx, fn in s.models:
                mm = rx.fullmatch(norm)
                if mm: mdl = (fn, mm); break
            s.mcache[name] = mdl
        if mdl is not None:
            from .lib import NEXT
            s.used_models[norm] = s.used_models.get(norm, 0)+1
            r = mdl[0](s, st, args, mdl[1], I)
            if r is not NEXT:
                if isinstance(r, list): return r
                return [(st, 'ret', r)]
        if name in s.m.fn_src:
            s.inlined[norm] = s.inlined.get(norm, 0)+1
            return s.run_fn(st, name, args)
        raise Unsupported('no model for ' + norm)

    # ---------------------------------------------------------------- loops
    UNROLL = 1200
    def do_loop(s, fr, st, env, H, prev, body):
        f = fr['f']; norm = s.m.norm[f.name]
        cfg = s.loopcfg.get(norm) or s.loopcfg.get("*", {})
        mode = cfg.get('mode')
        if mode != 'inv':
            # try to unroll: a loop with an exit decided by constants
            nobs = len(s.obs)
            states = [(st.copy(), env, H, prev)]; outs = []; it = 0; ok = True
            while states:
                rec = {}
                try: items = s.region(fr, states, (H, body), rec)
                except Unsupported:
                    if it == 0: ok = False; break
                    raise
                it += 1
                nxt = [(x[1], x[2], H, x[3]) for x in items if x[0] == 'back']
                if nxt and not rec.get('conc') : ok = False; break
                outs += [x for x in items if x[0] != 'back']
                states = nxt
                if it > s.UNROLL: raise Unsupported('loop unrolling limit')
                if len(states) > 400 or (rec.get('sym') and it > 300): ok = False; break
            if ok: return outs
            del s.obs[nobs:]
        return s.loop_inv(fr, st, env, H, prev, body, cfg)

    def diff(s, a, b, allow_new=False):
        """cells of state b that differ from a (objects existing in a)"""
        m = set()
        for o, c in a.mem.items():
            d = b.mem.get(o)
            if d is None: continue
            if d is c: continue
            for off in set(c) | set(d):
                x, y = c.get(off), d.get(off)
                if x is y: continue
                if off == 'z': continue
                if x is None or y is None or not s.same(x[1], y[1]): m.add((o, off))
        for o in b.mem:
            if o not in a.mem and isinstance(o, tuple) and o[0] == 'g':
                base = s.base.get(o[1])
                if base is not b.mem[o]:
                    for off in set(b.mem[o]) | set(base or {}):
                        if off == 'z': continue
                        x = (base or {}).get(off); y = b.mem[o].get(off)
                        if x is None or y is None or not s.same(x[1], y[1]): m.add((o, off))
        for g in set(a.gh) | set(b.gh):
            x, y = a.gh.get(g), b.gh.get(g)
            if x is y: continue
            if z3.is_expr(x) and z3.is_expr(y) and x.eq(y): continue
            if not z3.is_expr(x) and not z3.is_expr(y) and x == y: continue
            m.add(('ghost', g))
        return m
    def same(s, x, y):
        if x is y: return True
        if type(x) is not type(y): return False
        if isinstance(x, IV):
            if x.conc or y.conc: return x.conc and y.conc and x.c == y.c
            if x.isint() and y.isint(): return x.i.eq(y.i)
            return x.bv().eq(y.bv())
        if isinstance(x, Ptr):
            if x.key() != y.key() or x.sub != y.sub: return False
            if x.idx is None or y.idx is None: return x.idx is y.idx
            if isinstance(x.idx, tuple) or isinstance(y.idx, tuple): return isinstance(x.idx, tuple) and isinstance(y.idx, tuple) and x.idx[1].eq(y.idx[1])
            return simp(iv(x.idx)).eq(simp(iv(y.idx)))
        if isinstance(x, Str): return x.s.eq(y.s)
        if isinstance(x, Buf): return x.s.eq(y.s)
        if isinstance(x, Vec): return x.s.eq(y.s)
        if isinstance(x, Map): return x.dom.eq(y.dom) and (x.val is None or x.val.eq(y.val)) and x.ord.eq(y.ord)
        if isinstance(x, FnP): return x.name == y.name
        if isinstance(x, VTab): return x.iface == y.iface
        if isinstance(x, Opq): return x.tag == y.tag and x.d == y.d
        return False
    def havoc(s, st, mod, ref):
        """copy of st with the locations in mod given arbitrary values of the same shape (ref: state supplying shapes when st has none)"""
        t = st.copy(); t.tainted = True
        for o, off in mod:
            if o == 'ghost':
                v = t.gh.get(off)
                if not z3.is_expr(v):
                    if isinstance(v, (int, tuple, type(None), frozenset, str)): raise Unsupported('loop changes ghost ' + str(off))
                    raise Unsupported('ghost havoc')
                t.gh[off] = z3.Const(fresh_name('g_' + str(off)), v.sort())
                if v.sort() == z3.IntSort(): pass
                continue
            c = dict(t.mem.get(o) if o in t.mem else s.cells(t, o)); e = c.get(off)
            if e is None:
                # not initialised before the loop: unknown; use the shape found at the back edge only to drop it
                c.pop(off, None); t.mem[o] = c; continue
            e2 = ref.get((o, off))
            v = e[1]
            c[off] = (e[0], s.havoc_val(t, v, e2))
            if c[off][1] is None: del c[off]
            t.mem[o] = c
        return t
    def havoc_val(s, t, v, other):
        if isinstance(v, IV):
            if isinstance(other, (Ptr,)): return None
            if v.p is not None: raise Unsupported('loop changes an address')
            if (v.conc and v.w >= 32) or v.isint():
                x = fresh_int('h', 0, (1 << v.w)-1); t.assume(range_fact(x)); return IV(v.w, i=x)
            return IV(v.w, b=z3.BitVec(fresh_name('h'), v.w))
        if isinstance(v, Ptr):
            w = other if isinstance(other, Ptr) else None
            if v.idx is not None and not isinstance(v.idx, tuple):
                if w is not None and (w.key() != v.key() or isinstance(w.idx, tuple) or w.idx is None): return None
                x = fresh_int('hp', None, None); return Ptr(v.obj, v.off, x, v.esz, v.sub)
            return None
        if isinstance(v, Str):
            q = z3.Const(fresh_name('hs'), SEQ); t.assume(z3.Length(q) <= MAXLEN); return Str(q)
        if isinstance(v, Buf):
            q = z3.Const(fresh_name('hb'), SEQ); t.assume(z3.Length(q) == v.n); return Buf(q, v.n, v.size)
        if isinstance(v, Vec):
            q = z3.Const(fresh_name('hv'), v.s.sort()); t.assume(z3.Length(q) <= MAXLEN); return Vec(q, v.el, v.es)
        if isinstance(v, Map):
            return v.upd(dom=z3.Const(fresh_name('hd'), v.dom.sort()), val=None if v.val is None else z3.Const(fresh_name('hm'), v.val.sort()), ord=z3.Const(fresh_name('ho'), v.ord.sort()), conc=None)
        raise Unsupported(f'havoc of {type(v).__name__}')

    def loop_inv(s, fr, st, env, H, prev, body, cfg):
        from . import inv
        return inv.run(s, fr, st, env, H, prev, body, cfg)
