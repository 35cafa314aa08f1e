"""Function contracts.  One contract serves both ways: the function's own body is verified against it, and calls to the
function are replaced by it (precondition checked, everything in `modifies` forgotten, postcondition assumed)."""
import re, time
import z3
from .sym import *
from .exec import Ex, State, Ob, Throw
from .llir import Ty, I8, I32, I64, PTR
from . import lib, solve

class View:
    """read access to a state, for specifications"""
    def __init__(s, ex, st): s.ex = ex; s.st = st
    def str(s, p): return s.ex.str(s.st, p)
    def vec(s, p): return s.ex.leaf(s.st, p, Vec).s
    def map(s, p): return s.ex.leaf(s.st, p, Map)
    def iv(s, p, bits=64): return s.ex.load(s.st, p, Ty('int', bits))
    def int(s, p, bits=64): return s.iv(p, bits).int()
    def bv(s, p, bits=32): return s.iv(p, bits).bv()
    def fld(s, p, cls, name):
        off, k = field(s.ex, cls, name)
        return Ptr(p.obj, p.off + off)
    def f(s, p, cls, name):
        """value of a member: Seq for strings/vectors, IV for integers"""
        off, k = field(s.ex, cls, name); q = Ptr(p.obj, p.off + off)
        if k[0] == 'str': return s.str(q)
        if k[0] == 'vec': return s.vec(q)
        if k[0] in ('map', 'set'): return s.map(q)
        if k[0] == 'int': return s.iv(q, k[1])
        return s.ex.load(s.st, q, PTR)
    def bytes(s, p, n): return s.ex.read_seq(s.st, p, n)
    def gh(s, k): return s.st.gh[k]
    def has(s, k): return k in s.st.gh

def field(ex, cls, name):
    for off, n, k in ex.di.fields(cls):
        if n == name: return off, k
    raise Unsupported(f'no member {name} in {cls}')

# ------------------------------------------------------------------ symbolic inputs
def sym_str(ex, st, p, h='s'):
    q = z3.Const(fresh_name(h), SEQ); st.assume(z3.Length(q) <= SYMLEN)
    ex.setc(st, p.obj, p.off, 32, Str(q)); return q
def fresh_str(ex, st, h='s'):
    o = ex.new_obj(st, 32, h); p = Ptr(o, 0); sym_str(ex, st, p, h); return p
def raw_str(ex, st, h='ret'):
    """uninitialised memory for a returned object"""
    return Ptr(ex.new_obj(st, None, h), 0)
def sym_buf(ex, st, n, h='b'):
    """byte array of n bytes (Int term)"""
    o = ex.new_obj(st, None, h); q = z3.Const(fresh_name(h), SEQ); st.assume(z3.Length(q) == n)
    st.mem[o] = {0: (None, Buf(q, n))}; return Ptr(o, 0, 0, 1, 0), q
def sym_int(ex, st, w=64, h='n', mode=None):
    if w >= 64 or mode == 'int':
        x = fresh_int(h, 0, (1 << w)-1); st.assume(range_fact(x)); return IV(w, i=x)
    return IV(w, b=z3.BitVec(fresh_name(h), w))
def sym_map(ex, st, p, name, h='m'):
    """arbitrary unordered_map/map/set whose debug-info type name is given"""
    mm = re.match(r'(?:unordered_)?(map|set)<(.*)>$', name)
    body = mm.group(2)
    sz = 56 if name.startswith('unordered') else 48
    if mm.group(1) == 'set': k, v = body, None
    else: k, v = lib.mapkinds(body)
    l = lib.mkmap(k, v, sz)
    l = l.upd(dom=z3.Const(fresh_name(h+'_dom'), l.dom.sort()), val=None if l.val is None else z3.Const(fresh_name(h+'_val'), l.val.sort()), ord=z3.Const(fresh_name(h+'_ord'), l.ord.sort()))
    st.assume(z3.Length(l.ord) <= SYMLEN)
    ex.setc(st, p.obj, p.off, sz, l)
    return l
def sym_obj(ex, st, cls, h=None, intmode=(), skip=()):
    """object of a class with arbitrary member values; the virtual table pointer is that of the exact class"""
    size = ex.di.size(cls); o = ex.new_obj(st, size, h or cls.lower()); p = Ptr(o, 0)
    for off, n, k in ex.di.fields(cls):
        if n in skip: continue
        q = Ptr(o, off)
        if k[0] == 'str': sym_str(ex, st, q, n)
        elif k[0] == 'int':
            w = k[1]
            v = sym_int(ex, st, w, n, 'int' if n in intmode else None)
            ex.setc(st, o, off, w//8, v)
            if k[2] == 'bool': st.assume(z3.ULE(v.bv(), 1))
        elif k[0] == 'vec':
            mm = re.match(r'vector<(.*)>$', k[1])
            try: ek = lib.elk(mm.group(1))
            except Unsupported: continue
            s_ = z3.Const(fresh_name(n), z3.SeqSort(ek[2])); st.assume(z3.Length(s_) <= SYMLEN)
            ex.setc(st, o, off, 24, Vec(s_, ek[0], ek[1]))
        elif k[0] in ('map', 'set'):
            try: sym_map(ex, st, q, k[1], n)
            except Unsupported: continue
        elif k[0] == 'vptr':
            vt = vtable_addr(ex, cls)
            if vt: ex.setc(st, o, off, 8, vt)
    return p
def vtable_addr(ex, cls):
    for n, d in ex.m.dem.items():
        if d == 'vtable for fr::' + cls and n in ex.m.glob_src: return Ptr(('g', n), 16)
    return None

def find_fn(mod, pat):
    """mangled name of the unique defined function whose normalised name matches"""
    hits = [(d, n) for d, ns in mod.by_norm.items() for n in ns if re.fullmatch(pat, d)]
    names = {mod.alias.get(n, n) for d, n in hits}
    if not names: raise Unsupported('no function ' + pat)
    # several emissions (C1/C2 constructors): take the complete one
    hs = sorted(n for n in names)
    for n in hs:
        if 'C2E' in n or 'D2E' in n: continue
        return n
    return hs[0]

# ------------------------------------------------------------------ contracts
class Contract:
    """pre(v, a) -> [(name, Bool)]; post(o, n, a, r, kind) -> [(name, Bool)];
    modifies(v, a) -> list of locations: pointers to leaves / ('int', ptr, bits) / ('ghost', name);
    ret: None | 'u64' | 'i32' | 'i1' | ('arg', i); kinds: outcomes the function may have."""
    def __init__(s, norm, post, pre=None, modifies=None, ret=None, kinds=('ret',), throws=(), cases=None, trusted=False, when=None):
        s.norm = norm; s.post = post; s.pre = pre; s.modifies = modifies; s.ret = ret; s.kinds = kinds; s.throws = throws; s.cases = cases; s.trusted = trusted; s.when = when
    def usable(s, ex):
        if s.trusted: return True
        return ex.cur is not s.norm and ex.cur != s.norm
    def apply(s, ex, st, args, I):
        v = View(ex, st)
        if s.pre:
            for n, b in s.pre(v, args): ex.oblige(st, b, f'precondition of {short(s.norm)}: {n}', 'precondition')
        outs = []
        old = st.copy(); ov = View(ex, old)
        kinds = [(k, None) for k in s.kinds] + [('throw', t) for t in s.throws]
        if s.ret == 'i1' and s.cases: kinds = [('ret', b) for b in (True, False)] + kinds[1:]      # one outcome per truth value
        for kind, ty in kinds:
            t = old.copy()
            fresh = []
            for loc in (s.modifies(ov, args) if s.modifies else []): forget(ex, t, loc, fresh)
            r = None
            if kind == 'ret' and s.ret is not None:
                if isinstance(s.ret, tuple): r = args[s.ret[1]]
                elif s.ret == 'i1' and s.cases: r = Bo(z3.BoolVal(ty))
                elif s.ret == 'i1': r = Bo(z3.Bool(fresh_name('r')))
                elif s.ret == 'enum':
                    x = fresh_int('r', 0, 64); t.assume(range_fact(x)); r = IV(32, i=x)
                else:
                    w = int(s.ret[1:]); r = sym_int(ex, t, w, 'r', 'int'); fresh.append((None, r.i))
            ps = s.post(ov, View(ex, t), args, r, kind if kind == 'ret' else ty)
            # defining equations: substitute instead of assuming
            subst = {}
            rest = []
            fr = {f[1].get_id(): f for f in fresh if f[1] is not None}
            for n, b in ps:
                if isinstance(b, bool): b = z3.BoolVal(b)
                for c in conjs(b):
                    if z3.is_eq(c):
                        for x, y in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                            if x.get_id() in fr and x.get_id() not in subst and not occurs(x, y): subst[x.get_id()] = (x, y); break
                        else: rest.append(c); continue
                        continue
                    rest.append(c)
            for _ in range(4):     # close the substitution
                sl = list(subst.values())
                subst = {k: (x, z3.substitute(y, *[p for p in sl if not p[0].eq(x)])) for k, (x, y) in subst.items()}
            sl = list(subst.values())
            bad = [k for k, (x, y) in subst.items() if any(occurs(p[0], y) for p in sl)]
            if bad: sl = []; rest = [b for _, b in ps]; subst = {}
            for (setter, x) in fresh:
                if x is not None and x.get_id() in subst:
                    y = subst[x.get_id()][1]
                    # what is true of every value of the location stays known of the value put in its place
                    if isinstance(y.sort(), z3.SeqSortRef): t.assume(z3.Length(y) <= MAXLEN)
                    elif y.sort() == z3.IntSort() and not z3.is_int_value(y):
                        b = z3.substitute(range_fact(x), (x, y)); t.assume(b)
                    if setter: setter(t, y)
                    elif r is not None and r.isint() and r.i.eq(x): r = IV(r.w, i=y) if not z3.is_int_value(y) else K(r.w, y.as_long())
            for b in rest: t.assume(z3.substitute(b, *sl) if sl else b)
            if ex.sat(t) == 'unsat': continue
            if kind == 'ret': outs.append((t, 'ret', r))
            else: outs.append((t, 'throw', Throw(ty)))
        return outs

def conjs(b):
    if z3.is_and(b):
        o = []
        for c in b.children(): o += conjs(c)
        return o
    return [b]
def occurs(x, e):
    st = [e]; seen = set()
    while st:
        y = st.pop()
        if y.get_id() in seen: continue
        seen.add(y.get_id())
        if y.eq(x): return True
        st += y.children()
    return False

def forget(ex, t, loc, fresh):
    if isinstance(loc, tuple) and loc[0] == 'ghost':
        g = t.gh[loc[1]]; x = z3.Const(fresh_name('g_'+str(loc[1])), g.sort())
        t.gh = dict(t.gh); t.gh[loc[1]] = x
        def setg(t2, y, k=loc[1]): t2.gh = dict(t2.gh); t2.gh[k] = y
        fresh.append((setg, x)); return
    if isinstance(loc, tuple) and loc[0] == 'int':
        p, w = loc[1], loc[2]
        x = fresh_int('m', 0, (1 << w)-1); t.assume(range_fact(x))
        ex.store(t, p, IV(w, i=x), Ty('int', w))
        def seti(t2, y, p=p, w=w): ex.store(t2, p, II(y, w), Ty('int', w))
        fresh.append((seti, x)); return
    if isinstance(loc, tuple) and loc[0] == 'bits':
        p, w = loc[1], loc[2]; x = z3.BitVec(fresh_name('m'), w)
        ex.store(t, p, IV(w, b=x), Ty('int', w))
        fresh.append((lambda t2, y, p=p, w=w: ex.store(t2, p, IB(y), Ty('int', w)), x)); return
    if isinstance(loc, tuple) and loc[0] == 'newstr':
        p = loc[1]; x = z3.Const(fresh_name('m'), SEQ)
        lib.put_str(ex, t, p, x); t.assume(z3.Length(x) <= MAXLEN)
        def setn(t2, y, p=p): lib.put_str(ex, t2, p, y)
        fresh.append((setn, x)); return
    if isinstance(loc, tuple) and loc[0] == 'newvec':
        _, p, kname = loc; ek = lib.elk(kname); x = z3.Const(fresh_name('m'), z3.SeqSort(ek[2])); t.assume(z3.Length(x) <= MAXLEN)
        ex.setc(t, p.obj, p.off, 24, Vec(x, ek[0], ek[1]))
        def setv(t2, y, p=p, ek=ek): ex.setc(t2, p.obj, p.off, 24, Vec(y, ek[0], ek[1]))
        fresh.append((setv, x)); return
    p = loc
    if p.idx is None:
        c = ex.cells(t, p.obj).get(p.off)
        if c is not None and isinstance(c[1], (IV, Bo)) : return forget(ex, t, ('int', p, c[0]*8), fresh)
    if p.idx is not None and isinstance(ex.cells(t, p.obj)[p.off][1], Vec) and isinstance(ex.leaf(t, p), Str):
        x = z3.Const(fresh_name('m'), SEQ); t.assume(z3.Length(x) <= MAXLEN); ex.set_leaf(t, p, Str(x))
        fresh.append((lambda t2, y, p=p: ex.set_leaf(t2, p, Str(y)), x)); return
    if p.idx is not None:
        # bytes of a buffer or string
        l = ex.cells(t, p.obj)[p.off][1]; q = Ptr(p.obj, p.off)
    else: l = ex.leaf(t, p); q = p
    if isinstance(l, Str):
        x = z3.Const(fresh_name('m'), SEQ); t.assume(z3.Length(x) <= MAXLEN); ex.set_leaf(t, q, Str(x))
        fresh.append((lambda t2, y, q=q: ex.set_leaf(t2, q, Str(y)), x))
    elif isinstance(l, Buf):
        x = z3.Const(fresh_name('m'), SEQ); t.assume(z3.Length(x) == l.n); c = ex.cells(t, q.obj)[q.off]
        def setb(t2, y, q=q, c0=c[0], l=l): ex.setc(t2, q.obj, q.off, c0, Buf(y, l.n, l.size))
        setb(t, x); fresh.append((setb, x))
    elif isinstance(l, Vec):
        x = z3.Const(fresh_name('m'), l.s.sort()); t.assume(z3.Length(x) <= MAXLEN); ex.set_leaf(t, q, Vec(x, l.el, l.es))
        fresh.append((lambda t2, y, q=q, l=l: ex.set_leaf(t2, q, Vec(y, l.el, l.es)), x))
    elif isinstance(l, Map):
        d = z3.Const(fresh_name('m'), l.dom.sort()); v = None if l.val is None else z3.Const(fresh_name('m'), l.val.sort()); o = z3.Const(fresh_name('m'), l.ord.sort())
        ex.set_leaf(t, q, l.upd(dom=d, val=v, ord=o, conc=None))
        def setd(t2, y, q=q): ex.set_leaf(t2, q, ex.leaf(t2, q).upd(dom=y))
        def setv(t2, y, q=q): ex.set_leaf(t2, q, ex.leaf(t2, q).upd(val=y))
        def seto(t2, y, q=q): ex.set_leaf(t2, q, ex.leaf(t2, q).upd(ord=y))
        fresh.append((setd, d)); fresh.append((seto, o))
        if v is not None: fresh.append((setv, v))
    else: raise Unsupported('modifies ' + str(loc))

def short(n): return n.split('(')[0]

# ------------------------------------------------------------------ verification of one function
class Job:
    """verify the body of `fn` (regex over normalised names) from the symbolic state built by setup(ex, st) -> args
    against post; frame: every location that existed before and is not in modifies must be unchanged"""
    def __init__(s, name, fn, setup, post, pre=None, modifies=None, kinds=('ret',), throws=(), loops=None, contracts=(), frame=True, maxpaths=None, inline=(), cover=True, secs=150, prep=None, only=None):
        s.name = name; s.fn = fn; s.setup = setup; s.post = post; s.pre = pre; s.modifies = modifies; s.kinds = kinds; s.throws = throws
        s.loops = loops or {}; s.contracts = list(contracts); s.frame = frame; s.maxpaths = maxpaths; s.secs = secs; s.cover = cover; s.prep = prep; s.only = only     # only: kinds of obligations this job decides (the others belong to another property's check)

class Result:
    def __init__(s): s.obs = []; s.error = None; s.paths = 0; s.models = {}; s.contracts = {}; s.inlined = {}; s.log = []; s.secs = 0.0; s.fn = None; s.covers = 0

def loc_keys(locs):
    ks = set()
    for l in locs:
        if isinstance(l, tuple) and l[0] == 'ghost': ks.add(('ghost', l[1])); continue
        if isinstance(l, tuple): l = l[1]
        ks.add((l.obj, l.off))
    return ks

def verify(job, ex):
    """run one job on a fresh executor; fills a Result with obligations (not yet discharged)"""
    R = Result(); t0 = time.time()
    try:
        fn = find_fn(ex.m, job.fn); R.fn = ex.m.norm[fn]
        ex.cur = R.fn
        ex.contracts = {c.norm: c for c in job.contracts}
        for k, v in job.loops.items(): ex.loopcfg[k] = v
        ex.loopcfg_default = job.loops.get('*')
        if job.maxpaths: ex.max_paths = job.maxpaths
        ex.deadline = time.time() + job.secs
        st = State()
        if job.prep: job.prep(ex, st)
        args = job.setup(ex, st)
        if job.pre:
            for n, b in job.pre(View(ex, st), args): st.assume(b)
        if ex.sat(st) == 'unsat': raise Unsupported('the precondition is contradictory')
        ex.obs = []
        old = st.copy(); ov = View(ex, old)
        sn = short(R.fn)
        ex.fnstack.append(fn)
        outs = ex.run_fn(st, fn, args)
        ex.fnstack.pop()
        R.paths = len(outs)
        mods = loc_keys(job.modifies(ov, args)) if job.modifies else set()
        n_ok = 0
        for pi, (s1, kind, v) in enumerate(outs):
            if ex.sat(s1) == 'unsat': continue
            n_ok += 1
            if kind == 'throw':
                if v.ty not in job.throws:
                    ex.obs.append(Ob(f'{sn}: no exception {v.ty} escapes', fn, list(s1.path), z3.BoolVal(False), 'exception', s1.tainted)); continue
                k = v.ty
            else: k = 'ret'
            try: ps = job.post(ov, View(ex, s1), args, v, k)
            except Unsupported as e: raise Unsupported(f'postcondition: {e}')
            for n, b in ps:
                if isinstance(b, bool): b = z3.BoolVal(b)
                ex.obs.append(Ob(f'{sn}: {n}', fn, list(s1.path), b, 'postcondition', s1.tainted))
            if job.frame:
                for key in sorted(ex.diff(old, s1), key=str):
                    if key in mods: continue
                    if key[0] == 'ghost':
                        x, y = old.gh.get(key[1]), s1.gh.get(key[1])
                        if isinstance(key[1], tuple) or x is None: continue
                        ex.obs.append(Ob(f'{sn}: ghost {key[1]} unchanged', fn, list(s1.path), x == y, 'frame', s1.tainted)); continue
                    if isinstance(key[0], tuple):
                        if key[0][1].startswith(('_ZGV', '_ZZ')): continue
                        g = ex.m.dem.get(key[0][1], key[0][1])
                        ex.obs.append(Ob(f'{sn}: global {g} unchanged', fn, list(s1.path), same_val(ex, old, s1, key), 'frame', s1.tainted)); continue
                    if str(key[0]).startswith(('snap', 't')) and key[0] not in old.mem: continue
                    ex.obs.append(Ob(f'{sn}: {key[0]}+{key[1]} unchanged', fn, list(s1.path), same_val(ex, old, s1, key), 'frame', s1.tainted))
            for g in s1.gh:
                if isinstance(g, tuple) and g[0] == 'static':
                    now = ex.cells(s1, ('g', g[1])); then = s1.gh[g]
                    ok = set(now) == set(then) and all(o == 'z' or ex.same(now[o][1], then[o][1]) for o in then)
                    if not ok: ex.obs.append(Ob(f'{sn}: function-local table {ex.m.dem.get(g[1], g[1])} keeps its initial value', fn, list(s1.path), z3.BoolVal(False), 'frame', s1.tainted))
        if n_ok == 0 and job.cover: raise Unsupported('no path reaches the end of the function')
        R.covers = n_ok
    except Unsupported as e: R.error = f'outside the verifier: {e}'
    except RecursionError: R.error = 'outside the verifier: recursion'
    except z3.Z3Exception as e: R.error = f'outside the verifier: {e}'
    except (KeyError, AttributeError, TypeError, IndexError, AssertionError, ValueError, SyntaxError) as e:
        import traceback
        R.error = 'outside the verifier: ' + type(e).__name__ + ' ' + str(e) + ' ' + traceback.format_exc()[-700:]
    if job.only: ex.obs = [o for o in ex.obs if o.kind in job.only]
    R.obs = ex.obs; R.models = ex.used_models; R.contracts = ex.used_contracts; R.inlined = ex.inlined; R.log = ex.inv_log; R.secs = time.time()-t0
    return R

def same_val(ex, a, b, key):
    x = a.mem.get(key[0], ex.base.get(key[0][1]) if isinstance(key[0], tuple) else {}).get(key[1]); y = b.mem[key[0]].get(key[1])
    if x is None: 
        return z3.BoolVal(True)      # was uninitialised
    if y is None: return z3.BoolVal(False)
    x, y = x[1], y[1]
    if isinstance(x, IV) and isinstance(y, IV):
        return x.int() == y.int() if x.isint() or y.isint() else x.bv() == y.bv()
    if isinstance(x, (Str, Buf, Vec)) and type(x) is type(y): return x.s == y.s
    if isinstance(x, Map) and isinstance(y, Map): return z3.And(x.dom == y.dom, z3.BoolVal(True) if x.val is None else x.val == y.val)
    if isinstance(x, Ptr) and isinstance(y, Ptr):
        return z3.BoolVal(ex.same(x, y))
    return z3.BoolVal(False)
