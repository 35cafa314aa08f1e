"""Loop invariants: candidates from templates over the live locals (no names used) and from the function's contract,
filtered to an inductive set (Houdini); every surviving candidate is a proved obligation."""
import z3
from .sym import *
from . import solve

class Loc:
    __slots__ = ('obj', 'off', 'kind', 'v0', 'mod', 'w', 'frame')
    def __init__(s, obj, off, kind, v0, mod, frame): s.obj = obj; s.off = off; s.kind = kind; s.v0 = v0; s.mod = mod; s.frame = frame
    def val(s, st):
        c = st.mem.get(s.obj)
        e = c.get(s.off) if c is not None else None
        return e[1] if e else None
    def int(s, st):
        v = s.val(st)
        return v.int() if isinstance(v, IV) else None
    def sint(s, st):
        v = s.val(st)
        return v.sint() if isinstance(v, IV) else None
    def bv(s, st):
        v = s.val(st)
        return v.bv() if isinstance(v, IV) else None
    def seq(s, st):
        v = s.val(st)
        return v.s if isinstance(v, (Str, Buf, Vec)) else None
    def __repr__(s): return f'{s.obj}+{s.off}:{s.kind}'

class L:
    """what the generators of candidates see"""
    def __init__(s, ex, fr, st0, mod):
        s.ex = ex; s.fr = fr; s.st0 = st0; s.mod = mod; s.locs = []
        al = set(fr['allocas'])
        for o, c in st0.mem.items():
            for off, e in c.items():
                if off == 'z': continue
                v = e[1]
                k = None
                if isinstance(v, IV): k = 'int'
                elif isinstance(v, Ptr): k = 'ptr'
                elif isinstance(v, Leaf): k = v.kind
                if k: s.locs.append(Loc(o, off, k, v, (o, off) in mod, o in al))
    def ints(s, mod=None, w=(32, 64)): return [l for l in s.locs if l.kind == 'int' and l.v0.w in w and (mod is None or l.mod == mod) and (l.frame or l.mod) and l.obj != 'errno']
    def strs(s, mod=None): return [l for l in s.locs if l.kind == 'str' and (mod is None or l.mod == mod) and not (isinstance(l.obj, tuple))]
    def bufs(s, mod=None): return [l for l in s.locs if l.kind == 'buf' and (mod is None or l.mod == mod) and not (isinstance(l.obj, tuple))]
    def vecs(s, mod=None): return [l for l in s.locs if l.kind == 'vec' and (mod is None or l.mod == mod)]
    def maps(s, mod=None): return [l for l in s.locs if l.kind == 'map' and (mod is None or l.mod == mod)]
    def ptrs(s, mod=None): return [l for l in s.locs if l.kind == 'ptr' and (mod is None or l.mod == mod)]
    def gmod(s, g): return ('ghost', g) in s.mod

def clen(ex, st, p):
    c = st.mem.get(p.obj)
    e = c.get(p.off) if c else None
    if not e: return None
    v = e[1]
    if isinstance(v, (Str, Buf, Vec)): return slen(v.s)
    if isinstance(v, Map): return slen(v.ord)
    if isinstance(v, Opq) and v.tag == 'list': return v.d['n']
    return None

def default_cands(l):
    out = []
    seqs = [x for x in l.locs if x.kind in ('str', 'vec', 'buf') and not isinstance(x.obj, tuple)]
    seqs = seqs[:14]
    ints = l.ints(mod=True)
    fixed = [x for x in l.ints(mod=False) if not x.v0.conc][:8]
    for v in ints:
        i0 = v.v0.int()
        out.append((f'{v} >= entry', lambda S, v=v, i0=i0: (lambda x: None if x is None else x >= i0)(v.int(S))))
        if not v.v0.conc: out.append((f'{v} <= entry', lambda S, v=v, i0=i0: (lambda x: None if x is None else x <= i0)(v.int(S))))
        for q in seqs:
            out.append((f'{v} <= len {q}', lambda S, v=v, q=q: (lambda x, y: None if x is None or y is None else x <= slen(y))(v.int(S), q.seq(S))))
        for n in fixed:
            if n.v0.w == v.v0.w:
                out.append((f'{v} <= {n}', lambda S, v=v, n=n: (lambda x, y: None if x is None or y is None else x <= y)(v.int(S), n.int(S))))
    for p in l.ptrs(mod=True):
        if p.v0.idx is None or isinstance(p.v0.idx, tuple): continue
        i0 = iv(p.v0.idx)
        def g(S, p=p):
            v = p.val(S)
            return None if not isinstance(v, Ptr) or v.idx is None or isinstance(v.idx, tuple) else v
        out.append((f'{p} idx >= entry', lambda S, g=g, i0=i0: (lambda v: None if v is None else iv(v.idx) >= i0)(g(S))))
        def h(S, g=g):
            v = g(S)
            if v is None: return None
            n = clen(l.ex, S, v)
            return None if n is None else iv(v.idx) <= n
        out.append((f'{p} idx <= len', h))
    return out

def default_measures(l):
    out = []
    seqs = [x for x in l.locs if x.kind in ('str', 'vec', 'buf') and not isinstance(x.obj, tuple)][:14]
    for p in l.ptrs(mod=True):
        if p.v0.idx is None or isinstance(p.v0.idx, tuple): continue
        def h(S, p=p):
            v = p.val(S)
            if not isinstance(v, Ptr) or v.idx is None: return None
            n = clen(l.ex, S, v)
            return None if n is None else n - iv(v.idx)
        out.append((f'remaining elements at {p}', h))
    for v in l.ints(mod=True):
        for q in seqs:
            out.append((f'len {q} - {v}', lambda S, v=v, q=q: (lambda x, y: None if x is None or y is None else slen(y) - x)(v.int(S), q.seq(S))))
        for n in l.ints(mod=False):
            if n.v0.w == v.v0.w: out.append((f'{n} - {v}', lambda S, v=v, n=n: (lambda x, y: None if x is None or y is None else y - x)(v.int(S), n.int(S))))
        out.append((f'{v}', lambda S, v=v: v.int(S)))
        out.append((f'signed {v}', lambda S, v=v: v.sint(S)))
    for q in [x for x in seqs if x.mod]:
        out.append((f'len {q}', lambda S, q=q: (lambda y: None if y is None else slen(y))(q.seq(S))))
    return out

def run(ex, fr, st, env, H, prev, body, cfg):
    f = fr['f']; fname = ex.m.norm[f.name]
    _, loops, idx = ex.cfg(f)
    lname = f'{fname.split("(")[0]} loop {idx[H]+1}'
    ctxs = {}
    ex.quiet += 1
    try:
        mod = set(); ref = {}
        for _ in range(10):
            hs = ex.havoc(st, mod, ref)
            base = hs.copy()
            items = ex.region(fr, [(hs, env, H, prev)], (H, body), {})
            new = set()
            for it in items:
                if it[0] != 'back': continue
                d = ex.diff(base, it[1])
                # locations changed during the body, relative to the arbitrary iteration start
                for k in d:
                    if k not in mod:
                        new.add(k)
                        if k[0] != 'ghost':
                            e = it[1].mem.get(k[0], {}).get(k[1])
                            if e: ref[k] = e[1]
            if not new: break
            mod |= new
        else: raise Unsupported('modified set of loop')
        l = L(ex, fr, st, mod)
        cands = []; setters = {}
        if cfg.get('cands'): 
            for x in cfg['cands'](l): cands.append((x[0], x[1], True)); setters.update({x[0]: x[2]} if len(x) > 2 else {})
        cands += [(n, c, False) for n, c in default_cands(l)]
        # entry
        live = []; hist = ex.hist.setdefault((fname, H), set()) if cfg.get('memo') else set()
        for n, c, own in cands:
            if n in hist: continue     # not preserved when the loop was reached on another path
            try: b = c(st)
            except Unsupported: b = None
            if b is None: continue
            ok, by = solve.prove(st.path, b, 800, (3, 8) if own else None)
            if ok: live.append((n, c, own))
            elif own: ex.inv_log.append(f'{lname}: candidate dropped at entry: {n}')
        for rnd in range(30):
            hs = ex.havoc(st, mod, ref)
            for n, c, own in live: setters.get(n, lambda S: None)(hs)
            for n, c, own in live:
                b = c(hs)
                if b is not None: hs.assume(b)
            items = ex.region(fr, [(hs.copy(), env, H, prev)], (H, body), {})
            backs = [it for it in items if it[0] == 'back']
            drop = set()
            for bi, it in enumerate(backs):
                S = it[1]
                if ex.sat(S) == 'unsat': continue
                for k, (n, c, own) in enumerate(live):
                    if k in drop: continue
                    b = c(S)
                    if b is None: drop.add(k); continue
                    ok, by = solve.prove(S.path, b, 1500, (3, 10) if own else None)
                    if not ok:
                        drop.add(k)
                        if own: ex.inv_log.append(f'{lname}: candidate not preserved: {n} ({by})')
            if not drop: break
            hist |= {live[k][0] for k in drop}
            live = [x for k, x in enumerate(live) if k not in drop]
        # measure
        meas = None
        if not cfg.get('noterm'):
            own = cfg['measures'](l) if cfg.get('measures') else []
            if all(ex.sat(it[1]) == 'unsat' for it in backs): meas = 'never repeats'
            for mi, (n, m) in enumerate([] if meas else own + default_measures(l)):
                m0 = m(hs)
                if m0 is None: continue
                good = bool(backs) or True
                for it in backs:
                    if ex.sat(it[1]) == 'unsat': continue
                    m1 = m(it[1])
                    if m1 is None: good = False; break
                    ok, by = solve.prove(it[1].path, z3.And(m1 < m0, m0 >= 0), 2500 if mi < len(own) else 800, (3, 10) if mi < len(own) else None)
                    if not ok: good = False; break
                if good: meas = n; break
    finally:
        ex.quiet -= 1
    if not ex.quiet:
        from .exec import Ob
        for n, c, own in live:
            for what in ('holds at entry', 'preserved'):
                o = Ob(f'{lname}: invariant {n} {what}', ex.fnstack[0], [], z3.BoolVal(True), 'invariant', False)
                o.status = 'proved'; o.by = 'houdini'; ex.obs.append(o)
        if not cfg.get('noterm'):
            o = Ob(f'{lname}: terminates' + (f' (measure {meas})' if meas else ''), ex.fnstack[0], [], z3.BoolVal(meas is not None), 'termination', True)
            o.status = 'proved' if meas else 'unknown'; o.by = 'houdini'; ex.obs.append(o)
    hs = ex.havoc(st, mod, ref)
    for n, c, own in live: setters.get(n, lambda S: None)(hs)
    for n, c, own in live:
        b = c(hs)
        if b is not None: hs.assume(b)
    items = ex.region(fr, [(hs, env, H, prev)], (H, body), {})
    return [it for it in items if it[0] != 'back']
