"""Discharging obligations: z3 (in process or as z3-new subprocess), then cvc5."""
import os, re, subprocess, tempfile, time, threading
import multiprocessing as mp
from multiprocessing.connection import wait as connwait
from concurrent.futures import ThreadPoolExecutor
import z3
from . import spec, absq
from .sym import *

CVC5 = '/usr/local/bin/cvc5'
def _which(n):
    for d in os.environ.get('PATH', '').split(':') + ['/usr/local/bin', '/usr/bin', '/opt/veriftools/bin']:
        p = os.path.join(d, n)
        if os.path.exists(p): return p
    return None
CVC5 = _which('cvc5'); Z3N = _which('z3-new') or _which('z3')

def range_facts(terms):
    """interval facts of the integer constants and functions occurring in terms"""
    seen = set(); out = []; stack = list(terms)
    while stack:
        x = stack.pop(); k = x.get_id()
        if k in seen or not z3.is_app(x): continue
        seen.add(k)
        d = x.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED and x.sort() == z3.IntSort():
            r = RANGE.get(d.name()) if x.num_args() == 0 else UFRANGE.get(d.name())
            if r:
                if r[0] is not None: out.append(x >= r[0])
                if r[1] is not None: out.append(x <= r[1])
        stack.extend(x.children())
    return out

def has_quant_free(ts): return True

def closure(path, goal, depth=None, extra=()):
    ts = list(path) + [goal] + list(extra)
    ins = spec.instances(ts, depth)
    rf = range_facts(ts + ins)
    return list(path) + list(extra) + ins + rf

def smt2(asserts):
    s = z3.Solver()
    for a in asserts: s.add(a)
    t = s.to_smt2()
    t = t.replace('(set-info :status unknown)', '')
    t = re.sub(r'^;.*$', '', t, flags=re.M)
    return t
def for_cvc5(t):
    t = t.replace('ubv_to_int', 'bv2nat').replace('bv2int', 'bv2nat').replace('(_ int_to_bv', '(_ int2bv')
    return '(set-logic ALL)\n' + t

def inproc(asserts, goal, ms):
    s = z3.Solver(); s.set('timeout', ms)
    for a in asserts: s.add(a)
    s.add(z3.Not(goal))
    try: r = s.check()
    except z3.Z3Exception: return 'unknown', None
    if r == z3.unsat: return 'unsat', None
    if r == z3.sat:
        return 'sat', s.model()
    return 'unknown', None

TMP = tempfile.gettempdir()
def run_solver(cmd, text, secs, ps=None):
    fd, p = tempfile.mkstemp(suffix='.smt2'); os.write(fd, text.encode()); os.close(fd)
    try:
        q = subprocess.Popen(['bash', '-c', 'ulimit -v 4000000; exec "$@"', 'x'] + cmd + [p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if ps is not None: ps.append(q)
        try: out, err = q.communicate(timeout=secs+3)
        except subprocess.TimeoutExpired: q.kill(); q.communicate(); return 'unknown', 'timeout'
        for l in out.strip().split('\n'):
            if l in ('sat', 'unsat', 'unknown'): return l, out
        return 'unknown', (out + err)[:300]
    finally: os.unlink(p)

STATS = {'z3': [0, 0.0], 'cvc5': [0, 0.0], 'simplifier': [0, 0.0]}
_lk = threading.Lock()
def _stat(k, t):
    with _lk: STATS[k][0] += 1; STATS[k][1] += t

def prove_text(t, secs=(6, 20)):
    """(verdict, backend) for the negated goal text: z3, and cvc5 if z3 does not prove it within a second"""
    t0 = time.time(); done = {}; ps = []; lk = threading.Event()
    def go(nm, cmd, text, lim):
        r, o = run_solver(cmd, text, lim, ps); done[nm] = (r, time.time()-t0); lk.set()
    a = threading.Thread(target=go, args=('z3', [Z3N, f'-T:{secs[0]}'], t, secs[0])); a.start(); a.join(1.0); ths = [a]
    if done.get('z3', ('',))[0] != 'unsat':
        c = threading.Thread(target=go, args=('cvc5', [CVC5, '--strings-exp', f'--tlimit={int(secs[1]*1000)}'], for_cvc5(t), secs[1])); c.start(); ths.append(c)
    while any(x.is_alive() for x in ths) and not any(r == 'unsat' for r, _ in done.values()): lk.wait(0.5); lk.clear()
    for p in ps:
        try: p.kill()
        except OSError: pass
    for x in ths: x.join()
    for nm in ('z3', 'cvc5'):
        if nm in done and done[nm][0] == 'unsat': _stat(nm, done[nm][1]); return 'unsat', nm
    for nm in ('z3', 'cvc5'):
        if nm in done and done[nm][0] == 'sat': return 'sat', nm
    return 'unknown', None


# ------------------------------------------------------------------ goal decomposition (sound: the parts imply the whole)
def split(path, goal):
    """[(path, goal)] whose conjunction implies path |- goal"""
    k = goal.decl().kind() if z3.is_app(goal) else None
    if k == z3.Z3_OP_AND:
        o = []
        for c in goal.children(): o += split(path, c)
        return o
    if k == z3.Z3_OP_IMPLIES:
        return split(list(path) + conj(goal.arg(0)), goal.arg(1))
    return [(path, goal)]
def conj(b):
    if z3.is_and(b):
        o = []
        for c in b.children(): o += conj(c)
        return o
    return [b]
def is_seq(e): return isinstance(e.sort(), z3.SeqSortRef)
def is_var(e): return z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED
def occurs(x, e):
    st = [e]; seen = set()
    while st:
        y = st.pop()
        if y.get_id() in seen: continue
        seen.add(y.get_id())
        if y.eq(x): return True
        st += y.children()
    return False
def hyp_subst(path):
    """variable := term substitutions from equations in the path (latest first)"""
    sub = []
    for b in path:
        for c in conj(b):
            if z3.is_eq(c):
                x, y = c.arg(0), c.arg(1)
                if is_var(y) and not is_var(x): x, y = y, x
                if is_var(x) and not occurs(x, y) and is_seq(x):
                    if not any(s[0].eq(x) for s in sub): sub.append((x, y))
                elif is_seq(x):
                    # concatenation == f(..): rewrite the single application
                    if is_rec(x) and not is_rec(y): x, y = y, x
                    if is_rec(y) and not occurs(y, x) and not any(s[0].eq(y) for s in sub): sub.append((y, x))
    return sub
def is_rec(e): return z3.is_app(e) and e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() in spec.REC
class Ent:
    """quick entailment under a path (arithmetic side conditions)"""
    def __init__(s, path):
        s.s = z3.Solver(); s.s.set('timeout', 200)
        for p in path: s.s.add(p)
        for p in range_facts(path): s.s.add(p)
        s.c = {}; s.path = list(path) + range_facts(path); s.abs = absq.Stack(150)
    def __call__(s, b):
        b = simp(b)
        if z3.is_true(b): return True
        if z3.is_false(b): return False
        k = b.get_id()
        if k in s.c: return s.c[k][1]
        v = s.abs.check(s.path, range_facts([b]) + [z3.Not(b)])
        if v == 'unsat' or (v == 'sat' and not (z3.is_eq(b) and is_seq(b.arg(0)))): s.c[k] = (b, v == 'unsat'); return v == 'unsat'
        s.s.push(); s.s.add(z3.Not(b))
        for f in range_facts([b]): s.s.add(f)
        try: r = s.s.check() == z3.unsat
        except z3.Z3Exception: r = False
        s.s.pop(); s.c[k] = (b, r); return r
class Top(list):
    """substitutions not applied below extractions"""
def norm_seq(e, sub, ent, unfold):
    """flattened components of a sequence term after substitution, if-then-else resolution and unfolding of recursive functions"""
    out = []
    for c in flatten(e):
        out += norm1(c, sub, ent, unfold)
    return merge(out, sub, ent, unfold)
def merge(out, sub, ent, unfold):
    """adjacent parts of one sequence become one part"""
    i = 0; out = list(out); fuel = 60
    while i + 1 < len(out) and fuel:
        fuel -= 1
        x, y = out[i], out[i+1]
        if x.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and y.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and x.arg(0).eq(y.arg(0)):
            q, a, n = x.children(); _, b, m = y.children()
            if ent(b == a + n) and ent(z3.And(a >= 0, n >= 0, m >= 0, a + n <= slen(q))):
                z = norm1(z3.Extract(q, a, simp(n + m)), sub, ent, unfold)
                ex = lambda e: e.arg(0) if e.decl().kind() == z3.Z3_OP_SEQ_EXTRACT else None
                if len(z) <= 1 or not any(ex(u) is not None and ex(w) is not None and ex(u).eq(ex(w)) for u, w in zip(z, z[1:])): out[i:i+2] = z; i = max(0, i - 1); continue
        i += 1
    return out
def norm1(c, sub, ent, unfold, depth=0):
    if depth > 12: return [c]
    if is_var(c):
        for x, y in sub:
            if x.eq(c): return [z for d in flatten(y) for z in norm1(d, sub, ent, unfold, depth+1)]
        return [c]
    k = c.decl().kind()
    if k == z3.Z3_OP_SEQ_CONCAT: return [z for d in flatten(c) for z in norm1(d, sub, ent, unfold, depth+1)]
    if k == z3.Z3_OP_SEQ_EMPTY: return []
    if k == z3.Z3_OP_ITE:
        if ent(c.arg(0)): return norm1(c.arg(1), sub, ent, unfold, depth+1)
        if ent(z3.Not(c.arg(0))): return norm1(c.arg(2), sub, ent, unfold, depth+1)
        return [c]
    if k == z3.Z3_OP_SEQ_EXTRACT:
        x, a, n = c.children()
        if ent(n <= 0): return []
        if is_var(x) and not isinstance(sub, Top):
            for v, y in sub:
                if v.eq(x): return norm1(z3.Extract(y, a, n), sub, ent, unfold, depth+1)
        # part of a concatenation at a known boundary
        if x.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
            y, a2, n2 = x.children()
            if ent(z3.And(a >= 0, a2 >= 0, a2 + n2 <= z3.Length(y), a + n <= n2)): return norm1(z3.Extract(y, simp(a2 + a), n), sub, ent, unfold, depth+1)
        def within(parts):
            pos = z3.IntVal(0); b = simp(a)
            for i, p in enumerate(parts):
                if ent(b == pos):
                    # take components from i while they fit
                    out = []; rem = n
                    for j in range(i, len(parts)):
                        l = slen(parts[j])
                        if ent(rem <= 0): return out
                        if ent(l <= rem): out += norm1(parts[j], sub, ent, unfold, depth+1); rem = simp(rem - l); continue
                        if ent(rem <= l): return out + norm1(z3.Extract(parts[j], z3.IntVal(0), rem), sub, ent, unfold, depth+1)
                        return None
                    return out
                pos = simp(pos + res_ite(slen(p), ent))
                if ent(b <= pos):
                    if ent(z3.And(b + n <= pos, b >= pos - res_ite(slen(p), ent))): return norm1(z3.Extract(p, simp(b - (pos - res_ite(slen(p), ent))), n), sub, ent, unfold, depth+1)
                    return None
            return None
        parts = flatten(x)
        if len(parts) > 1:
            r = within(parts)
            if r is not None and not (len(r) == 1 and r[0].decl().kind() == z3.Z3_OP_SEQ_EXTRACT): return r
            q = norm_seq(x, sub, ent, 0)
            if len(q) != len(parts) or not all(u.eq(w) for u, w in zip(q, parts)):
                r2 = within(q)
                if r2 is not None: return r2
            if r is not None: return r
        if ent(z3.And(a == 0, n >= slen(x))): return norm1(x, sub, ent, unfold, depth+1)
        return [c]
    if is_rec(c):
        for x, y in sub:
            if x.eq(c): return [z for d in flatten(y) for z in norm1(d, sub, ent, unfold, depth+1)]
    if is_rec(c) and unfold > 0:
        r = spec.REC[c.decl().name()]
        if r.body is not None:
            b = r.body(*[simp(a) if not is_seq(a) else a for a in c.children()])
            if b is not None:
                if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE:
                    t = None
                    if ent(b.arg(0)): t = b.arg(1)
                    elif ent(z3.Not(b.arg(0))): t = b.arg(2)
                    if t is None: return [c]
                    b = t
                return [z for d in flatten(b) for z in norm1(d, sub, ent, unfold-1, depth+1)]
    return [c]
def comp_eq(x, y, ent, sub):
    """sub-goals whose conjunction implies x == y for two components, or None when they are not comparable"""
    if x.eq(y): return []
    kx, ky = x.decl().kind(), y.decl().kind()
    if kx == z3.Z3_OP_SEQ_UNIT and ky == kx: return [x.arg(0) == y.arg(0)]
    if x.num_args() and x.decl().eq(y.decl()) and (kx == z3.Z3_OP_UNINTERPRETED or kx == z3.Z3_OP_SEQ_EXTRACT) and x.num_args() == y.num_args():
        return [a == b for a, b in zip(x.children(), y.children()) if not a.eq(b)]
    return None
DEBUG = False
def align(X, Y, ent, sub):
    """list of sub-goals implying equality of the concatenations, or None"""
    X = list(X); Y = list(Y); goals = []
    def same(x, y):
        g = comp_eq(x, y, ent, sub)
        if g is None: return None
        more = []
        for q in g:
            if z3.is_bv(q.arg(0)): more.append(q)
            elif is_seq(q.arg(0)):
                h = align(norm_seq(q.arg(0), sub, ent, 0), norm_seq(q.arg(1), sub, ent, 0), ent, sub)
                if h is None:
                    if not ent(q): return None
                else: more += h
            elif not ent(q): return None
        return more
    def short(l, k):
        """a short part of a sequence, element by element"""
        c = l[k]
        if c.decl().kind() != z3.Z3_OP_SEQ_EXTRACT: return False
        q, a, n = c.children(); n = simp(n)
        if not z3.is_int_value(n) or not 0 < n.as_long() <= 16 or not ent(z3.And(a >= 0, a + n <= slen(q))): return False
        u = [z3.Unit(q[simp(a + i)]) for i in range(n.as_long())]
        if k == 0: l[0:1] = u
        else: l[-1:] = u
        return True
    while X and Y:
        g = same(X[0], Y[0])
        if g is None:
            if X[0].decl().kind() == z3.Z3_OP_SEQ_UNIT and short(Y, 0) or Y[0].decl().kind() == z3.Z3_OP_SEQ_UNIT and short(X, 0): continue
            break
        goals += g; X.pop(0); Y.pop(0)
    while X and Y:
        g = same(X[-1], Y[-1])
        if g is None:
            if X[-1].decl().kind() == z3.Z3_OP_SEQ_UNIT and short(Y, -1) or Y[-1].decl().kind() == z3.Z3_OP_SEQ_UNIT and short(X, -1): continue
            break
        goals += g; X.pop(); Y.pop()
    if not X and not Y: return goals
    if not X or not Y:
        rest = X or Y
        if all(ent(slen(r) == 0) for r in rest): return goals
        return None
    return None
def nth_abstract(e):
    """replace seq.nth terms by variables (congruent for identical terms)"""
    m = {}
    st = [e]; seen = set(); found = []
    while st:
        y = st.pop()
        if y.get_id() in seen: continue
        seen.add(y.get_id())
        if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_SEQ_NTH: found.append(y); continue
        st += y.children()
    subs = []
    for y in found:
        k = (y.arg(0).get_id(), simp(y.arg(1)).sexpr())
        if k not in m: m[k] = z3.BitVec(fresh_name('nth'), y.size()) if z3.is_bv(y) else None
        if m[k] is not None: subs.append((y, m[k]))
    return z3.substitute(e, *subs) if subs else e
def bv_valid(g, ms=3000):
    g2 = nth_abstract(simp(g))
    s = z3.SolverFor('QF_BV') if False else z3.Solver(); s.set('timeout', ms); s.add(z3.Not(g2))
    try: return s.check() == z3.unsat
    except z3.Z3Exception: return False
def seq_prove(path, goal, ent=None):
    """equality of two sequences by structural matching. True or False (= not shown)"""
    x, y = goal.arg(0), goal.arg(1)
    sub = hyp_subst(path); ent = ent or Ent(path)
    for ux, uy in ((None, None), (0, 0), (0, 1), (1, 0), (1, 1), (0, 2), (2, 2)):
        sb = Top(sub) if ux is None else sub; ux, uy = ux or 0, uy or 0
        X = norm_seq(x, sb, ent, ux); Y = norm_seq(y, sb, ent, uy)
        g = align(X, Y, ent, sb)
        if DEBUG: print('ALIGN', ux, uy, X, '\n   ', Y, g)
        if g is None: continue
        if all(bv_valid(q) or bv_valid(nth_norm(q, sub, ent)) or _ground(path, q) for q in g): return True
    return False
def res_ite(e, ent):
    """conditionals decided by the path"""
    if not z3.is_app(e) or not e.num_args(): return e
    if e.decl().kind() == z3.Z3_OP_ITE:
        if ent(e.arg(0)): return res_ite(e.arg(1), ent)
        if ent(z3.Or(z3.Not(e.arg(0)), e.arg(1) == e.arg(2))): return res_ite(e.arg(2), ent)
        return e
    if e.decl().kind() not in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL): return e
    return simp(e.decl()(*[res_ite(c, ent) for c in e.children()]))
def nth_norm(e, sub, ent, depth=0):
    """elements of sequences resolved to elements of the parts the path says they consist of"""
    memo = {}
    def walk(x):
        k = x.get_id()
        if k in memo: return memo[k][1]
        if not z3.is_app(x) or not x.num_args(): r = x
        elif x.decl().kind() == z3.Z3_OP_SEQ_NTH: r = pick(x)
        else:
            nc = [walk(c) if not is_seq(c) else c for c in x.children()]
            r = x if all(a.eq(b) for a, b in zip(nc, x.children())) else x.decl()(*nc)
        memo[k] = (x, r); return r
    def pick(x):
        q, i = x.arg(0), simp(x.arg(1)); parts = norm_seq(q, sub, ent, 0)
        if len(parts) == 1 and parts[0].eq(q) and q.decl().kind() not in (z3.Z3_OP_SEQ_EXTRACT, z3.Z3_OP_SEQ_UNIT): return q[i]
        pos = z3.IntVal(0)
        for p in parts:
            l = res_ite(slen(p), ent)
            if ent(z3.And(i >= pos, i < pos + l)):
                if p.decl().kind() == z3.Z3_OP_SEQ_UNIT: return walk(p.arg(0))
                if p.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and ent(z3.And(p.arg(1) >= 0, p.arg(1) + p.arg(2) <= slen(p.arg(0)))): return walk(p.arg(0)[simp(p.arg(1) + i - pos)])
                return p[simp(i - pos)]
            pos = simp(pos + l)
        if parts and all(p.decl().kind() == z3.Z3_OP_SEQ_UNIT for p in parts) and ent(z3.And(i >= 0, i < len(parts))):
            r = walk(parts[-1].arg(0))
            for j in range(len(parts)-2, -1, -1): r = z3.If(i == j, walk(parts[j].arg(0)), r)
            return r
        return x
    try: return simp(walk(e))
    except z3.Z3Exception: return e
def _ground(path, q):
    if absq.Stack(500).check(list(path), range_facts(list(path) + [q]) + [z3.Not(q)]) == 'unsat': return True
    r, m = inproc(list(path) + range_facts(list(path) + [q]), q, 1500)
    return r == 'unsat'
def has_nth(e):
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_NTH: return True
        st += x.children()
    return False
def elements(path, g):
    """a statement about single elements"""
    sub = hyp_subst(path); ent = Ent(path)
    for sb in (Top(sub), sub):
        q = nth_norm(g, sb, ent)
        if not q.eq(g) and (bv_valid(q) or absq.Stack(500).check(list(path), range_facts(list(path) + [q]) + [z3.Not(q)]) == 'unsat'): return True
    return False
def smart(path, goal):
    """try the structural prover on every part; True when everything is shown"""
    for p, g in split(path, goal):
        g = simp(g) if not (z3.is_eq(g) and is_seq(g.arg(0))) else g
        if z3.is_true(g): continue
        if z3.is_eq(g) and is_seq(g.arg(0)):
            if seq_prove(p, g): continue
            return False
        a = closure(p, g, None)
        r, m = inproc(a, g, 800)
        if r != 'unsat': return False
    return True

ABS = absq.Stack(200)
def prove(path, goal, ms=1500, secs=(4, 10), depth=None, extra=()):
    """prove path |- goal now (used for loop invariants). returns (bool, backend)"""
    g = simp(goal)
    if z3.is_true(g): _stat('simplifier', 0); return True, 'simplifier'
    path = list(path) + list(extra)
    t0 = time.time()
    by = None
    ng = [z3.Not(goal)]
    av = ABS.check(path, ng)
    if av != 'unsat': av = ABS.check(path, ng + closure([], z3.And(z3.BoolVal(True), goal, *path[-40:]), depth))
    if av == 'sat' and secs is None: return False, 'sat'
    if av == 'unsat': _stat('z3', time.time()-t0); return True, 'z3'
    for p, gg in split(path, goal):
        if z3.is_eq(gg) and is_seq(gg.arg(0)) and seq_prove(p, gg):
            _stat('z3', time.time()-t0); continue
        gs = simp(gg)
        if z3.is_true(gs): continue
        a = closure(p, gg, depth)
        t1 = time.time()
        r = 'unknown' if z3.is_eq(gg) and is_seq(gg.arg(0)) else inproc(a, gg, ms)[0]
        if r == 'unsat': _stat('z3', time.time()-t1); by = 'z3'; continue
        if secs is None: return False, r
        if r == 'sat': return False, 'sat'
        r, b = prove_text(smt2(a + [z3.Not(gg)]), secs)
        if r != 'unsat': return False, r
        by = b
    return True, by or 'z3'

def first_pass(obs, A):
    """try every obligation in process; -> [(index, status, by, secs, texts left for the external solvers)]"""
    out = []
    for i, o in obs:
        t0 = time.time()
        g = simp(o.goal)
        if z3.is_true(g): _stat('simplifier', 0); out.append((i, 'proved', 'simplifier', 0, None)); continue
        if any(z3.is_false(p) for p in o.path): out.append((i, 'proved', 'simplifier', 0, None)); continue
        ex = list(o.hints) + [z3.Not(o.goal)]
        if A.check(o.path, ex) == 'unsat' or A.check(o.path, ex + closure([], z3.And(z3.BoolVal(True), o.goal, *o.hints), None)) == 'unsat':
            _stat('z3', time.time()-t0); out.append((i, 'proved', 'z3', time.time()-t0, None)); continue
        parts = []
        for p, gg in split(list(o.path) + list(o.hints), o.goal):
            if z3.is_eq(gg) and is_seq(gg.arg(0)) and seq_prove(p, gg): _stat('z3', time.time()-t0); continue
            a = closure(p, gg, None)
            if not (z3.is_eq(gg) and is_seq(gg.arg(0))):
                if has_nth(gg) and elements(p, gg): _stat('z3', time.time()-t0); continue
                r, m = inproc(a, gg, 400)
                if r == 'unsat': _stat('z3', time.time()-t0); continue
            parts.append(smt2(a + [z3.Not(gg)]))
        if parts: out.append((i, None, None, time.time()-t0, parts))
        else: out.append((i, 'proved', 'z3', time.time()-t0, None))
    return out

def forked(blocks, workers):
    """first_pass over the blocks in forked processes; blocks of a worker that does not answer are left to the caller"""
    ctx = mp.get_context('fork')
    nxt = ctx.Value('i', 0)
    def child(conn):
        base = {k: tuple(v) for k, v in STATS.items()}; A = absq.Stack(200)
        while True:
            with nxt.get_lock(): k = nxt.value; nxt.value += 1
            if k >= len(blocks): break
            conn.send(first_pass(blocks[k], A))
        conn.send({k: (v[0] - base[k][0], v[1] - base[k][1]) for k, v in STATS.items()}); conn.close()
    run = []
    for w in range(workers):
        a, b = ctx.Pipe(False); p = ctx.Process(target=child, args=(b,)); p.start(); b.close(); run.append((p, a))
    res = []; open_ = {a: p for p, a in run}
    while open_:
        for a in connwait(list(open_)):
            try: r = a.recv()
            except EOFError: r = {}
            if isinstance(r, list): res += r; continue
            for k, (n, t) in r.items(): STATS[k][0] += n; STATS[k][1] += t
            open_.pop(a).join()
    return res

def discharge(obs, jobs=4, secs=(6, 20), progress=None, workers=6, budget=100):
    """discharge the obligations; sets ob.status to 'proved' | 'sat' | 'unknown'"""
    todo = []; left = [(i, o) for i, o in enumerate(obs) if o.status != 'proved']; res = []
    if len(left) > 150 and workers > 1:
        res = forked([left[k:k+16] for k in range(0, len(left), 16)], workers)
        have = {r[0] for r in res}; left = [x for x in left if x[0] not in have]
    res += first_pass(left, absq.Stack(200))
    for i, st, by, t, parts in sorted(res, key=lambda r: r[0]):
        o = obs[i]; o.secs = t
        if st: o.status = st; o.by = by
        else: todo.append((o, parts))
    cache = {}; bad = []; start = time.time()
    def work(it):
        o, parts = it; t0 = time.time(); bys = set(); st = 'proved'
        if t0 - start > budget and bad: o.status = 'unknown'; return     # others are undecided already
        for t in parts:
            if t in cache: r, b = cache[t]
            else:
                r, b = prove_text(t, secs); cache[t] = (r, b)
            if r != 'unsat': st = r; bys = {b}; bad.append(o); break
            bys.add(b)
        o.secs += time.time()-t0; o.by = '+'.join(sorted(x for x in bys if x)); o.status = st
    with ThreadPoolExecutor(jobs) as p: list(p.map(work, todo))
