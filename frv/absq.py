"""Cheap sound refutation of path conditions: sequences become an uninterpreted sort, lengths and elements uninterpreted
functions with the linear facts of concatenation, extraction and literals.  'unsat' here implies unsat of the original."""
import z3
from .sym import *
from . import spec
_S = {}
def asort(s):
    if isinstance(s, z3.SeqSortRef):
        n = 'Abs_' + str(s).replace(' ', '_').replace('(', '<').replace(')', '>')
        if n not in _S: _S[n] = z3.DeclareSort(n)
        return _S[n]
    if isinstance(s, z3.ArraySortRef):
        return z3.ArraySort(asort(s.domain()), asort(s.range()))
    return s
_F = {}
def fn(name, args, ret):
    k = (name, tuple(a.name() for a in args), ret.name())
    if k not in _F: _F[k] = z3.Function(name, *args, ret)
    return _F[k]
class Abs:
    def __init__(s): s.search = {}; s.memo = {}; s.facts = {}; s.keep = []
    def len_(s, x, ax):
        return fn('alen', [ax.sort()], z3.IntSort())(ax)
    def tr(s, e, facts):
        """abstract term; appends facts about its subterms (each once per query stack)"""
        k = e.get_id(); r = s.memo.get(k)
        if r is None:
            r = s._tr(e); s.memo[k] = r; s.keep.append(e)
        facts.append(k)
        return r[0]
    def all_facts(s, e, seen, out):
        st = [e]
        while st:
            x = st.pop(); k = x.get_id()
            if k in seen: continue
            seen.add(k)
            if z3.is_app(x):
                r = s.memo.get(k)
                if r is None: s.tr(x, []); r = s.memo[k]
                out += r[1]
                if spec.is_search(x):
                    for k2 in list(seen):
                        y = s.search.get(k2)
                        if y is not None and y.arg(0).eq(x.arg(0)) and k2 != k: out += [s.tr(f, []) for f in spec.pair_facts(x, y)]
                    s.search[k] = x
                st += x.children()
    def _tr(s, e):
        if not z3.is_app(e): raise Unsupported('quantifier')
        ch = [s.tr(c, []) for c in e.children()]
        d = e.decl(); k = d.kind(); F = []; so = asort(e.sort())
        isseq = isinstance(e.sort(), z3.SeqSortRef)
        def L(x): return fn('alen', [x.sort()], z3.IntSort())(x)
        def N(x, i, el): return fn('anth', [x.sort(), z3.IntSort()], el)(x, i)
        if k == z3.Z3_OP_SEQ_LENGTH: r = L(ch[0]); F.append(r >= 0)
        elif k == z3.Z3_OP_SEQ_EMPTY: r = z3.Const('aempty', so); F.append(L(r) == 0)
        elif k == z3.Z3_OP_SEQ_UNIT:
            r = fn('aunit', [ch[0].sort()], so)(ch[0]); F += [L(r) == 1, N(r, 0, asort(e.sort().basis())) == ch[0]]
        elif k == z3.Z3_OP_SEQ_CONCAT:
            r = fn(f'acat{len(ch)}', [so]*len(ch), so)(*ch); F.append(L(r) == z3.Sum([L(c) for c in ch])); F += [L(c) >= 0 for c in ch]
        elif k == z3.Z3_OP_SEQ_EXTRACT:
            q, a, n = ch; r = fn('aext', [so, z3.IntSort(), z3.IntSort()], so)(q, a, n); l = L(q)
            F += [L(r) >= 0, l >= 0, z3.Implies(z3.And(a >= 0, n >= 0, a + n <= l), L(r) == n), z3.Implies(z3.And(a >= 0, a <= l, a + n > l, n >= 0), L(r) == l - a), z3.Implies(z3.Or(a < 0, a > l, n <= 0), L(r) == 0), z3.Implies(z3.And(a == 0, n == l), r == q)]
        elif k == z3.Z3_OP_SEQ_NTH or d.name() in ('seq.nth_i', 'seq.nth_u'):    # equal in range; only ever produced together by simplification
            r = N(ch[0], ch[1], so)
            q0 = e.arg(0)
            if q0.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
                q, a, n = [s.tr(c, []) for c in q0.children()]
                F.append(z3.Implies(z3.And(a >= 0, ch[1] >= 0, ch[1] < n, a + ch[1] < L(q)), r == N(q, a + ch[1], so)))
        elif k == z3.Z3_OP_BV2INT:
            r = fn(f'b2i{e.arg(0).size()}', [ch[0].sort()], z3.IntSort())(ch[0]); F += [r >= 0, r < (1 << e.arg(0).size())]
            if e.arg(0).decl().kind() == z3.Z3_OP_INT2BV:
                i = s.tr(e.arg(0).arg(0), []); F.append(z3.Implies(z3.And(i >= 0, i < (1 << e.arg(0).size())), r == i))
        elif k == z3.Z3_OP_INT2BV:
            w = max(64, e.size()); u = fn(f'i2b{w}', [z3.IntSort()], z3.BitVecSort(w))(ch[0]); r = u if e.size() == w else z3.Extract(e.size()-1, 0, u)
            F += [z3.Implies(z3.And(ch[0] >= 0, ch[0] < (1 << j)), z3.Extract(w-1, j, u) == 0) for j in (7, 8, 16, 32) if j < w]
            if e.arg(0).decl().kind() == z3.Z3_OP_BV2INT and e.arg(0).arg(0).size() == e.size(): F.append(r == s.tr(e.arg(0).arg(0), []))
        elif not ch: r = z3.Const(d.name(), so) if isseq or isinstance(e.sort(), z3.ArraySortRef) else e
        elif k in (z3.Z3_OP_SEQ_PREFIX, z3.Z3_OP_SEQ_SUFFIX, z3.Z3_OP_SEQ_CONTAINS):
            r = fn('ap' + str(k), [c.sort() for c in ch], z3.BoolSort())(*ch)
            small, big = (ch[1], ch[0]) if k == z3.Z3_OP_SEQ_CONTAINS else (ch[0], ch[1])
            F.append(z3.Implies(r, L(small) <= L(big)))
        elif k == z3.Z3_OP_EQ: r = ch[0] == ch[1]; F += [z3.Implies(r, L(ch[0]) == L(ch[1]))] if isinstance(e.arg(0).sort(), z3.SeqSortRef) else []
        elif k in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT) and e.arg(0).size() >= 16:
            r = d(*ch); w = e.arg(0).size(); f = fn(f'b2i{w}', [ch[0].sort()], z3.IntSort())
            x, y = [z3.IntVal(c.as_long()) if z3.is_bv_value(c) else s.tr(z3.BV2Int(c), []) for c in e.children()]
            for c, t in zip(e.children(), (x, y)):
                if not z3.is_bv_value(c): F += [t >= 0, t < (1 << w)]
            F.append(r == {z3.Z3_OP_ULEQ: x <= y, z3.Z3_OP_ULT: x < y, z3.Z3_OP_UGEQ: x >= y, z3.Z3_OP_UGT: x > y}[k])
        elif k == z3.Z3_OP_ITE: r = z3.If(*ch)
        elif k == z3.Z3_OP_DISTINCT: r = z3.Distinct(*ch)
        elif k in (z3.Z3_OP_SELECT,): r = z3.Select(*ch)
        elif k in (z3.Z3_OP_STORE,): r = z3.Store(*ch)
        elif k == z3.Z3_OP_CONST_ARRAY: r = z3.K(asort(e.sort().domain()), ch[0])
        elif isseq or any(isinstance(c.sort(), z3.SeqSortRef) for c in e.children()) or any(not a.sort().eq(b.sort()) for a, b in zip(ch, e.children())):
            r = fn('u_' + d.name(), [c.sort() for c in ch], so)(*ch)
        elif all(a.eq(b) for a, b in zip(ch, e.children())): r = e
        else: r = d(*ch)
        if isseq: F += [L(r) >= 0, z3.Implies(L(r) == 0, r == z3.Const('aempty', so))]
        if k == z3.Z3_OP_UNINTERPRETED and ch and isinstance(e.sort(), z3.SeqSortRef):
            f = LEN_OF.get(d.name())
            if f:
                try: F.append(L(r) == s.tr(z3.simplify(f(*e.children())), []))
                except Unsupported: pass
        rg = UFRANGE.get(d.name()) if k == z3.Z3_OP_UNINTERPRETED and ch else None
        if rg and e.sort() == z3.IntSort(): F += [r >= rg[0], r <= rg[1]]
        return (r, F)
class Stack(Abs):
    """incremental refutation: the path is kept asserted between queries with a common prefix"""
    def __init__(s, ms):
        Abs.__init__(s); s.ms = ms; s.reset()
    def reset(s): s.solver = z3.Solver(); s.solver.set('timeout', s.ms); s.st = []; s.n = 0; s.search = {}; s.memo = {}; s.keep = []
    def put(s, b, seen):
        if isinstance(b, bool): b = z3.BoolVal(b)
        fs = []; s.solver.add(s.tr(b, [])); s.all_facts(b, seen, fs)
        for f in fs: s.solver.add(f)
    def check(s, path, extra):
        s.n += 1
        if s.n > 250: s.reset()      # the incremental solver slows down with its history
        q = s.st; n = 0
        try:
            while n < len(q) and n < len(path) and q[n][0] is path[n]: n += 1
            if n < len(q): s.solver.pop(len(q)-n); del q[n:]
            for b in path[n:]:
                seen = set(q[-1][1]) if q else set(); s.solver.push(); q.append((b, seen)); s.put(b, seen)
            seen = set(q[-1][1]) if q else set(); s.solver.push()
            try:
                for e in extra: s.put(e, seen)
                return str(s.solver.check())
            finally: s.solver.pop()
        except (z3.Z3Exception, Unsupported): return 'unknown'
